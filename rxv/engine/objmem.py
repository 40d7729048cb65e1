"""The subjects that remember: BehaviorSubject, ReplaySubject, AsyncSubject, over the contract
of Subject (proved in objsub.py).

Other threads may act between any two critical sections: whatever is found behind a lock is any
value the others' own proved steps can leave there.  Pushes, the hand-over to a new subscriber
and what arrives through the inner subject are judged step by step, each in every state, with
lists of any length, for any number of producers and subscribers.
"""
import time
import z3
from .core import *
from . import abs as A, prims, opv
from .objv import ObjTask, eqv, Failure
from .objtab import con
from .objsc import reach_cells
from .objq import GQ
from .objsched import Round

EV = ('next', 'error', 'complete')
HUGE = 2 ** 62


class MSubj(A.Callee):
    """Subject: next/error/complete reach the observers registered at that moment"""
    cls = 'subject'

    def __init__(self, cx, orig=None):
        super().__init__(cx)
        self.orig = orig
        cx.inner.append(self)

    def ev(self, cx, what, *v):
        cx.callout('the observers')
        cx.ev.append(('inner', what, v, self))


class DObs(A.AObs):
    """the subscriber; another thread may end it whenever it is looked at"""
    env = False

    def is_open(self, cx):
        if self.env and self.open is not False and cx.path.choose(2):
            self.shut(cx, 'unsubscribe')
        return super().is_open(cx)

    def next(self, cx, x):
        cx.callout('the subscriber')
        cx.task.tried(cx, 'next', (x,))
        super().next(cx, x)

    def error(self, cx, e):
        cx.callout('the subscriber')
        cx.task.tried(cx, 'error', (e,))
        super().error(cx, e)

    def complete(self, cx):
        cx.callout('the subscriber')
        cx.task.tried(cx, 'complete', ())
        super().complete(cx)


def tyname(t):
    return t['p'].split('::')[-1] if t['k'] == 'adt' else t['k']


def material(cx, k, x):
    for n in cx.P.adts:
        if n.split('::')[-1] == 'Material':
            return Agg(n, k, [] if k == 2 else [x])
    raise Unsupported('no Material')


class MemTask(ObjTask):
    C14 = True
    CLS = '?'

    def __init__(self, P, name):
        super().__init__(P, name)
        self.strict = {'<', '<='}

    def on_post(self, *a):
        raise Unsupported('a scheduler')

    def loop_head(self, cx, key, bb, fr, visits):
        if cx.round is None or cx.round.key not in (None, (key, bb)):
            return super().loop_head(cx, key, bb, fr, visits)
        cx.round.key = (key, bb)
        cx.round.head(cx, fr)

    def contracts(self):
        c = con('Observer', 'Observable', 'FunctionWrapper')

        def d(n):
            def g(f):
                c['Subject::' + n] = f
            return g

        @d('new')
        def _(cx, a, f, t):
            return MSubj(cx)
        for e in EV:
            c['Subject::' + e] = lambda cx, a, f, t, e=e: (A.recv(cx, a[0]).ev(cx, e, *a[1:]), UNIT)[1]

        @d('observable')
        def _(cx, a, f, t):
            return A.AObsv(cx, ('inner', A.recv(cx, a[0])))

        @d('set_on_subscribe')
        def _(cx, a, f, t):
            cx.ev.append(('hook', '+', a[1], A.recv(cx, a[0])))
            return UNIT

        @d('set_on_unsubscribe')
        def _(cx, a, f, t):
            cx.ev.append(('hook', '-', a[1], A.recv(cx, a[0])))
            return UNIT

        @d('without_hooks')
        def _(cx, a, f, t):
            return MSubj(cx, A.recv(cx, a[0]))
        return c

    def on_sub(self, cx, obsv, o):
        if obsv.kind[0] != 'inner':
            raise Unsupported('another source')
        cx.callout('the inner subject')
        cx.ev.append(('register', o, obsv.kind[1]))
        cx.O.append(o)

    def tried(self, cx, what, args):
        if cx.quiet:
            return
        cx.ev.append(('D', what, args))
        self.emitted(cx, what, args)

    def emitted(self, cx, what, args):
        pass

    def on_lock(self, cx, s, mode):
        if cx.on:
            self.locked(cx, s, mode)

    def on_unlock(self, cx, s, mode):
        if cx.on:
            self.unlocked(cx, s, mode)

    def start(self, path, what):
        cx = self.context(path)
        cx.inner, cx.O, cx.round, cx.on, cx.quiet, cx.D = [], [], None, False, False, None
        cx.evname = what
        cx.contracts = self.contracts()
        return cx

    def call(self, cx, m, *a):
        return cx.call_fn(cx.P.method('%s::%s' % (self.CLS, m)), [Ref(Slot(cx.s))] + list(a))

    def push(self, cx, m):
        """-> what is pushed"""
        x = cx.path.fresh({'next': 'x', 'error': 'e', 'complete': 'c'}[m])
        self.call(cx, m, *([x] if m != 'complete' else []))
        self.quiet_end(cx)
        return x

    def payload(self, m, x):
        return () if m == 'complete' else (x,)

    def subscribe(self, cx):
        """D subscribes; the cells made for it -> cx.own"""
        def cb(n):
            return PyFn('D.' + n, lambda cx, *a: UNIT)
        cx.D = DObs(cx, cb('next'), cb('error'), cb('complete'))
        o = cx.deref(self.call(cx, 'observable'))
        if not isinstance(o, A.AObsv):
            raise Unsupported('observable() is %r' % (o,))
        n = len(cx.cells)
        cx.epoch = 1
        cx.n0 = n
        o.subscribe(cx, cx.D)
        self.quiet_end(cx)

    def after(self, cx):
        """once the subscriber is gone"""
        for o in cx.O:
            cx.oblige(not o.open, 'upstream', 'the subscriber is gone and still registered')
        cx.oblige(cx.D.teardown is None, 'leak', 'the teardown is kept after the end')
        c = A.ownership_cycle(cx)
        cx.oblige(c is None, 'leak', 'reference cycle after the end: %s' % c)

    def leave(self, cx):
        cx.on, cx.quiet = False, True
        if cx.D.open:
            cx.D.env = False
            cx.D.unsubscribe(cx)
        self.after(cx)

    def parts(self):
        return {}

    def run(self):
        t0 = time.time()
        ps = self.parts()
        self.want = set(ps) | self.extra
        for n, f in ps.items():
            def body(path, n=n, f=f):
                cx = self.start(path, n)
                try:
                    f(cx)
                    self.reach.add(n)
                except Panic as e:
                    cx.fail('panic', 'panics: %s' % e)
                finally:
                    self.fns |= cx.seen
            self.explore(body)
        self.wall = time.time() - t0
        return self

    extra = set()


# ------------------------------------------------------------ BehaviorSubject
def split(v):
    """(number, material) out of a tuple in whatever order"""
    if isinstance(v, Agg) and v.k == 'tuple' and len(v.f) == 2:
        l = [x for x in v.f if isinstance(x, Agg) and x.k.split('::')[-1] == 'Material']
        n = [x for x in v.f if is_scalar(x)]
        if len(l) == 1 and len(n) == 1:
            return n[0], l[0]
    raise Unsupported('state of another form: %r' % (v,))


class Behavior(MemTask):
    CLS = 'BehaviorSubject'
    extra = {'round', 'drained'}

    def world(self, cx):
        cx.init = cx.path.fresh('init')
        cx.s = cx.call_fn(cx.P.method('BehaviorSubject::new'), [cx.init])
        cells = []
        reach_cells(cx, cx.s, cells)
        if len(cells) != 1 or len(cx.inner) != 1:
            raise Unsupported('BehaviorSubject: state of another form')
        cx.mem = cells[0]
        cx.mem.name = 'current'
        n, m = split(cx.mem.v)
        cx.num_at = [i for i, x in enumerate(cx.mem.v.f) if x is n][0]
        cx.oblige(m.var == 0 and eqv(cx, m.f[0], cx.init), 'events', 'a new subject does not hold the value it is made with')
        cx.W = cx.H = None
        cx.known = None         # the last value of `current` seen: (number, material)
        cx.ev = []

    def pair(self, cx, n, m):
        return Agg('tuple', 0, [n, m] if cx.num_at == 0 else [m, n])

    def any_material(self, cx, k=None):
        k = cx.path.choose(3) if k is None else k
        return material(cx, k, cx.path.fresh('v'))

    def havoc(self, cx):
        """current may have moved: the number grows, a terminal stays"""
        p = cx.path
        if cx.known is None:
            n = p.fresh('n', 'nat')
            p.add(n < HUGE)
            cx.mem.v = self.pair(cx, n, self.any_material(cx))
        elif cx.known[1].var == 0 and p.choose(2):
            n = p.fresh('n', 'nat')
            p.add(z3.And(n > zint(cx.known[0]), n < HUGE))
            cx.mem.v = self.pair(cx, n, self.any_material(cx))

    def locked(self, cx, s, mode):
        if s is cx.mem:
            self.havoc(cx)
            cx.pre = split(cx.mem.v)
            cx.ev.append(('look',))
        elif s is cx.W:
            self.havoc_w(cx)
        elif s is cx.H:
            cx.pre_h = s.v
            self.havoc_h(cx)

    def unlocked(self, cx, s, mode):
        if s is cx.mem:
            post = split(cx.mem.v)
            same = opv.same(cx.pre[0], post[0]) and opv.same(cx.pre[1], post[1])
            cx.ev.append(('mem', cx.pre, None if same else post))
            cx.known = post
        elif s is cx.W:
            self.released_w(cx)
        elif s is cx.H:
            self.released_h(cx)
        elif s in cx.cells[cx.n0:] if cx.D is not None else False:
            raise Unsupported('BehaviorSubject: a cell of another kind')

    # ---- pushing
    def pushing(self, m):
        def f(cx):
            self.world(cx)
            cx.on = True
            x = self.push(cx, m)
            looks = [e for e in cx.ev if e[0] == 'mem']
            inner = [e for e in cx.ev if e[0] == 'inner']
            ch = [e for e in looks if e[2] is not None]
            cx.oblige(not [e for e in cx.ev if e[0] in ('register', 'hook')], 'events', '%s does something else' % m)
            cx.oblige(len(ch) <= 1, 'race', '%s changes the current value in %d steps' % (m, len(ch)))
            if not looks:
                cx.fail('events', '%s is not remembered' % m)
            if not ch:
                cx.oblige(looks[-1][1][1].var != 0, 'events', '%s of a living subject is not remembered' % m)
                cx.oblige(not inner, 'events', '%s after the terminal reaches the observers' % m)
                return
            pre, post = ch[0][1], ch[0][2]
            cx.oblige(pre[1].var == 0, 'events', '%s replaces the stored terminal' % m)
            cx.oblige(post[1].var == EV.index(m) and (m == 'complete' or eqv(cx, post[1].f[0], x)), 'events', '%s stores something else' % m)
            cx.oblige(zint(post[0]) > zint(pre[0]), 'race', '%s: the new value has no new number' % m)
            cx.oblige([e[1] for e in inner] == [m], 'events', '%s: the observers are given %s' % (m, [e[1] for e in inner]))
            cx.oblige(cx.ev.index(inner[0]) > cx.ev.index(ch[0]), 'race', '%s: delivered before it is remembered: a subscriber in between misses it' % m)
            if m == 'next':
                v = inner[0][2][0]
                if not (isinstance(v, Agg) and v.k == 'tuple' and len(v.f) == 2):
                    raise Unsupported('what is handed to the inner subject')
                cx.oblige(eqv(cx, v.f[cx.num_at], post[0]) if is_scalar(v.f[cx.num_at]) else False, 'race', 'next: delivered with another number')
                cx.oblige(eqv(cx, v.f[1 - cx.num_at], x), 'events', 'next: another value is delivered')
            elif m == 'error':
                cx.oblige(eqv(cx, inner[0][2][0], x), 'events', 'error: another error is delivered')
        return f

    # ---- the hand-over
    def cells_of_sub(self, cx):
        own = cx.cells[cx.n0:]
        W = [c for c in own if isinstance(c.v, Agg) and c.v.k == OPT or isinstance(c.v, SymOpt)]
        H = [c for c in own if is_scalar(c.v) and not isinstance(c.v, bool)]
        if len(W) != 1 or len(H) != 1 or len(own) != 2:
            raise Unsupported('BehaviorSubject: hand-over state of another form')
        return W[0], H[0]

    def gq(self, cx):
        def mk():
            n = cx.path.fresh('wn', 'nat')
            return self.pair_w(cx, n, self.any_material(cx))
        return GQ(cx, cx.path.fresh('w', 'nat'), mk)

    def pair_w(self, cx, n, m):
        return Agg('tuple', 0, [n, m])

    def on_sub(self, cx, obsv, o):
        super().on_sub(cx, obsv, o)
        cx.W, cx.H = self.cells_of_sub(cx)
        cx.W.name, cx.H.name = 'waiting', 'handed'
        v = cx.W.v
        cx.oblige(isinstance(v, Agg) and v.var == 1 and isinstance(v.f[0], ListV) and not v.f[0].items, 'race',
                  'nothing is kept of what arrives during the hand-over')
        cx.oblige(not [e for e in cx.ev if e[0] == 'mem'], 'race', 'the current value is read before the subscriber is registered: later values are missed')
        cx.open_w = True
        cx.handed = None        # the number handed over, once it is written
        cx.phase = 'reg'
        cx.first = None
        # what has been taken out of the list and must be delivered now
        cx.due = None

    def havoc_w(self, cx):
        if cx.open_w:
            cx.W.v = some(self.gq(cx))
        cx.pre_w = cx.W.v
        cx.len_w = cx.W.v.f[0].length(cx) if cx.open_w else None
        cx.ev.append(('W',))

    def released_w(self, cx):
        v, pre = cx.W.v, cx.pre_w
        if isinstance(v, SymOpt):
            raise Unsupported('waiting')
        if pre.var == 0:
            cx.oblige(v.var == 0, 'race', 'the list of waiting events is opened again')
            return
        log = pre.f[0].log
        if cx.arriving:
            cx.oblige(v.var == 1 and v.f[0] is pre.f[0], 'race', 'an arriving event ends the hand-over')
            cx.wlog.extend(log)
            return
        cx.oblige(cx.due is None, 'race', 'another event is taken before the last one is delivered')
        if v.var == 0:
            cx.oblige(not log and cx.path.implied(zint(cx.len_w) == 0), 'race', 'the hand-over ends with events still waiting: they are lost')
            cx.oblige(cx.handed is not None, 'race', 'the hand-over ends before the number handed over is stored')
            cx.oblige(cx.phase != 'reg', 'events', 'the hand-over ends before the current value is handed over')
            cx.open_w = False
            self.reach.add('drained')
            return
        if v.f[0] is not pre.f[0]:
            raise Unsupported('the list of waiting events is replaced')
        cx.oblige(len(log) <= 1 and all(e[0] == 'pop' for e in log), 'race', 'the list of waiting events is changed by %s' % [e[0] for e in log])
        if log:
            cx.oblige(cx.phase != 'reg', 'events', 'a waiting event is taken before the current value is handed over')
            cx.due = log[0][1]
        cx.progress = True

    def havoc_h(self, cx):
        pass

    def released_h(self, cx):
        if opv.same(cx.pre_h, cx.H.v):
            return
        cx.oblige(not cx.arriving, 'race', 'an arriving event changes the number handed over')
        cx.oblige(cx.open_w, 'race', 'the number handed over changes after the hand-over')
        cx.handed = cx.H.v

    def emitted(self, cx, what, args):
        if cx.arriving:
            return
        mat = (what,) + args
        if cx.phase == 'reg':
            looks = [e for e in cx.ev if e[0] == 'mem']
            cx.oblige(bool(looks), 'events', 'something else than the current value is handed over')
            for e in looks:
                if len(looks) == 1 or self.is_mat(cx, e[1][1], what, args) is True:
                    break
            cx.first = e[1]
            cx.oblige(self.is_mat(cx, e[1][1], what, args), 'events', 'the hand-over delivers something else than the current value')
            cx.phase = 'handed'
            return
        if cx.due is None:
            cx.fail('events', '%s is delivered twice or out of nothing' % what)
        n, m = split(cx.due)
        cx.due = None
        cx.oblige(self.is_mat(cx, m, what, args), 'events', 'a waiting event is delivered as something else')
        cx.oblige(zint(n) > zint(cx.first[0]), 'race', 'a waiting event that the hand-over already covered is delivered again')

    def is_mat(self, cx, m, what, args):
        return m.var == EV.index(what) and (m.var == 2 or eqv(cx, m.f[0], args[0]))

    def settle(self, cx):
        """what was taken out and not delivered must have been covered by the hand-over"""
        if cx.due is not None:
            n, m = split(cx.due)
            cx.due = None
            if cx.D.open is False:
                return
            cx.oblige(zint(n) <= zint(cx.first[0]), 'race', 'a waiting event is dropped')

    def begin(self, cx, r):
        cx.progress = False

    def end(self, cx, r):
        self.settle(cx)
        cx.oblige(cx.progress, 'spin', 'a round of the hand-over does nothing')

    def handover(self, cx):
        self.world(cx)
        cx.on = True
        cx.arriving = False
        cx.first = None
        cx.round = Round(self, lambda cx, r: self.begin(cx, r), lambda cx, r: self.end(cx, r))
        self.subscribe(cx)
        regs = [e for e in cx.ev if e[0] == 'register']
        cx.oblige(len(regs) == 1 and regs[0][2] is cx.inner[0], 'events', 'the subscriber is registered %d times' % len(regs))
        cx.oblige(cx.phase == 'handed', 'events', 'nothing is handed over')
        self.settle(cx)
        cx.oblige(not cx.open_w or not cx.D.open, 'race', 'the hand-over does not end: what arrives later is kept for ever')
        if cx.handed is not None:
            cx.oblige(zint(cx.handed) == zint(cx.first[0]), 'race', 'another number than that of the value handed over is stored')
        cx.oblige(not [e for e in cx.ev if e[0] in ('inner', 'hook')] and not [e for e in cx.ev if e[0] == 'mem' and e[2] is not None], 'events', 'subscribing changes the subject')
        if cx.first[1].var == 0 and cx.phase == 'handed' and not cx.D.term:
            cx.oblige(bool(cx.D.open), 'events', 'the subscriber is dropped')
        self.leave(cx)

    # ---- what arrives
    def arrival(self, k):
        def f(cx):
            self.world(cx)
            cx.arriving = False
            cx.quiet = True
            self.subscribe(cx)
            if len(cx.O) != 1:
                raise Unsupported('no inner observer')
            cx.quiet = False
            cx.ev = []
            cx.arriving, cx.wlog = True, []
            p = cx.path
            H = p.fresh('handed', 'nat')
            p.add(H < HUGE)
            hidden = p.fresh('stale', 'nat')
            cx.open_w = bool(p.choose(2))
            cx.W.v = NONE if not cx.open_w else some(self.gq(cx))
            seen = [False]

            def havoc_w(cx):
                # the hand-over may end at any moment
                if cx.open_w and cx.path.choose(2):
                    cx.open_w = False
                    cx.W.v = NONE
                if cx.open_w:
                    cx.W.v = some(self.gq(cx))
                else:
                    seen[0] = True
                cx.pre_w = cx.W.v

            def havoc_h(cx):
                cx.H.v = H if seen[0] else hidden
                cx.pre_h = cx.H.v
            self.havoc_w, self.havoc_h = havoc_w, havoc_h
            try:
                cx.on = True
                o = cx.O[0]
                n, x = p.fresh('n', 'nat'), p.fresh('x')
                p.add(n < HUGE)
                if k == 'next':
                    o.next(cx, Agg('tuple', 0, [n, x] if cx.num_at == 0 else [x, n]))
                elif k == 'error':
                    o.error(cx, x)
                else:
                    o.complete(cx)
                cx.on = False
            finally:
                del self.havoc_w, self.havoc_h
            self.quiet_end(cx)
            tries = [e for e in cx.ev if e[0] == 'D']
            want = (k,) + self.payload(k, x)
            pushes = [e for e in cx.wlog if e[0] == 'push']
            cx.oblige(len(pushes) == len(cx.wlog), 'race', 'an arriving event changes the waiting list: %s' % [e[0] for e in cx.wlog])
            cx.oblige(len(pushes) + len(tries) <= 1, 'race', 'an arriving event is delivered and kept')
            if pushes:
                nn, m = split(pushes[0][1])
                cx.oblige(self.is_mat(cx, m, k, self.payload(k, x)), 'events', 'another event is kept')
                cx.oblige(zint(nn) == n if k == 'next' else zint(nn) >= HUGE, 'race', 'an event is kept with another number')
                return
            new = n > H if k == 'next' else True
            if tries:
                cx.oblige(seen[0], 'race', 'an arriving event is delivered during the hand-over')
                cx.oblige(tries[0][1] == k and (k == 'complete' or eqv(cx, tries[0][2][0], x)), 'events', 'another event is delivered')
                cx.oblige(new, 'race', 'a value the hand-over covered is delivered again')
            else:
                cx.oblige(znot(new) if is_z3(new) else False, 'race', 'an arriving event is lost')
            if k != 'next' or not cx.D.open:
                self.leave(cx)
        return f

    def drop(self, cx):
        """the subscriber leaves during the hand-over"""
        self.world(cx)
        cx.on = True
        cx.arriving = False
        cx.round = Round(self, lambda cx, r: self.begin(cx, r), lambda cx, r: setattr(cx, 'due', None))

        def emitted(cx, what, args):
            cx.D.env, cx.due, cx.phase = True, None, 'handed'
            cx.first = cx.known
        self.emitted = emitted
        try:
            self.subscribe(cx)
        finally:
            del self.emitted
        self.leave(cx)

    def parts(self):
        r = {m: self.pushing(m) for m in EV}
        r['subscribe'] = self.handover
        r.update({'arriving ' + k: self.arrival(k) for k in EV})
        r['leaving'] = self.drop
        return r


# ------------------------------------------------------------ ReplaySubject
class GHist(Abs):
    """everything pushed so far: n events nobody knows (items, the last one maybe a terminal),
    then what is appended here"""
    def __init__(self, t, n, term, elem):
        self.t, self.n, self.term, self.elem = t, n, term, elem
        self.app = ()

    def length(self):
        return zint(self.n) + len(self.app)

    def at(self, cx, i):
        for k, x in enumerate(self.app):
            if cx.path.br(zint(i) == zint(self.n) + k):
                return x
        if self.term and cx.path.br(zint(i) == zint(self.n) - 1):
            return material(cx, self.term, self.elem(z3.IntVal(-1)))
        return material(cx, 0, self.elem(zint(i)))

    def m_len(self, cx, a, f):
        return self.length()

    def m_is_empty(self, cx, a, f):
        return self.length() == 0

    def m_push(self, cx, a, f):
        if not any(s.v is self for s, m in cx.held):
            raise Unsupported('history changed without its lock')
        self.app += (a[1],)
        return UNIT

    def m_clear(self, cx, a, f):
        cx.fail('events', 'the history is thrown away')
    m_pop = m_truncate = m_remove = m_drain = m_clear

    def m_last(self, cx, a, f):
        if not cx.path.br(self.length() > 0):
            return NONE
        return some(Ref(Slot(self.at(cx, self.length() - 1))))

    def m_get(self, cx, a, f):
        i = a[1]
        if not is_scalar(i):
            raise Unsupported('get of a range')
        if not cx.path.br(zint(i) < self.length()):
            self.t.beyond(cx, self, i)
            return NONE
        return some(Ref(Slot(self.at(cx, i))))

    def m_index(self, cx, a, f):
        i = a[1]
        if not is_scalar(i):
            raise Unsupported('index by a range')
        if not cx.path.br(zint(i) < self.length()):
            raise Panic('index out of bounds')
        return Ref(Slot(self.at(cx, i)))

    def m_deref(self, cx, a, f):
        return a[0]
    m_deref_mut = m_deref

    def __repr__(self):
        return 'history'


class Replay(MemTask):
    CLS = 'ReplaySubject'
    extra = {'round', 'taken', 'released'}

    def world(self, cx):
        cx.s = cx.call_fn(cx.P.method('ReplaySubject::new'), [])
        cells = []
        reach_cells(cx, cx.s, cells)
        cells = [c for c in cells]
        if len(cells) != 1 or len(cx.inner) != 1 or not isinstance(cells[0].v, (ListV, SeqV)):
            raise Unsupported('ReplaySubject: state of another form')
        cx.mem = cells[0]
        cx.mem.name = 'history'
        cx.oblige(not isinstance(cx.mem.v, ListV) or not cx.mem.v.items, 'events', 'a new subject has a history')
        f = z3.Function('pushed', z3.IntSort(), z3.IntSort())
        cx.elem = lambda i: f(i)
        cx.known = (z3.IntVal(0), 0)
        cx.C = None
        cx.conc = True
        self.fresh_history(cx)
        cx.ev = []

    def fresh_history(self, cx):
        """the history may have grown; what is in it stays, a terminal is its last event"""
        p = cx.path
        n0, term = cx.known
        if not term and p.choose(2):
            n = p.fresh('h', 'nat')
            p.add(z3.And(n > zint(n0), n < HUGE))
            term = p.choose(3)
            n0 = n
        cx.known = (n0, term)
        cx.mem.v = GHist(self, n0, term, cx.elem)

    def locked(self, cx, s, mode):
        if s is cx.mem:
            if cx.conc:
                self.fresh_history(cx)
            cx.pre = cx.mem.v
            cx.mem.v.app = ()
        elif s is cx.C:
            self.havoc_c(cx)

    def unlocked(self, cx, s, mode):
        if s is cx.mem:
            h = cx.mem.v
            if h is not cx.pre:
                raise Unsupported('the history is replaced')
            cx.ev.append(('mem', cx.known, h.app))
            if h.app:
                cx.known = (h.length(), h.app[-1].var)
                cx.mem.v = GHist(self, cx.known[0], cx.known[1], cx.elem)
        elif s is cx.C:
            self.released_c(cx)

    def beyond(self, cx, h, i):
        cx.looked = (h.length(), [s for s, m in cx.held])

    # ---- pushing
    def pushing(self, m):
        def f(cx):
            self.world(cx)
            cx.on = True
            x = self.push(cx, m)
            looks = [e for e in cx.ev if e[0] == 'mem']
            inner = [e for e in cx.ev if e[0] == 'inner']
            ch = [e for e in looks if e[2]]
            cx.oblige(not [e for e in cx.ev if e[0] in ('register', 'hook')], 'events', '%s does something else' % m)
            cx.oblige(len(ch) <= 1, 'events', '%s is remembered %d times' % (m, len(ch)))
            if not looks:
                cx.fail('events', '%s is not remembered' % m)
            if not ch:
                cx.oblige(looks[-1][1][1] != 0, 'events', '%s of a living subject is not remembered' % m)
                cx.oblige(not inner, 'events', '%s after the terminal reaches the observers' % m)
                return
            app = ch[0][2]
            cx.oblige(ch[0][1][1] == 0, 'race', '%s is appended after the terminal' % m)
            cx.oblige(len(app) == 1 and app[0].var == EV.index(m) and (m == 'complete' or eqv(cx, app[0].f[0], x)), 'events', '%s: something else is remembered' % m)
            cx.oblige([e[1] for e in inner] == [m], 'events', '%s: the observers are given %s' % (m, [e[1] for e in inner]))
            cx.oblige(cx.ev.index(inner[0]) > cx.ev.index(ch[0]), 'race', '%s: told before it is remembered' % m)
            if m != 'complete':
                cx.oblige(eqv(cx, inner[0][2][0], x), 'events', '%s: another value is delivered' % m)
        return f

    # ---- the cursor: (position, somebody delivers)
    def cursor_of_sub(self, cx):
        own = cx.cells[cx.n0:]
        if len(own) != 1 or not isinstance(own[0].v, Agg) or own[0].v.k in (OPT, RES):
            raise Unsupported('ReplaySubject: delivery state of another form')
        i = [k for k, x in enumerate(own[0].v.f) if isinstance(x, bool)]
        n = [k for k, x in enumerate(own[0].v.f) if is_scalar(x) and not isinstance(x, bool)]
        if len(i) != 1 or len(n) != 1 or len(own[0].v.f) != 2:
            raise Unsupported('ReplaySubject: delivery state of another form')
        cx.oblige(own[0].v.f[i[0]] is False and own[0].v.f[n[0]] == 0, 'events', 'delivery does not begin at the first event')
        cx.fpos, cx.npos, cx.ckind = i[0], n[0], own[0].v.k
        return own[0]

    def cur(self, cx, c, flag):
        return Agg(cx.ckind, 0, [c, flag] if cx.npos == 0 else [flag, c])

    def begin_sub(self, cx):
        cx.own = False          # this thread delivers
        cx.due = None           # taken, to be delivered next
        cx.tried_own = 0
        cx.looked = None
        cx.shared = False       # others can reach the cursor
        cx.registered = False

    def on_sub(self, cx, obsv, o):
        super().on_sub(cx, obsv, o)
        cx.shared = cx.registered = True
        cx.tried_own = 0
        cx.oblige(cx.due is None, 'events', 'an event taken is not delivered')
        cx.oblige(not cx.own, 'race', 'the subscriber is registered while somebody still seems to deliver')

    def havoc_c(self, cx):
        p = cx.path
        if cx.C is not None and cx.shared and not cx.own:
            c = p.fresh('c', 'nat')
            p.add(c <= zint(cx.known[0]))
            cx.C.v = self.cur(cx, c, bool(p.choose(2)))
        cx.pre_c = cx.C.v
        cx.looked = None

    def released_c(self, cx):
        a, b = cx.pre_c, cx.C.v
        c0, f0, c1, f1 = a.f[cx.npos], a.f[cx.fpos], b.f[cx.npos], b.f[cx.fpos]
        if is_z3(f1) or is_z3(f0):
            raise Unsupported('cursor')
        moved = not opv.same(c0, c1) and not cx.path.implied(zint(c0) == zint(c1))
        cx.oblige(cx.due is None or not moved, 'events', 'another event is taken before the last one is delivered')
        if not cx.own:
            cx.tried_own += 1
            if f0:
                cx.oblige(f1 is True and not moved, 'race', 'the delivery of another thread is disturbed')
                return
            if not f1:
                # not taken: only if there is nothing to deliver
                cx.oblige(not moved, 'race', 'events are skipped')
                cx.oblige(self.exhausted(cx, c0), 'race', 'nobody delivers what is there')
                return
            cx.own = True
            self.reach.add('taken')
        elif not f1:
            cx.oblige(not moved, 'race', 'events are skipped')
            cx.oblige(self.exhausted(cx, c0), 'race', 'the delivery ends without having seen, in that step, that nothing is left: what came meanwhile stays undelivered')
            cx.own = False
            self.reach.add('released')
            return
        if moved:
            cx.oblige(zint(c1) == zint(c0) + 1, 'events', 'events are skipped')
            cx.due = c0
            cx.progress = True

    def exhausted(self, cx, c):
        """the history was looked at inside this very step, with the cursor locked"""
        return cx.looked is not None and any(s is cx.C for s in cx.looked[1] + [cx.C]) and cx.path.implied(zint(c) >= zint(cx.looked[0]))

    def emitted(self, cx, what, args):
        cx.oblige(cx.own, 'race', 'an event is delivered while another thread may deliver: order or number is lost')
        if cx.due is None:
            cx.fail('events', '%s is delivered out of nothing' % what)
        i, cx.due = cx.due, None
        h = cx.mem.v
        m = h.at(cx, i)
        if cx.path.br(zint(i) < h.length()) is False:
            cx.fail('events', 'an event that does not exist is delivered')
        cx.oblige(m.var == EV.index(what) and (m.var == 2 or eqv(cx, m.f[0], args[0])), 'events', 'another event than the next of the history is delivered')

    def begin(self, cx, r):
        cx.progress = False
        cx.own_head = cx.own
        if cx.C is not None and cx.own and zint(r).eq(z3.IntVal(0)) is False:
            c = cx.path.fresh('c', 'nat')
            cx.path.add(c <= zint(cx.known[0]))
            cx.C.v = self.cur(cx, c, True)

    def end(self, cx, r):
        cx.oblige(cx.due is None or not cx.D.open, 'events', 'an event taken is not delivered')
        cx.due = None
        if cx.own != cx.own_head:
            raise Unsupported('ReplaySubject: delivery of another form')
        cx.oblige(cx.progress, 'spin', 'a round of the delivery does nothing')

    def done(self, cx, what):
        cx.oblige(cx.due is None or not cx.D.open, 'events', '%s: an event taken is not delivered' % what)
        cx.oblige(not cx.own or not cx.D.open, 'race', '%s: nobody can deliver any more' % what)
        cx.oblige(cx.tried_own > 0 or not cx.D.open, 'events', '%s: nobody looks for what is to be delivered' % what)
        cx.oblige(not [e for e in cx.ev if e[0] in ('inner', 'hook')] and not [e for e in cx.ev if e[0] == 'mem' and e[2]], 'events', '%s changes the subject' % what)

    def rounds(self, cx):
        # one generalised loop per play
        cx.round = Round(self, lambda cx, r: self.begin(cx, r), lambda cx, r: self.end(cx, r))

    def loop_head(self, cx, key, bb, fr, visits):
        # every run of the delivery is generalised on its own
        if visits.get(bb, 0) == 0:
            self.rounds(cx)
        visits[bb] = visits.get(bb, 0) + 1
        if visits[bb] > 6:
            raise Unsupported('loop in ' + key)
        if cx.round.key not in (None, (key, bb)):
            raise Unsupported('nested loops')
        cx.round.key = (key, bb)
        cx.round.head(cx, fr)

    def call_slot(self, cx):
        pass

    def subscribe(self, cx):
        self.begin_sub(cx)
        super().subscribe(cx)

    def on_lock(self, cx, s, mode):
        if cx.on and s is not cx.mem and cx.C is None and cx.D is not None and s in cx.cells[cx.n0:]:
            cx.C = self.cursor_of_sub(cx)
            cx.C.name = 'cursor'
        super().on_lock(cx, s, mode)

    def handover(self, cx):
        self.world(cx)
        cx.on = True
        self.subscribe(cx)
        regs = [e for e in cx.ev if e[0] == 'register']
        if cx.D.open:
            cx.oblige(len(regs) == 1 and regs[0][2] is cx.inner[0], 'events', 'the subscriber is registered %d times' % len(regs))
        cx.oblige(len(regs) <= 1, 'events', 'registered more than once')
        self.done(cx, 'subscribe')
        self.leave(cx)

    def leaving(self, cx):
        self.world(cx)
        cx.on = True
        cx.armed = True
        self.emitted = lambda cx, what, args: (setattr(cx.D, 'env', True), setattr(cx, 'due', None))
        try:
            self.subscribe(cx)
        finally:
            del self.emitted
        self.leave(cx)

    # ---- what arrives
    def arrival(self, k):
        def f(cx):
            self.world(cx)
            # a subscription in any state
            cx.mem.v = GHist(self, z3.IntVal(0), 0, cx.elem)
            cx.known = (z3.IntVal(0), 0)
            cx.conc, cx.on = False, True
            self.subscribe(cx)
            cx.on = False
            if len(cx.O) != 1 or cx.C is None:
                raise Unsupported('no inner observer')
            p = cx.path
            cx.conc = True
            n = p.fresh('h0', 'nat')
            p.add(n < HUGE)
            cx.known = (n, p.choose(3))
            if cx.known[1]:
                p.add(n > 0)
            cx.ev, cx.shared, cx.own, cx.due, cx.tried_own = [], True, False, None, 0
            cx.on = True
            o = cx.O[0]
            x = p.fresh('x')
            (o.next if k == 'next' else o.error if k == 'error' else o.complete)(*([cx] + ([x] if k != 'complete' else [])))
            self.quiet_end(cx)
            self.done(cx, 'an arriving ' + k)
            self.leave(cx)
        return f

    def hooks(self, cx):
        """hooks are those of the inner subject; without_hooks shares everything else"""
        self.world(cx)
        f, g = self.ufn(cx, 'hook+'), self.ufn(cx, 'hook-')
        self.call(cx, 'set_on_subscribe', f)
        self.call(cx, 'set_on_unsubscribe', g)
        hs = sorted((e for e in cx.ev if e[0] == 'hook'), key=lambda e: e[1])
        cx.oblige([(e[1], e[3]) for e in hs] == [('+', cx.inner[0]), ('-', cx.inner[0])], 'hooks', 'the hooks are not installed')
        for e, want in zip(hs, ('hook+', 'hook-')):
            cx.ev = []
            n = cx.path.fresh('count', 'nat')
            cx.apply(e[2], [n])
            cs = [c for c in cx.ev if c[0] == 'call']
            cx.oblige([c[1] for c in cs] == [want] and eqv(cx, cs[0][2][0], n), 'hooks', 'a hook calls %s' % [c[1] for c in cs])
        w = self.call(cx, 'without_hooks')
        cells = []
        reach_cells(cx, w, cells)
        cx.oblige(cells == [cx.mem], 'hooks', 'without_hooks has a history of its own')
        cx.oblige(len(cx.inner) == 2 and cx.inner[1].orig is cx.inner[0], 'hooks', 'without_hooks has observers of its own')
        cx.ev = []
        cx.on = True
        x = cx.path.fresh('y')
        cx.call_fn(cx.P.method('ReplaySubject::next'), [Ref(Slot(w)), x])
        inner = [e for e in cx.ev if e[0] == 'inner']
        cx.oblige(all(e[3] is cx.inner[1] for e in inner), 'hooks', 'without_hooks still has the hooks')

    def parts(self):
        r = {m: self.pushing(m) for m in EV}
        r['subscribe'] = self.handover
        r.update({'arriving ' + k: self.arrival(k) for k in EV})
        r['leaving'] = self.leaving
        r['hooks'] = self.hooks
        return r


# ------------------------------------------------------------ AsyncSubject
class MReplay(A.Callee):
    cls = 'replay'

    def ev(self, cx, what, *v):
        cx.callout('the observers')
        cx.ev.append(('inner', what, v, self))


class Async(MemTask):
    CLS = 'AsyncSubject'

    def contracts(self):
        c = super().contracts()
        c['ReplaySubject::new'] = lambda cx, a, f, t: (cx.inner.append(MReplay(cx)), cx.inner[-1])[1]
        for e in EV:
            c['ReplaySubject::' + e] = lambda cx, a, f, t, e=e: (A.recv(cx, a[0]).ev(cx, e, *a[1:]), UNIT)[1]
        c['ReplaySubject::observable'] = lambda cx, a, f, t: A.AObsv(cx, ('inner', A.recv(cx, a[0])))
        return c

    def world(self, cx):
        cx.s = cx.call_fn(cx.P.method('AsyncSubject::new'), [])
        cells = []
        reach_cells(cx, cx.s, cells)
        if len(cells) != 1 or len(cx.inner) != 1 or not isinstance(cx.inner[0], MReplay):
            raise Unsupported('AsyncSubject: state of another form')
        cx.mem = cells[0]
        cx.mem.name = 'last'
        v = cx.mem.v
        cx.oblige(isinstance(v, Agg) and v.k == OPT and v.var == 0, 'events', 'a new subject has an item')
        cx.last = cx.path.fresh('last')
        cx.mem.v = some(cx.last) if cx.path.choose(2) else NONE
        cx.had = cx.mem.v.var == 1
        cx.ev = []

    def locked(self, cx, s, mode):
        pass
    unlocked = locked

    def pushing(self, m):
        def f(cx):
            self.world(cx)
            x = self.push(cx, m)
            inner = [(e[1],) + e[2] for e in cx.ev if e[0] == 'inner']
            for i, e in enumerate(inner):
                if e[0] != 'next':
                    inner = inner[:i + 1]       # by the contract of ReplaySubject the rest is ignored
                    break
            v = cx.mem.v
            cx.oblige(not [e for e in cx.ev if e[0] in ('register', 'hook')], 'events', '%s does something else' % m)
            if m == 'next':
                cx.oblige(not inner, 'events', 'an item is delivered before the completion')
                cx.oblige(isinstance(v, Agg) and v.var == 1 and eqv(cx, v.f[0], x), 'events', 'next is not kept as the last item')
                return
            want = [('error', x)] if m == 'error' else ([('next', cx.last)] if cx.had else []) + [('complete',)]
            cx.oblige([e[0] for e in inner] == [e[0] for e in want], 'events', '%s: delivers %s' % (m, [e[0] for e in inner]))
            for a, b in zip(inner, want):
                cx.oblige(zand([eqv(cx, p, q) for p, q in zip(a[1:], b[1:])]), 'events', '%s: another value' % m)
        return f

    def handing(self, cx):
        self.world(cx)
        cx.quiet = True
        self.subscribe(cx)
        regs = [e for e in cx.ev if e[0] == 'register']
        cx.oblige(len(regs) == 1 and regs[0][2] is cx.inner[0], 'events', 'the subscriber is registered %d times' % len(regs))
        cx.oblige(not [e for e in cx.ev if e[0] == 'inner'], 'events', 'subscribing changes the subject')
        cx.quiet = False
        # directly, or through an observer of its own
        o = regs[0][1]
        if o is not cx.D:
            k = cx.path.choose(3)
            x = cx.path.fresh('x')
            m0 = len(cx.ev)
            (o.next if k == 0 else o.error if k == 1 else o.complete)(*([cx] + ([x] if k < 2 else [])))
            got = [e for e in cx.ev[m0:] if e[0] == 'D']
            cx.oblige([e[1] for e in got] == [EV[k]] and (k == 2 or eqv(cx, got[0][2][0], x)), 'events', 'the subscriber is given something else')
        else:
            cx.O = []
            cx.on = False
            return
        self.leave(cx)

    def parts(self):
        r = {m: self.pushing(m) for m in EV}
        r['subscribe'] = self.handing
        return r


TASKS = {n: (lambda P, c=c, n=n: c(P, n)) for n, c in (('BehaviorSubject', Behavior), ('ReplaySubject', Replay), ('AsyncSubject', Async))}
