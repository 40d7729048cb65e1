"""The connectables: publish, ref_count, replay, over the contracts of Subject / ReplaySubject
(objsub.py, objmem.py), Observer, Observable and Subscription.

The object is a finite-state machine once the observers in it are told apart only by `open` and
`the latest connection`: all its states are enumerated to a fixpoint, every event in every state
(hooks with any numbers, every event of the source, the subscribers leaving while the source is
being subscribed), and each step is judged.  The /threads tasks judge the two hooks with other
threads doing the same in between.
"""
import z3
from .core import *
from . import abs as A
from .objv import eqv
from .objtab import con
from .objsc import reach_cells
from .objmem import MemTask, EV


class CSubj(A.Callee):
    """the subject inside; the hooks belong to the one they were set on"""
    cls = 'subject'

    def __init__(self, cx, kind, orig=None):
        super().__init__(cx)
        self.kind, self.orig = kind, orig
        self.hooks = {}
        cx.inner.append(self)

    def root(self):
        return self if self.orig is None else self.orig.root()

    def refs(self):
        return list(self.hooks.values())

    def ev(self, cx, what, *v):
        cx.callout('the observers')
        cx.ev.append(('inner', what, v, self))
        cx.task.inner(cx, what)


class Conn(MemTask):
    CLS, SUBJ, OP, FOREVER = '?', 'Subject', '?', False

    def contracts(self):
        c = con('Observer', 'Observable', 'FunctionWrapper', 'Subscription')
        S = self.SUBJ
        c[S + '::new'] = lambda cx, a, f, t: CSubj(cx, S)
        for e in EV:
            c['%s::%s' % (S, e)] = lambda cx, a, f, t, e=e: (A.recv(cx, a[0]).ev(cx, e, *a[1:]), UNIT)[1]
        c[S + '::observable'] = lambda cx, a, f, t: A.AObsv(cx, ('inner', A.recv(cx, a[0])))
        c[S + '::clone'] = lambda cx, a, f, t: A.recv(cx, a[0])
        c[S + '::without_hooks'] = lambda cx, a, f, t: CSubj(cx, S, A.recv(cx, a[0]))

        def hook(n):
            def g(cx, a, f, t):
                s = A.recv(cx, a[0])
                if n in s.hooks:
                    cx.fail('hooks', 'the hook is set twice')
                s.hooks[n] = a[1]
                return UNIT
            return g
        c[S + '::set_on_subscribe'] = hook('+')
        c[S + '::set_on_unsubscribe'] = hook('-')
        return c

    # ---- the world
    def world(self, cx):
        cx.src = A.AObsv(cx, ('source',))
        cx.conns = []               # observers the source was subscribed with
        cx.present = False          # any subscriber
        cx.sync = None
        cx.s = cx.call_fn(cx.P.method('Observable::' + self.OP), [Ref(Slot(cx.src))])
        self.quiet_end(cx)
        if len([s for s in cx.inner if s.orig is None]) != 1:
            raise Unsupported('%s: another number of subjects' % self.CLS)
        cx.sub = cx.inner[0].root()
        cx.oblige(not cx.conns, 'events', 'the source is subscribed before anybody asks')
        cx.oblige(not [e for e in cx.ev if e[0] == 'inner'], 'events', 'events before anybody asks')
        cx.ev = []

    def on_sub(self, cx, obsv, o):
        if obsv.kind[0] == 'inner':
            cx.callout('the inner subject')
            cx.ev.append(('register', o, obsv.kind[1]))
            cx.O.append(o)
            return
        if obsv is not cx.src:
            raise Unsupported('another source')
        cx.callout('the source')
        if not hasattr(cx, 'sub'):
            cx.fail('events', 'the source is subscribed before anybody asks')
        live = [x for x in cx.conns if x.open is not False]
        cx.oblige(not live, 'events', 'a second subscription to the source while one is open')
        cx.conns.append(o)
        cx.ev.append(('connect', o))
        if self.env:
            return
        # a source that acts while it is being subscribed
        k = cx.path.choose(self.SYNC) if cx.sync is None else 0
        cx.sync = k
        if k == 1:
            self.source(cx, o, 'next')
        elif k == 2:
            self.source(cx, o, 'complete')
        elif k == 3:
            self.source(cx, o, 'error')
        elif k == 4:
            cx.present = False
            self.gone(cx)
            cx.oblige(o.open is False, 'upstream', 'the last subscriber leaves while the source is subscribed and does not stop it')

    def on_close(self, cx, o, how):
        cx.callout('what stops the source' if any(o is c for c in cx.conns) else 'the teardown of an observer')

    env, SYNC = False, 5

    def hook(self, cx, h, n):
        f = cx.sub.hooks.get(h)
        if f is not None:
            cx.apply(f, [n])

    def gone(self, cx):
        self.hook(cx, '-', z3.IntVal(0))

    def inner(self, cx, what):
        """the terminal takes all subscribers with it"""
        if what != 'next' and cx.present and not self.env:
            cx.present = False
            for _ in range(1 + cx.path.choose(2)):
                self.gone(cx)

    def source(self, cx, o, k):
        """the source emits through o"""
        was, live = o.open, o is cx.conns[-1]
        x = cx.path.fresh('x')
        n = len(cx.ev)
        {'next': o.next, 'error': o.error, 'complete': o.complete}[k](*([cx] + ([x] if k != 'complete' else [])))
        got = [e for e in cx.ev[n:] if e[0] == 'inner']
        if was:
            cx.oblige([e[1] for e in got] == [k], 'events', 'the source\'s %s reaches the subscribers as %s' % (k, [e[1] for e in got]))
            if k != 'complete':
                cx.oblige(eqv(cx, got[0][2][0], x), 'events', 'the source\'s %s arrives as another value' % k)
            cx.oblige(got[0][3].root() is cx.sub, 'events', 'the source\'s %s reaches other subscribers' % k)
        else:
            cx.oblige(not got, 'upstream', 'events after the source was stopped')

    # ---- states
    def canon(self, cx):
        last = cx.conns[-1] if cx.conns else None
        seen = {}

        def c(v, d=0):
            if d > 30:
                raise Unsupported('deep state')
            if isinstance(v, (Ref, ArcV, LockV)):
                s = v.slot
                if id(s) in seen:
                    return ('cell', seen[id(s)])
                seen[id(s)] = len(seen)
                return ('cell', seen[id(s)], c(s.v, d + 1))
            if isinstance(v, A.AObs):
                return ('obs', v is last, v.open is not False, c(v.teardown, d + 1))
            if isinstance(v, A.ASub):
                return ('sub', c(v.obs, d + 1))
            if isinstance(v, Agg):
                return (v.k, v.var) + tuple(c(x, d + 1) for x in v.f)
            if is_z3(v):
                w = z3.simplify(v)
                if not (z3.is_int_value(w) or z3.is_true(w) or z3.is_false(w)):
                    raise Unsupported('state with %r' % v)
                return str(w)
            if v is None or isinstance(v, (bool, int, str)):
                return repr(v)
            if isinstance(v, (A.Callee, CSubj)):
                return v.cls
            if isinstance(v, PyFn):
                return 'f'
            if hasattr(v, 'caps'):
                return ('fn', v.key) + tuple(c(x, d + 1) for x in v.caps)
            raise Unsupported('state with %r' % (v,))
        cells = []
        reach_cells(cx, cx.s, cells)
        for f in cx.sub.hooks.values():
            reach_cells(cx, f, cells)
        st = tuple(c(Ref(s)) for s in cells)
        return st, cx.present, bool(cx.conns), last is not None and last.open is not False

    def walk(self, cx):
        self.world(cx)
        tr = ()
        while True:
            st = self.canon(cx)
            if self.owner.setdefault(st, tr) != tr:
                return
            if len(tr) > 10:
                raise Unsupported('too many states')
            evs = ['first', 'stray next', 'none']
            if cx.present:
                evs += ['more', 'leave', 'last']
            if cx.conns and cx.conns[-1].open is not False:
                evs += list(EV)
            e = evs[cx.path.choose(len(evs))]
            cx.evname = ' '.join(tr + (e,))
            cx.sync = None
            n = len(cx.ev)
            c0 = cx.conns[-1] if cx.conns else None
            o0 = c0 is not None and c0.open is not False
            new = lambda: [x for x in cx.ev[n:] if x[0] == 'connect']
            if e == 'first':
                cx.present = True
                self.hook(cx, '+', z3.IntVal(1))
                want = 0 if o0 or (self.FOREVER and c0 is not None) else 1
                cx.oblige(len(new()) == want, 'events', 'the first subscriber: the source is subscribed %d times instead of %d' % (len(new()), want))
                if want and not cx.sync:
                    cx.oblige(cx.conns[-1].open is True, 'events', 'the connection is closed at once')
                if o0:
                    cx.oblige(c0.open is True, 'events', 'a subscriber stops the source')
            elif e in ('more', 'leave'):
                k = cx.path.fresh('n', 'nat')
                cx.path.add(k >= (2 if e == 'more' else 1))
                self.hook(cx, '+' if e == 'more' else '-', k)
                cx.oblige(not new(), 'events', 'a subscriber that is not the first subscribes the source')
                if o0:
                    cx.oblige(c0.open is True, 'events', 'the source is stopped while there are subscribers')
            elif e in ('last', 'none'):
                cx.present = False
                self.gone(cx)
                cx.oblige(not new(), 'events', 'leaving subscribes the source')
                if c0 is not None:
                    cx.oblige(c0.open is False, 'upstream', 'the last subscriber leaves and the source is not stopped')
            elif e == 'stray next':
                for o in cx.conns:
                    if o.open is False:
                        self.source(cx, o, 'next')
            else:
                self.source(cx, cx.conns[-1], e)
                cx.oblige(not new(), 'events', 'an event of the source subscribes it again')
                if e != 'next':
                    cx.oblige(cx.conns[-1].open is False, 'upstream', 'the connection stays open after the terminal')
            self.quiet_end(cx)
            cy = A.ownership_cycle(cx)
            cx.oblige(cy is None or (bool(cx.conns) and cx.conns[-1].open is not False), 'leak', 'reference cycle: %s' % cy)
            self.reach.add(e)
            tr += (e,)

    def handing(self, cx):
        """observable() is that of the subject with the hooks"""
        self.world(cx)
        cx.quiet = True
        self.subscribe(cx)
        regs = [e for e in cx.ev if e[0] == 'register']
        cx.oblige(len(regs) == 1 and regs[0][2] is cx.sub, 'events', 'the subscriber is registered %d times' % len(regs))
        o = regs[0][1]
        if o is not cx.D:
            raise Unsupported('an observer in between')
        self.hook(cx, '+', z3.IntVal(1))
        cx.oblige(len(cx.conns) == 1, 'events', 'the first subscriber does not connect')

    def parts(self):
        self.owner = {}
        return {'states': self.walk, 'subscribe': self.handing}


class RefCount(Conn):
    CLS, OP = 'RefCount', 'ref_count'
    extra = {'first', 'more', 'leave', 'last', 'next', 'error', 'complete'}


class Replay(Conn):
    CLS, SUBJ, OP, FOREVER = 'Replay', 'ReplaySubject', 'replay', True
    extra = RefCount.extra


class Threads(Conn):
    """each hook, with other threads connecting and disconnecting whenever nothing is locked"""
    env = True

    def conn_cell(self, cx):
        cells = []
        reach_cells(cx, cx.s, cells)
        for f in cx.sub.hooks.values():
            reach_cells(cx, f, cells)
        cells = list({id(s): s for s in cells}.values())
        if len(cells) != 1 or not (isinstance(cells[0].v, Agg) and cells[0].v.k == OPT):
            raise Unsupported('%s: state of another form' % self.CLS)
        return cells[0]

    def other(self, cx, name):
        o = A.AObs(cx, *[PyFn('E.' + n, lambda cx, *a: UNIT) for n in EV])
        o.tag = name
        return o

    def setup(self, cx):
        self.world(cx)
        cx.cell = self.conn_cell(cx)
        cx.cell.name = 'connection'
        cx.opened = None            # the open connection of somebody else
        cx.regions = []
        cx.on = True

    def locked(self, cx, s, mode):
        if s is not cx.cell:
            return
        v = s.v
        cur = cx.deref(v.f[0]) if v.var == 1 else None
        if cur is not None and not isinstance(cur, A.AObs):
            raise Unsupported('connection of another form')
        # what the others have done since
        k = cx.path.choose(3)
        if k and cur is not None and cur.open is not False:
            cur.open = False        # stopped by another thread
            cur.teardown = None
        if k == 2 and not (self.FOREVER and cur is not None):
            s.v = some(self.other(cx, 'E%d' % len(cx.regions)))
        cx.pre = s.v

    def unlocked(self, cx, s, mode):
        if s is not cx.cell:
            return
        ob = lambda v: cx.deref(v.f[0]) if v.var == 1 else None
        a, b = ob(cx.pre), ob(s.v)
        cx.regions.append((a, b, a is not None and a.open is not False))
        if a is not b:
            if b is None and a is not None:
                cx.taken.append(a)      # to be stopped by who took it
            else:
                cx.oblige(a is None or a.open is False, 'race', 'an open connection is replaced: a second one beside it')
            if self.FOREVER:
                cx.oblige(a is None, 'race', 'the source is subscribed again')
            if b is not None:
                cx.stored.append(b)

    def on_sub(self, cx, obsv, o):
        if obsv is cx.src:
            cx.oblige(any(o is x for x in cx.stored), 'race', 'the source is subscribed with an observer nobody can find')
            cx.conns.append(o)
            cx.ev.append(('connect', o))
            return
        raise Unsupported('subscription')

    def connecting(self, cx):
        self.setup(cx)
        cx.stored, cx.taken = [], []
        self.hook(cx, '+', z3.IntVal(1))
        self.quiet_end(cx)
        cx.oblige(len(cx.conns) <= 1 and len(cx.stored) <= 1, 'race', 'two subscriptions of the source')
        if cx.stored:
            cx.oblige(len(cx.conns) == 1 or cx.stored[0].open is False, 'race', 'the source is not subscribed')
        else:
            cx.oblige(any((a is not None) if self.FOREVER else op for a, b, op in cx.regions), 'race', 'nobody subscribes the source')

    def stopping(self, cx):
        self.setup(cx)
        cx.stored, cx.taken = [], []
        n = cx.path.choose(2)
        if n:
            cx.cell.v = some(self.other(cx, 'O'))
        self.hook(cx, '-', z3.IntVal(0))
        self.quiet_end(cx)
        cx.oblige(not cx.stored, 'race', 'leaving makes a connection')
        for o in cx.taken:
            cx.oblige(o.open is False, 'race', 'the connection is forgotten, not stopped')
        cx.oblige(bool(cx.regions), 'race', 'the connection is not looked at')
        for a, b, op in cx.regions:
            cx.oblige(a is None or a.open is False, 'race', 'the connection found is not stopped')

    def parts(self):
        return {'first': self.connecting, 'last': self.stopping}


class RefCountT(Threads):
    CLS, OP = 'RefCount', 'ref_count'


class ReplayT(Threads):
    CLS, SUBJ, OP, FOREVER = 'Replay', 'ReplaySubject', 'replay', True


class Publish(Conn):
    CLS, OP = 'Publish', 'publish'
    SYNC = 4

    def connect(self, cx):
        self.world(cx)
        cx.present = True
        # the subscribers come and go: nothing happens
        for h, n in (('+', 1), ('-', 0)):
            self.hook(cx, h, z3.IntVal(n))
        cx.oblige(not cx.conns, 'events', 'a subscriber subscribes the source')
        self.hook(cx, '+', z3.IntVal(1))
        cx.present = True
        r = cx.deref(self.call(cx, 'connect'))
        self.quiet_end(cx)
        cx.oblige(len(cx.conns) == 1, 'events', 'connect() subscribes the source %d times' % len(cx.conns))
        o = cx.conns[0]
        if not isinstance(r, A.ASub):
            raise Unsupported('connect() is %r' % (r,))
        if cx.sync:
            return
        cx.oblige(o.open is True, 'events', 'the connection is closed at once')
        # subscribers leaving do not end it
        self.gone(cx)
        cx.oblige(o.open is True, 'events', 'the connection ends with the subscribers')
        e = cx.path.choose(4)
        if e < 3:
            self.source(cx, o, 'next')
            cx.oblige(o.open is True, 'events', 'the connection is closed by an item')
            self.source(cx, o, EV[e])
            cx.oblige(o.open is (e == 0), 'events', 'the connection after %s' % EV[e])
        else:
            cx.apply(r.un, [])
            cx.oblige(o.open is False, 'upstream', 'unsubscribing the connection does not stop the source')
            self.source(cx, o, 'next')
            # and again
            self.call(cx, 'connect')
            cx.oblige(len(cx.conns) == 2, 'events', 'a second connect() subscribes the source %d times' % (len(cx.conns) - 1))
        cy = A.ownership_cycle(cx)
        cx.oblige(cy is None or cx.conns[-1].open is not False, 'leak', 'reference cycle: %s' % cy)

    def handing(self, cx):
        self.world(cx)
        cx.quiet = True
        self.subscribe(cx)
        regs = [e for e in cx.ev if e[0] == 'register']
        cx.oblige(len(regs) == 1 and regs[0][1] is cx.D and regs[0][2].root() is cx.sub, 'events', 'the subscriber is registered %d times' % len(regs))
        cx.oblige(not cx.conns, 'events', 'subscribing subscribes the source')

    def parts(self):
        return {'connect': self.connect, 'subscribe': self.handing}


TASKS = {n: (lambda P, c=c, n=n: c(P, n)) for n, c in (('publish', Publish), ('ref_count', RefCount), ('replay', Replay),
                                                      ('ref_count/threads', RefCountT), ('replay/threads', ReplayT))}
