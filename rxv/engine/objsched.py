"""Contracts of what runs on a scheduler or follows the clock: observe_on, subscribe_on,
interval, timer, timeout, debounce.

A scheduler is its contract: it runs what is posted, in order, one at a time, at any later
time (or at once); C08's obligations prove the crate's own schedulers against it.  Between any
two steps the subscriber may go away.  Time passes only where the code sleeps.
"""
import time
import z3
from .core import *
from . import abs as A, prims, opv
from .objv import ObjTask, eqv
from .opv import OpTask


class ASched(A.Callee):
    cls = 'scheduler'

    def __init__(self, cx):
        super().__init__(cx)
        self.aborted = 0

    def m_post(self, cx, a, f):
        cx.callout('a scheduler')
        cx.ev.append(('post', self, a[1]))
        cx.task.on_post(cx, self, a[1])
        return UNIT

    def m_abort(self, cx, a, f):
        cx.callout('a scheduler')
        self.aborted += 1
        cx.ev.append(('abort', self))
        return UNIT


TIMED_OUT = 22          # std::io::ErrorKind::TimedOut of the pinned toolchain


def ioerr(cx, a, f, t):
    return Agg('ioerror', 0, [cx.deref(a[0])])


class Timed(ObjTask):
    """spec functions run one path each; what they leave out is not claimed"""
    C14 = True
    solver_s = 0.0

    def __init__(self, P, name, parts):
        super().__init__(P, name)
        self.parts = parts
        self.want = set(parts) | ({'round'} if name in ('interval', 'debounce') else set())

    def on_write(self, cx, slot, path, nv):
        if slot.kind == 'cell' and getattr(cx, 'stateless', False) and slot.birth:
            raise Unsupported('state of its own: ' + cx.slot_name(slot))
        if not getattr(cx, 'ours', True):
            OpTask.on_write(self, cx, slot, path, nv)

    def on_abs_write(self, cx, ab, what):
        OpTask.on_abs_write(self, cx, ab, what)

    def on_sub(self, cx, obsv, o):
        cx.callout('a source (subscribe)')
        cx.ev.append(('sub', obsv, o, cx.clock))
        if cx.in_sub is not None:
            cx.in_sub(cx, obsv, o)

    def on_post(self, cx, s, f):
        pass

    def on_sleep(self, cx, d):
        self.callout(cx, 'sleep')
        cx.clock = cx.clock + zint(d)
        cx.ev.append(('sleep', d))
        self.meanwhile(cx, 'asleep')

    def now(self, cx):
        return cx.clock

    def on_lock(self, cx, slot, mode):
        if cx.on_lock_ is not None:
            cx.on_lock_(cx, slot, mode)

    def on_unlock(self, cx, slot, mode):
        if cx.on_unlock_ is not None:
            cx.on_unlock_(cx, slot, mode)

    def meanwhile(self, cx, when):
        """the subscriber may leave at any time"""
        if cx.D is not None and cx.D.open and cx.may_leave and cx.path.choose(2):
            cx.ev.append(('left', when))
            cx.D.unsubscribe(cx)

    def loop_head(self, cx, key, bb, fr, visits):
        if cx.round is None or cx.round.key not in (None, (key, bb)):
            return super().loop_head(cx, key, bb, fr, visits)
        cx.round.key = (key, bb)
        cx.round.head(cx, fr)

    # ---- set-up
    def start(self, path, part):
        cx = self.context(path)
        cx.contracts = A.contracts()
        cx.D = None
        cx.may_leave = True
        cx.in_sub = None
        cx.round = None
        cx.on_lock_ = cx.on_unlock_ = None
        cx.scheds = []
        cx.evname = part
        cx.d = path.fresh('d', 'nat')
        return cx

    def sched_ctor(self, cx):
        def ap(cx):
            s = ASched(cx)
            cx.scheds.append(s)
            cx.ev.append(('ctor', s))
            return s
        return UFn('scheduler_ctor', ap)

    def subscriber(self, cx):
        def cb(n):
            def g(cx, *a):
                cx.callout('the subscriber')
                cx.ev.append(('D', n, a, cx.clock))
                if n == 'next':
                    self.meanwhile(cx, 'in next')
                return UNIT
            return PyFn('D.' + n, g)
        cx.D = A.AObs(cx, cb('next'), cb('error'), cb('complete'))
        return cx.D

    def op(self, cx, short, vals):
        """calls the operator's method on the source"""
        return self.observable(cx, cx.P.method(short), [Ref(Slot(A.AObsv(cx, ('src', 0))))] + vals)

    def observable(self, cx, key, args):
        cx.ev = []
        o = cx.deref(cx.call_fn(key, args))
        if not isinstance(o, A.AObsv):
            raise Unsupported('%s returns %r' % (key, o))
        cx.oblige(not cx.ev, 'sched', 'something is done before anybody subscribes: %s' % [e[0] for e in cx.ev])
        cx.epoch = 1
        return o

    def subscribed(self, cx, o):
        """subscribes D; -> the scheduler of this subscription"""
        cx.ev = []
        o.subscribe(cx, self.subscriber(cx))
        self.idle(cx)

    def the_sched(self, cx):
        cx.oblige(len(cx.scheds) == 1, 'sched', '%d schedulers are made for one subscription' % len(cx.scheds))
        return cx.scheds[0]

    def idle(self, cx):
        self.quiet_end(cx)

    def leave(self, cx):
        if cx.D.open:
            cx.ev.append(('left', ''))
            cx.D.unsubscribe(cx)

    def ended(self, cx, S, ups=()):
        """obligations once the subscription has ended"""
        cx.oblige(cx.D.open or any(e[0] == 'left' or e[0] == 'D' and e[1] != 'next' for e in cx.ev), 'events',
                  'the operator ends the subscription without a terminal')
        for u in ups:
            cx.oblige(not u.open, 'upstream', 'the source is still subscribed after the subscription ended')
        if S is not None:
            cx.oblige(S.aborted > 0, 'threads', 'the scheduler is not stopped though the subscription ended: its thread stays')
        cx.oblige(cx.D.teardown is None, 'leak', 'the teardown is kept after the end')
        c = A.ownership_cycle(cx)
        cx.oblige(c is None, 'leak', 'reference cycle after the end: %s' % c)

    def since(self, cx, m, *kinds):
        return [e for e in cx.ev[m:] if e[0] in kinds]

    def remember(self, k):
        if k not in self.memo:
            self.memo.add(k)
            self.changed = True

    def run(self):
        t0 = time.time()
        self.memo, self.changed = set(), True
        while self.changed:
            self.changed = False
            self.failures, self.obl, self.disch, self.cats = [], 0, 0, {}
            self.pass_()
        self.wall = time.time() - t0
        return self

    def pass_(self):
        for n, f in self.parts.items():
            def body(path, n=n, f=f):
                cx = self.start(path, n)
                try:
                    f(self, cx)
                    self.reach.add(n)
                except Panic as e:
                    cx.fail('panic', 'panics: %s' % e)
                finally:
                    self.fns |= cx.seen
            self.explore(body)


EV = ('next', 'error', 'complete')


def fire(cx, u, k):
    """one event on the upstream observer; -> what D must get"""
    if k == 0:
        x = cx.path.fresh('x')
        u.next(cx, x)
        return 'next', (x,)
    if k == 1:
        e = cx.path.fresh('e')
        u.error(cx, e)
        return 'error', (e,)
    u.complete(cx)
    return 'complete', ()


def expect(t, cx, m, name, args, what, cat='events'):
    """D got exactly this since m"""
    got = t.since(cx, m, 'D')
    cx.oblige([e[1] for e in got] == [name], cat, '%s: the subscriber is given %s' % (what, [e[1] for e in got]))
    cx.oblige(zand([eqv(cx, p, q) for p, q in zip(got[0][2], args)]), cat, '%s: another value' % what)


# ------------------------------------------------------------ observe_on
def observe_event(t, cx, S, u):
    """one event of the source, in any state"""
    cx.stateless = True
    if not u.open:
        return
    m = len(cx.ev)
    was = cx.D.open
    k = cx.path.choose(3)
    what = EV[k] + ' of the source'
    name, args = fire(cx, u, k)
    t.idle(cx)
    cx.oblige(not t.since(cx, m, 'D'), 'sched', '%s: delivered on the emitting thread, not by the scheduler' % what)
    posts = t.since(cx, m, 'post')
    cx.oblige(len(posts) == 1, 'sched', '%s: %d tasks are posted' % (what, len(posts)))
    cx.oblige(posts[0][1] is S, 'sched', '%s: posted to another scheduler' % what)
    cx.oblige(not t.since(cx, m, 'abort') or not cx.D.open, 'sched', '%s: stops the scheduler' % what)
    # the scheduler runs it, now or later
    t.meanwhile(cx, 'before the task')
    m = len(cx.ev)
    opened = cx.D.open
    cx.apply(posts[0][2], [])
    t.idle(cx)
    cx.oblige(not t.since(cx, m, 'post'), 'sched', '%s: posted again' % what)
    if opened:
        expect(t, cx, m, name, args, what)
        if k:
            cx.oblige(not cx.D.open, 'events', '%s: the subscriber stays open' % what)
    else:
        cx.oblige(not t.since(cx, m, 'D'), 'cut', '%s: delivered after the end' % what)
    if cx.D.open:
        cx.oblige(S.aborted == 0, 'sched', '%s: the scheduler is stopped though the subscription lives' % what)
        cx.oblige(bool(u.open) or k > 0, 'events', '%s: the source is given up' % what)
        if k == 0:
            t.leave(cx)
            t.ended(cx, S, [u])
    else:
        t.ended(cx, S, [u])


def observe_on(t, cx):
    o = t.op(cx, 'Observable::observe_on', [t.sched_ctor(cx)])
    early = cx.path.choose(2)

    def in_sub(cx, obsv, u):
        if early:                   # a source that emits while it is subscribed
            observe_event(t, cx, t.the_sched(cx), u)
            t.reach.add('observe_on')
            raise Stop()
        t.meanwhile(cx, 'in subscribe')
    cx.in_sub = in_sub
    t.subscribed(cx, o)
    subs = [e for e in cx.ev if e[0] == 'sub']
    cx.oblige(len(subs) == 1 and subs[0][1].kind == ('src', 0), 'sched', 'the source is subscribed %d times' % len(subs))
    S, u = t.the_sched(cx), subs[0][2]
    cx.oblige(not [e for e in cx.ev if e[0] in ('post', 'D')], 'sched', 'something is posted or delivered before the source emits')
    if not cx.D.open:
        return t.ended(cx, S, [u])
    cx.oblige(bool(u.open) and S.aborted == 0, 'sched', 'the source is given up at once')
    observe_event(t, cx, S, u)


# ------------------------------------------------------------ subscribe_on
def through(t, cx, u, S):
    """identity: what the source emits the subscriber gets, at once"""
    cx.stateless = True
    if not u.open:
        return
    m = len(cx.ev)
    was = cx.D.open
    k = cx.path.choose(3)
    what = EV[k] + ' of the source'
    name, args = fire(cx, u, k)
    t.idle(cx)
    cx.oblige(not t.since(cx, m, 'post'), 'sched', what + ': posted')
    if was:
        expect(t, cx, m, name, args, what)
    else:
        cx.oblige(not t.since(cx, m, 'D'), 'cut', what + ': delivered after the end')
    if cx.D.open:
        cx.oblige(k == 0 and bool(u.open), 'events', what + ': the subscriber stays open or the source is given up')
        cx.oblige(S is None or S.aborted == 0, 'sched', what + ': the scheduler is stopped though the subscription lives')
        t.leave(cx)
    t.ended(cx, S, [u])


def subscribe_on(t, cx):
    o = t.op(cx, 'Observable::subscribe_on', [t.sched_ctor(cx)])
    t.subscribed(cx, o)
    S = t.the_sched(cx)
    posts = [e for e in cx.ev if e[0] == 'post']
    cx.oblige(len(posts) == 1 and posts[0][1] is S, 'sched', 'the subscription is posted %d times' % len(posts))
    cx.oblige(not [e for e in cx.ev if e[0] in ('sub', 'D')], 'sched', 'the source is subscribed on the caller\'s thread')
    cx.oblige(S.aborted == 0, 'sched', 'the scheduler is stopped before it did anything')
    t.meanwhile(cx, 'before the task')
    m = len(cx.ev)
    opened = cx.D.open
    early = cx.path.choose(2)

    def in_sub(cx, obsv, u):
        if early:
            through(t, cx, u, S)
            t.reach.add('subscribe_on')
            raise Stop()
        t.meanwhile(cx, 'in subscribe')
    cx.in_sub = in_sub
    cx.apply(posts[0][2], [])
    t.idle(cx)
    subs = t.since(cx, m, 'sub')
    cx.oblige(not t.since(cx, m, 'post', 'D'), 'sched', 'the task does more than to subscribe')
    if not opened:
        cx.oblige(not subs or all(not e[2].open for e in subs), 'upstream', 'the source is subscribed after the end')
        return t.ended(cx, S, [])
    cx.oblige(len(subs) == 1 and subs[0][1].kind == ('src', 0), 'sched', 'the source is subscribed %d times' % len(subs))
    u = subs[0][2]
    if not cx.D.open:
        return t.ended(cx, S, [u])
    cx.oblige(bool(u.open), 'sched', 'the source is given up at once')
    through(t, cx, u, S)


# ------------------------------------------------------------ rounds of a loop
class Round:
    """a loop generalised: integers that move by a constant step each round, nothing else
    survives a round; begin(cx, r) and end(cx, r) judge round r"""

    def __init__(self, t, begin, end):
        self.t, self.begin, self.end = t, begin, end
        self.n, self.key = 0, None
        self.r = z3.IntVal(0)

    def head(self, cx, fr):
        if self.n > 0:
            self.end(cx, self.r)
        if self.n == 2:
            for s, v0, dv in self.moving:
                if not self.t_ok(cx, self.walk(s.v, v0, dv, self.r + 1), s.v):
                    raise Unsupported('loop state moves in another way')
            self.t.reach.add('round')
            raise Stop()
        if self.n == 0:
            self.v0 = [s.v for s in fr]
            self.begin(cx, self.r)
        else:
            self.moving = []
            r = cx.path.fresh('round', 'nat')
            for s, v0 in zip(fr, self.v0):
                if v0 is None:
                    s.v = None          # set anew in every round before it is used
                elif not opv.same(v0, s.v):
                    self.moving.append((s, v0, s.v))
            for s, v0, dv in self.moving:
                s.v = self.walk(s.v, v0, dv, r)
            self.r = r
            self.begin(cx, r)
        self.n += 1

    def walk(self, v, v0, v1, r):
        """v0 after r rounds, if one round makes v1 of it"""
        if isinstance(v0, bool) or isinstance(v1, bool):
            raise Unsupported('loop state')
        if is_scalar(v0) and is_scalar(v1) and not (is_z3(v0) and not z3.is_int(v0)):
            d = z3.simplify(zint(v1) - zint(v0))
            if not z3.is_int_value(d):
                raise Unsupported('loop state')
            return z3.simplify(zint(v0) + d * r)
        if isinstance(v0, Agg) and isinstance(v1, Agg) and v0.k == v1.k and v0.var == v1.var and len(v0.f) == len(v1.f):
            return Agg(v0.k, v0.var, [x if opv.same(x, y) else self.walk(x, x, y, r) for x, y in zip(v0.f, v1.f)])
        raise Unsupported('loop state %r' % (v0,))

    def t_ok(self, cx, want, got):
        if is_scalar(want) and is_scalar(got):
            return cx.path.implied(zint(want) == zint(got))
        if isinstance(want, Agg) and isinstance(got, Agg):
            return all(self.t_ok(cx, x, y) if is_scalar(x) else opv.same(x, y) for x, y in zip(want.f, got.f))
        return opv.same(want, got)


def task_of(t, cx, o):
    """subscribing posts one task and does nothing else"""
    t.subscribed(cx, o)
    S = t.the_sched(cx)
    posts = [e for e in cx.ev if e[0] == 'post']
    cx.oblige(len(posts) == 1 and posts[0][1] is S, 'sched', '%d tasks are posted for one subscription' % len(posts))
    cx.oblige(not [e for e in cx.ev if e[0] in ('D', 'sleep', 'sub')], 'sched', 'subscribing does more than to post')
    cx.oblige(S.aborted == 0 and cx.D.open, 'sched', 'the scheduler is stopped or the subscriber dropped at once')
    return S, posts[0][2]


def interval(t, cx):
    o = t.observable(cx, cx.P.method('interval::interval'), [cx.d, t.sched_ctor(cx)])
    S, task = task_of(t, cx, o)
    t.meanwhile(cx, 'before the task')
    # last: when the last item came (or the task began); late: sleeps begun after the subscriber left
    g = {'last': cx.clock, 'late': 0, 'delta': None}

    def begin(cx, r):
        g['m'], g['closed'] = len(cx.ev), not cx.D.open
        if g['delta'] is None:
            g['delta'] = z3.simplify(cx.clock - g['last'])
        elif cx.round.n == 1:
            g['last'] = cx.path.fresh('last', 'nat')
            cx.clock = g['last'] + g['delta']
            if g['closed']:
                g['late'] = cx.path.choose(2) if 'late' in t.memo else 0

    def check(cx, r, leaving):
        ev = cx.ev[g['m']:]
        closed, n, slept = g['closed'], 0, False
        for e in ev:
            if e[0] == 'left':
                closed = True
            elif e[0] == 'sleep':
                slept = True
                g['late'] += closed
                cx.oblige(g['late'] <= 1, 'threads', 'the thread stays longer than one period after the end')
                cx.oblige(zint(e[1]) <= cx.d, 'threads', 'sleeps longer than one period')
            elif e[0] == 'D':
                n += 1
                cx.oblige(e[1] == 'next', 'events', 'interval ends by itself')
                cx.oblige(n == 1, 'time', 'more than one item in a round')
                cx.oblige(eqv(cx, e[2][0], r), 'events', 'interval emits another number than 0, 1, 2, ...')
                cx.oblige(e[3] == g['last'] + cx.d, 'time', 'the item does not come one period after the last')
                g['last'] = e[3]
        if leaving:
            cx.oblige(not cx.D.open, 'events', 'interval ends though its subscriber is there')
            cx.oblige(S.aborted > 0, 'threads', 'the scheduler is not stopped at the end: its thread stays')
        else:
            if g['late']:
                t.remember('late')
            cx.oblige(n == 1 or closed, 'time', 'no item in a round')
            cx.oblige(closed or cx.clock == g['last'] + g['delta'], 'time', 'a round does not take one period')
            cx.oblige(slept, 'spin', 'a round without waiting')
            cx.oblige(S.aborted == 0, 'sched', 'stops the scheduler and goes on')
    cx.round = Round(t, begin, lambda cx, r: check(cx, r, False))
    cx.apply(task, [])
    t.idle(cx)
    if cx.round.n == 0:
        raise Unsupported('no loop')
    check(cx, cx.round.r, True)
    t.ended(cx, S)


def timer(t, cx):
    o = t.observable(cx, cx.P.method('timer::timer'), [cx.d, t.sched_ctor(cx)])
    S, task = task_of(t, cx, o)
    t.meanwhile(cx, 'before the task')
    m, t0, was = len(cx.ev), cx.clock, cx.D.open
    cx.apply(task, [])
    t.idle(cx)
    got = t.since(cx, m, 'D')
    i = min([k for k in range(m, len(cx.ev)) if cx.ev[k][0] == 'D'] or [len(cx.ev)])
    if not was or any(e[0] == 'left' for e in cx.ev[m:i]):
        cx.oblige(not got, 'cut', 'delivered after the end')
        cx.oblige(cx.clock <= t0 + cx.d, 'threads', 'the thread stays longer than the delay')
    else:
        left = any(e[0] == 'left' for e in cx.ev[m:])
        cx.oblige([e[1] for e in got] == (['next'] if left else ['next', 'complete']), 'events', 'timer delivers %s' % [e[1] for e in got])
        cx.oblige(zand([e[3] == t0 + cx.d for e in got]), 'time', 'not at the given time')
        cx.oblige(cx.clock == t0 + cx.d, 'threads', 'the thread stays longer than the delay')
    cx.oblige(not cx.D.open, 'events', 'timer does not end')
    t.ended(cx, S)


# ------------------------------------------------------------ timeout
class Tick:
    """ghost: a running timer"""
    def __init__(self, o, at, once, period):
        self.o, self.at, self.once, self.period = o, at, once, period


def timer_contracts(t, cx):
    """interval, timer and take as their own contracts say"""
    def mk(kind):
        def f(cx, a, fn, tt):
            return A.AObsv(cx, (kind, a[0], a[1]))
        return f
    for p in ('<std::io::Error as std::convert::From<std::io::ErrorKind>>::from', 'std::io::Error::new', 'std::io::Error::new::<E>'):
        cx.contracts[cx.P.short(p)] = ioerr
    cx.contracts['interval::interval'] = mk('interval')
    cx.contracts['timer::timer'] = mk('timer')

    def take(cx, a, fn, tt):
        src = cx.deref(a[0])
        return A.AObsv(cx, ('take', src, a[1]))
    cx.contracts['Observable::take'] = take
    cx.contracts['Observable::first'] = lambda cx, a, fn, tt: A.AObsv(cx, ('take', cx.deref(a[0]), 1))
    cx.ticks = []

    def in_sub(cx, obsv, o):
        k = obsv.kind
        once = False
        while k[0] == 'take':
            if k[2] != 1:
                raise Unsupported('take(%r) of a timer' % (k[2],))
            once, k = True, k[1].kind
        if k[0] == 'src':
            return cx.src_sub(cx, o)
        if k[0] not in ('interval', 'timer'):
            raise Unsupported('subscription to %r' % (obsv.kind,))
        # the timer's scheduler is made for it
        n = len(cx.scheds)
        cx.apply(k[2], [])
        cx.oblige(len(cx.scheds) == n + 1, 'sched', 'a timer on a scheduler that is not its own')
        cx.ticks.append(Tick(o, cx.clock + zint(k[1]), once or k[0] == 'timer', k[1]))
        cx.ticks[-1].val = UNIT if k[0] == 'timer' else 0
        cx.ticks[-1].completes = once or k[0] == 'timer'
    cx.in_sub = in_sub


def is_timed_out(v):
    return isinstance(v, Agg) and v.k == 'ioerror' and isinstance(v.f[0], Agg) and v.f[0].var == TIMED_OUT


def live(cx):
    return [k for k in cx.ticks if k.o.open]


def tick(cx, k):
    """the timer fires"""
    cx.clock = k.at
    k.o.next(cx, k.val)
    if k.completes:
        k.o.complete(cx)


def timeout_open(t, cx, started):
    """subscribes; then an arbitrary number of items later: at most one running timer, known to the operator"""
    o = t.op(cx, 'Observable::timeout', [cx.d, t.sched_ctor(cx)])
    timer_contracts(t, cx)
    cx.src = []
    cx.src_sub = lambda cx, u: cx.src.append(u)
    t.subscribed(cx, o)
    cx.oblige(len(cx.src) == 1, 'sched', 'the source is subscribed %d times' % len(cx.src))
    cx.oblige(not cx.ticks and not [e for e in cx.ev if e[0] == 'D'], 'time', 'a timer runs or something is delivered before the first item')
    cx.oblige(cx.D.open and bool(cx.src[0].open), 'events', 'given up at once')
    u = cx.src[0]
    if started:
        cx.may_leave = False
        timeout_item(t, cx, u, False)
        # what is kept between two items must not depend on the past: the same shape again
        s1 = cells_shape(cx)
        if cx.path.choose(2):
            timeout_item(t, cx, u, False)
            if cells_shape(cx) != s1:
                raise Unsupported('state grows with the items')
        # time passes, at most until the timer fires
        k = live(cx)[0]
        now = cx.path.fresh('now', 'nat')
        cx.path.add(now >= cx.clock)
        cx.path.add(now <= k.at)
        cx.clock = now
        cx.may_leave = True
    return u


def cells_shape(cx):
    out = []

    def sh(v, d=0):
        v = v
        if isinstance(v, Agg):
            return (v.var, tuple(sh(x, d + 1) for x in v.f))
        if isinstance(v, A.ASub):
            return 'live' if any(k.o is v.obs and k.o.open for k in cx.ticks) else 'sub'
        return type(v).__name__
    return tuple(sh(c.v) for c in cx.cells if c.birth)


def timeout_item(t, cx, u, nest):
    """an item arrives"""
    x = cx.path.fresh('x')
    m, t0 = len(cx.ev), cx.clock
    old = list(live(cx))
    n1 = cx.D.n

    def given(cx, *a):
        # while it is delivered (which may take long) no earlier timer may be running
        for k in old:
            cx.oblige(not k.o.open, 'time', 'the timer of the item before still runs while its successor is delivered')
        return n1.apply(cx, *a)
    cx.D.n = PyFn('D.next', given)
    if nest:
        # another item arrives while this one is delivered
        n0 = cx.D.n

        def again(cx, *a):
            n0.apply(cx, *a)
            cx.D.n = n0
            if cx.D.open:
                y = cx.path.fresh('y')
                cx.ev.append(('nested', y))
                u.next(cx, y)
            return UNIT
        cx.D.n = PyFn('D.next', again)
    u.next(cx, x)
    cx.D.n = n1
    t.idle(cx)
    got = t.since(cx, m, 'D')
    ys = [e[1] for e in t.since(cx, m, 'nested')]
    cx.oblige([e[1] for e in got] == ['next'] * (1 + len(ys)), 'events', 'an item: the subscriber is given %s' % [e[1] for e in got])
    cx.oblige(zand([eqv(cx, e[2][0], v) for e, v in zip(got, [x] + ys)]), 'events', 'another item')
    cx.oblige(zand([e[3] == t0 for e in got]), 'time', 'an item is held back')
    if cx.D.open:
        cx.oblige(bool(u.open), 'events', 'the source is given up')
        for k in old:
            cx.oblige(not k.o.open, 'time', 'the timer of the item before still runs: it fails though a successor came')
        l = live(cx)
        cx.oblige(len(l) == 1, 'time', '%d timers run after an item' % len(l))
        cx.oblige(l[0].at == t0 + cx.d, 'time', 'the timer runs for another time than the one given')
    else:
        cx.oblige(not u.open, 'upstream', 'the source is still subscribed after the subscription ended')


def timers_end(t, cx):
    """every timer still running ends with its next tick, and says nothing"""
    for k in live(cx):
        m = len(cx.ev)
        tick(cx, k)
        cx.oblige(not t.since(cx, m, 'D'), 'cut', 'a timer delivers after the end')
        cx.oblige(not k.o.open, 'threads', 'a timer goes on after the subscription ended')


def timeout(t, cx):
    u = timeout_open(t, cx, cx.path.choose(2))
    c = cx.path.choose(3)
    if c == 0:
        timeout_item(t, cx, u, cx.path.choose(2) == 1)
        if cx.D.open:
            t.leave(cx)
        t.ended(cx, None, [u])
        timers_end(t, cx)
    elif c == 1:
        k = 1 + cx.path.choose(2)
        m, t0 = len(cx.ev), cx.clock
        name, args = fire(cx, u, k)
        t.idle(cx)
        expect(t, cx, m, name, args, name + ' of the source')
        cx.oblige(not cx.D.open, 'events', 'the subscriber stays open')
        t.ended(cx, None, [u])
        timers_end(t, cx)
    else:
        l = live(cx)
        if not l:
            return
        m = len(cx.ev)
        tick(cx, l[0])
        t.idle(cx)
        got = t.since(cx, m, 'D')
        cx.oblige([e[1] for e in got] == ['error'], 'time', 'the time is up: the subscriber is given %s' % [e[1] for e in got])
        cx.oblige(is_timed_out(cx.deref(got[0][2][0])), 'time', 'another error than TimedOut: %r' % (cx.deref(got[0][2][0]),))
        cx.oblige(not cx.D.open and not l[0].o.open, 'threads', 'goes on after it timed out')
        t.ended(cx, None, [u])


# ------------------------------------------------------------ debounce
def debounce(t, cx):
    o = t.op(cx, 'Observable::debounce', [cx.d, t.sched_ctor(cx)])
    cx.src = []
    early = cx.path.choose(2)
    role = cx.path.choose(2)

    def in_sub(cx, obsv, u):
        cx.oblige(obsv.kind == ('src', 0), 'sched', 'another source')
        cx.src.append(u)
        if early:
            debounce_event(t, cx, u, t.the_sched(cx))
            t.reach.add('debounce')
            raise Stop()
        t.meanwhile(cx, 'in subscribe')
    cx.in_sub = in_sub
    t.subscribed(cx, o)
    S = t.the_sched(cx)
    posts = [e for e in cx.ev if e[0] == 'post']
    cx.oblige(len(posts) == 1 and posts[0][1] is S, 'sched', '%d tasks are posted for one subscription' % len(posts))
    cx.oblige(len(cx.src) == 1, 'sched', 'the source is subscribed %d times' % len(cx.src))
    cx.oblige(not [e for e in cx.ev if e[0] in ('D', 'sleep')], 'sched', 'subscribing delivers or waits')
    if not role:
        if not cx.D.open:
            return t.ended(cx, S, cx.src)
        return debounce_event(t, cx, cx.src[0], S)
    # the worker: the cell may at any time be given a newer item.  Invariant at the head of a
    # round: what is in the cell is newer than everything delivered
    cell = debounce_cell(cx)
    g = {'items': [], 'last': -1}

    def fresh():
        g['items'].append(cx.path.fresh('item'))
        return some(g['items'][-1])

    def age(v):
        for i, x in enumerate(g['items']):
            if opv.same(v, x):
                return i
        return None

    def on_lock(cx, s, mode):
        if s is cell and cx.path.choose(2):
            s.v = fresh()
    cx.on_lock_, cx.on_unlock_ = on_lock, lambda cx, s, mode: None
    cell.v = NONE

    def begin(cx, r):
        g['m'], g['t'], g['open'] = len(cx.ev), cx.clock, cx.D.open
        # anything may be in the cell when a round begins
        g['items'], g['last'] = [], -1
        cell.v = fresh() if cx.path.choose(2) else NONE

    def check(cx, r, leaving):
        ev = cx.ev[g['m']:]
        for e in ev:
            if e[0] == 'D':
                i = age(e[2][0]) if e[1] == 'next' else None
                cx.oblige(i is not None, 'events', 'the worker delivers what nobody emitted')
                cx.oblige(i > g['last'], 'events', 'the worker delivers an item twice or after a newer one')
                g['last'] = i
        v = cell.v
        if not (isinstance(v, Agg) and v.var == 0) and not leaving:
            i = age(v.f[0]) if isinstance(v, Agg) else None
            cx.oblige(i is not None and i > g['last'], 'events', 'an item already delivered stays to be delivered again')
        slept = any(e[0] == 'sleep' for e in ev)
        left_early = not g['open']
        if leaving:
            cx.oblige(not cx.D.open, 'threads', 'the worker ends though the subscription lives')
            cx.oblige(cx.clock <= g['t'] + cx.d, 'threads', 'the thread stays longer than one period')
        else:
            cx.oblige(slept, 'spin', 'a round without waiting')
            cx.oblige(cx.clock <= g['t'] + cx.d, 'threads', 'a round takes longer than one period')
            cx.oblige(not left_early, 'threads', 'goes on for a subscription that has ended')
    cx.round = Round(t, begin, lambda cx, r: check(cx, r, False))
    cx.apply(posts[0][2], [])
    t.idle(cx)
    if cx.round.n == 0:
        begin(cx, 0)
    check(cx, cx.round.r, True)
    t.ended(cx, S, cx.src)


def debounce_cell(cx):
    l = [c for c in cx.cells if c.birth and isinstance(c.v, (Agg, SymOpt)) and getattr(c.v, 'k', OPT) == OPT]
    if len(l) != 1 or len([c for c in cx.cells if c.birth]) != 1:
        raise Unsupported('debounce: state of another form')
    return l[0]


def debounce_event(t, cx, u, S):
    if not u.open:
        return
    cell = debounce_cell(cx)
    cell.v = some(cx.path.fresh('item')) if cx.path.choose(2) else NONE
    m, was = len(cx.ev), cx.D.open
    before = cell.v
    k = cx.path.choose(3)
    name, args = fire(cx, u, k)
    t.idle(cx)
    what = EV[k] + ' of the source'
    if k == 0:
        cx.oblige(not t.since(cx, m, 'post'), 'sched', what + ': posted')
        got = t.since(cx, m, 'D')
        cx.oblige(not got, 'events', what + ': delivered on the emitting thread')
        cx.oblige(isinstance(cell.v, Agg) and (cell.v.var == 0 or opv.same(cell.v, before) or eqv(cx, cell.v.f[0], args[0]) is not False
                  and cx.path.implied(zbool(eqv(cx, cell.v.f[0], args[0])))), 'events', what + ': something else is stored')
        cx.oblige(cx.D.open == was and bool(u.open), 'events', what + ': given up')
        t.leave(cx)
    elif was:
        expect(t, cx, m, name, args, what)
    t.ended(cx, S, [u])


def mk(name, f):
    return lambda P: Timed(P, name, {name: f})


TASKS = {n: mk(n, f) for n, f in [('observe_on', observe_on), ('subscribe_on', subscribe_on), ('interval', interval),
                                  ('timer', timer), ('timeout', timeout), ('debounce', debounce)]}
