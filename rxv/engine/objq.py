"""The scheduler's queue and the schedulers."""
import time
import z3
from .core import *
from . import abs as A, prims
from .prims import fn
from .objv import ObjTask, eqv, show
from .objtab import con
from .objsc import reach_cells


class GQ(Abs):
    """a queue of unknown length: n tasks nobody knows, then the ones appended here"""
    def __init__(self, cx, n, mk):
        self.n, self.app, self.mk = n, (), mk
        self.log = []

    def snap(self):
        return (self.n, self.app, list(self.log))

    def length(self, cx):
        return zint(self.n) + len(self.app)

    def m_len(self, cx, a, f):
        return self.length(cx)

    def m_is_empty(self, cx, a, f):
        return self.length(cx) == 0

    def m_push_back(self, cx, a, f):
        self.app += (a[1],)
        self.log.append(('push', a[1]))
        return UNIT
    m_push = m_push_back

    def m_push_front(self, cx, a, f):
        self.log.append(('push-front', a[1]))
        return UNIT

    def m_pop_front(self, cx, a, f):
        if cx.path.br(zint(self.n) > 0):
            self.n = self.n - 1
            t = self.mk()
        elif self.app:
            t, self.app = self.app[0], self.app[1:]
        else:
            return NONE
        self.log.append(('pop', t))
        return some(t)

    def m_pop_back(self, cx, a, f):
        if not cx.path.br(self.length(cx) > 0):
            return NONE
        t = self.mk()
        self.log.append(('pop-back', t))
        return some(t)
    m_pop = m_pop_back

    def m_remove(self, cx, a, f):
        if not (isinstance(a[1], int) and a[1] == 0):
            self.log.append(('pop-back', None))
            raise Unsupported('removal from the middle of a queue')
        r = self.m_pop_front(cx, a, f)
        if r.var == 0:
            raise Panic('removal index out of bounds')
        return r.f[0] if 'Vec::' in cx.P.short(f['path']) and 'VecDeque' not in f['path'] else r

    def m_front(self, cx, a, f):
        if cx.path.br(zint(self.n) > 0):
            return some(Ref(Slot(self.mk())))
        return some(Ref(Slot(self.app[0]))) if self.app else NONE
    m_first = m_front

    def m_clear(self, cx, a, f):
        self.n, self.app = 0, ()
        self.log.append(('clear',))
        return UNIT

    def m_drain(self, cx, a, f):
        return self.m_clear(cx, a, f)

    def m_deref(self, cx, a, f):
        return a[0]

    def m_deref_mut(self, cx, a, f):
        return a[0]

    def __repr__(self):
        return 'queue(%s+%d)' % (self.n, len(self.app))


# ------------------------------------------------------------ Condvar
@fn('Condvar::wait_while')
def _ww(cx, a, f):
    g = a[1]
    if not isinstance(g, Guard):
        raise Unsupported('wait on %r' % (g,))
    cx.task.on_wait(cx, g, a[2])
    return ok(g)


@fn('Condvar::wait', 'Condvar::wait_timeout')
def _cw(cx, a, f):
    g = a[1]
    if not isinstance(g, Guard) or 'timeout' in f['path']:
        raise Unsupported('wait on %r' % (g,))
    cx.task.on_wait(cx, g, None)
    return ok(g)


@fn('Condvar::notify_one', 'Condvar::notify_all')
def _ntf(cx, a, f):
    cx.ev.append(('notify', f['path'].split('::')[-1], [cx.slot_name(s) for s, m in cx.held]))
    return UNIT


class QTask(ObjTask):
    METHODS = ('post', 'stop', 'scheduling')

    def __init__(self, P):
        super().__init__(P, 'AsyncFunctionQueue')
        self.want = set(self.METHODS)
        self.watch = None

    def task_(self, cx):
        self.ntask += 1
        n = 'task%d' % self.ntask
        w = A.AFw(cx, self.ufn(cx, n))
        w.tag = n
        return w

    def build(self, cx):
        q = cx.call_fn(cx.P.method('AsyncFunctionQueue::new'), [])
        cells = []
        v = q
        reach_cells(cx, v, cells)
        self.q = [s for s in cells if isinstance(s.v, (ListV, SeqV))]
        self.flag = [s for s in cells if isinstance(s.v, bool)]
        if len(self.q) != 1 or len(self.flag) != 1 or len(cells) != 2:
            raise Unsupported('queue: state of another form')
        cx.oblige(self.flag[0].v is False and (not isinstance(self.q[0].v, ListV) or not self.q[0].v.items), 'queue', 'a new queue is stopped or not empty')
        self.q, self.flag = self.q[0], self.flag[0]
        self.q.name, self.flag.name = 'queue', 'abort'
        return q

    def holds(self, cx, s):
        return any(h is s for h, m in cx.held)

    def havoc(self, cx, s):
        p = cx.path
        if s is self.q:
            s.v = GQ(cx, p.fresh('n', 'nat'), lambda: self.task_(cx))
        elif s is self.flag:
            # set only with the queue locked (obligation of whoever writes it)
            if s.v is False and not (self.holds(cx, self.q) and self.flag_seen) and p.choose(2):
                s.v = True
        if s is self.q:
            self.flag_seen = False

    def on_lock(self, cx, s, mode):
        if not self.watch or s not in (self.q, self.flag):
            return
        self.havoc(cx, s)
        if s is self.q:
            cx.ev.append(('lock', 'queue'))
            s.v.log = []
            self.len0 = s.v.n
        self.pre[s.id] = s.v.snap() if isinstance(s.v, GQ) else s.v

    def on_unlock(self, cx, s, mode):
        if not self.watch or s not in (self.q, self.flag):
            return
        if s is self.flag:
            b, a = self.pre[s.id], s.v
            self.flag_seen = self.holds(cx, self.q)
            cx.ev.append(('abort?', a) if a is b else ('abort!', a, self.holds(cx, self.q)))
            return
        log = s.v.log if isinstance(s.v, GQ) else [('clear',)]
        for e in log:
            cx.ev.append(('q',) + e)
        if isinstance(s.v, GQ) and log and log[-1][0] == 'pop' or cx.evname == 'stop':
            l = s.v.length(cx) if isinstance(s.v, GQ) else 0
            if not cx.path.feasible(l != 0) if is_z3(l) else l == 0:
                cx.ev.append(('q', 'clear'))
        cx.ev.append(('unlock', 'queue'))

    def on_wait(self, cx, g, cond):
        s = g.slot
        if s is not self.q:
            raise Unsupported('wait on another lock')
        if len(cx.held) > 1:
            cx.fail('lock', 'waits holding another lock')
        cx.ev.append(('wait', cond is not None))
        before = len(cx.ev)
        self.flag_seen = False
        log = s.v.log
        if log:
            raise Unsupported('wait in the middle of a change')
        self.havoc(cx, s)
        if cond is None:
            return
        # it sleeps while cond holds; the reads of cond are made under the lock
        r = cx.apply(cond, [Ref(s)])
        if s.v.log:
            cx.fail('queue', 'the wait condition changes the queue')
        empty = s.v.length(cx) == 0
        if cx.path.br(r):
            # asleep: legitimate only if there is nothing to do
            cx.oblige(empty if is_z3(empty) else bool(empty), 'queue', 'sleeps though a task is queued')
            cx.oblige(any(e[0] == 'abort?' and e[1] is False for e in cx.ev[before:]), 'queue', 'sleeps without having looked for the stop')
            raise Stop()

    def loop_head(self, cx, key, bb, fr, visits):
        if not self.watch:
            return super().loop_head(cx, key, bb, fr, visits)
        if 'scheduling' not in key:
            # (draining the queue: any round, then the last one)
            if bb in visits:
                now = [x.v for x in fr]
                if any(b is not a and isinstance(a, (int, bool, z3.ExprRef)) and not (not is_z3(b) and not is_z3(a) and a == b) for a, b in zip(visits[bb], now)):
                    raise Unsupported('loop in ' + key)
                raise Stop()
            visits[bb] = [x.v for x in fr]
            if self.holds(cx, self.q):
                log = self.q.v.log
                self.havoc(cx, self.q)
                self.q.v.log = log
            return
        if bb not in visits:
            visits[bb] = 1
            self.frame0 = [s.v for s in fr]
            cx.ev.append(('head',))
            return
        self.judge_round(cx, False)
        raise Stop()

    def judge_round(self, cx, exited):
        """one round of the loop, from an arbitrary state"""
        ev = cx.ev
        i0 = max([i for i, e in enumerate(ev) if e[0] == 'head'] or [-1])
        r = ev[i0 + 1:]
        if i0 >= 0:
            cx.oblige(not [e for e in ev[:i0] if e[0] in ('q', 'call')], 'queue', 'tasks are taken before the loop')
        pops = [i for i, e in enumerate(r) if e[0] == 'q' and e[1] == 'pop']
        other = [e for e in r if e[0] == 'q' and e[1] not in ('pop', 'clear')]
        cx.oblige(not other, 'queue', 'the worker changes the queue: %s' % [e[1] for e in other])
        cx.oblige(len(pops) <= 1, 'queue', 'more than one task is taken at a time')
        calls = [(i, e) for i, e in enumerate(r) if e[0] == 'call']
        cx.oblige([e[1] for i, e in calls] == [r[i][2].tag for i in pops], 'queue', 'takes %s and runs %s' % (
            [r[i][2].tag for i in pops], [e[1] for i, e in calls]))
        for i in pops:
            # since the queue was locked the stop must have been looked for and not found
            j = max([k for k in range(i) if r[k] in (('lock', 'queue'),) or r[k][0] == 'wait'] or [-1])
            u = min([k for k in range(i, len(r)) if r[k] == ('unlock', 'queue')] or [len(r)])
            looks = [e[1] for e in r[j + 1:u] if e[0] == 'abort?']
            cx.oblige(bool(looks) and not any(looks), 'queue', 'a task is taken without having looked for the stop: it may run after abort returned')
        stop = [e for e in r if e == ('abort?', True)]
        if exited:
            cx.oblige(bool(stop), 'queue', 'the worker ends though nobody stopped it')
            cx.oblige(not pops, 'queue', 'the worker ends having taken a task')
        else:
            waited = any(e[0] == 'wait' for e in r)
            cx.oblige(bool(pops) or waited and not any(e == ('wait', True) for e in r), 'spin', 'a round of the worker neither waits nor takes a task nor ends')
            last = [e[1] for e in r if e[0] == 'abort?']
            cx.oblige(not (pops == [] and last and last[-1] is True), 'queue', 'the worker does not end though it saw the stop')
        self.reach.add('scheduling')

    def body(self, path, m):
        cx = self.context(path)
        cx.contracts = con('FunctionWrapper')
        self.ntask = 0
        self.watch = False
        self.pre = {}
        self.flag_seen = False
        try:
            cx.evname = m
            q = self.build(cx)
            self.watch = True
            cx.ev = []
            f = self.ufn(cx, 'f')
            c = lambda n, a=(): cx.call_fn(cx.P.method('AsyncFunctionQueue::' + n), [Ref(Slot(q))] + list(a))
            try:
                if m == 'post':
                    c('post', [f])
                else:
                    c(m)
            except Panic as e:
                cx.fail('panic', 'panics: %s' % e)
            self.watch = False
            self.quiet_end(cx)
            ev = cx.ev
            if m == 'scheduling':
                return self.judge_round(cx, True)
            self.reach.add(m)
            muts = [e for e in ev if e[0] == 'q']
            ntf = [i for i, e in enumerate(ev) if e[0] == 'notify']
            cx.oblige(not [e for e in ev if e[0] == 'call'], 'queue', '%s runs a task itself' % m)
            if m == 'post':
                push = [i for i, e in enumerate(ev) if e[0] == 'q' and e[1] == 'push']
                cx.oblige(len(muts) == 1 and len(push) == 1, 'queue', 'post does %s to the queue' % [e[1] for e in muts])
                # (one worker, which sleeps only on an empty queue)
                cx.oblige(any(i > self.region_start(ev, push[0]) for i in ntf) or zint(self.len0) > 0, 'queue', 'post does not wake the worker')
                t = ev[push[0]][2]
                cx.ev = []
                t = cx.deref(t)
                cx.apply(t.func if isinstance(t, A.AFw) else t, [UNIT] if isinstance(t, A.AFw) else [])
                cx.oblige([e[1] for e in cx.ev if e[0] == 'call'] == ['f'], 'queue', 'the queued task runs %s' % [e[1] for e in cx.ev])
                cx.oblige(not [e for e in ev if e[0] == 'abort!'], 'queue', 'post stops the queue')
            else:
                sets = [(i, e) for i, e in enumerate(ev) if e[0] == 'abort!']
                was = any(e == ('abort?', True) for e in ev)
                cx.oblige(bool(sets) or was or self.flag.v is True, 'queue', 'stop does not set the flag')
                for i, e in sets:
                    cx.oblige(e[1] is True, 'queue', 'stop clears the flag')
                    cx.oblige(e[2], 'queue', 'the flag is set without the queue locked: the worker may miss it and sleep for ever, or take a task afterwards')
                    cx.oblige(any(j > self.region_start(ev, i) for j in ntf), 'queue', 'stop does not wake the worker')
                cx.oblige(not [e for e in muts if e[1] in ('push', 'push-front')], 'queue', 'stop queues a task')
                cx.oblige(not sets or any(e[1] == 'clear' for e in muts), 'queue', 'stop does not discard the tasks that are queued')
        finally:
            self.fns |= cx.seen

    def region_start(self, ev, i):
        return max([k for k in range(i) if ev[k] == ('lock', 'queue')] or [-1])

    def run(self):
        t0 = time.time()
        for m in self.METHODS:
            self.explore(lambda p: self.body(p, m))
        self.wall = time.time() - t0
        return self


# ------------------------------------------------------------ schedulers
class AQueue(A.Callee):
    cls = 'queue'
    birth = 0


class SchedTask(ObjTask):
    """the two schedulers over the queue's contract"""
    def __init__(self, P):
        super().__init__(P, 'schedulers')
        self.want = {'new', 'post', 'abort', 'default'}

    def on_spawn(self, cx, f):
        cx.ev.append(('spawn', f))
        return Opaque('handle')

    def body(self, path, m):
        cx = self.context(path)

        def d(n):
            def g(cx, a, f, t):
                q = cx.deref(a[0]) if a else None
                if n == 'scheduling' and any(e[:2] == ('queue', n) for e in cx.ev):
                    cx.fail('spin', 'the thread works the queue again after it was stopped')
                    raise Stop()
                cx.ev.append(('queue', n, q) + tuple(a[1:]))
                return UNIT
            return g
        cx.contracts = {'AsyncFunctionQueue::new': lambda cx, a, f, t: AQueue(cx),
                        'AsyncFunctionQueue::clone': lambda cx, a, f, t: cx.deref(a[0])}
        for n in ('post', 'stop', 'scheduling'):
            cx.contracts['AsyncFunctionQueue::' + n] = d(n)
        try:
            cx.evname = m
            f = self.ufn(cx, 'f')
            if m == 'default':
                k = cx.call_fn(cx.P.method('default_scheduler::default_scheduler'), [])
                s = cx.apply(k, [])
                cx.ev = []
                self.meth(cx, 'DefaultScheduler', 'post', s, [f])
                cx.oblige([e[1] for e in cx.ev if e[0] == 'call'] == ['f'] and not [e for e in cx.ev if e[0] == 'spawn'], 'queue',
                          'the default scheduler does not run the task once, in post')
                cx.ev = []
                self.meth(cx, 'DefaultScheduler', 'abort', s, [])
                cx.oblige(not cx.ev, 'queue', 'abort of the default scheduler does something')
                self.reach.add(m)
                return
            k = cx.call_fn(cx.P.method('new_thread_scheduler::new_thread_scheduler'), [])
            cx.oblige(not cx.ev, 'queue', 'a scheduler is made before it is needed')
            s = cx.apply(k, [])
            sp = [e for e in cx.ev if e[0] == 'spawn']
            cx.oblige(len(sp) == 1 and not [e for e in cx.ev if e[0] == 'queue'], 'queue', 'a new scheduler starts %d threads' % len(sp))
            cx.ev = []
            if m == 'new':
                cx.apply(sp[0][1], [])
                w = cx.ev
                cx.oblige(len(w) == 1 and w[0][:2] == ('queue', 'scheduling'), 'queue', 'the thread does %s instead of working the queue' % [e[:2] for e in w])
                q = w[0][2]
                cx.ev = []
                self.meth(cx, 'NewThreadScheduler', 'post', s, [f])
                cx.oblige(len(cx.ev) == 1 and cx.ev[0][2] is q, 'queue', 'posts to another queue than the one the thread works')
            elif m == 'post':
                self.meth(cx, 'NewThreadScheduler', 'post', s, [f])
                w = [e for e in cx.ev]
                cx.oblige([e[:2] for e in w] == [('queue', 'post')], 'queue', 'post does %s' % [e[:2] for e in w])
                g = w[0][3]
                cx.ev = []
                cx.apply(g, [])
                cx.oblige([e[1] for e in cx.ev] == ['f'], 'queue', 'another task than the one posted')
            elif m == 'abort':
                self.meth(cx, 'NewThreadScheduler', 'abort', s, [])
                cx.oblige([e[:2] for e in cx.ev] == [('queue', 'stop')], 'queue', 'abort does %s' % [e[:2] for e in cx.ev])
            self.reach.add(m)
        finally:
            self.fns |= cx.seen

    def meth(self, cx, ty, m, s, args):
        k = [k for k in cx.P.fns if '{closure' not in k and k.endswith('::' + m) and ty in k and ' as ' in k]
        if len(k) != 1:
            raise Unsupported('no %s::%s' % (ty, m))
        return cx.call_fn(k[0], [Ref(Slot(s))] + args)

    def run(self):
        t0 = time.time()
        for m in ('new', 'post', 'abort', 'default'):
            self.explore(lambda p: self.body(p, m))
        self.wall = time.time() - t0
        return self
