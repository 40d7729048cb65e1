"""to_vec: the future against one terminal, for any number of polls and any interleaving.

Every method is executed with arbitrary values found at each lock; the recorded critical
sections and wakes are then put together in every order the locks allow, polls without end,
until no new state appears."""
import time
import z3
from .core import *
from . import abs as A, prims
from .objv import ObjTask, eqv, Failure
from .prims import fn


class Wk(Abs):
    def __init__(self, who):
        self.who = who

    def m_clone(self, cx, a, f):
        return self

    def clone(self, cx):
        return self

    def m_wake(self, cx, a, f):
        cx.callout('a waker')
        cx.ev.append(('wake', self.who))
        return UNIT
    m_wake_by_ref = m_wake

    def m_will_wake(self, cx, a, f):
        o = cx.deref(a[1])
        if o.who == self.who:
            return True
        if cx.path.choose(2):
            cx.ev.append(('same',))
            self.who = o.who = 'cur'
            return True
        return False

    def __repr__(self):
        return 'waker:' + self.who


class TaskCx(Abs):
    def m_waker(self, cx, a, f):
        return Ref(Slot(Wk('cur')))


ERR = Opaque('the error')


def enc(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, Agg) and v.k == OPT:
        return ('N',) if v.var == 0 else ('S', enc(v.f[0]))
    if isinstance(v, Wk):
        return v.who
    if v is ERR:
        return 'err'
    if isinstance(v, Agg):
        return ('A', v.k, v.var) + tuple(enc(x) for x in v.f)
    raise Unsupported('to_vec: state %r' % (v,))


class ToVec(ObjTask):
    M = ('next', 'error', 'complete', 'poll')

    def __init__(self, P):
        super().__init__(P, 'to_vec')
        self.want = set(self.M)

    def dom(self, s):
        t = s.ty
        if t['k'] == 'bool':
            return [False, True]
        if t['k'] == 'adt' and t['p'].split('::')[-1] == 'Option':
            n = t['a'][0].get('p', '').split('::')[-1]
            if n == 'Waker':
                return [NONE, some(Wk('old')), some(Wk('cur'))]
            if n == 'RxError':
                return [NONE, some(ERR)]
        raise Unsupported('to_vec: a state of type %s' % (t,))

    def on_lock(self, cx, s, mode):
        if not cx.on:
            return
        if s is cx.buf:
            s.v = ListV([])
            cx.pre[s.id] = None
        else:
            d = self.dom(s)
            s.v = d[cx.path.choose(len(d))]
            cx.pre[s.id] = enc(s.v)
        cx.ev.append(('acq', s.name, mode, cx.pre[s.id]))

    def on_unlock(self, cx, s, mode):
        if not cx.on:
            return
        if s is cx.buf:
            cx.ev.append(('rel', s.name, tuple(s.v.items)))
        else:
            cx.ev.append(('rel', s.name, enc(s.v)))

    def body(self, path, m):
        cx = self.context(path)
        cx.contracts = A.contracts()
        cx.on = False
        cx.pre = {}
        cx.evname = m
        got = []
        cx.contracts['Observable::subscribe'] = lambda cx, a, f, t: (got.append(a[1:]), A.ASub(cx, PyFn('u', lambda cx: UNIT), PyFn('i', lambda cx: True)))[1]
        cx.contracts['Pin::deref'] = cx.contracts['Pin::deref_mut'] = lambda cx, a, f, t: cx.deref_pin(a[0])
        cx.deref_pin = lambda r: (cx.load(r) if isinstance(r, Ref) else r).f[0]
        try:
            src = A.AObsv(cx, ('src', 0))
            fut = cx.call_fn(cx.P.method('Observable::to_vec'), [Ref(Slot(src))])
            if len(got) != 1:
                cx.fail('future', 'subscribes the source %d times' % len(got))
            cells = [c for c in cx.cells]
            buf = [c for c in cells if isinstance(c.v, (ListV, SeqV))]
            if len(buf) != 1:
                raise Unsupported('to_vec: no buffer')
            cx.buf = buf[0]
            for i, c in enumerate(cells):
                c.name = 'buffer' if c is cx.buf else c.name or 'cell%d' % i
                c.name = '%s%d' % (c.name, i)
            self.init = {c.name: enc(c.v) for c in cells if c is not cx.buf}
            for c in cells:
                if c is not cx.buf:
                    self.dom(c)
            cx.ev = []
            cx.on = True
            r = None
            if m == 'poll':
                k = [k for k in cx.P.fns if k.endswith('Future>::poll') and 'ToVec' in k]
                if len(k) != 1:
                    raise Unsupported('no poll')
                r = cx.call_fn(k[0], [Agg('std::pin::Pin', 0, [Ref(Slot(fut))]), Ref(Slot(TaskCx()))])
            else:
                x = cx.path.fresh('x')
                try:
                    cx.apply(got[0][self.M.index(m)], {'next': [x], 'error': [ERR], 'complete': []}[m])
                except Panic as e:
                    cx.fail('panic', 'panics: %s' % e)
            cx.on = False
            self.quiet_end(cx)
            self.reach.add(m)
            ev = cx.ev
            if m == 'next':
                mut = [e for e in ev if e[0] == 'rel' and e[1] == cx.buf.name and e[2]]
                cx.oblige(len(mut) == 1 and len(mut[0][2]) == 1 and eqv(cx, mut[0][2][0], x), 'future', 'an item: %s is appended' % [e[2] for e in mut])
                cx.oblige(not [e for i, e in enumerate(ev) if e[0] == 'rel' and e[1] != cx.buf.name and e[2] != self.acq(ev, i)[3]], 'future', 'an item changes more than the buffer')
                cx.oblige(not [e for e in ev if e[0] == 'wake'], 'future', 'wakes before the end')
                return
            mut = [e for e in ev if e[0] == 'rel' and e[1] == cx.buf.name and e[2]]
            cx.oblige(not mut, 'future', '%s changes the buffer' % m)
            res = None
            if m == 'poll':
                res = self.result(cx, r)
            self.paths_[m].add((tuple(ev), res))
        finally:
            self.fns |= cx.seen

    def acq(self, ev, i):
        return [e for e in ev[:i] if e[0] == 'acq' and e[1] == ev[i][1]][-1]

    def result(self, cx, r):
        if not isinstance(r, Agg):
            raise Unsupported('poll returns %r' % (r,))
        if r.var == 1:
            return 'pending'
        q = r.f[0]
        if q.var == 1:
            return 'err' if cx.deref(q.f[0]) is ERR else 'other error'
        b = q.f[0]
        while isinstance(b, (ArcV, Ref)) and isinstance(b.slot.v, LockV):
            b = b.slot.v
        return 'ok' if isinstance(b, LockV) and b.slot is cx.buf else 'another list'

    # ---- all interleavings
    def compose(self, term):
        """one terminal and polls without end"""
        T = sorted(self.paths_[term], key=repr)
        Pl = sorted(self.paths_['poll'], key=repr)
        names = sorted(self.init)
        # state: memory, (set of terminal paths still possible, position), locks of T, poll (None|index), position, locks of poll,
        #        result of the last poll, woken
        start = (tuple(self.init[n] for n in names), frozenset(range(len(T))), 0, (), None, 0, (), None, False, False)
        seen, todo = {start}, [start]
        bad = {}
        self.dead_ = 0
        while todo:
            s = todo.pop()
            mem, ts, tp, tl, pi, pp, pl, last, woken, begun = s
            m = dict(zip(names, mem))
            nxt = []
            pack = lambda mm: tuple(mm[n] for n in names)

            def step(e, mm, mine, other):
                """-> (memory, my locks) or None; 'wait' if the lock is held by the other"""
                if e[0] == 'acq':
                    if any(o[0] == e[1] and not (o[1] == 'r' and e[2] == 'r') for o in other):
                        return 'wait'
                    if e[1] in mm and e[3] != mm[e[1]]:
                        return None
                    return mm, mine + ((e[1], 'r' if e[2].startswith('r') else 'w'),)
                if e[0] == 'rel':
                    l = [i for i, o in enumerate(mine) if o[0] == e[1]][-1]
                    if e[1] in mm:
                        mm = dict(mm)
                        mm[e[1]] = e[2]
                    return mm, mine[:l] + mine[l + 1:]
                return mm, mine
            twait = pwait = False
            tdone = True
            # the terminal: all its paths with the same prefix so far
            heads = {}
            for i in ts:
                ev = T[i][0]
                if tp < len(ev):
                    heads.setdefault(ev[tp], []).append(i)
                    tdone = False
            tend = any(tp == len(T[i][0]) for i in ts)
            for e, idx in heads.items():
                r = step(self.norm(e), m, tl, pl)
                if r == 'wait':
                    twait = True
                elif r is not None:
                    mm, mine = r
                    w = woken or e[0] == 'wake' and (e[1] == 'cur')
                    nxt.append((pack(mm), frozenset(idx), tp + 1, mine, pi, pp, pl, last, w, True))
            over = begun and tend and not heads
            if pi is None:
                if not (last not in (None, 'pending')):
                    # a new poll: the last waker is an old one now
                    ren = tuple(self.aged(v) for v in mem)
                    for i in range(len(Pl)):
                        nxt.append((ren, ts if not begun else self.aged_paths(T, ts, tp), tp, tl, i, 0, (), None, False, begun))
            else:
                ev, res = Pl[pi]
                if pp < len(ev):
                    r = step(self.norm(ev[pp]), m, pl, tl)
                    if r == 'wait':
                        pwait = True
                    elif r is not None:
                        mm, mine = r
                        if ev[pp][0] == 'same':
                            mm = {n: self.aliased(v) for n, v in mm.items()}
                        nxt.append((pack(mm), ts, tp, tl, pi, pp + 1, mine, last, woken, begun))
                else:
                    nxt.append((mem, ts, tp, tl, None, 0, (), res, woken, begun))
                    if res != 'pending':
                        if not begun:
                            bad['ready before the source ended'] = 1
                        elif res != ('err' if term == 'error' else 'ok'):
                            bad['after %s the future yields %s' % (term, res)] = 1
            if over and pi is None and last == 'pending' and not woken:
                bad['the source has ended, the future is pending and nobody wakes it'] = 1
            if not nxt and twait and pwait:
                bad['the terminal and a poll wait for each other'] = 1
            for n in nxt:
                if n not in seen:
                    seen.add(n)
                    todo.append(n)
            if len(seen) > 400000:
                raise Unsupported('too many interleavings')
        self.states = len(seen)
        for b in ('ready before the source ended', 'the source has ended, the future is pending and nobody wakes it', 'the terminal and a poll wait for each other'):
            self.obl += 1
            cat = 'lock' if 'wait for' in b else 'future'
            self.cats[cat] = self.cats.get(cat, 0) + 1
            self.disch += b not in bad
        self.obl += 1
        self.cats['future'] += 1
        self.disch += not any(b.startswith('after') for b in bad)
        for b in bad:
            self.failures.append(Failure('lock' if 'wait for' in b else 'future', b, 'ToVec', '', term))

    def norm(self, e):
        if e[0] == 'acq':
            return (e[0], e[1], 'r' if e[2].startswith('r') else 'w', e[3])
        return e

    def aged(self, v):
        return ('S', 'old') if v == ('S', 'cur') else v

    def aliased(self, v):
        return ('S', 'cur') if v == ('S', 'old') else v

    def aged_paths(self, T, ts, tp):
        """a waker the terminal has already taken belongs to an earlier poll now"""
        out = set()
        for i in ts:
            pre = T[i][0][:tp]
            if not any('cur' in repr(e) for e in pre):
                out.add(i)
                # one that has not looked yet may find either
                continue
            ren = tuple(self.age_event(e) for e in T[i][0][:tp])
            suf = self.age_held(T[i][0], tp)
            for j, (ev, _) in enumerate(T):
                if ev[:tp] == ren and ev[tp:] == suf:
                    out.add(j)
        return frozenset(out)

    def age_event(self, e):
        return tuple(self.aged(x) if isinstance(x, tuple) else 'old' if x == 'cur' else x for x in e)

    def age_held(self, ev, tp):
        return tuple(self.age_event(e) for e in ev[tp:])

    def run(self):
        t0 = time.time()
        self.paths_ = {m: set() for m in self.M}
        for m in self.M:
            self.explore(lambda p: self.body(p, m))
        if not self.failures:
            for term in ('error', 'complete'):
                self.compose(term)
        self.wall = time.time() - t0
        return self
