"""Combinators whose inputs run on different threads (C11).

The operator is set up by its own code; then any one of its input handlers runs while other
threads may change the operator's shared cells between any two of its critical sections.
What an operator hands to its StreamController is judged; that the StreamController and the
Observer behave under races is proved in StreamController/threads and Observer/threads.

merge, flat_map  - whatever the shared cells hold, an item is passed on exactly once and a
                   completion of an input reports exactly that input's serial, once.
zip              - every critical section is a push of the own item, a pop of one full row, or
                   no change; rows popped are passed on, exactly once; after its push a handler
                   only ends having popped a row or seen that none is full (so never more rows are
                   full than handlers are on their way), or that the subscription is over.
take, amb        - ghost state (number of items let through / the winner) and an inferred
                   invariant between it and the shared cells, preserved by every critical
                   section; one section of each handler is where the ghost state changes.
"""
import time
import z3
from .core import *
from . import core, prims, maps, abs as A, opv
from .opv import OpTask, Failure, same, veq, CONTRACTS, Lockstep
from ..spec import ops as O


class CSctl(A.ASctl):
    """StreamController as its user sees it while other threads are using it, too"""

    def live(self, cx):
        if not cx.closed and cx.path.choose(2):
            cx.closed = True
        return not cx.closed

    def rec(self, cx, *ev):
        cx.callout('the subscriber')
        cx.ev.append(ev)
        cx.task.on_ev(cx, ev)

    def sink_next(self, cx, x):
        self.rec(cx, 'next', x)

    def sink_error(self, cx, e):
        self.rec(cx, 'error', e)

    def sink_complete(self, cx, s):
        self.rec(cx, 'complete', s)

    def force(self, cx):
        self.rec(cx, 'force')

    def abort(self, cx, s):
        self.rec(cx, 'abort', s)

    def finalize(self, cx):
        self.rec(cx, 'finalize')


class OpConc(OpTask):
    """merge, flat_map"""
    C14 = False

    def __init__(self, P, name, k=None):
        spec = O.OPS[name]
        params = [(kk, n) for n, kk in spec.PARAMS.items() if kk in ('nat', 'obsfn')]
        if k is not None:
            kn = [n for n, kk in spec.PARAMS.items() if kk == 'arity'][0]
            params = [('arity', kn), ('list', None)] + params
        super().__init__(P, name, spec, P.method('Observable::' + name), params)
        self.k = k
        self.policy = None

    def reach_ok(self):
        return self.disch > 0 and {'next', 'complete'} <= self.reach

    # ---- hooks
    def on_write(self, cx, slot, path, nv):
        pass

    on_abs_write = on_close = on_write

    def close_others(self, cx, s, n):
        pass

    def iter_next(self, cx, it):
        raise Unsupported('iteration over an unknown number of things')

    def loop_head(self, cx, key, bb, fr, visits):
        v = visits.setdefault(bb, [])
        live = live_in(self.P.fns[key])[bb]
        snap = ([self.deep(fr[i].v, None) for i in sorted(live)], self.ghost(cx), len(cx.ev))
        if cx.conc and v and all(same(x, y, -30) for x, y in zip(v[-1][0], snap[0])) and len(v[-1][1]) == len(snap[1]) and all(
                same(x, y) for x, y in zip(v[-1][1], snap[1])):
            if len(cx.secs) == v[-1][3] and snap[2] == v[-1][2]:
                cx.fail('spin', 'a loop in %s never ends' % key)
            raise Stop()
        v.append(snap + (len(cx.secs),))
        if len(v) > 9:
            raise Unsupported('loop in ' + key)

    def ghost(self, cx):
        return ()

    def on_ev(self, cx, ev):
        pass

    def mine(self, cx, s):
        return cx.conc and s.birth and any(s is c for c in cx.cells)

    def on_lock(self, cx, s, mode):
        if not self.mine(cx, s):
            return
        if any(self.mine(cx, h) for h, m in cx.held):
            raise Unsupported('a lock inside a lock')
        self.interfere(cx, s)
        cx.pre = s.v

    def on_unlock(self, cx, s, mode):
        if not self.mine(cx, s):
            return
        cx.secs.append((s, cx.pre, s.v))
        self.on_sec(cx, s, cx.pre, s.v)

    def havoc_cell(self, cx, s):
        sh = self.shape(s.ty, s.v)
        if sh is None:
            raise Unsupported('shared state of an unknown kind')
        s.v = self.fresh_of(cx, sh, s.name or 'cell', s.v, lambda kind, name: None)

    def interfere(self, cx, s):
        self.havoc_cell(cx, s)

    def on_sec(self, cx, s, pre, post):
        pass

    def on_sub(self, cx, obsv, o):
        cx.callout('a source (subscribe)')
        if not cx.conc:
            self.shared(cx)
            cx.conc = True
        o.src = obsv.kind
        cx.ev.append(('sub', obsv.kind, o))
        if cx.setup:
            cx.ports.append(o)

    def shared(self, cx):
        """the first source is being subscribed: from here on others run, too"""

    def make_D(self, cx):
        D = A.AObs(cx, None, None, None)
        D.down = True
        return D

    # ---- judging
    def race(self, cx, ok_, msg):
        cx.oblige(ok_, 'race', '%s: %s' % (cx.evname, msg))

    def outs(self, cx, *kinds):
        return [e for e in cx.ev if e[0] in kinds]

    def judge(self, cx, o, k, arg):
        inner = o.src[0] == 'obs'
        nx, term = self.outs(cx, 'next'), self.outs(cx, 'error', 'complete', 'force', 'finalize')
        if k == 'next' and self.name == 'flat_map' and not inner:
            subs = self.outs(cx, 'sub')
            self.race(cx, not nx and not term, 'an outer item makes it call %s' % [e[0] for e in nx + term])
            if not cx.closed or subs:
                self.race(cx, len(subs) == 1, '%d inner sources subscribed for one item' % len(subs))
                self.race(cx, zand([subs[0][1][1] == cx.f(arg)]), 'another inner source than the function gave')
                cx.inner = subs[0][2]
        elif k == 'next':
            self.one(cx, o, 'next', arg)
        elif k == 'complete':
            self.race(cx, not nx, 'emits an item')
            if not cx.closed or term:
                self.race(cx, [e[0] for e in term] == ['complete'], 'an input that completes must be reported once, the code calls %s' % [e[0] for e in term])
                self.race(cx, cx.eq(cx.deref(term[0][1]), o.serial), 'the completion of another input is reported')
            self.race(cx, not self.outs(cx, 'abort', 'sub'), 'cuts an input when another completes')
        else:
            self.one(cx, o, 'error', arg)

    def one(self, cx, o, k, arg):
        l = self.outs(cx, 'next', 'error', 'complete', 'force', 'finalize', 'abort', 'sub')
        if cx.closed and not l:
            return
        self.race(cx, [e[0] for e in l] == [k], 'one %s must be passed on once, the code calls %s' % (k, [e[0] for e in l]))
        self.race(cx, veq(cx, l[0][1], arg), 'something else is passed on')

    def body(self, path):
        cx = Ctx(self.P, path, self)
        cx.contracts = dict(CONTRACTS)
        cx.contracts['StreamController::new'] = lambda cx, a, f, t: CSctl(cx, A.recv(cx, a[0]))
        cx.contracts['StreamController::is_subscribed'] = lambda cx, a, f, t: A.recv(cx, a[0]).live(cx)
        cx.ports, cx.sctls, cx.ev, cx.secs = [], [], [], []
        cx.conc, cx.closed, cx.setup, cx.inner = False, False, False, None
        cx.clock = path.fresh('t0', 'nat')
        cx.evname = 'construction'
        cx.L = None
        self.begin(cx)
        try:
            vals, sp = self.make_params(cx)
            cx.f = sp.get('f')
            cx.sp = sp
            try:
                ob = cx.deref(cx.call_fn(self.method, [Ref(Slot(A.AObsv(cx, ('src', 0))))] + vals))
                cx.epoch = 1
                cx.setup = True
                cx.evname = 'subscribe'
                ob.subscribe(cx, self.make_D(cx))
            except Panic as e:
                cx.fail('panic', 'panics: %s' % e)
            for e in cx.ev:
                self.race(cx, e[0] == 'sub', 'calls %s before any input has emitted' % e[0])
            cx.setup = False
            if not cx.ports:
                return
            self.start(cx)
            o = cx.ports[path.choose(len(cx.ports))] if len(cx.ports) > 1 else cx.ports[0]
            self.event(cx, o)
            if cx.inner is not None:
                self.event(cx, cx.inner)
        finally:
            self.fns |= cx.seen

    def begin(self, cx):
        pass

    def start(self, cx):
        pass

    def event(self, cx, o):
        path = cx.path
        if not hasattr(o, 'user'):
            raise Unsupported('an input without an observer of the StreamController')
        c = path.choose(3)
        k = ('next', 'error', 'complete')[c]
        arg = path.fresh('x') if c < 2 else None
        cx.evname = '%s on %s while other inputs run' % (k, '%s%s' % o.src if not is_z3(o.src[1]) else 'an inner source')
        del cx.ev[:], cx.secs[:]
        cx.cur, cx.kind, cx.arg = o, k, arg
        self.fresh_event(cx)
        try:
            cx.apply(o.user[c], [o.serial] + ([arg] if c < 2 else []))
        except Panic as e:
            cx.fail('panic', '%s: panics: %s' % (cx.evname, e))
        for s, m in cx.held:
            cx.fail('lock', 'returns with %s locked' % cx.slot_name(s))
        self.reach.add(k)
        self.judge(cx, o, k, arg)

    def fresh_event(self, cx):
        pass

    def run(self):
        t = time.time()
        self.go()
        self.wall = time.time() - t
        return self

    def go(self):
        self.failures, self.obl, self.disch, self.cats = [], 0, 0, {}
        ex = Explorer(20000)
        ex.run(self.body)
        self.paths, self.queries, self.solver_s = ex.paths, ex.queries, ex.solver_s


class ZipConc(OpConc):
    def start(self, cx):
        self.fresh_event(cx)

    def fresh_event(self, cx):
        cx.pushed, cx.rows, cx.full, cx.popped = False, [], None, False

    def begin(self, cx):
        self.fresh_event(cx)
        cx.cur = None

    def ghost(self, cx):
        if cx.closed:
            del cx.rows[:]
        return [cx.pushed, cx.closed, cx.popped, list(cx.rows)]

    def queues(self, cx, v):
        v = cx.deref(v)
        if not (isinstance(v, ListV) and len(v.items) == self.k):
            raise Unsupported('rows of another form')
        return [cx.as_seq(x) for x in v.items]

    def shared(self, cx):
        cells = [c for c in cx.cells if c.birth]
        if len(cells) != 1:
            raise Unsupported('shared state of another form')
        for q in self.queues(cx, cells[0].v):
            self.race(cx, z3.Length(q) == 0, 'items are queued before any came')

    def on_sec(self, cx, s, pre, post):
        a, b = self.queues(cx, pre), self.queues(cx, post)
        p = cx.path
        L = z3.Length
        if cx.setup or cx.kind != 'next':
            self.race(cx, zand([x == y for x, y in zip(a, b)]), 'changes the queues')
            return
        i = cx.cur.src[1]
        for push in (0, 1):
            c = list(a)
            if push:
                if cx.pushed:
                    continue
                c[i] = z3.Concat(c[i], z3.Unit(zint(cx.arg)))
            rows = []
            for pops in range(3):
                if p.implied(zand([x == y for x, y in zip(c, b)])):
                    cx.pushed = cx.pushed or bool(push)
                    cx.rows += rows
                    cx.popped = cx.pushed and (cx.popped or bool(rows))
                    cx.full = z3.And(*[L(q) > 0 for q in b])
                    self.race(cx, True, 'a section')
                    return
                if not p.implied(z3.And(*[L(q) > 0 for q in c])):
                    break
                rows = rows + [[q[0] for q in c]]
                c = [z3.SubSeq(q, 1, L(q) - 1) for q in c]
        self.race(cx, zand([x == y for x, y in zip(a, b)]), 'a change of the queues that is neither the push of the own item nor the pop of a full row')

    def on_ev(self, cx, ev):
        if ev[0] == 'next':
            if cx.closed:
                cx.ev.pop()
                return
            if not cx.rows:
                self.race(cx, False, 'a row that was not taken from the queues is passed on')
            r = cx.rows.pop(0)
            self.race(cx, veq(cx, ev[1], r), 'another row than the one taken is passed on')
            cx.ev.pop()

    def judge(self, cx, o, k, arg):
        if k != 'next':
            return super().judge(cx, o, k, arg)
        bad = self.outs(cx, 'error', 'complete', 'force', 'finalize', 'abort', 'sub')
        self.race(cx, not bad, 'an item makes it call %s' % [e[0] for e in bad])
        if not cx.closed:
            self.race(cx, cx.pushed, 'the item is not queued')
            self.race(cx, not cx.rows, 'a row taken from the queues is dropped')
            # at most one row becomes full with each push: full rows <= handlers that have
            # pushed and neither popped one nor seen that none is full
            if not cx.popped:
                self.race(cx, z3.Not(cx.full) if cx.full is not None else False, 'ends though a full row is queued')


class Houdini(OpConc):
    """shared cells related to ghost state by an inferred invariant"""
    POL = ('lastw', 'last', 'firstw', 'first')

    def begin(self, cx):
        cx.g = None
        cx.vals = []

    def leaves(self, cx):
        out = []

        def add(n, s, v):
            if s in ('int', 'nat'):
                out.append((n, 'int', v))
            elif s == 'bool':
                out.append((n, 'bool', v))
            elif s[0] == 'opt':
                c, x = as_opt(v)
                out.append((n, 'opt', (c, x)))
            elif s[0] == 'tup':
                for i, y in enumerate(s[1]):
                    add('%s.%d' % (n, i), y, v.f[i])
            else:
                raise Unsupported('shared state of another form')
        for i, c in enumerate([c for c in cx.cells if c.birth and c in cx.base]):
            s = self.shape(c.ty, c.v)
            if s is None:
                raise Unsupported('shared state of an unknown kind')
            add('c%d' % i, s, c.v)
        return out

    def shared(self, cx):
        cx.base = [c for c in cx.cells if c.birth]
        self.inits(cx)
        self.check(cx, 'init', self.leaves(cx), self.g0(cx))

    def inits(self, cx):
        for n, k, v in self.leaves(cx):
            if k == 'int' and isinstance(v, int):
                K = self.consts.setdefault(n, [])
                if v not in K and len(K) < 2:
                    K.append(v)

    def interfere(self, cx, s):
        if s not in cx.base:
            raise Unsupported('state shared later')
        for c in cx.base:
            self.havoc_cell(cx, c)
        cx.g = self.gfresh(cx)
        for key, c in self.cands(cx, self.leaves(cx), cx.g):
            if key not in self.dead:
                cx.path.add(zbool(c))
        if cx.path.check() == z3.unsat:
            raise Stop()

    def on_sec(self, cx, s, pre, post):
        cx.vals.append((s, same(pre, post), self.leaves(cx), cx.g))

    def fresh_event(self, cx):
        cx.vals = []

    def witness(self, cx):
        n = len(cx.vals)
        if not n:
            return None
        w = [i for i in range(n) if not cx.vals[i][1]]
        p = self.policy
        if p == 'lastw':
            return w[-1] if w else n - 1
        if p == 'firstw':
            return w[0] if w else n - 1
        return n - 1 if p == 'last' else 0

    def check(self, cx, what, leaves, g):
        for key, c in self.cands(cx, leaves, g):
            if key in self.dead:
                continue
            if isinstance(c, bool) and c or cx.path.implied(zbool(c)):
                self.obl += 1
                self.disch += 1
                self.cats['race'] = self.cats.get('race', 0) + 1
                continue
            self.dead[key] = 1
            self.changed = True

    def judge(self, cx, o, k, arg):
        w = self.witness(cx)
        for i, (s, un, lv, g) in enumerate(cx.vals):
            if i == w:
                g = self.step(cx, o, k, g)
            self.check(cx, k, lv, g)
        self.decide(cx, o, k, arg, cx.vals[w][3] if w is not None else None)

    def body(self, path):
        super().body(path)

    def go(self):
        best = None
        for p in self.POL:
            self.policy, self.dead, self.consts = p, {}, {}
            self.reach = set()
            for rnd in range(60):
                self.changed = False
                super().go()
                if not self.changed:
                    break
            if best is None or len(self.failures) < len(best[0]):
                best = (self.failures, self.obl, self.disch, dict(self.cats), p)
            if not self.failures:
                break
        self.failures, self.obl, self.disch, self.cats, self.policy = best


class TakeConc(Houdini):
    def g0(self, cx):
        return {'K': z3.IntVal(0), 'G': z3.IntVal(0)}

    def gfresh(self, cx):
        return {'K': cx.path.fresh('K', 'nat'), 'G': cx.path.fresh('G', 'nat')}

    def cands(self, cx, lv, g):
        p = cx.pints[0][1]
        K, G = g['K'], g['G']
        m = z3.If(K < p, K, p)
        out = [(('G=min',), G == m), (('G<=p',), G <= p), (('G<=K',), G <= K)]
        for n, k, v in lv:
            if k == 'int':
                for s, t in (('K', K), ('G', G), ('min', m), ('p-G', p - G), ('p-min', p - m), ('p-K', p - K)):
                    out.append((('=' + s, n), v == t))
                out += [(('>=G', n), v >= G), (('<=p', n), v <= p), (('>=0', n), v >= 0), (('>=K', n), v >= K), (('>=m', n), v >= m), (('sum', n), v + G <= p)]
            elif k == 'bool':
                v = zbool(v)
                out += [(('b=', n), v == (G >= p)), (('b!', n), v == (G < p)), (('bK', n), v == (K >= p)), (('b!K', n), v == (K < p)),
                        (('b->', n), z3.Implies(v, G >= p)), (('!b->', n), z3.Implies(z3.Not(v), G < p)), (('b->!', n), z3.Implies(v, G < p))]
        return out

    def step(self, cx, o, k, g):
        if k != 'next':
            return g
        return {'K': g['K'] + 1, 'G': g['G'] + len(self.outs(cx, 'next'))}

    def decide(self, cx, o, k, arg, g):
        nx = self.outs(cx, 'next')
        if k != 'next':
            return OpConc.judge(self, cx, o, k, arg)
        self.race(cx, len(nx) <= 1, 'one item is passed on %d times' % len(nx))
        for e in nx:
            self.race(cx, veq(cx, e[1], arg), 'another item is passed on')
        p = cx.pints[0][1]
        self.race(cx, g['G'] + len(nx) <= p if g is not None else not nx, 'more than n items may be let through')


class AmbConc(Houdini):
    def g0(self, cx):
        return {'set': z3.BoolVal(False), 'W': z3.IntVal(0)}

    def serials(self, cx):
        return [o.serial for s in cx.abs if isinstance(s, A.ASctl) for _, o, _ in s.ents]

    def gfresh(self, cx):
        w = cx.path.fresh('W')
        cx.path.add(z3.Or(*[w == s for s in self.serials(cx)]))
        return {'set': cx.path.fresh('won', 'bool'), 'W': w}

    def cands(self, cx, lv, g):
        S, W = g['set'], g['W']
        out = []
        for n, k, v in lv:
            if k == 'opt':
                c, x = v
                out.append((('opt', n), z3.And(zbool(c) == S, z3.Implies(S, x == W) if x is not None and is_scalar(x) else z3.Not(S))))
                out.append((('opt?', n), zbool(c) == S))
            elif k == 'int':
                for kv in self.consts.get(n, ()):
                    out.append((('k', n, kv), z3.And((v == kv) == z3.Not(S), z3.Implies(S, v == W))))
                    out.append((('k+1', n, kv), z3.And((v == kv) == z3.Not(S), z3.Implies(S, v == W + 1))))
                out.append((('W', n), z3.Implies(S, v == W)))
            elif k == 'bool':
                out.append((('b', n), zbool(v) == S))
                out.append((('b!', n), zbool(v) != S))
        return out

    def won(self, o, g):
        return z3.Or(z3.Not(g['set']), g['W'] == o.serial)

    def step(self, cx, o, k, g):
        return {'set': z3.BoolVal(True), 'W': z3.If(g['set'], g['W'], z3.IntVal(o.serial))}

    def decide(self, cx, o, k, arg, g):
        l = self.outs(cx, 'next', 'error', 'complete', 'force')
        want = {'next': ['next'], 'error': ['error']}.get(k)
        if g is None:
            self.race(cx, False, 'the winner is not looked up')
        won = self.won(o, g)
        if l:
            self.race(cx, won, 'an input that lost calls %s' % l[0][0])
            self.race(cx, len(l) == 1 and ([l[0][0]] == want or want is None and l[0][0] in ('complete', 'force')), 'the winner\'s %s makes it call %s' % (k, [e[0] for e in l]))
            if k != 'complete':
                self.race(cx, veq(cx, l[0][1], arg), 'something else is passed on')
        elif not cx.closed:
            self.race(cx, z3.Not(won), 'the winner\'s %s is dropped' % k)
        for e in self.outs(cx, 'abort'):
            if k == 'next' or not l:
                self.race(cx, z3.If(g['set'], g['W'], z3.IntVal(o.serial)) != zint(cx.deref(e[1])), 'the winner is cut')
        if self.outs(cx, 'finalize') and (k == 'next' or not l):
            self.race(cx, False, 'ends the subscription')


def several(cls, name, ks):
    class All(OpConc):
        def __init__(self, P):
            self.P, self.name = P, name
            self.failures, self.obl, self.disch, self.cats, self.unknown = [], 0, 0, {}, []
            self.fns, self.reach, self.paths, self.queries, self.solver_s = set(), set(), 0, 0, 0.0

        def reach_ok(self):
            return all(t.reach_ok() for t in self.parts)

        def run(self):
            t0 = time.time()
            self.parts = [cls(self.P, name, k) for k in ks]
            for t in self.parts:
                t.run()
                self.failures += t.failures
                self.obl += t.obl
                self.disch += t.disch
                for c, n in t.cats.items():
                    self.cats[c] = self.cats.get(c, 0) + n
                self.fns |= t.fns
                self.paths += t.paths
                self.queries += t.queries
                self.solver_s += t.solver_s
            self.wall = time.time() - t0
            return self
    return All


TASKS = {
    'merge/threads': several(OpConc, 'merge', (1, 2, 3)),
    'flat_map/threads': several(OpConc, 'flat_map', (None,)),
    'zip/threads': several(ZipConc, 'zip', (1, 2, 3)),
    'take/threads': several(TakeConc, 'take', (None,)),
    'amb/threads': several(AmbConc, 'amb', (1, 2, 3)),
}
