"""Contracts of the library's own building blocks, proved on their MIR.

Two kinds of task:

Seq   - refinement: from every state reachable by any number of calls (closed under the
        methods by breadth-first search over canonical states) each method makes exactly the
        call-outs, in the order, and returns what the contract object of abs.py says.
Conc  - rely/guarantee: every method runs while other threads (and re-entrant calls) may
        change the shared cells between any two of its critical sections.  The rely is the
        least relation closed under what the methods themselves are seen to do, so it is
        inferred, and the obligations hold for any number of threads and any interleaving
        of critical sections.
"""
import time
import z3
from .core import *
from . import core, prims, maps, abs as A, opv
from .opv import OpTask, Failure, same


class ObjTask(OpTask):
    C14 = False

    def __init__(self, prog, name):
        self.P, self.name = prog, name
        self.failures, self.obl, self.disch, self.unknown = [], 0, 0, []
        self.cats, self.fns, self.reach = {}, set(), set()
        self.ctor = False
        self.paths = self.queries = 0
        self.solver_s = 0.0
        self.want = set()

    def reach_ok(self):
        return self.disch > 0 and not (self.want - self.reach)

    # hooks of contract objects
    def on_write(self, cx, slot, path, nv):
        pass

    def on_abs_write(self, cx, ab, what):
        pass

    def before_subscribe(self, cx, obsv, o):
        pass

    def on_sctl(self, cx, s):
        pass

    def on_close(self, cx, o, how):
        if how != 'late':
            cx.callout('the teardown of an observer')

    def close_others(self, cx, s, n):
        pass

    def on_spawn(self, cx, f):
        raise Unsupported('thread::spawn')

    def on_sleep(self, cx, d):
        self.callout(cx, 'sleep')

    def on_sub(self, cx, obsv, o):
        raise Unsupported('subscription')

    def on_subj(self, cx, s, ev, v):
        raise Unsupported('subject')

    def loop_head(self, cx, key, bb, fr, visits):
        visits[bb] = visits.get(bb, 0) + 1
        if visits[bb] > 12:
            raise Unsupported('loop in ' + key)

    def context(self, path):
        cx = Ctx(self.P, path, self)
        cx.contracts = {}
        cx.ev = []
        cx.evname = '?'
        cx.conc = False
        cx.nest = 0
        cx.cls = {}
        cx.reg = {}
        cx.clock = path.fresh('t0', 'nat')
        return cx

    def explore(self, body, n=20000):
        ex = Explorer(n)
        ex.run(body)
        self.paths += ex.paths
        self.queries += ex.queries
        self.solver_s += ex.solver_s

    def ufn(self, cx, name, ret=UNIT):
        def ap(cx, *a):
            cx.ev.append(('call', name, tuple(a)))
            if cx.nest and name in self.spec['nested'][0]:
                self.reenter(cx)
            return ret(cx, *a) if callable(ret) else ret
        u = UFn(name, ap)
        cx.reg[name] = u
        return u

    def quiet_end(self, cx):
        for s, m in cx.held:
            cx.fail('lock', 'returns with %s locked' % cx.slot_name(s))


# ------------------------------------------------------------ shapes
def shape(v, d=0):
    """canonical, hashable form of a finite machine value"""
    if d > 12:
        raise Unsupported('deep state')
    if v is None or isinstance(v, (bool, int, str)):
        return v if not isinstance(v, bool) else ('b', v)
    if is_z3(v):
        return ('z', str(z3.simplify(v)))
    if isinstance(v, Agg):
        return ('A', v.k, v.var, tuple(shape(x, d + 1) for x in v.f))
    if isinstance(v, Clos):
        return ('C', v.key, tuple(shape(x, d + 1) for x in v.caps))
    if isinstance(v, (UFn, PyFn)):
        return ('F', v.name)
    if isinstance(v, FnV):
        return ('fn', v.fn['path'])
    if isinstance(v, BoxV):
        return ('B', shape(v.slot.v, d + 1))
    if isinstance(v, ArcV):
        return ('R', shape(v.slot.v, d + 1))
    if isinstance(v, LockV):
        return ('L', v.kind, shape(v.slot.v, d + 1))
    if isinstance(v, ListV):
        return ('V', v.kind, tuple(shape(x, d + 1) for x in v.items))
    if isinstance(v, Opaque):
        return ('O', v.tag)
    if isinstance(v, maps.MapV):
        if v.rest is not None:
            raise Unsupported('shape of a map')
        return ('M', tuple((shape(k, d + 1), shape(x, d + 1)) for k, x in v.ents))
    if isinstance(v, Abs):
        return ('X', getattr(v, 'tag', None) or repr(v))
    raise Unsupported('shape of %r' % (v,))


def unshape(cx, s):
    if s is None or isinstance(s, (bool, int, str)):
        return s
    k = s[0]
    if k == 'b':
        return s[1]
    if k == 'A':
        return Agg(s[1], s[2], [unshape(cx, x) for x in s[3]])
    if k == 'C':
        return Clos(s[1], [unshape(cx, x) for x in s[2]])
    if k in ('F', 'X'):
        return cx.reg[s[1]] if s[1] in cx.reg else cx.task.ufn(cx, s[1])
    if k == 'B':
        return BoxV(cx.slot(unshape(cx, s[1]), 'box'))
    if k == 'R':
        return ArcV(cx.slot(unshape(cx, s[1]), 'arc'))
    if k == 'L':
        sl = cx.slot(unshape(cx, s[2]), '', None, 'cell')
        cx.cells.append(sl)
        return LockV(sl, s[1])
    if k == 'V':
        return ListV([unshape(cx, x) for x in s[2]], s[1])
    if k == 'O':
        return Opaque(s[1])
    raise Unsupported('rebuild %r' % (s,))


def mentions(s):
    """names of user functions inside a shape"""
    if isinstance(s, tuple):
        if s[:1] == ('F',):
            return {s[1]}
        return set().union(*map(mentions, s)) if s else set()
    return set()


# ------------------------------------------------------------ Seq
class Seq(ObjTask):
    """spec: dict with
         new(task, cx) -> (object, model); object None if it is the model's business
         methods: {name: (args, code(cx, obj, args), model(cx, model, args))}
         canon(model) -> hashable
       code / model perform the call and return the result; call-outs are recorded in cx.ev"""

    def __init__(self, prog, name, spec):
        super().__init__(prog, name)
        self.spec = spec
        self.want = set(spec['methods'])

    def both(self, cx, obj, mod, m, i, check):
        mk, code, model = self.spec['methods'][m]
        args = mk(self, cx, i)
        cx.ev = []
        pan = pan2 = None
        r = r2 = None
        try:
            r = code(cx, obj, args)
        except Panic as e:
            pan = str(e)
        ev = cx.ev
        self.quiet_end(cx)
        cx.ev = []
        try:
            r2 = model(cx, mod, args)
        except Panic as e:
            pan2 = str(e)
        ev2 = cx.ev
        if not check:
            return
        self.reach.add(m)
        if (pan is None) != (pan2 is None):
            cx.fail('panic', '%s: %s' % (m, pan or 'does not panic as its contract says'))
        a = [e for e in ev if e[0] == 'call']
        b = [e for e in ev2 if e[0] == 'call']
        cx.oblige([e[1] for e in a] == [e[1] for e in b], 'events', '%s: calls %s, its contract %s' % (
            m, [e[1] for e in a], [e[1] for e in b]))
        for x, y in zip(a, b):
            for p, q in zip(x[2], y[2]):
                cx.oblige(eqv(cx, p, q), 'events', '%s: another argument for %s than the one given' % (m, x[1]))
        if not pan:
            cx.oblige(eqv(cx, r, r2), 'events', '%s: returns %r, its contract %r' % (m, r, r2))

    def on_destroy(self, cx, v, slot):
        fs = [f for f in core.user_fns(v, owned=True) if f.name != 'teardown']  # a teardown is the library's own
        if fs:
            seen, alive = {id(slot)}, []
            for _, fr, _ in cx.frames:
                for s in fr:
                    if s is not slot:
                        alive += core.user_fns(s, slot, seen)
            cx.oblige(all(any(f is g for g in alive) for f in fs), 'lock', 'destroys %s, whose destructor may re-enter the library, while holding %s' % (
                fs[0].name, ', '.join(cx.slot_name(h) for h, _ in cx.held)))

    def reenter(self, cx):
        """a callback calls methods of the object from inside"""
        ms = self.spec['nested'][1]
        while cx.nest:
            k = cx.path.choose(len(ms) + 1)
            if k == 0:
                return
            cx.nest -= 1
            mk, code, _ = self.spec['methods'][ms[k - 1]]
            code(cx, cx.nobj, mk(self, cx, 100 + cx.nest))
            cx.ev.append(('ret', ms[k - 1]))

    def nested(self, path, h, m):
        """m after h, with callbacks that call methods of the object themselves, judged by what the subscriber sees"""
        cx = self.context(path)
        if self.spec.get('contracts'):
            cx.contracts = dict(self.spec['contracts'])
        try:
            obj, mod = self.spec['new'](self, cx)
            for i, x in enumerate(h):
                self.both(cx, obj, mod, x, i, False)
            cx.evname = '%s after %s, with calls from inside of the callbacks' % (m, list(h))
            cx.ev, cx.nobj, cx.nest = [], obj, 2
            for i, x in enumerate([m] + self.spec['nested'][2]):
                mk, code, _ = self.spec['methods'][x]
                code(cx, obj, mk(self, cx, 200 + i))
                cx.ev.append(('ret', x))
                cx.nest = 0
            self.quiet_end(cx)
            for ok, cat, msg in self.spec['nested'][3](mod, cx.ev):
                cx.oblige(ok, cat, '%s: %s' % (msg, ' '.join(e[1] + ('()' if e[0] == 'ret' else '') for e in cx.ev)))
        finally:
            self.fns |= cx.seen

    def canon(self, cx, obj, mod):
        return (shape(obj) if isinstance(obj, Agg) else None, self.spec['canon'](mod))

    def run(self):
        t0 = time.time()
        seen, todo = set(), [()]
        found = []

        def body(path, h=(), m=None):
            cx = self.context(path)
            if self.spec.get('contracts'):
                cx.contracts = dict(self.spec['contracts'])
            try:
                obj, mod = self.spec['new'](self, cx)
                for i, x in enumerate(h):
                    self.both(cx, obj, mod, x, i, False)
                if m is not None:
                    cx.evname = '%s after %s' % (m, list(h))
                    self.both(cx, obj, mod, m, len(h), True)
                found.append((self.canon(cx, obj, mod), h + ((m,) if m else ())))
            finally:
                self.fns |= cx.seen
        self.explore(lambda p: body(p))
        for c, h in found:
            seen.add(c)
        while todo:
            h = todo.pop(0)
            for m in self.spec['methods']:
                del found[:]
                self.explore(lambda p: body(p, h, m))
                for c, hh in found:
                    if c not in seen:
                        seen.add(c)
                        todo.append(hh)
                if 'nested' in self.spec:
                    self.explore(lambda p: self.nested(p, h, m))
                if len(seen) > 400:
                    raise Unsupported('too many states')
            if self.failures:
                break
        self.states = len(seen)
        self.wall = time.time() - t0
        return self


def eqv(cx, a, b):
    a, b = cx.deref(a), cx.deref(b)
    if a is b:
        return True
    if isinstance(a, Agg) and isinstance(b, Agg):
        return a.var == b.var and len(a.f) == len(b.f) and zand([eqv(cx, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, (SymOpt, Agg)) and isinstance(b, (SymOpt, Agg)):
        return cx.eq(a, b)
    if is_scalar(a) and is_scalar(b):
        r = a == b
        return r if is_z3(r) else bool(r)
    return False


# ------------------------------------------------------------ Conc
class Conc(ObjTask):
    """spec: new(task, cx) -> object; methods {name: (args, code)}; judge(task, cx, m, events, result) """

    def __init__(self, prog, name, spec):
        super().__init__(prog, name)
        self.spec = spec
        self.rel = {}               # class -> {(before, after)}
        self.want = set(spec['methods'])
        self.init = {}

    def name_slots(self, cx, v, path, d=0):
        if d > 12:
            return
        if isinstance(v, LockV):
            if v.slot.id not in cx.cls:
                cx.cls[v.slot.id] = path
                v.slot.name = path
                self.name_slots(cx, v.slot.v, path + '/', d + 1)
        elif isinstance(v, (ArcV, Ref)):
            self.name_slots(cx, v.slot.v if isinstance(v, ArcV) else cx.load(v), path, d + 1)
        elif isinstance(v, Agg):
            many = len(v.f) > 1
            for i, x in enumerate(v.f):
                self.name_slots(cx, x, '%s.%d' % (path, i) if many else path, d + 1)
        elif isinstance(v, Clos):
            for i, x in enumerate(v.caps):
                self.name_slots(cx, x, '%s^%d' % (path, i), d + 1)
        elif isinstance(v, ListV):
            for x in v.items:
                self.name_slots(cx, x, path + '[]', d + 1)

    def closure(self, cls, s):
        out, todo = [s], [s]
        r = self.rel.get(cls, ())
        while todo:
            x = todo.pop()
            for a, b in r:
                if a == x and b not in out:
                    out.append(b)
                    todo.append(b)
        return sorted(out, key=repr)

    def on_lock(self, cx, slot, mode):
        c = cx.cls.get(slot.id)
        if not cx.conc or c is None:
            return
        cur = shape(slot.v)
        o = self.closure(c, cur)
        n = o[cx.path.choose(len(o))] if len(o) > 1 else o[0]
        if n != cur:
            slot.v = unshape(cx, n)
            self.name_slots(cx, slot.v, c + '/')
        cx.before[slot.id] = n

    def on_unlock(self, cx, slot, mode):
        c = cx.cls.get(slot.id)
        if not cx.conc or c is None:
            return
        b, a = cx.before.get(slot.id), shape(slot.v)
        cx.ev.append(('cs', c, b, a))
        if a != b:
            self.name_slots(cx, slot.v, c + '/')
            if (b, a) not in self.rel.setdefault(c, set()):
                self.rel[c].add((b, a))
                self.changed = True

    def body(self, path, m):
        cx = self.context(path)
        if self.spec.get('contracts'):
            cx.contracts = dict(self.spec['contracts'])
        cx.before = {}
        try:
            obj = self.spec['new'](self, cx)
            self.name_slots(cx, obj, self.spec['name'])
            for s in cx.cells:
                c = cx.cls.get(s.id)
                if c is not None:
                    self.init[c] = shape(s.v)
            mk, code = self.spec['methods'][m]
            args = mk(self, cx, 0)
            cx.ev = []
            cx.conc = True
            cx.evname = m
            r = None
            try:
                r = code(cx, obj, args)
            except Panic as e:
                cx.ev.append(('panic', str(e)))
            cx.conc = False
            self.quiet_end(cx)
            self.reach.add(m)
            self.runs.append((m, list(cx.ev), r))
        finally:
            self.fns |= cx.seen

    def run(self):
        t0 = time.time()
        for rnd in range(30):
            self.changed = False
            self.failures, self.obl, self.disch, self.cats = [], 0, 0, {}
            self.runs = []
            for m in self.spec['methods']:
                self.explore(lambda p: self.body(p, m))
            if not self.changed:
                break
        else:
            raise Unsupported('interference does not stabilise')
        self.spec['judge'](self)
        self.wall = time.time() - t0
        return self

    # ---- obligations over the recorded paths
    def ob(self, ok, cat, msg, where=''):
        self.obl += 1
        self.cats[cat] = self.cats.get(cat, 0) + 1
        if ok:
            self.disch += 1
        else:
            self.failures.append(Failure(cat, msg, self.name, '', where))

    def best(self, cands, f):
        """candidate witnesses: f(w) -> [(ok, cat, msg, where)]; the one that meets most counts"""
        res = []
        for w in cands:
            l = f(w)
            res.append((sum(not x[0] for x in l), l, w))
        if not res:
            raise Unsupported('no candidate for the state that decides')
        bad = min(r[0] for r in res)
        r = [r for r in res if r[0] == bad][0]
        for x in r[1]:
            self.ob(*x)
        return r[2]


def is_none(s):
    return isinstance(s, tuple) and s[:3] == ('A', OPT, 0)


def is_some(s):
    return isinstance(s, tuple) and s[:3] == ('A', OPT, 1)


def calls(ev, *names):
    return [i for i, e in enumerate(ev) if e[0] == 'call' and e[1] in names]


def show(ev):
    out = []
    for e in ev:
        if e[0] == 'call':
            out.append(e[1] + '()')
        elif e[0] == 'cs':
            f = lambda s: 'None' if is_none(s) else 'Some' if is_some(s) else repr(s)[:24]
            out.append('%s:%s' % (e[1], f(e[2]) if e[2] == e[3] else f(e[2]) + '>' + f(e[3])))
        else:
            out.append(repr(e))
    return ' '.join(out)
