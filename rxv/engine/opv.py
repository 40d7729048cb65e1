"""Verification of one operator against its contract machine (rxv/spec/ops.py).

The operator's public method is executed symbolically, then the closure it handed to
Observable::create, then - from an arbitrary state satisfying the inferred invariant R -
one event of every kind on every source.  The contract machine runs in lockstep: every
call-out of the code must be the next action the machine wants.
"""
import sys, time, traceback
import z3
from .core import *
from . import core, prims, maps, abs as A
from .prims import SymIt, END, itemlike
from ..spec import ops as O
from ..spec.ops import Next, Error, Complete, Sub, Close, Side, NewSubj, Subj, Material

POISON = Opaque('changed meanwhile')
EmitAll = O.namedtuple('EmitAll', 't')
Forever = O.namedtuple('Forever', 'v')


def elen(t):
    """length of what EmitAll emits (None: endless)"""
    return t[0] if isinstance(t, tuple) else z3.Length(t)


def eget(t, i):
    return t[1](i) if isinstance(t, tuple) else t[i]
CONTRACTS = A.contracts()


class W:
    """ghost: one window / group of the contract"""
    N = 0

    def __init__(self):
        W.N += 1
        self.i = W.N

    def __repr__(self):
        return 'w%d' % self.i


class St:
    pass


class Port:
    def __init__(self, kind, idx):
        self.kind, self.idx = kind, idx
        self.live, self.obs, self.dyn = True, None, False
        self.pos = None

    def __repr__(self):
        return '%s%d' % (self.kind, self.idx)


class GBase:
    """ghost: the groups opened before this event"""
    def __init__(self, cx):
        self.cx = cx
        self.known = []
        self.count = cx.path.fresh('groups', 'nat')
        self.rep = None

    def lookup(self, cx, k):
        for kk, w in self.known:
            if cx.path.br(kk == k):
                return w
        w = W() if cx.path.choose(2) else None
        if w is not None:
            cx.path.add(self.count > 0)
        self.known.append((k, w))
        return w

    def representative(self, cx):
        if self.rep is None:
            self.rep = (cx.path.fresh('key'), W())
        return self.rep


class SMap:
    def __init__(self, base=None, ents=()):
        self.base, self.ents = base, tuple(ents)


class SymEnv:
    def __init__(self, cx):
        self.cx, self.path = cx, cx.path

    def br(self, c):
        return self.path.br(c)

    def any(self, l):
        return zor(list(l))

    def seq_empty(self):
        return z3.Empty(SeqI)

    def seq_push(self, s, x):
        return z3.Concat(s, z3.Unit(zint(x)))

    def seq_len(self, s):
        return z3.Length(s)

    def seq_head(self, s):
        return s[0]

    def seq_tail(self, s):
        return z3.SubSeq(s, 1, z3.Length(s) - 1)

    def emit_all(self, s):
        yield EmitAll(s)

    def emit_range(self, a, n):
        yield EmitAll((z3.If(n > 0, zint(n), z3.IntVal(0)), lambda i: a + i))

    def forever(self, v):
        yield Forever(v)
        raise Unsupported('after an endless emission')

    def eq(self, a, b):
        return a == b

    def add(self, a, b):
        return prims.ADD(zint(a), zint(b))

    def min(self, a, b):
        return b if self.path.br(b < a) else a

    def max(self, a, b):
        return b if self.path.br(b > a) else a

    def map_empty(self):
        return SMap()

    def map_get(self, m, k):
        for kk, w in m.ents:
            if self.path.br(kk == k):
                return w
        return m.base.lookup(self.cx, k) if m.base else None

    def map_put(self, m, k, w):
        return SMap(m.base, m.ents + ((k, w),))

    def map_all(self, m, ev, v):
        for k, w in m.ents:
            yield Subj(w, ev, v)
        if m.base and self.path.br(m.base.count > 0):
            yield Subj(m.base.representative(self.cx)[1], ev, v)

    def now(self):
        return self.cx.clock2

    def sleep(self, d):
        self.cx.clock2 = self.cx.clock2 + d


class Lockstep:
    """the contract machine, one event"""

    def __init__(self, cx, gen, what):
        self.cx, self.gen, self.what = cx, gen, what
        self.pend = None
        self.done = False
        self.emit = None            # [seq, index]
        self.dead = False           # the subscriber is gone
        self.terminal = False
        self.subs = 0

    def advance(self, send=None):
        try:
            return self.gen.send(send)
        except StopIteration:
            self.done = True
            return None

    def peek(self):
        """next visible action"""
        cx = self.cx
        send = None
        while self.pend is None and not self.done:
            a = self.advance(send)
            send = None
            if a is None:
                break
            if isinstance(a, Close):
                for p in cx.ports:
                    if p.kind == a.kind and p.idx == a.idx and p.live is not False and not p.stale:
                        p.live = False
                continue
            if isinstance(a, NewSubj):
                send = W()
                continue
            if isinstance(a, EmitAll):
                self.emit = [a.t, z3.IntVal(0)]
            self.pend = a
        if isinstance(self.pend, EmitAll):
            t, i = self.emit
            n = elen(t)
            if n is not None and cx.path.br(i >= n):
                self.pend = self.emit = None
                return self.peek()
        return self.pend

    def take(self, kind):
        a = self.peek()
        if self.dead:
            return None
        if isinstance(a, kind):
            if not isinstance(a, (EmitAll, Forever)):
                self.pend = None
            return a
        self.cx.fail('events', '%s: the code performs %s, the contract %s' % (
            self.what, '/'.join(k.__name__ for k in (kind if isinstance(kind, tuple) else (kind,))), a if a is not None else 'nothing more'))

    def next(self, v):
        a = self.take((Next, EmitAll, Forever))
        if a is None:
            return
        if isinstance(a, EmitAll):
            t, i = self.emit
            self.cx.oblige(veq(self.cx, v, eget(t, i)), 'events', '%s: wrong item' % self.what)
            self.emit[1] = z3.simplify(i + 1)
        else:
            self.cx.oblige(veq(self.cx, v, a.v), 'events', '%s: wrong item' % self.what)
            self.cx.oblige(self.cx.clock == self.cx.clock2, 'time', '%s: item at the wrong time' % self.what)

    def terminal_(self, kind, v):
        a = self.take(kind)
        if a is None:
            return
        if kind is Error:
            self.cx.oblige(veq(self.cx, v, a.e), 'events', '%s: another error than the one raised' % self.what)
        self.terminal = True
        self.dead = True
        for p in self.cx.ports:
            p.live = False

    def side(self, tag, v):
        if self.dead:
            return
        a = self.take(Side)
        if a is not None:
            self.cx.oblige(a.tag == tag and (True if a.v is None else veq(self.cx, v, a.v)), 'events', '%s: wrong side effect' % self.what)

    def subj(self, s, ev, v):
        if self.dead or s.w is None:
            return
        a = self.take(Subj)
        if a is not None:
            self.cx.oblige(a.w is s.w and a.ev == ev, 'events', '%s: %s on the wrong window' % (self.what, ev))
            if v is not None:
                self.cx.oblige(veq(self.cx, v, a.v), 'events', '%s: wrong window item' % self.what)

    def finish(self):
        if self.dead:
            return
        a = self.peek()
        if a is not None and not self.dead:
            if isinstance(a, (Complete, Error)):
                left = [p for p in self.cx.ports if p.live is not False and not p.stale]
                if left:
                    self.cx.task.oblige(self.cx, False, 'upstream', '%s: the subscription does not end, %s stays subscribed' % (self.what, left[0]))
            self.cx.fail('events', '%s: the contract still wants %s' % (self.what, a))


def veq(cx, iv, sv):
    iv = cx.deref(iv)
    if isinstance(sv, tuple) and sv and isinstance(sv[0], str):
        if sv[0] == 'any':
            return veq(cx, iv, sv[1])
        if sv[0] == 'win':
            if isinstance(iv, A.AObsv) and iv.kind[0] == 'win' and iv.kind[1].w is None:
                iv.kind[1].w = sv[1]
                return True
            return False
    if isinstance(sv, Material):
        if not isinstance(iv, Agg) or iv.var != ('Next', 'Error', 'Complete').index(sv.tag):
            return False
        return veq(cx, iv.f[0], sv.v) if iv.f else True
    if isinstance(sv, (list, tuple)):
        if isinstance(iv, Agg):
            l = iv.f
        elif isinstance(iv, ListV):
            l = iv.items
        elif isinstance(iv, SeqV):
            return iv.t == seq_of([zint(x) for x in sv])
        else:
            return False
        return len(l) == len(sv) and zand([veq(cx, x, y) for x, y in zip(l, sv)])
    if is_z3(sv) and z3.is_seq(sv):
        if not isinstance(iv, (ListV, SeqV)):
            return False
        return cx.as_seq(iv) == sv
    if is_scalar(sv) and is_scalar(iv):
        b = lambda x: isinstance(x, bool) or is_z3(x) and z3.is_bool(x)
        if b(sv) != b(iv):
            return False
        r = sv == iv
        return r if is_z3(r) else bool(r)
    raise Unsupported('comparison of %r with %r' % (iv, sv))


def same(a, b, d=0):
    """syntactic equality of machine values"""
    if a is b:
        return True
    if is_z3(a) and is_z3(b):
        return a.eq(b) or z3.is_true(z3.simplify(a == b)) if a.sort() == b.sort() else False
    if is_scalar(a) or is_scalar(b):
        return type(a) == type(b) and not is_z3(a) and a == b
    if type(a) != type(b) or d > 6:
        return False
    if a is None or isinstance(a, str):
        return a == b
    if isinstance(a, Agg):
        return a.k == b.k and a.var == b.var and len(a.f) == len(b.f) and all(same(x, y, d + 1) for x, y in zip(a.f, b.f))
    if isinstance(a, SymOpt):
        return same(a.cond, b.cond) and same(a.val, b.val, d + 1)
    if isinstance(a, ListV):
        return len(a.items) == len(b.items) and all(same(x, y, d + 1) for x, y in zip(a.items, b.items))
    if isinstance(a, SeqV):
        return same(a.t, b.t)
    if isinstance(a, Clos):
        return a.key == b.key and all(same(x, y, d + 1) for x, y in zip(a.caps, b.caps))
    if isinstance(a, Ref):
        return a.slot is b.slot and a.path == b.path or same(a.slot.v, b.slot.v, d + 1) and a.path == b.path
    if isinstance(a, (ArcV, LockV)):
        return a.slot is b.slot
    if isinstance(a, (Opaque, FnV)):
        return True
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y, d + 1) for x, y in zip(a, b))
    return False


# ------------------------------------------------------------------ the task
class Failure:
    def __init__(self, cat, msg, fn, model, ctx):
        self.cat, self.msg, self.fn, self.model, self.ctx = cat, msg, fn, model, ctx

    def __repr__(self):
        return '[%s] %s (%s) %s' % (self.cat, self.msg, self.ctx, self.model)


class OpTask:
    C14 = True

    def __init__(self, prog, name, spec, method, params, ctor=False):
        """params: [(kind, spec name or None)] of the method's arguments"""
        self.P, self.name, self.spec_cls, self.method, self.params, self.ctor = prog, name, spec, method, params, ctor
        self.dead = {}
        self.consts = {}
        self.changed = False
        self.failures, self.obl, self.disch, self.unknown = [], 0, 0, []
        self.cats = {}
        self.fns = set()
        self.rounds = 0
        self.reach = set()
        self.fixed = {}
        self.struct_varies = self.popped = self.popmode = self.popnext = False
        self.steps = {}

    def reach_ok(self):
        return self.ctor or (self.disch > 0 and any(str(x).startswith('next on') for x in self.reach))

    # ---- hooks of the interpreter
    def oblige(self, cx, c, cat, msg):
        self.obl += 1
        self.cats[cat] = self.cats.get(cat, 0) + 1
        if isinstance(c, bool):
            ok_, model = c, None
            if not ok_:
                r = cx.path.check()
                if r == z3.unsat:
                    self.obl -= 1
                    self.cats[cat] -= 1
                    raise Stop()
                model = cx.path.s.model() if r == z3.sat else None
        else:
            r = cx.path.check(z3.Not(c))
            ok_ = r == z3.unsat
            if r == z3.unknown:
                self.unknown.append(msg)
                raise Unsupported('solver gave no answer: ' + msg)
            model = cx.path.s.model() if not ok_ else None
        if ok_:
            self.disch += 1
            return True
        self.failures.append(Failure(cat, msg, cx.fnstack[-1] if cx.fnstack else '?', self.show_model(model), self.where(cx)))
        raise Fail()

    def show_model(self, m):
        if m is None:
            return ''
        out = []
        for d in m.decls():
            if d.arity() == 0:
                out.append('%s=%s' % (d.name(), m[d]))
        return ' '.join(sorted(out))[:400]

    def where(self, cx):
        return getattr(cx, 'evname', '?')

    def on_write(self, cx, slot, path, nv):
        if self.C14 and cx.epoch > 0:
            self.oblige(cx, slot.birth > 0, 'shared', 'a subscription writes %s, which all subscriptions of the observable share' % slot.name)

    def on_abs_write(self, cx, ab, what):
        if self.C14 and cx.epoch > 0:
            self.oblige(cx, ab.birth > 0, 'shared', 'a subscription changes %r, which all subscriptions of the observable share' % ab)

    def callout(self, cx, what):
        for s, m in cx.held:
            cx.fail('lock', 'calls %s while holding %s (%s)' % (what, cx.slot_name(s), m))
        self.obl += 1
        self.disch += 1
        self.cats['lock'] = self.cats.get('lock', 0) + 1

    def on_lock(self, cx, slot, mode):
        pass

    def on_destroy(self, cx, v, slot):
        """v is dropped while something is locked"""

    def on_unlock(self, cx, slot, mode):
        pass

    def on_sleep(self, cx, d):
        self.callout(cx, 'sleep')
        cx.clock = cx.clock + d

    def now(self, cx):
        return cx.clock

    def on_spawn(self, cx, f):
        raise Unsupported('thread::spawn in an operator')

    def before_subscribe(self, cx, obsv, o):
        pass

    def on_sctl(self, cx, s):
        cx.sctls.append(s)

    def on_close(self, cx, o, how):
        if o is cx.D:
            if how == 'unsubscribe' and not cx.L.dead:
                cx.fail('cut', 'the subscriber is unsubscribed without a terminal')
        elif cx.port_of.get(id(o)) is not None and how == 'unsubscribe':
            cx.callout('a source (unsubscribe)')

    def close_others(self, cx, sctl, oreg):
        if is_z3(cx.others) or cx.others:
            cx.others = cx.others - oreg

    def loop_head(self, cx, key, bb, fr, visits):
        v = visits.get(bb, [])
        visits[bb] = v
        snap = ([self.deep(s.v, None) for s in fr], [c.v for c in cx.cells], cx.L.dead, cx.L.pend, cx.L.emit and list(cx.L.emit),
                len(cx.L.log), cx.L.done)
        if v and self.same_snap(v[-1], snap, cx):
            # nothing changed in one iteration
            last = v[-1]
            if snap[5] == last[5]:
                cx.fail('spin', 'a loop in %s never ends' % key)
            raise Stop()
        now = self.counters(cx, key, bb, fr)
        g = getattr(cx, 'counted', {}).get(id(visits), {}).get(bb)
        if g is not None and not cx.L.dead:
            if not self.counts(cx, g[0], now, g[1]):
                raise Unsupported('counting loop in ' + key)
            raise Stop()
        if len(v) >= 2 and g is None and not cx.L.dead and self.counts(cx, v[-1][-1], now, None) is not None:
            # the values of a counting loop, for any number of rounds
            if not hasattr(cx, 'counted'):
                cx.counted = {}
            cx.counted.setdefault(id(visits), {})[bb] = self.generalise(cx, fr, v[-1][-1], now)
            return
        v.append(snap + (now,))
        if len(v) > 9:
            if self.popped and not self.popmode:
                # again, with loops that take a private sequence apart cut like iterations
                self.popnext = self.changed = True
                raise Stop()
            raise Unsupported('loop in ' + key)

    def counters(self, cx, key, bb, fr):
        """the state at a loop head: the integers the next round can see, and everything else"""
        ints, rest = {}, []

        def flat(v, path, d):
            if not isinstance(v, bool) and (isinstance(v, int) or is_z3(v) and z3.is_int(v)):
                ints[path] = v
            elif isinstance(v, Agg) and d < 3:
                rest.append((path, v.k, v.var, len(v.f)))
                for i, x in enumerate(v.f):
                    flat(x, path + (i,), d + 1)
            else:
                rest.append((path, self.deep(v, None)))
        for i in sorted(live_in(self.P.fns[key])[bb]):
            if fr[i].v is not None:
                flat(fr[i].v, (i,), 0)
        L = cx.L
        outer = [(k, b, [(i, self.deep(f[i].v, None)) for i in sorted(live_in(self.P.fns[k])[b]) if f[i].v is not None]) for k, f, b in cx.frames[:-1]]
        return ints, rest, outer, [c.v for c in cx.cells], (L.pend, L.emit and L.emit[0], L.done, cx.clock, cx.clock2), L.emit and L.emit[1]

    def counts(self, cx, a, b, steps):
        """from a to b nothing but counters changes, each by a constant -> the steps, or None"""
        if a[0].keys() != b[0].keys() or a[4][0] is not b[4][0] or not (same(a[1], b[1], -30) and same(a[2], b[2], -30) and same(list(a[4][1:]), list(b[4][1:]), -30)):
            return None
        if len(a[3]) != len(b[3]) or not all(same(x, y) for x, y in zip(a[3], b[3])):
            return None
        out = {}
        for k in list(a[0]) + [None]:
            x, y = (a[0][k], b[0][k]) if k is not None else (a[5], b[5])
            if x is None or y is None:
                if x is not y:
                    return None
                continue
            d = z3.simplify(zint(y) - zint(x))
            if not z3.is_int_value(d):
                return None
            out[k] = d.as_long()
        return out if steps is None or steps == out else None

    def generalise(self, cx, fr, a, b):
        steps = self.counts(cx, a, b, None)
        i = cx.path.fresh('i', 'nat')
        ints = dict(a[0])
        for k, d in steps.items():
            if d and k is not None:
                ints[k] = z3.simplify(a[0][k] + d * i)
                slot = fr[k[0]]
                slot.v = cx.upd(slot.v, k[1:], ints[k])
        idx = a[5]
        if steps.get(None):
            idx = cx.L.emit[1] = z3.simplify(a[5] + steps[None] * i)
        return (ints,) + tuple(b[1:5]) + (idx,), steps

    def private_seq(self, cx, r):
        """an end of a sequence of unknown length that only this code can see is taken off"""
        if isinstance(r, Ref) and not any(r.slot is c for c in cx.cells):
            self.popped = True
            return self.popmode
        return False

    def site(self, cx, it):
        """where the loop asks for the next item, and every variable its next round can see"""
        return [(k, bb, [(i, self.deep(fr[i].v, it)) for i in sorted(live_in(self.P.fns[k])[bb]) if fr[i].v is not None])
                for k, fr, bb in cx.frames] + [self.deep(x, it) for h in getattr(cx, 'kept', ()) for x in h]

    def held_ints(self, cx):
        """the integers a loop keeps from one round to the next: (slot, path) -> value"""
        out = {}

        def flat(slot, v, path, d):
            if not isinstance(v, bool) and (isinstance(v, int) or is_z3(v) and z3.is_int(v)):
                out[slot, path] = v
            elif isinstance(v, (Agg, Clos)) and d < 3:
                for i, x in enumerate(v.f if isinstance(v, Agg) else v.caps):
                    flat(slot, x, path + (i,), d + 1)
            elif isinstance(v, Ref) and v.slot.kind != 'cell' and isinstance(v.slot.v, (Clos, prims.It)) and not v.path and d < 3:
                flat(v.slot, v.slot.v, (), d + 1)
            elif isinstance(v, prims.It):
                for x in ([getattr(v, 'f', None)] + [getattr(v, 'it', None)] + list(getattr(v, 'its', ()))):
                    if isinstance(x, (Ref, prims.It)):
                        flat(slot, x, path, d)
        for k, fr, bb in cx.frames:
            for i in sorted(live_in(self.P.fns[k])[bb]):
                if fr[i].v is not None:
                    flat(fr[i], fr[i].v, (), 0)
        for h in getattr(cx, 'kept', ()):
            for x in h:
                flat(None, x, (), 0)
        return {k: x for k, x in out.items() if k[0] is not None}

    def masked_site(self, cx, it, steps):
        slots = {s: s.v for s, _ in steps}
        for s, p in steps:
            s.v = cx.upd(s.v, p, 'counter')
        r = self.site(cx, it)
        for s, v in slots.items():
            s.v = v
        return r

    def deep(self, v, it, d=0):
        if v is it:
            return 'it'
        if d > 9:
            return v
        if isinstance(v, Ref):
            return ('ref', v.slot.id, v.path, self.deep(v.slot.v, it, d + 1))
        if isinstance(v, Agg):
            return (v.k, v.var, [self.deep(x, it, d + 1) for x in v.f])
        if isinstance(v, ListV):
            return ('list', [self.deep(x, it, d + 1) for x in v.items])
        if isinstance(v, Clos):
            return (v.key, [self.deep(x, it, d + 1) for x in v.caps])
        if isinstance(v, prims.It):
            return (type(v).__name__, [(k, self.deep(x, it, d + 1)) for k, x in sorted(v.__dict__.items()) if k not in ('entry', 'site')])
        if isinstance(v, prims.PopSeq):
            return ('pops', self.deep(v.it, it, d + 1))
        if isinstance(v, (list, tuple)):
            return [self.deep(x, it, d + 1) for x in v]
        return v

    def same_snap(self, a, b, cx):
        return (len(a[1]) == len(b[1]) and all(same(x, y) for x, y in zip(a[1], b[1])) and a[2] == b[2] and a[6] == b[6]
                and same(a[4] or (), b[4] or ()) and (a[3] is b[3] or a[3] == b[3])
                and all(same(x, y, -30) for x, y in zip(a[0], b[0])))

    def iter_next(self, cx, it):
        L = cx.L
        if it.unroll or not it.started and it.n is not None and cx.path.implied(it.n <= 2):
            it.started = it.unroll = True
            if not cx.path.br(it.pos < it.n):
                return END
            it.pos += 1
            return it.elem(z3.IntVal(it.pos - 1))
        if not it.started:
            it.started = True
            L.peek() if not L.dead else None
            link = isinstance(L.pend, EmitAll) and not L.dead
            it.entry = ([c.v for c in cx.cells], link, L.dead, len(L.log))
            # counters of the loop: what they grow by in a round has been seen in an earlier pass
            it.where = tuple((k, bb) for k, _, bb in cx.frames) + (len(L.log),)
            it.base = self.held_ints(cx)
            names = list(it.base)
            it.names = {k: (n, k[1]) for n, k in enumerate(names)}
            got = self.steps.get(it.where, {})
            it.steps = {k: got[it.names[k]] for k in names if it.names[k] in got}
            it.site = self.masked_site(cx, it, it.steps)

            def counted(n):
                for (s, p), d in it.steps.items():
                    s.v = cx.upd(s.v, p, z3.simplify(zint(it.base[s, p]) + d * n))
            if it.n is not None and cx.path.choose(2) == 0:
                if link:
                    n = elen(L.emit[0])
                    self.oblige(cx, False if n is None else n == it.n, 'events', 'the code emits a sequence of another length')
                    L.emit[1] = n
                    L.peek()
                counted(it.n)
                return END
            j = cx.path.fresh('j', 'nat')
            if it.n is not None:
                cx.path.add(j < it.n)
            it.j = j
            if link:
                n = elen(L.emit[0])
                self.oblige(cx, n is None and it.n is None if n is None or it.n is None else n == it.n, 'events', 'the code emits a sequence of another length')
                L.emit[1] = j
            counted(j)
            return it.elem(j)
        cells, link, dead, nlog = it.entry
        now = self.held_ints(cx)
        if it.again:
            for s, p in it.steps:
                s.v = cx.upd(s.v, p, 'counter')
        if not same(it.site, self.masked_site(cx, it, it.steps), -30):
            d = {k: z3.simplify(zint(now[k]) - zint(v)) for k, v in it.base.items() if k in now and k not in it.steps}
            d = {it.names[k]: x.as_long() for k, x in d.items() if z3.is_int_value(x) and x.as_long()}
            if d and not it.again and it.where not in self.steps:
                self.steps[it.where] = d
                self.changed = True
                raise Stop()
            raise Unsupported('a loop that changes its own variables')
        if not it.again:
            for k, d in it.steps.items():
                if k not in now or not same(z3.simplify(zint(now[k]) - zint(it.base[k]) - d * (it.j + 1)), z3.IntVal(0)):
                    raise Unsupported('a loop that changes its own variables')
        if L.dead and not dead:
            if it.user or it.n is None:
                # one more item may be taken to notice the end
                if it.again:
                    cx.fail('spin', 'keeps asking the iterator for items after the subscription ended')
                it.again = True
                if it.n is not None and cx.path.choose(2) == 0:
                    return END
                return it.elem(cx.path.fresh('j', 'nat'))
            raise Stop()
        if L.dead:
            if it.n is None:
                cx.fail('spin', 'an endless loop for a subscription that has ended')
            raise Stop()
        if len(cells) != len(cx.cells) or not all(same(x, c.v) for x, c in zip(cells, cx.cells)):
            raise Unsupported('loop changes state')
        if link:
            if not isinstance(L.pend, EmitAll):
                # the last item was the last of the contract's too
                self.oblige(cx, it.j + 1 >= it.n if it.n is not None else False, 'events', 'the code emits more items than the contract')
            else:
                self.oblige(cx, L.emit[1] == it.j + 1, 'events', 'one loop iteration must emit exactly one item')
        elif isinstance(L.pend, Forever) and it.n is None:
            # the same item without end: as many as there are rounds, at least one in each
            self.oblige(cx, len(L.log) > nlog, 'events', 'a round of an endless loop emits nothing')
        elif len(L.log) != nlog:
            a = L.peek()
            raise Unsupported('loop performs actions of the contract outside a sequence')
        raise Stop()

    # ---- subscriber
    def make_D(self, cx):
        def d_next(cx, x):
            cx.callout('the subscriber')
            cx.L.log.append('next')
            cx.L.next(x)
            if not cx.L.dead and cx.path.choose(2):
                cx.L.dead = True
                for p in cx.ports:
                    p.live = False
                cx.D.unsubscribe(cx)
            return UNIT

        def d_term(kind):
            def g(cx, *a):
                cx.callout('the subscriber')
                cx.L.log.append(kind)
                return UNIT
            return g
        D = A.AObs(cx, PyFn('D.next', d_next), PyFn('D.error', d_term('error')), PyFn('D.complete', d_term('complete')))
        D.down = True
        # the terminal is matched before the teardown runs
        shut = D.shut
        raw_error, raw_complete = D.error, D.complete

        def error(cx, e):
            if D.is_open(cx):
                cx.callout('the subscriber')
                cx.L.terminal_(Error, e)
            raw_error(cx, e)

        def complete(cx):
            if D.is_open(cx):
                cx.callout('the subscriber')
                cx.L.terminal_(Complete, None)
            raw_complete(cx)
        D.error, D.complete = error, complete
        cx.D = D
        return D

    def on_subj(self, cx, s, ev, v):
        cx.L.log.append('subj')
        cx.L.subj(s, ev, v)

    # ---- subscription to a source
    def on_sub(self, cx, obsv, o):
        cx.callout('a source (subscribe)')
        L = cx.L
        L.log.append('sub')
        if L.dead:
            p = Port('late', 0)
            p.live, p.obs, p.stale = False, o, False
            cx.ports.append(p)
            cx.port_of[id(o)] = p
            return
        a = L.take(Sub)
        src = a.src
        k = obsv.kind
        okk = k[0] == src[0] and (k[1] == src[1])
        cx.oblige(okk if not is_z3(okk) else okk, 'events', '%s: subscribes to the wrong source' % L.what)
        p = Port(a.kind, a.idx)
        p.obs, p.stale = o, False
        p.dyn = cx.phase == 'event'
        if p.dyn:
            for q in cx.ports:
                if q.kind == p.kind and q.idx == p.idx and q.live is False:
                    q.stale = True
        cx.ports.append(p)
        cx.port_of[id(o)] = p
        L.subs += 1
        pos = ('sub', len(cx.ports) - 1) if cx.phase == 'init' else 'end'
        p.cls = self.cls_of(cx, p)
        if p.dyn:
            self.check_struct(cx, p)
        self.check_R(cx, pos)
        if p.dyn:
            self.check_pv(cx, p)
        c = cx.path.choose(3)
        if c == 2:
            if p.dyn:
                if p.cls in cx.chain or len(cx.chain) > 3:
                    raise Stop()
                cx.chain.append(p.cls)
            self.event(cx, pos, [p] if p.dyn else list(cx.ports))
        if c == 1:
            self.close_all(cx)
            self.poison(cx)
            return
        self.havoc(cx, pos, None)
        self.poison(cx)

    def cls_of(self, cx, p):
        def k(v):
            v = cx.deref(v)
            return v.key if isinstance(v, Clos) else repr(type(v).__name__)
        u = getattr(p.obs, 'user', [p.obs.n, p.obs.e, p.obs.c])
        st = ' '.join(repr(x) for x in self.structural(cx)) if p.dyn else ''
        return (p.kind, p.idx, tuple(k(x) for x in u), st)

    def close_all(self, cx):
        cx.L.dead = True
        D = cx.D
        D.open, D.teardown = False, None
        for a in cx.abs:
            if isinstance(a, A.AObs) and a.birth == 1:
                a.open, a.teardown = False, None
            if isinstance(a, A.ASctl):
                for en in a.ents:
                    en[2] = False
                a.oreg, a.on_fin = 0, None
        cx.others = 0
        for p in cx.ports:
            p.live = False
        self.fresh_cells(cx, free=True)

    # ---- state
    def structural(self, cx):
        out = []
        for c in cx.cells:
            if c.birth and not self.data(c):
                out.append(c.v)
        return out

    def data(self, c):
        return self.shape(c.ty, c.v) is not None

    def shape(self, t, v):
        """how a cell's value is carried: int nat bool (opt s) seq (list s..) (tup s..) subj optsubj map, None structural"""
        if t is None:
            return None
        k = t['k']
        if k == 'bool':
            return 'bool'
        if k == 'uint':
            return 'nat'
        if k == 'int' or itemlike(t):
            return 'int'
        if k == 'tuple':
            if not isinstance(v, Agg):
                return None
            l = [self.shape(x, y) for x, y in zip(t['a'], v.f)]
            return None if None in l else ('tup', l)
        if k == 'adt' and t['p'].startswith('operators::') and t['p'] in self.P.adts:
            # a struct of the operator's own
            d = self.P.adts[t['p']]
            if d['enum'] or len(d['v']) != 1:
                return None
            l = [self.shape(x[1], v.f[i] if isinstance(v, Agg) else None) for i, x in enumerate(d['v'][0]['f'])]
            return None if None in l else ('tup', l, t['p'])
        if k == 'adt':
            n = t['p'].split('::')[-1]
            if n == 'Option':
                s = self.shape(t['a'][0], v.f[0] if isinstance(v, Agg) and v.f else None)
                if s == 'subj':
                    return 'optsubj'
                if s is None and t['a'][0]['k'] == 'tuple':
                    l = [self.shape(x, None) for x in t['a'][0]['a']]
                    s = None if None in l else ('tup', l)
                return None if s is None else ('opt', s)
            if n in ('Vec', 'VecDeque'):
                e = t['a'][0]
                if itemlike(e):
                    return 'seq'
                if isinstance(v, ListV) and v.items:
                    l = [self.shape(e, x) for x in v.items]
                    return None if None in l else ('list', l)
                return None
            if n == 'Subject':
                return 'subj'
            if n == 'HashMap' and t['a'][1].get('p', '').endswith('Subject'):
                return 'map'
        return None

    def fresh_of(self, cx, s, name, cur, link):
        p = cx.path
        if s == 'int':
            return p.fresh(name)
        if s == 'nat':
            return p.fresh(name, 'nat')
        if s == 'bool':
            return p.fresh(name, 'bool')
        if s == 'seq':
            return SeqV(p.fresh(name, 'seq'), getattr(cur, 'kind', 'vec'))
        if s == 'subj':
            v = A.ASubj(cx)
            v.w = link('subj', name)
            return v
        if s == 'optsubj':
            w = link('subj', name)
            if w is None:
                return NONE
            v = A.ASubj(cx)
            v.w = w
            return some(v)
        if s == 'map':
            base = link('map', name)
            if base is None:
                return maps.MapV()

            def lookup(cx, k):
                w = base.lookup(cx, k)
                if w is None:
                    return None
                v = A.ASubj(cx)
                v.w = w
                return v, rest

            def rep(cx):
                k, w = base.representative(cx)
                v = A.ASubj(cx)
                v.w = w
                return k, v
            rest = (base.count, lookup, rep)
            m = maps.MapV((), rest)
            return m
        if s[0] == 'opt':
            return SymOpt(p.fresh(name + '?', 'bool'), self.fresh_of(cx, s[1], name, None, link))
        if s[0] == 'tup':
            return Agg(s[2] if len(s) > 2 else 'tuple', 0, [
                self.fresh_of(cx, x, '%s.%d' % (name, i), cur.f[i] if isinstance(cur, Agg) and len(cur.f) == len(s[1]) else None, link)
                for i, x in enumerate(s[1])])
        if s[0] == 'list':
            return ListV([self.fresh_of(cx, x, '%s[%d]' % (name, i), cur.items[i] if isinstance(cur, ListV) else None, link)
                          for i, x in enumerate(s[1])], getattr(cur, 'kind', 'vec'))
        raise Unsupported('shape %r' % (s,))

    def cells_of(self, cx):
        return [(i, c) for i, c in enumerate(cx.cells) if c.birth]

    def fresh_cells(self, cx, free=False, pos=None):
        st = cx.st

        def link(kind, name):
            if free:
                if kind == 'map':
                    return None
                return None
            for sn, t in cx.spec.STATE.items():
                if kind == 'subj' and t == 'optsubj' and ('subj', name, sn) not in self.dead.get(pos, ()):
                    return getattr(st, sn)
                if kind == 'map' and t == 'mapsubj' and ('map', name, sn) not in self.dead.get(pos, ()):
                    return getattr(st, sn).base
            raise Unsupported('window state without a known relation to the contract')
        for i, c in self.cells_of(cx):
            s = self.shape(c.ty, c.v)
            if s is not None:
                c.v = self.fresh_of(cx, s, 'c%d' % i, c.v, link)

    def havoc(self, cx, pos, ev):
        """arbitrary state satisfying R at `pos`"""
        p = cx.path
        st = cx.st
        for n, t in cx.spec.STATE.items():
            cur = getattr(st, n, None)
            if t == 'int':
                v = p.fresh('st.' + n)
            elif t == 'bool':
                v = p.fresh('st.' + n, 'bool')
            elif t == 'opt' or t == 'optint':
                v = p.fresh('st.' + n) if p.choose(2) else None
            elif t == 'seq':
                v = p.fresh('st.' + n, 'seq')
            elif t == 'bools':
                v = [p.fresh('st.%s%d' % (n, i), 'bool') for i in range(len(cur))]
            elif t == 'seqs':
                v = [p.fresh('st.%s%d' % (n, i), 'seq') for i in range(len(cur))]
            elif t == 'opts':
                v = [p.fresh('st.%s%d' % (n, i)) if p.choose(2) else None for i in range(len(cur))]
            elif t == 'optsubj':
                v = W() if p.choose(2) else None
            elif t == 'mapsubj':
                v = SMap(GBase(cx))
            else:
                raise Unsupported('spec state ' + t)
            setattr(st, n, v)
        self.fresh_cells(cx, pos=pos)
        # liveness of the sources; registered observers
        for i, o in enumerate(cx.static):
            if o is cx.D:
                continue
            o.open = self.mono(p, o.open, 'open%d' % i)
        for pt in cx.ports:
            if pt.obs is cx.D:
                pt.live = True
            elif pt.obs in cx.static:
                pt.live = pt.obs.open
            else:
                pt.live = pt.obs.open = self.mono(p, pt.obs.open, 'live')
        for s in cx.sctls:
            for en in s.ents:
                en[2] = self.mono(p, en[2], 'reg')
            if cx.phase == 'event':
                s.oreg = p.fresh('oreg', 'nat')
                s.serial = p.fresh('serial')
                p.add(s.serial >= (len(s.ents)))
        if cx.phase == 'event':
            cx.others = p.fresh('others', 'nat')
        for pt in cx.ports:
            if pt.stale:
                pt.live = False
                pt.obs.open = False
        cx.clock = cx.clock2 = p.fresh('now', 'nat')
        cx.pos = pos
        for key, c in self.cands(cx, pos):
            if key not in self.dead.get(pos, ()):
                p.add(c) if not isinstance(c, bool) else (None if c else self.stop())
        if cx.phase == 'event' and self.single(cx):
            pass
        if p.check() == z3.unsat:
            raise Stop()

    def mono(self, p, old, name):
        """a later value of a flag that never goes from false to true"""
        if old is False:
            return False
        v = p.fresh(name, 'bool')
        if old is not True:
            p.add(z3.Implies(v, old))
        return v

    def stop(self):
        raise Stop()

    def single(self, cx):
        return False

    # ---- leaves and candidate invariants
    def leaves(self, cx):
        impl, spec, flags = [], [], []

        def add(name, s, v, out):
            if s in ('int', 'nat'):
                out.append((name, 'int', v))
            elif s == 'bool':
                out.append((name, 'bool', v))
            elif s == 'seq':
                out.append((name, 'seq', cx.as_seq(v)))
            elif s in ('subj', 'optsubj', 'map'):
                out.append((name, s, v))
            elif s[0] == 'opt':
                c, x = as_opt(v)
                out.append((name, 'opt', (c, x)))
            elif s[0] == 'tup':
                for i, y in enumerate(s[1]):
                    add('%s.%d' % (name, i), y, v.f[i], out)
            elif s[0] == 'list':
                for i, y in enumerate(s[1]):
                    add('%s[%d]' % (name, i), y, v.items[i], out)
        for i, c in self.cells_of(cx):
            s = self.shape(c.ty, c.v)
            if s is not None:
                add('c%d' % i, s, c.v, impl)
        st = cx.st
        for n, t in cx.spec.STATE.items():
            v = getattr(st, n)
            if t == 'int':
                spec.append((n, 'int', v))
            elif t == 'bool':
                spec.append((n, 'bool', v))
            elif t == 'seq':
                spec.append((n, 'seq', v))
            elif t in ('opt', 'optint'):
                spec.append((n, 'opt', (v is not None, v)))
            elif t in ('bools', 'seqs', 'opts'):
                for i, x in enumerate(v):
                    k = t[:-1]
                    spec.append(('%s%d' % (n, i), k, (x is not None, x) if k == 'opt' else x))
            elif t == 'optsubj':
                spec.append((n, 'subj', v))
            elif t == 'mapsubj':
                spec.append((n, 'map', v))
        return impl, spec

    def cands(self, cx, pos):
        """-> [(key, formula)]"""
        impl, spec = self.leaves(cx)
        ps = [(n, v) for n, v in cx.pints]
        out = []
        K = self.consts

        def add(key, c):
            out.append((key, c))

        def by(l, k):
            return [(n, v) for n, kk, v in l if kk == k]
        ints, sints = by(impl, 'int'), by(spec, 'int')
        bools, sbools = by(impl, 'bool'), by(spec, 'bool')
        opts, sopts = by(impl, 'opt'), by(spec, 'opt')
        seqs, sseqs = by(impl, 'seq'), by(spec, 'seq')
        L = z3.Length
        for n, v in ints + [('s.' + n, v) for n, v in sints]:
            for kv in K.get(n, ()):
                add(('=k', n, kv), v == kv)
            add(('>=0', n), v >= 0)
            for pn, p in ps:
                add(('=p', n, pn), v == p)
                add(('<=p', n, pn), v <= p)
                add(('<p', n, pn), v < p)
                add(('<p|0', n, pn), z3.Or(p == 0, zint(v) <= p))
            for sn, s in sseqs:
                add(('=len', n, sn), v == L(s))
        for i, (n, v) in enumerate(ints):
            for sn, s in sints:
                add(('=s', n, sn), v == s)
                add(('=s+1', n, sn), v == s + 1)
                add(('=s-1', n, sn), v == s - 1)
                add(('<=s', n, sn), v <= s)
                add(('>=s', n, sn), v >= s)
                for pn, p in ps:
                    add(('=p-s', n, sn, pn), v + s == p)
                    add(('=p-.s', n, sn, pn), v == z3.If(p > s, p - s, z3.IntVal(0)))
                    add(('=p-1-.s', n, sn, pn), v == z3.If(p - 1 > s, p - 1 - s, z3.IntVal(0)))
                    add(('=min', n, sn, pn), v == z3.If(s < p, zint(s), p))
            for m, w in ints[i + 1:]:
                add(('==', n, m), v == w)
            for sn, s in sbools:
                add(('01', n, sn), (v == 0) == znotz(s))
            for sn, (sc, s) in sopts:
                add(('01o', n, sn), zbool(v > 0) == zbool(sc))
                pr = [z3.And(s == pt.idx, v == pt.obs.serial) for pt in cx.ports if hasattr(pt.obs, 'serial') and not pt.stale] if s is not None else []
                add(('ser', n, sn), z3.If(zbool(sc), z3.Or(*pr) if pr else z3.BoolVal(False), v == -1))
                if s is not None:
                    add(('o?-1', n, sn), v == z3.If(zbool(sc), zint(s), z3.IntVal(-1)))
            for sn, s in by(spec, 'subj'):
                add(('01w', n, sn), zbool(v != 0) == zbool(s is not None))
        for n, v in bools:
            for kv in K.get(n, ()):
                add(('=k', n, kv), v == kv)
            for sn, s in sbools:
                add(('b=', n, sn), zbool(v) == zbool(s))
                add(('b!', n, sn), zbool(v) != zbool(s))
            for sn, s in sopts:
                add(('bo', n, sn), zbool(v) == zbool(s[0]))
                add(('b!o', n, sn), zbool(v) != zbool(s[0]))
            for sn, s in by(spec, 'subj'):
                add(('bw', n, sn), zbool(v) == zbool(s is not None))
                add(('b!w', n, sn), zbool(v) != zbool(s is not None))
            for sn, s in sints:
                add(('b=0', n, sn), zbool(v) == (s == 0))
                add(('b>0', n, sn), zbool(v) == (s > 0))
                for pn, p in ps:
                    add(('b>=p', n, sn, pn), zbool(v) == (s >= p))
                    add(('b>p', n, sn, pn), zbool(v) == (s > p))
                    add(('b<p', n, sn, pn), zbool(v) == (s < p))
            for sn, s in sseqs:
                add(('bq', n, sn), zbool(v) == (L(s) > 0))
                add(('b!q', n, sn), zbool(v) == (L(s) == 0))
        for n, (c, v) in opts:
            if v is None or is_scalar(v):
                for pn, q in cx.pitems + ps:
                    add(('o=p', n, pn), z3.Implies(zbool(c), v == q) if v is not None else z3.BoolVal(True))
            for sn, (sc, s) in sopts:
                if v is None or s is None:
                    e = zbool(c) == zbool(sc)
                    if v is not None and is_scalar(v) or s is not None:
                        e = z3.And(e, z3.Not(zbool(sc)))
                    add(('o=', n, sn), e)
                elif is_scalar(v):
                    add(('o=', n, sn), z3.And(zbool(c) == zbool(sc), z3.Implies(zbool(sc), v == s)))
                add(('oo', n, sn), zbool(c) == zbool(sc))
                if v is not None and s is not None and is_scalar(v):
                    pr = [z3.And(s == pt.idx, v == pt.obs.serial) for pt in cx.ports if hasattr(pt.obs, 'serial') and not pt.stale]
                    add(('oser', n, sn), z3.And(zbool(c) == zbool(sc), z3.Implies(zbool(sc), z3.Or(*pr) if pr else z3.BoolVal(False))))
                elif v is None or s is None:
                    add(('oser', n, sn), z3.And(zbool(c) == zbool(sc), z3.Not(zbool(c))))
                if isinstance(v, Agg):
                    for i, x in enumerate(v.f):
                        if is_scalar(x) and s is not None:
                            add(('o=.%d' % i, n, sn), z3.Implies(zbool(sc), x == s))
            for sn, s in sbools:
                add(('ob', n, sn), zbool(c) == zbool(s))
                add(('o!b', n, sn), zbool(c) != zbool(s))
            for sn, s in sints:
                add(('o>0', n, sn), zbool(c) == (s > 0))
                if isinstance(v, Agg):
                    for i, x in enumerate(v.f):
                        if is_scalar(x):
                            add(('oi=.%d' % i, n, sn), z3.Implies(zbool(c), x == s))
                if v is not None and is_scalar(v):
                    add(('oi=', n, sn), z3.Implies(zbool(c), v == s))
                    add(('oi0', n, sn), z3.If(zbool(c), v, z3.IntVal(0)) == s)
            for sn, s in sseqs:
                add(('oq', n, sn), zbool(c) == (L(s) > 0))
        for i, (n, v) in enumerate(seqs):
            for sn, s in sseqs:
                add(('q=', n, sn), v == s)
            for sn, s in sints:
                add(('lq=s', n, sn), L(v) == s)
            for sn, (sc, s) in sopts:
                add(('qo', n, sn), (v == z3.Unit(zint(s))) if s is not None else L(v) == 0)
            for m, w in ints:
                add(('lq=c', n, m), L(v) == w)
            for pn, p in ps:
                add(('lq<=p', n, pn), L(v) <= p)
                add(('lq<p', n, pn), L(v) < p)
        for n, s in sseqs:
            for pn, p in ps:
                add(('sl<=p', n, pn), L(s) <= p)
                add(('sl<p', n, pn), L(s) < p)
        for i, (n, s) in enumerate(sbools):
            for kv in K.get(n, ()):
                add(('sb=k', n, kv), zbool(s) == kv)
            for m, t in sints:
                add(('sb|', n, m), z3.Or(zbool(s), t > 0))
        for i, (n, s) in enumerate(sints):
            for m, t in sopts:
                add(('s>0=o', n, m), (s > 0) == zbool(t[0]))
            for m, t in by(spec, 'subj'):
                add(('s>0=w', n, m), (s > 0) == zbool(t is not None))
                add(('w|s=0', n, m), z3.Or(zbool(t is not None), s == 0))
        for n, k, v in impl:
            if k == 'subj':
                for sn, s in by(spec, 'subj'):
                    add(('subj', n, sn), v.w is s)
            elif k == 'optsubj':
                for sn, s in by(spec, 'subj'):
                    c, x = as_opt(v)
                    add(('subj', n, sn), (c is False and s is None) or (c is True and s is not None and x.w is s))
            elif k == 'map':
                for sn, s in by(spec, 'map'):
                    add(('map', n, sn), self.mapeq(cx, v, s))
        if hasattr(cx.spec, 'inv'):
            for i, c in enumerate(cx.spec.inv(cx.st)):
                add(('inv', i), c)
        # liveness flags
        dyn_live = [zint(pt.obs.open) for pt in cx.ports if pt.dyn]
        tl = cx.others + sum(dyn_live) if dyn_live else cx.others
        treg = sum((s.oreg for s in cx.sctls), 0)
        for s in cx.sctls:
            dr = [zint(en[2]) for en in s.ents if en[1] not in cx.static]
            treg = treg + sum(dr) if dr else treg
        tl, treg = zint(tl), zint(treg)
        add(('tl<=1',), tl <= 1)
        add(('tl=0',), tl == 0)
        add(('treg=tl',), treg == tl)
        add(('treg>=tl',), treg >= tl)
        add(('dr>=do',), z3.And([z3.BoolVal(True)] + [z3.Implies(zbool(en[1].open), zbool(en[2])) for s in cx.sctls for en in s.ents if en[1] not in cx.static]))
        add(('dr=do',), z3.And([z3.BoolVal(True)] + [zbool(en[2]) == zbool(en[1].open) for s in cx.sctls for en in s.ents if en[1] not in cx.static]))
        for n, s in sints:
            add(('tl=s', n), tl == s)
            add(('tl<=s', n), tl <= s)
        fl = []
        for i, o in enumerate(cx.static):
            if o is cx.D:
                continue
            fl.append(('o%d' % i, o.open))
            rg = [en[2] for s in cx.sctls for en in s.ents if en[1] is o]
            if rg:
                fl.append(('r%d' % i, rg[0]))
                add(('r=o', i), zbool(rg[0]) == zbool(o.open))
                add(('r>=o', i), z3.Implies(zbool(o.open), zbool(rg[0])))
            if pos == 'end' or pos[1] >= 0:
                add(('o->tl0', i), z3.Implies(zbool(o.open), tl == 0))
                for n, s in sints:
                    for kv in K.get('s.' + n, ()):
                        add(('o->s=k', i, n, kv), z3.Implies(zbool(o.open), s == kv))
        for n, f in fl:
            add(('f1', n), zbool(f))
            add(('f0', n), znotz(f))
            for sn, s in sbools:
                add(('f=', n, sn), zbool(f) == zbool(s))
                add(('f!', n, sn), zbool(f) != zbool(s))
                add(('f->', n, sn), z3.Implies(zbool(f), zbool(s)))
                add(('f->!', n, sn), z3.Implies(zbool(f), znotz(s)))
                add(('!f->', n, sn), z3.Or(zbool(f), zbool(s)))
            for sn, s in sopts:
                add(('f=o', n, sn), zbool(f) == zbool(s[0]))
                add(('f!o', n, sn), zbool(f) != zbool(s[0]))
                add(('!f->o', n, sn), z3.Or(zbool(f), zbool(s[0])))
                # amb: a source that is cut has lost
                if s[1] is not None and is_scalar(s[1]):
                    i = int(n[1:])
                    idx = [pt.idx for pt in cx.ports if pt.obs is cx.static[i]]
                    if idx:
                        add(('!f->lost', n, sn), z3.Or(zbool(f), s[1] != idx[0]))
        for i in range(len(fl)):
            for j in range(i + 1, len(fl)):
                add(('ff', fl[i][0], fl[j][0]), zbool(fl[i][1]) == zbool(fl[j][1]))
                add(('f|f', fl[i][0], fl[j][0]), z3.Or(zbool(fl[i][1]), zbool(fl[j][1])))
        return out

    def mapeq(self, cx, v, s):
        base_ok = (v.rest is None) == (s.base is None)
        if not base_ok:
            return False
        known = list(s.ents) + ([kw for kw in s.base.known if kw[1] is not None] if s.base else [])

        def find(l, k):
            for kk, x in l:
                if same(zint(kk), zint(k)) or cx.path.implied(zint(kk) == zint(k)):
                    return x
            return None
        for k, w in s.ents:
            x = find(v.ents, k)
            if x is None or x.w is not w:
                return False
        for k, x in v.ents:
            w = find(known, k)
            if w is None or x.w is not w:
                return False
        return True

    def check_R(self, cx, pos):
        """the state satisfies every surviving candidate, or the candidate dies"""
        D = self.dead.setdefault(pos, set())
        impl, spec = self.leaves(cx)
        for n, k, v in impl + [('s.' + n, k, v) for n, k, v in spec if k == 'int'] + [(n, k, v) for n, k, v in spec if k == 'bool']:
            if k in ('int', 'bool') and isinstance(v, (int, bool)):
                K = self.consts.setdefault(n, [])
                if v not in K and len(K) < 2:
                    K.append(v)
                    self.changed = True
        self.reach.add(pos)
        if pos == 'end' and cx.phase == 'event':
            self.check_struct(cx)
        cs = [(k, c) for k, c in self.cands(cx, pos) if k not in D]
        p = cx.path
        while cs:
            bad = [k for k, c in cs if c is False]
            cs = [(k, c) for k, c in cs if not isinstance(c, bool)]
            if bad:
                if p.check() == z3.unsat:
                    raise Stop()
                D.update(bad)
                self.changed = True
            if not cs:
                break
            conj = z3.And(*[c for k, c in cs])
            r = p.check(z3.Not(conj))
            if r == z3.unsat:
                break
            if r == z3.sat:
                m = p.s.model()
                bad = [k for k, c in cs if z3.is_false(m.eval(c, model_completion=True))]
                if not bad:
                    bad = [k for k, c in cs if p.check(z3.Not(c)) != z3.unsat]
            else:
                bad = [k for k, c in cs if p.check(z3.Not(c)) != z3.unsat]
            if not bad:
                break
            D.update(bad)
            self.changed = True
            cs = [(k, c) for k, c in cs if k not in D]

    def check_struct(self, cx, new=None):
        """collections of observables may only change when no older source is left to see it"""
        cur = self.structural(cx)
        old = cx.struct0
        if len(cur) == len(old) and all(same(x, y) for x, y in zip(cur, old)):
            return
        if not self.struct_varies:
            self.struct_varies = self.changed = True
        for p in cx.ports:
            if p is not new and p in cx.ports0 and p.live is not False and not (is_z3(p.live) and cx.path.implied(z3.Not(p.live))):
                raise Unsupported('state of an unknown kind changes under a live source')
        if not cx.path.implied(zint(cx.others) == 0):
            raise Unsupported('state of an unknown kind changes under live sources')
        cx.struct0 = cur

    def poison(self, cx):
        """after this point other events may have changed it"""
        if self.struct_varies:
            for c in cx.cells:
                if c.birth and not self.data(c) and not any(c is x for x, _ in cx.poisoned):
                    cx.poisoned.append((c, c.v))
                    c.v = POISON

    def unpoison(self, cx):
        for c, v in cx.poisoned:
            if c.v is not POISON:
                raise Unsupported('state of an unknown kind changes after a subscription')
            c.v = v
        cx.poisoned = []

    # ---- captured scalars of dynamically subscribed sources
    def pv_scan(self, v, f, cx, d=0):
        """rebuild a value, replacing every captured scalar by f(n, value)"""
        if d > 8:
            return v
        if isinstance(v, Clos):
            return Clos(v.key, [self.pv_scan(x, f, cx, d + 1) for x in v.caps])
        if isinstance(v, Agg) and v.k != 'x':
            return Agg(v.k, v.var, [self.pv_scan(x, f, cx, d + 1) for x in v.f])
        if isinstance(v, bool):
            return v
        if isinstance(v, int) or is_z3(v) and z3.is_int(v):
            return f(v)
        return v

    def pv_vals(self, cx, p):
        out = []

        def f(v):
            out.append(v)
            return v
        for x in getattr(p.obs, 'user', ()):
            self.pv_scan(x, f, cx)
        return out

    def pv_cands(self, cx, p, vals):
        out = []
        _, spec = self.leaves(cx)
        many = not cx.path.implied(zint(cx.others) == 0)
        for i, v in enumerate(vals):
            for pn, q in cx.pints:
                out.append((('pv=p', i, pn), v == q))
                out.append((('pv<=p', i, pn), v <= q))
            if (p.cls, i) in self.fixed:
                out.append((('pv=k', i), v == self.fixed[(p.cls, i)]))
            out.append((('pv>=1', i), v >= 1))
            if not many:
                for n, k, s in spec:
                    if k == 'int':
                        out.append((('pv=s', i, n), v == s))
                        out.append((('pv=s-1', i, n), v == s - 1))
                        out.append((('pv=s+1', i, n), v == s + 1))
                        for pn, q in cx.pints:
                            out.append((('pv=p-s', i, n, pn), v + s == q))
                            out.append((('pv=p-s+1', i, n, pn), v + s == q + 1))
                            out.append((('pv=p-s|0', i, n, pn), z3.Or(q == 0, v + s == q)))
                            out.append((('pv=p-s+1|0', i, n, pn), z3.Or(q == 0, v + s == q + 1)))
            for j in range(i):
                out.append((('pv=pv', i, j), v == vals[j]))
        return out

    def check_pv(self, cx, p):
        vals = self.pv_vals(cx, p)
        if not vals:
            return
        key = ('pv', p.cls)
        D = self.dead.setdefault(key, set())
        for i, v in enumerate(vals):
            if (p.cls, i) not in self.fixed and (p.cls, 'seen') not in self.fixed:
                if is_z3(v):
                    v = next((k for k in range(9) if cx.path.implied(v == k)), None)
                if isinstance(v, int):
                    self.fixed[(p.cls, i)] = v
        self.fixed[(p.cls, 'seen')] = 1
        for k, c in self.pv_cands(cx, p, vals):
            if k not in D and not cx.path.implied(c):
                D.add(k)
                self.changed = True

    def havoc_pv(self, cx, p):
        vals = self.pv_vals(cx, p)
        if not vals:
            return
        new = [cx.path.fresh('cap') for _ in vals]
        it = iter(new)
        p.obs.rebind(*[self.pv_scan(x, lambda v: next(it), cx) for x in p.obs.user])
        D = self.dead.get(('pv', p.cls), ())
        for k, c in self.pv_cands(cx, p, new):
            if k not in D and not isinstance(c, bool):
                cx.path.add(c)

    # ---- events
    def event(self, cx, pos, ports):
        """one event in an arbitrary state satisfying R at pos"""
        was = cx.phase
        cx.phase = 'event'
        if was == 'init':
            cx.static = list(cx.static)
        self.havoc(cx, pos, True)
        path = cx.path
        # the live ports this event may arrive at
        cand = [p for p in ports if not p.stale]
        p = cand[path.choose(len(cand))] if len(cand) > 1 else cand[0]
        if is_z3(p.obs.open):
            path.add(p.obs.open)
            p.obs.open = p.live = True
        elif not p.obs.open:
            raise Stop()
        if path.check() == z3.unsat:
            raise Stop()
        if p.dyn:
            for s in cx.sctls:
                pass
            self.havoc_pv(cx, p)
            if path.check() == z3.unsat:
                raise Stop()
        cx.held = []
        cx.struct0 = self.structural(cx)
        cx.ports0 = list(cx.ports)
        k = path.choose(3)
        spec, st = cx.spec, cx.st
        arg = None
        if k == 0:
            arg, sarg = self.item(cx)
            gen = spec.next(st, p, sarg)
        elif k == 1:
            arg = path.fresh('e')
            gen = spec.error(st, p, arg)
        else:
            gen = spec.complete(st, p)
        cx.evname = '%s on %r after %s' % (('next', 'error', 'complete')[k], p, pos if pos == 'end' else 'sub %d' % pos[1])
        if k:
            p.live = False
        L = cx.L = Lockstep(cx, gen, cx.evname)
        L.log = []
        self.reach.add(cx.evname)
        try:
            if k == 0:
                p.obs.next(cx, arg)
            elif k == 1:
                p.obs.error(cx, arg)
            else:
                p.obs.complete(cx)
        except Panic as e:
            cx.fail('panic', 'panics: %s' % e)
        self.end(cx, pos if was == 'init' else 'end', p)
        raise Stop()

    def end(self, cx, pos, p=None):
        """obligations when control leaves the operator"""
        self.unpoison(cx)
        for s, m in cx.held:
            cx.fail('lock', 'returns with %s locked' % cx.slot_name(s))
        cx.L.finish()
        if cx.L.dead:
            cx.oblige(cx.D.open is False, 'events', 'the subscriber stays open after the end') if cx.L.terminal else None
            for q in cx.ports:
                if q.obs is cx.D:
                    continue
                cx.oblige(znotz(q.obs.open) if is_z3(q.obs.open) else not q.obs.open, 'upstream',
                          'source %r is still subscribed after the subscription ended' % q)
            if is_z3(cx.others):
                cx.oblige(cx.others <= 0, 'upstream', 'other inner sources are still subscribed after the subscription ended')
            for s in cx.sctls:
                for en in s.ents:
                    if en[2] is not False and en[1].open is not False:
                        c = zand([zbool(en[2]), zbool(en[1].open)])
                        cx.oblige(z3.Not(c) if is_z3(c) else not c, 'upstream', 'an upstream observer is left open after the end')
                if s.on_fin is not None:
                    cx.fail('upstream', 'the finalizer is kept after the end')
            cyc = A.ownership_cycle(cx)
            cx.oblige(cyc is None, 'leak', 'reference cycle after the end: %s' % cyc)
        else:
            for q in cx.ports:
                if q.obs is cx.D or q.stale:
                    continue
                o, l = zbool(q.obs.open), zbool(q.live)
                cx.oblige(z3.Implies(o, l), 'upstream', 'source %r is still subscribed though the operator is done with it' % q)
                cx.oblige(z3.Implies(l, o), 'events', 'source %r was given up though the contract still needs it' % q)
            self.check_R(cx, pos)
            if p is not None and p.dyn and p.live is not False:
                self.check_pv(cx, p)

    def item(self, cx):
        if getattr(cx.spec, 'ITEM', '') == 'material':
            k = cx.path.choose(3)
            v = cx.path.fresh('x')
            ad = [a for a in self.P.adts if a.split('::')[-1] == 'Material'][0]
            return Agg(ad, k, (v,) if k < 2 else ()), Material(('Next', 'Error', 'Complete')[k], v if k < 2 else None)
        v = cx.path.fresh('x')
        return v, v

    # ---- parameters
    def make_params(self, cx):
        vals, sp = [], {}
        cx.pints = []
        cx.pitems = []
        p = cx.path

        def uf(name, n, out):
            f = z3.Function(name, *([I] * n + [out]))

            def flat(cx, a):
                l = []
                for x in a:
                    x = cx.deref(x)
                    l += flat(cx, x.f) if isinstance(x, Agg) and x.k == 'tuple' else [zint(x)]
                return l
            return f, UFn(name, lambda cx, *a: f(*flat(cx, a)))
        for kind, n in self.params:
            if kind in ('nat', 'pos', 'dur'):
                v = p.fresh(n, 'nat')
                if kind == 'pos':
                    p.add(v > 0)
                cx.pints.append((n, v))
                vals.append(v)
                sp[n] = v
            elif kind in ('item', 'int'):
                v = p.fresh(n)
                cx.pitems.append((n, v))
                vals.append(v)
                sp[n] = v
            elif kind in ('fn', 'key'):
                f, u = uf(n, 1, I)
                vals.append(u)
                sp[n] = lambda x, f=f: f(zint(x))
            elif kind in ('pred', 'errpred'):
                f, u = uf(n, 1, z3.BoolSort())
                vals.append(u)
                sp[n] = lambda x, f=f: f(zint(x))
            elif kind == 'fn2':
                f, u = uf(n, 2, I)
                vals.append(u)
                sp[n] = lambda x, y, f=f: f(zint(x), zint(y))
            elif kind == 'fn0':
                v = p.fresh(n)
                vals.append(UFn(n, lambda cx, v=v, n=n: (cx.L.log.append('side'), cx.L.side(n, None), v)[2]))
                sp[n] = lambda v=v: v
            elif kind == 'fnlist':
                f = z3.Function(n, SeqI, I)
                vals.append(UFn(n, lambda cx, l, f=f: f(cx.as_seq(cx.deref(l)))))
                sp[n] = lambda l, f=f: f(seq_of([zint(x) for x in l]))
            elif kind in ('obsfn', 'errobsfn'):
                f = z3.Function(n, I, I)
                vals.append(UFn(n, lambda cx, x, f=f: A.AObsv(cx, ('obs', f(zint(cx.deref(x)))))))
                sp[n] = lambda x, f=f: f(zint(x))
            elif kind == 'obsfn0':
                v = p.fresh(n)
                vals.append(UFn(n, lambda cx, v=v: A.AObsv(cx, ('obs', v))))
                sp[n] = lambda v=v: v
            elif kind == 'side':
                tag = {'sn': 'next', 'se': 'error', 'sc': 'complete'}[n]
                vals.append(UFn('tap_' + tag, lambda cx, v=None, tag=tag: (cx.L.log.append('side'), cx.L.side(tag, v), UNIT)[2]))
                sp[n] = None
            elif kind == 'act':
                vals.append(UFn('action', lambda cx, n=n: (cx.L.log.append('side'), cx.L.side('act', None), UNIT)[2]))
                sp[n] = None
            elif kind == 'items':
                t = p.fresh(n, 'seq')
                vals.append(SymIt(z3.Length(t), lambda i, t=t: t[i], ('seq', t), user=True))
                sp[n] = t
            elif kind == 'iter':
                if p.choose(2):
                    f = z3.Function(n, I, I)
                    vals.append(SymIt(None, lambda i, f=f: f(zint(i)), ('endless', n), user=True))
                    sp[n] = (None, lambda i, f=f: f(zint(i)))
                else:
                    t = p.fresh(n, 'seq')
                    vals.append(SymIt(z3.Length(t), lambda i, t=t: t[i], ('seq', t), user=True))
                    sp[n] = t
            elif kind == 'recv':
                vals.append(A.AObsv(cx, ('src', 0)))
                sp[n] = None
            elif kind == 'arity':
                sp[n] = self.k
            elif kind == 'list':
                vals.append(Ref(Slot(ListV([A.AObsv(cx, ('src', i)) for i in range(1, self.k)], 'array'))))
            elif kind == 'obs':
                vals.append(A.AObsv(cx, ('src', n)))
            elif kind == 'result':
                v = p.fresh('v')
                if p.choose(2):
                    vals.append(err(v))
                    sp[n] = ('err', v)
                else:
                    vals.append(ok(v))
                    sp[n] = ('ok', v)
            else:
                raise Unsupported('parameter ' + kind)
        return vals, sp

    def construct(self, cx, args):
        return cx.call_fn(self.method, args)

    # ---- one path
    def body(self, path):
        cx = Ctx(self.P, path, self)
        cx.contracts = dict(CONTRACTS)
        cx.ports, cx.port_of, cx.sctls, cx.static = [], {}, [], []
        cx.others = 0
        cx.chain = []
        cx.phase = 'build'
        cx.clock = cx.clock2 = path.fresh('t0', 'nat')
        cx.struct0, cx.ports0, cx.poisoned = [], [], []
        self.cx = cx
        try:
            vals, sp = self.make_params(cx)
            cx.evname = 'construction'
            cx.L = Lockstep(cx, iter(()), 'construction')
            cx.L.log = []
            if self.ctor:
                args = vals
            else:
                recv = A.AObsv(cx, ('src', 0))
                args = [Ref(Slot(recv))] + vals
            try:
                o = self.construct(cx, args)
            except Panic as e:
                cx.fail('panic', 'panics: %s' % e)
            o = cx.deref(o)
            if not isinstance(o, A.AObsv):
                raise Unsupported('%s returns %r' % (self.method, o))
            cx.epoch = 1
            cx.spec = self.spec_cls(SymEnv(cx), **sp)
            cx.st = St()
            cx.phase = 'init'
            D = self.make_D(cx)
            cx.evname = 'subscribe'
            cx.L = Lockstep(cx, cx.spec.init(cx.st), 'subscribe')
            cx.L.log = []
            cx.static = StaticList(cx)
            try:
                o.subscribe(cx, D)
            except Panic as e:
                cx.fail('panic', 'panics: %s' % e)
            cx.static = [a for a in cx.abs if isinstance(a, A.AObs)]
            self.end(cx, 'end')
            if cx.L.dead or not cx.ports:
                return
            self.event(cx, 'end', list(cx.ports))
        finally:
            self.fns |= cx.seen

    def run(self, max_rounds=60):
        t = time.time()
        while True:
            self.rounds += 1
            self.changed = False
            self.popmode = self.popnext
            self.failures, self.obl, self.disch, self.cats = [], 0, 0, {}
            ex = Explorer(6000)
            ex.run(self.body)
            if not self.changed or self.rounds > max_rounds:
                break
        self.paths, self.queries, self.solver_s = ex.paths, ex.queries, ex.solver_s
        self.wall = time.time() - t
        return self


class StaticList(list):
    """observers created while subscribing (all of them are static)"""
    def __init__(self, cx):
        self.cx = cx

    def _l(self):
        return [a for a in self.cx.abs if isinstance(a, A.AObs)]

    def __contains__(self, x):
        return any(a is x for a in self._l())

    def __iter__(self):
        return iter(self._l())

    def __len__(self):
        return len(self._l())

    def __getitem__(self, i):
        return self._l()[i]


def znotz(c):
    return z3.Not(zbool(c))
