"""Symbolic executor over the compiler's MIR, with contracts at the call sites.

Paths are explored by re-execution: a run follows a list of recorded decisions and every
new feasible alternative is queued.  Values are immutable Python objects over z3 terms;
memory is a set of mutable slots.  A call is answered, in this order, by the contract of a
contract object (abs.py), by the callee's own MIR when it is a local function without a
contract, or by a trusted contract of the standard library (prims.py).
"""
import json, re
import z3

I = z3.IntSort()
SeqI = z3.SeqSort(I)


class Unsupported(Exception):
    """outside the verifier's reach: the function gets a bounded stand-in"""


class Stop(Exception):
    """end of this path (inductive step closed, or infeasible)"""


class Fail(Exception):
    """an obligation failed on this path; the rest of the path means nothing"""


class Panic(Exception):
    pass


# ------------------------------------------------------------------ values
class Agg:
    __slots__ = ('k', 'var', 'f')

    def __init__(self, k, var, f):
        self.k, self.var, self.f = k, var, tuple(f)

    def __repr__(self):
        return '%s#%s%r' % (self.k.split('::')[-1], self.var, list(self.f))


class SymOpt:
    """Option whose discriminant is a z3 term"""
    __slots__ = ('cond', 'val')

    def __init__(self, cond, val):
        self.cond, self.val = cond, val

    def __repr__(self):
        return 'Opt?(%s,%s)' % (self.cond, self.val)


class Clos:
    __slots__ = ('key', 'caps')

    def __init__(self, key, caps):
        self.key, self.caps = key, tuple(caps)

    def __repr__(self):
        return 'clos(%s)' % self.key.split('::', 1)[-1]


class FnV:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn

    def __repr__(self):
        return 'fn(%s)' % self.fn['path']


class UFn:
    """a function supplied by the user: uninterpreted, pure, may re-enter the library"""
    __slots__ = ('name', 'apply')

    def __init__(self, name, apply):
        self.name, self.apply = name, apply

    def __repr__(self):
        return 'user:' + self.name


class PyFn:
    """ghost callable used by the verifier itself"""
    __slots__ = ('name', 'apply', 'owned')

    def __init__(self, name, apply):
        self.name, self.apply = name, apply

    def __repr__(self):
        return 'ghost:' + self.name


class Slot:
    __slots__ = ('v', 'birth', 'name', 'ty', 'kind', 'id')
    N = [0]

    def __init__(self, v, name='', ty=None, kind='slot', birth=0):
        self.v, self.name, self.ty, self.kind, self.birth = v, name, ty, kind, birth
        Slot.N[0] += 1
        self.id = Slot.N[0]

    def __repr__(self):
        return '@%s%d' % (self.name, self.id)


class Ref:
    __slots__ = ('slot', 'path')

    def __init__(self, slot, path=()):
        self.slot, self.path = slot, path

    def __repr__(self):
        return '&%r%s' % (self.slot, list(self.path) or '')


class ArcV:
    __slots__ = ('slot',)

    def __init__(self, slot):
        self.slot = slot

    def __repr__(self):
        return 'Arc%r' % self.slot


class BoxV(ArcV):
    __slots__ = ()


class LockV:
    """RwLock / Mutex / atomic / cell: `slot` holds the protected value"""
    __slots__ = ('slot', 'kind')

    def __init__(self, slot, kind):
        self.slot, self.kind = slot, kind

    def __repr__(self):
        return '%s%r' % (self.kind, self.slot)


class Guard:
    __slots__ = ('slot', 'mode', 'proj')

    def __init__(self, slot, mode, proj=()):
        self.slot, self.mode, self.proj = slot, mode, proj

    def __repr__(self):
        return 'guard(%r,%s)' % (self.slot, self.mode)


class ListV:
    __slots__ = ('items', 'kind')

    def __init__(self, items, kind='vec'):
        self.items, self.kind = tuple(items), kind

    def __repr__(self):
        return '%s%r' % (self.kind, list(self.items))


class SeqV:
    """a sequence of items of unknown length (z3 sequence of integers)"""
    __slots__ = ('t', 'kind')

    def __init__(self, t, kind='vec'):
        self.t, self.kind = t, kind

    def __repr__(self):
        return 'seq(%s)' % self.t


class Opaque:
    __slots__ = ('tag', 'a')

    def __init__(self, tag, *a):
        self.tag, self.a = tag, a

    def __repr__(self):
        return '<%s%s>' % (self.tag, list(self.a) or '')


class Abs:
    """base of contract objects"""
    birth = 0
    cls = ''


UNIT = Agg('tuple', 0, ())
OPT = 'std::option::Option'
RES = 'std::result::Result'
NONE = Agg(OPT, 0, ())


def some(v):
    return Agg(OPT, 1, (v,))


def ok(v):
    return Agg(RES, 0, (v,))


def err(v):
    return Agg(RES, 1, (v,))


def tup(*a):
    return Agg('tuple', 0, a)


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_scalar(v):
    return isinstance(v, (int, bool)) or is_z3(v)


def tys(t):
    """printable form of a type"""
    if t is None:
        return '?'
    k = t['k']
    if k == 'adt':
        return t['p'].split('::')[-1] + ('<%s>' % ','.join(map(tys, t['a'])) if t['a'] else '')
    if k in ('ref', 'ptr'):
        return '&' + tys(t['t'])
    if k == 'tuple':
        return '(%s)' % ','.join(map(tys, t['a']))
    if k in ('param', 'int', 'uint', 'float'):
        return t['n']
    if k in ('closure', 'fndef'):
        return 'C:' + t['p'].split('::')[-1]
    return t.get('s', k)


def strip_generics(s):
    out, d, i = [], 0, 0
    while i < len(s):
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>' and s[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return re.sub(r'(::)+', '::', ''.join(out)).strip(':')


class Program:
    def __init__(self, js):
        self.m = js
        self.fns = js['fns']
        self.adts = js['adts']
        self.by_short = {}
        for k in self.fns:
            self.by_short.setdefault(self.short(k), []).append(k)
        self.drops, self.traits = {}, {}
        for im in js['impls']:
            sp = im['self'].get('p') if im['self']['k'] == 'adt' else None
            tr = im.get('trait')
            if tr and sp:
                for name, path in im['m']:
                    self.traits[(sp, tr.split('::')[-1], name)] = path
                if tr == 'std::ops::Drop':
                    self.drops[sp] = dict(im['m']).get('drop')

    @staticmethod
    def short(path):
        """Type::method for inherent methods and functions, whatever the generics"""
        m = re.match(r'^<(.*) as (.*)>::(\w+)$', path)
        if m:
            return strip_generics(m.group(1)).split('::')[-1] + '::' + m.group(3)
        m = re.match(r'^(.*)::<impl ([^>]*(?:<.*>)?)>::(\w+)(.*)$', path)
        if m:
            if m.group(2).startswith('['):
                return 'slice::' + m.group(3) + m.group(4)
            return strip_generics(m.group(2)).split('::')[-1].strip('[]&') + '::' + m.group(3) + m.group(4)
        return '::'.join(strip_generics(path).split('::')[-2:])

    def method(self, short):
        l = [k for k in self.by_short.get(short, ()) if '{closure' not in k]
        if not l:
            raise Unsupported('no function ' + short)
        l.sort(key=lambda k: ('test' in k, len(k)))
        return l[0]


# ------------------------------------------------------------------ paths
class Explorer:
    """runs `body(path)` on every feasible path"""

    def __init__(self, max_paths=20000):
        self.max_paths = max_paths
        self.paths = 0
        self.queries = 0
        self.solver_s = 0.0
        self.obl = 0
        self.disch = 0

    def run(self, body):
        todo = [[]]
        while todo:
            pre = todo.pop()
            p = Path(self, pre)
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported('too many paths')
            try:
                body(p)
            except (Stop, Fail):
                pass
            todo += p.alts


import time as _time


class Path:
    def __init__(self, ex, prefix):
        self.ex, self.prefix = ex, prefix
        self.trace, self.alts = [], []
        self.s = z3.Solver()
        self.s.set('timeout', 8000)
        self.names = {}
        self.pc = []
        self.failures = []
        self.log = []

    def fresh(self, name, sort='int'):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        nm = '%s!%d' % (name, n) if n else name
        if sort == 'int':
            return z3.Int(nm)
        if sort == 'nat':
            v = z3.Int(nm)
            self.add(v >= 0)
            return v
        if sort == 'bool':
            return z3.Bool(nm)
        if sort == 'seq':
            return z3.Const(nm, SeqI)
        raise ValueError(sort)

    def add(self, c):
        if isinstance(c, bool):
            if not c:
                raise Stop()
            return
        self.pc.append(c)
        self.s.add(c)

    def check(self, *c):
        t = _time.time()
        self.ex.queries += 1
        try:
            r = self.s.check(*c)
        except z3.Z3Exception:
            r = z3.unknown
        self.ex.solver_s += _time.time() - t
        return r

    def feasible(self, c):
        return self.check(c) != z3.unsat

    def br(self, c):
        """which way does `c` go on this path"""
        if isinstance(c, bool):
            return c
        if isinstance(c, int):
            return c != 0
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.add(c if d else z3.Not(c))
            return d
        t, f = self.feasible(c), self.feasible(z3.Not(c))
        if t and f:
            self.alts.append(self.trace + [False])
        elif not t and not f:
            raise Stop()
        d = t
        self.trace.append(d)
        self.add(c if d else z3.Not(c))
        return d

    def choose(self, n):
        """nondeterministic choice 0..n-1"""
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            return d
        for k in range(1, n):
            self.alts.append(self.trace + [k])
        self.trace.append(0)
        return 0

    def implied(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return self.check() == z3.unsat
        return self.check(z3.Not(c)) == z3.unsat

    def model(self, c=None):
        r = self.check(*([z3.Not(c)] if c is not None and is_z3(c) else []))
        if r == z3.sat:
            return self.s.model()
        return None


# ------------------------------------------------------------------ interpreter
class Ctx:
    """one path's machine state: memory, locks, hooks of the verification task"""

    def __init__(self, prog, path, task):
        self.P, self.path, self.task = prog, path, task
        self.held = []                  # [(lock slot, mode)]
        self.depth = 0
        self.cells = []                 # lock-protected slots in creation order
        self.abs = []                   # contract objects in creation order
        self.epoch = 0
        self.fnstack = []
        self.frames = []                # [[function, slots, block]] of the calls under way
        self.lock_order = set()
        self.contracts = {}
        self.loops = {}
        self.seen = set()
        Slot.N[0] = 0

    # ---- obligations
    def oblige(self, c, cat, msg):
        """`c` must hold here"""
        return self.task.oblige(self, c, cat, msg)

    def fail(self, cat, msg):
        self.task.oblige(self, False, cat, msg)
        raise Fail()

    # ---- memory
    def slot(self, v, name='', ty=None, kind='slot'):
        return Slot(v, name, ty, kind, self.epoch)

    def proj(self, v, p):
        if isinstance(p, int):
            if isinstance(v, Agg):
                return v.f[p]
            if isinstance(v, Clos):
                return v.caps[p]
            if isinstance(v, SymOpt):
                return v.val
            if isinstance(v, (BoxV, ArcV)):
                return v
            if isinstance(v, Abs):
                return v.field(self, p)
            raise Unsupported('field %d of %r' % (p, v))
        if p[0] == 'dc':
            return v
        if p[0] == 'ix':
            return self.list_get(v, p[1])
        if p[0] == 'key':
            return v.get_key(p[1])
        raise Unsupported('projection %r' % (p,))

    def list_get(self, v, i):
        if isinstance(v, ListV):
            if not isinstance(i, int):
                for k in range(len(v.items)):
                    if self.path.br(i == k):
                        return v.items[k]
                raise Panic('index out of bounds')
            if not 0 <= i < len(v.items):
                raise Panic('index out of bounds')
            return v.items[i]
        if isinstance(v, SeqV):
            if not self.path.br(z3.And(i >= 0, i < z3.Length(v.t)) if is_z3(i) else z3.Length(v.t) > i):
                raise Panic('index out of bounds')
            return v.t[i]
        raise Unsupported('index of %r' % (v,))

    def get(self, slot, path=()):
        v = slot.v
        for p in path:
            v = self.proj(v, p)
        return v

    def upd(self, v, path, nv):
        if not path:
            return nv
        p, rest = path[0], path[1:]
        if isinstance(p, int):
            if isinstance(v, Agg):
                f = list(v.f)
                while len(f) <= p:
                    f.append(None)
                f[p] = self.upd(f[p], rest, nv)
                return Agg(v.k, v.var, f)
            if isinstance(v, SymOpt):
                return SymOpt(v.cond, self.upd(v.val, rest, nv))
            if isinstance(v, Clos):
                f = list(v.caps)
                f[p] = self.upd(f[p], rest, nv)
                return Clos(v.key, f)
            if v is None:
                f = [None] * (p + 1)
                f[p] = self.upd(None, rest, nv)
                return Agg('tuple', 0, f)
            if isinstance(v, Abs):
                raise Unsupported('field write into contract object')
        elif p[0] == 'dc':
            return self.upd(v, rest, nv)
        elif p[0] == 'ix':
            if isinstance(v, ListV) and isinstance(p[1], int):
                l = list(v.items)
                l[p[1]] = self.upd(l[p[1]], rest, nv)
                return ListV(l, v.kind)
            if isinstance(v, SeqV) and not rest:
                i = p[1]
                n = z3.Length(v.t)
                return SeqV(z3.Concat(z3.SubSeq(v.t, 0, i), z3.Unit(zint(nv)), z3.SubSeq(v.t, i + 1, n - i - 1)), v.kind)
        elif p[0] == 'key':
            return v.put_key(self, p[1], self.upd(v.get_key(p[1]), rest, nv))
        raise Unsupported('update of %r at %r' % (v, p))

    def put(self, slot, path, nv):
        if slot.kind == 'cell':
            self.task.on_write(self, slot, path, nv)
        slot.v = self.upd(slot.v, path, nv)

    def deref(self, v):
        """value behind a reference / Arc / Box (all the way)"""
        while isinstance(v, (Ref, ArcV)):
            v = self.get(v.slot, v.path) if isinstance(v, Ref) else v.slot.v
        return v

    def load(self, r):
        if isinstance(r, Ref):
            return self.get(r.slot, r.path)
        if isinstance(r, ArcV):
            return r.slot.v
        return r

    def store(self, r, v):
        if not isinstance(r, Ref):
            raise Unsupported('store through %r' % (r,))
        self.put(r.slot, r.path, v)

    # ---- frames
    def place(self, fr, p):
        slot, path = fr[p['l']], ()
        for e in p['p']:
            if e == '*':
                v = self.get(slot, path)
                if isinstance(v, Ref):
                    slot, path = v.slot, v.path
                elif isinstance(v, ArcV):
                    slot, path = v.slot, ()
                elif isinstance(v, Opaque) or is_scalar(v):
                    slot, path = Slot(v), ()
                else:
                    raise Unsupported('deref of %r' % (v,))
            elif 'f' in e:
                path = path + (e['f'],)
            elif 'dc' in e:
                path = path + (('dc', e['dc']),)
            elif 'ix' in e:
                path = path + (('ix', fr[e['ix']].v),)
            elif 'ci' in e:
                v = self.get(slot, path)
                if e['fe'] and not isinstance(v, ListV):
                    raise Unsupported('index from the end of %r' % (v,))
                path = path + (('ix', len(v.items) - e['ci'] if e['fe'] else e['ci']),)
            else:
                raise Unsupported('place %r' % (e,))
        return slot, path

    def operand(self, fr, o):
        if o['o'] in ('copy', 'move'):
            s, p = self.place(fr, o['p'])
            return self.get(s, p)
        return self.const(fr, o['k'])

    def const(self, fr, k):
        c = k['c']
        if c == 'int':
            v = k['v']
            return v if isinstance(v, bool) else int(v)
        if c == 'fn':
            return FnV(k['fn'])
        ty = k.get('ty') or {}
        if ty.get('k') == 'tuple' and not ty['a']:
            return UNIT
        if c == 'promoted':
            return self.promoted(fr, k)
        if ty.get('k') == 'adt' and not ty.get('a') or 'PhantomData' in str(ty.get('p', '')):
            return Agg(ty['p'], 0, ())
        if ty.get('k') == 'closure':
            return Clos(self.clos_key(ty['p']), ())
        return Opaque('const', k.get('s', ''))

    def clos_key(self, p):
        return p

    def promoted(self, fr, k):
        key = '%s#p%d' % (k['of'], k['i'])
        if key not in self.P.fns:
            raise Unsupported('promoted constant')
        return self.run_body(key, self.P.fns[key], [])

    def rvalue(self, fr, r, fkey):
        k = r['r']
        if k == 'use':
            return self.operand(fr, r['o'])
        if k == 'ref':
            s, p = self.place(fr, r['p'])
            return Ref(s, p)
        if k == 'bin':
            return self.binop(r['op'], self.operand(fr, r['a']), self.operand(fr, r['b']), self.opty(fkey, r['a']) or self.opty(fkey, r['b']))
        if k == 'un':
            a = self.operand(fr, r['a'])
            if r['op'] == 'Not':
                return (not a) if isinstance(a, bool) else z3.Not(a)
            if r['op'] == 'Neg':
                return -a
            raise Unsupported('unop ' + r['op'])
        if k == 'disc':
            s, p = self.place(fr, r['p'])
            return self.disc(self.get(s, p))
        if k == 'agg':
            a = [self.operand(fr, x) for x in r['a']]
            g = r['k']
            if g['k'] == 'adt':
                return Agg(g['p'], g['v'], a)
            if g['k'] == 'tuple':
                return Agg('tuple', 0, a)
            if g['k'] == 'array':
                return ListV(a, 'array')
            if g['k'] == 'closure':
                return Clos(g['p'], a)
            raise Unsupported('aggregate %r' % g)
        if k == 'cast':
            v = self.operand(fr, r['o'])
            if r['k'].startswith('BoxDeref') or 'Transmute' in r['k']:
                return Ref(v.slot) if isinstance(v, ArcV) else v
            if r['k'].startswith('PointerCoercion') or r['k'].startswith('IntToInt') or 'Unsize' in r['k']:
                if isinstance(v, bool):
                    return int(v)
                if is_z3(v) and z3.is_bool(v):
                    return z3.If(v, 1, 0)
                if r['k'].startswith('IntToInt'):
                    return self.intcast(v, self.opty(fkey, r['o']), (r.get('t') or {}).get('n'))
                return v
            raise Unsupported('cast ' + r['k'])
        if k == 'repeat':
            raise Unsupported('repeat')
        if k == 'len':
            return self.length(self.get(*self.place(fr, r['p'])))
        raise Unsupported('rvalue ' + k)

    def opty(self, fkey, o):
        if o['o'] == 'const':
            return (o['k'].get('ty') or {}).get('n')
        p = o['p']
        t = None
        if not p['p']:
            t = self.P.fns[fkey]['locals'][p['l']]
        elif isinstance(p['p'][-1], dict) and 't' in p['p'][-1]:
            t = p['p'][-1]['t']
        elif p['p'] == ['*']:
            t = self.P.fns[fkey]['locals'][p['l']].get('t')
        return (t or {}).get('n')

    def disc(self, v):
        if isinstance(v, Agg):
            return v.var
        if isinstance(v, SymOpt):
            return z3.If(v.cond, z3.IntVal(1), z3.IntVal(0)) if is_z3(v.cond) else int(v.cond)
        if isinstance(v, Abs):
            return v.disc(self)
        raise Unsupported('discriminant of %r' % (v,))

    def intcast(self, v, src, dst):
        """a cast to a narrower type, or of a negative number to an unsigned one, wraps"""
        ws, wd = WIDTH.get(src), WIDTH.get(dst)
        if not is_scalar(v) or wd is None:
            return v
        if ws is not None and (wd < ws or wd < 32):
            m = wrap(v, wd)
            return m if dst[0] == 'u' else (m if m < 2 ** (wd - 1) else m - 2 ** wd) if isinstance(m, int) else z3.If(m >= 2 ** (wd - 1), m - 2 ** wd, m)
        if dst[0] == 'u' and (src is None or src[0] == 'i') and not self.path.br(v >= 0):
            return v + 2 ** wd
        return v

    def binop(self, op, a, b, ty=None):
        r = self.binop0(op, a, b, ty)
        w = WIDTH.get(ty)
        if w is not None and w < 32 and op.replace('WithOverflow', '').replace('Unchecked', '') in ('Add', 'Sub', 'Mul') and is_scalar(r):
            lo, hi = (0, 2 ** w) if ty[0] == 'u' else (-2 ** (w - 1), 2 ** (w - 1))
            if not self.path.br(zand([r >= lo, r < hi])):
                raise Panic('attempt to %s with overflow' % op)
        return r

    def binop0(self, op, a, b, ty=None):
        if isinstance(a, bool) and op not in ('Eq', 'Ne', 'BitAnd', 'BitOr', 'BitXor'):
            a = int(a)
        if op.endswith('WithOverflow') or op.endswith('Unchecked'):
            op = op.replace('WithOverflow', '').replace('Unchecked', '')
        if not (is_scalar(a) and is_scalar(b)):
            if op in ('Eq', 'Ne'):
                r = self.eq(a, b)
                return r if op == 'Eq' else znot(r)
            raise Unsupported('%s of %r %r' % (op, a, b))
        if op == 'Add':
            return a + b
        if op == 'Sub':
            if ty and ty[0] == 'u' and not self.path.br(a >= b):
                raise Panic('attempt to subtract with overflow')
            return a - b
        if op == 'Mul':
            return a * b
        if op in ('Div', 'Rem'):
            if not self.path.br(b != 0):
                raise Panic('division by zero')
            if isinstance(a, int) and isinstance(b, int):
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if op == 'Div' else a - q * b
            a, b = zint(a), zint(b)
            if not (ty and ty[0] == 'u'):
                # towards zero
                q = z3.If(a >= 0, a / b, -((-a) / b))
                return q if op == 'Div' else a - q * b
            return a / b if op == 'Div' else a % b
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if isinstance(a, bool) and isinstance(b, bool):
                return {'BitAnd': a and b, 'BitOr': a or b, 'BitXor': a != b}[op]
            if (isinstance(a, bool) or (is_z3(a) and z3.is_bool(a))):
                return {'BitAnd': z3.And, 'BitOr': z3.Or, 'BitXor': z3.Xor}[op](a, b)
            if op == 'BitAnd':
                if isinstance(a, int) and not isinstance(b, int):
                    a, b = b, a
                if isinstance(a, int) and isinstance(b, int):
                    return a & b
                if isinstance(b, int) and b >= 0 and b & (b + 1) == 0:
                    return zint(a) % (b + 1)
            raise Unsupported('bit operation')
        if op in ('Shl', 'Shr') and isinstance(b, int) and 0 <= b < 64:
            if op == 'Shl':
                return a * 2 ** b if isinstance(a, int) else wrap(zint(a) * 2 ** b, WIDTH.get(ty, 64))
            return a >> b if isinstance(a, int) else zint(a) / 2 ** b
        if op in ('Eq', 'Ne'):
            r = self.eq(a, b)
            return r if op == 'Eq' else znot(r)
        if op == 'Lt':
            return a < b
        if op == 'Le':
            return a <= b
        if op == 'Gt':
            return a > b
        if op == 'Ge':
            return a >= b
        raise Unsupported('binop ' + op)

    def eq(self, a, b):
        a, b = self.deref(a), self.deref(b)
        if is_scalar(a) and is_scalar(b):
            r = (a == b)
            return r if is_z3(r) else bool(r)
        if isinstance(a, SeqV) or isinstance(b, SeqV):
            return self.as_seq(a) == self.as_seq(b)
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.var != b.var or len(a.f) != len(b.f):
                return False
            return zand([self.eq(x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, ListV) and isinstance(b, ListV):
            if len(a.items) != len(b.items):
                return False
            return zand([self.eq(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, SymOpt) or isinstance(b, SymOpt):
            a, b = as_opt(a), as_opt(b)
            both = zand([a[0], b[0]])
            e = self.eq(a[1], b[1]) if a[1] is not None and b[1] is not None else True
            return zor([zand([both, e]), zand([znot(a[0]), znot(b[0])])])
        raise Unsupported('== of %r %r' % (a, b))

    def as_seq(self, v):
        if isinstance(v, SeqV):
            return v.t
        if isinstance(v, ListV):
            return seq_of([zint(x) for x in v.items])
        raise Unsupported('sequence %r' % (v,))

    def length(self, v):
        v = self.deref(v)
        if isinstance(v, ListV):
            return len(v.items)
        if isinstance(v, SeqV):
            return z3.Length(v.t)
        if isinstance(v, Abs):
            return v.length(self)
        raise Unsupported('len of %r' % (v,))

    # ---- execution
    def call_fn(self, key, args):
        f = self.P.fns.get(key)
        if f is None:
            raise Unsupported('no body for ' + key)
        if self.depth > 60:
            raise Unsupported('recursion too deep in ' + key)
        self.depth += 1
        self.seen.add(key)
        n, m = len(self.fnstack), len(self.frames)
        self.fnstack.append(key)
        try:
            return self.run_body(key, f, args)
        finally:
            del self.fnstack[n:]
            del self.frames[m:]
            self.depth -= 1

    def run_body(self, key, f, args):
        fr = [Slot(None) for _ in f['locals']]
        n = f['args']
        if len(args) != n:
            raise Unsupported('arity of %s: %d for %d' % (key, len(args), n))
        for i, a in enumerate(args):
            fr[i + 1].v = a
        blocks = f['blocks']
        bb = 0
        steps = 0
        visits = {}
        here = [key, fr, 0]
        self.frames.append(here)
        while True:
            b = blocks[bb]
            here[2] = bb
            steps += 1
            if steps > 20000:
                raise Unsupported('no progress in ' + key)
            if b.get('lh'):
                self.task.loop_head(self, key, bb, fr, visits)
            for st in b['st']:
                s = st['s']
                if s == '=':
                    v = self.rvalue(fr, st['v'], key)
                    p = st['p']
                    if not p['p']:
                        fr[p['l']].v = v
                    else:
                        sl, pa = self.place(fr, p)
                        self.put(sl, pa, v)
                elif s == 'dead':
                    fr[st['l']] = Slot(None)
                elif s == 'sd':
                    raise Unsupported('set_discriminant')
            t = b['t']
            k = t['t']
            if k == 'goto':
                bb = t['b']
            elif k == 'return':
                return fr[0].v if fr[0].v is not None else UNIT
            elif k == 'switch':
                bb = self.switch(self.operand(fr, t['o']), t)
            elif k == 'call':
                bb = self.do_call(fr, t, key)
            elif k == 'drop':
                sl, pa = self.place(fr, t['p'])
                old = self.get(sl, pa)
                if self.held and old is not None:
                    self.task.on_destroy(self, old, sl)
                self.drop(old, t.get('ty'))
                bb = t['b']
            elif k == 'assert':
                c = self.operand(fr, t['o'])
                want = t.get('e', True)
                if self.path.br(c) != want:
                    raise Panic('assertion in ' + key)
                bb = t['b']
            elif k == 'unreachable':
                raise Stop()
            else:
                raise Unsupported('terminator ' + k)

    def switch(self, v, t):
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            for x, b in t['v']:
                if int(x) == v:
                    return b
            return t['else']
        for x, b in t['v']:
            x = int(x)
            if z3.is_bool(v):
                c = v if x else z3.Not(v)
            else:
                c = v == x
            if self.path.br(c):
                return b
        return t['else']

    def do_call(self, fr, t, key):
        fo = t['f']
        args = [self.operand(fr, a) for a in t['a']]
        if fo['o'] == 'const' and fo['k']['c'] == 'fn':
            r = self.call(fo['k']['fn'], args, t, key)
        else:
            r = self.apply(self.operand(fr, fo), args)
        if t.get('b') is None:
            raise Stop()
        sl, pa = self.place(fr, t['d'])
        self.put(sl, pa, r)
        return t['b']

    def call(self, fn, args, t=None, key=None):
        res = fn.get('res')
        eff = res['path'] if res else fn['path']
        local = res['local'] if res else fn['local']
        # contracts of contract objects
        if fn['path'].startswith(('std::ops::Fn', 'core::ops::Fn')) and '{closure' in eff:
            return self.apply(args[0], args[1].f if isinstance(args[1], Agg) else [args[1]])
        short = self.P.short(eff)
        c = self.contracts.get(short)
        if c is not None:
            return c(self, args, fn, t)
        if args:
            a0 = args[0]
            while isinstance(a0, Ref):
                a0 = self.load(a0)
            if isinstance(a0, Abs):
                m = getattr(a0, 'm_' + fn.get('name', '?'), None)
                if m is not None:
                    return m(self, args, fn)
        if local and eff in self.P.fns:
            return self.call_fn(eff, args)
        from . import prims
        return prims.call(self, fn, args, t, key)

    def apply(self, f, args):
        """calls a function value with an argument list"""
        g = self.deref(f)
        if isinstance(g, Clos):
            d = self.P.fns.get(g.key)
            if d is None:
                raise Unsupported('closure without body ' + g.key)
            selfty = d['locals'][1]
            if selfty['k'] == 'ref':
                if isinstance(f, Ref) and isinstance(self.load(f), Clos):
                    me = f
                else:
                    me = Ref(Slot(g))
            else:
                me = g
            return self.call_fn(g.key, [me] + list(args))
        if isinstance(g, FnV):
            return self.call(g.fn, list(args))
        if isinstance(g, UFn):
            self.callout('user function ' + g.name)
            return g.apply(self, *args)
        if isinstance(g, PyFn):
            return g.apply(self, *args)
        if isinstance(g, Abs):
            return g.invoke(self, args)
        raise Unsupported('call of %r' % (g,))

    def callout(self, what):
        """control leaves the library: nothing may be locked"""
        self.task.callout(self, what)

    # ---- locks
    def lock(self, lv, mode):
        s = lv.slot
        for h, m in self.held:
            if h is s:
                self.fail('lock', 'locks %s (%s) while holding it (%s)' % (self.slot_name(s), mode, m))
        for h, m in self.held:
            self.lock_order.add((h.name, s.name))
        self.task.on_lock(self, s, mode)
        self.held.append((s, mode))
        return Guard(s, mode)

    def try_lock(self, lv, mode):
        """Guard, or None if it would block"""
        s = lv.slot
        for h, m in self.held:
            if h is s and (mode == 'w' or m == 'w'):
                return None
        t = self.task
        if getattr(self, 'conc', False) or getattr(t, 'watch', None) is not None or getattr(self, 'on', False):
            if self.path.choose(2):
                return None         # some other thread holds it
        t.on_lock(self, s, mode)
        self.held.append((s, mode))
        return Guard(s, mode)

    def slot_name(self, s):
        return s.name or 'lock%d' % s.id

    def unlock(self, g):
        for i, (h, m) in enumerate(self.held):
            if h is g.slot:
                del self.held[i]
                self.task.on_unlock(self, g.slot, g.mode)
                return

    def drop(self, v, ty=None):
        if v is None or is_scalar(v):
            return
        if isinstance(v, Guard):
            self.unlock(v)
        elif isinstance(v, Agg):
            d = self.P.drops.get(v.k)
            if d:
                self.call_fn(d, [Ref(Slot(v))])
            for x in v.f:
                self.drop(x)
        elif isinstance(v, SymOpt):
            self.drop(v.val)
        elif isinstance(v, ListV):
            for x in v.items:
                self.drop(x)
        elif isinstance(v, Clos):
            for x in v.caps:
                if not isinstance(x, Ref):
                    self.drop(x)
        elif isinstance(v, Abs):
            v.on_drop(self) if hasattr(v, 'on_drop') else None


def user_fns(v, stop=None, seen=None, owned=False):
    """the user functions a value leads to (owned: without following references)"""
    seen = set() if seen is None else seen
    out, todo = [], [v]
    while todo:
        x = todo.pop()
        if x is None or x is stop or is_scalar(x) or id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, UFn):
            out.append(x)
        elif isinstance(x, Agg):
            todo += x.f
        elif isinstance(x, SymOpt):
            todo.append(x.val)
        elif isinstance(x, ListV):
            todo += x.items
        elif isinstance(x, Clos):
            todo += x.caps
        elif isinstance(x, (ArcV, LockV)) or isinstance(x, (Ref, Guard)) and not owned:
            todo.append(x.slot)
        elif isinstance(x, Slot):
            todo.append(x.v)
    return out


WIDTH = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'char': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64, 'u128': 128, 'i128': 128}


def wrap(v, w):
    return v % 2 ** w


def zint(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if is_z3(v):
        if z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v
    raise Unsupported('not a scalar: %r' % (v,))


def zbool(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return v


def znot(v):
    return (not v) if isinstance(v, bool) else z3.Not(v)


def zand(l):
    l = [x for x in l if x is not True]
    if any(x is False for x in l):
        return False
    return True if not l else l[0] if len(l) == 1 else z3.And(*l)


def zor(l):
    l = [x for x in l if x is not False]
    if any(x is True for x in l):
        return True
    return False if not l else l[0] if len(l) == 1 else z3.Or(*l)


def seq_of(l):
    if not l:
        return z3.Empty(SeqI)
    u = [z3.Unit(zint(x)) for x in l]
    return u[0] if len(u) == 1 else z3.Concat(*u)


def as_opt(v):
    """-> (is_some, payload)"""
    if isinstance(v, Agg):
        return (v.var == 1, v.f[0] if v.var == 1 else None)
    if isinstance(v, SymOpt):
        return (v.cond, v.val)
    raise Unsupported('option %r' % (v,))


def mark_loops(fns):
    """marks blocks that are the target of a back edge"""
    for f in fns.values():
        bl = f['blocks']
        color = {}
        st = [(0, iter(succ(bl[0])))] if bl else []
        color[0] = 1
        while st:
            b, it = st[-1]
            for s in it:
                c = color.get(s, 0)
                if c == 1:
                    bl[s]['lh'] = True
                elif c == 0:
                    color[s] = 1
                    st.append((s, iter(succ(bl[s]))))
                    break
            else:
                color[b] = 2
                st.pop()


def succ(b):
    t = b['t']
    k = t['t']
    if k == 'switch':
        return [x[1] for x in t['v']] + [t['else']]
    return [t['b']] if t.get('b') is not None else []


def load(path):
    js = json.load(open(path))
    for k, f in list(js['fns'].items()):
        for i, pf in enumerate(f.get('promoted', ())):
            js['fns']['%s#p%d' % (k, i)] = pf
    mark_loops(js['fns'])
    return Program(js)


def live_in(f):
    """locals that may be read before being written, per block"""
    if 'live' in f:
        return f['live']
    bl = f['blocks']
    n = len(f['locals'])
    addr = set()

    def uses(x, out):
        if isinstance(x, dict):
            if x.get('o') in ('copy', 'move') and 'p' in x:
                place_use(x['p'], out)
                return
            if 'l' in x and 'p' in x and isinstance(x['p'], list):
                place_use(x, out)
                return
            for v in x.values():
                uses(v, out)
        elif isinstance(x, list):
            for v in x:
                uses(v, out)

    def place_use(p, out):
        out.add(p['l'])
        for e in p['p']:
            if isinstance(e, dict) and 'ix' in e:
                out.add(e['ix'])
    gen, kill = [], []
    for b in bl:
        g, k = set(), set()
        for st in b['st']:
            if st['s'] == '=':
                u = set()
                uses(st['v'], u)
                if st['v'].get('r') in ('ref', 'addr', 'rawptr', 'raw'):
                    addr |= u
                p = st['p']
                if p['p']:
                    place_use(p, u)
                g |= u - k
                if not p['p']:
                    k.add(p['l'])
        t = b['t']
        u = set()
        for kk, v in t.items():
            if kk != 'd':
                uses(v, u)
        d = t.get('d')
        if d is not None and d['p']:
            place_use(d, u)
        if t['t'] == 'return':
            u.add(0)
        g |= u - k
        if d is not None and not d['p']:
            k.add(d['l'])
        gen.append(g)
        kill.append(k)
    live = [set(g) for g in gen]
    ch = True
    while ch:
        ch = False
        for i, b in enumerate(bl):
            out = set()
            for s in succ(b):
                out |= live[s]
            new = gen[i] | (out - kill[i])
            if new != live[i]:
                live[i] = new
                ch = True
    f['live'] = [l | addr for l in live]
    return f['live']
