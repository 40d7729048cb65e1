"""Trusted contracts of the standard library, one per function used.

Every function here is an assumption (listed in the evidence): its behaviour is the one its
documentation states, on mathematical integers, without allocation failure or poisoning.
"""
import re
import z3
from .core import *

USED = set()
T = {}          # 'Trait::method' -> contract
F = {}          # 'Type::function' -> contract


def tr(*names):
    def d(f):
        for n in names:
            T[n] = f
        return f
    return d


def fn(*names):
    def d(f):
        for n in names:
            F[n] = f
        return f
    return d


def call(cx, f, args, t=None, key=None):
    if f.get('trait'):
        n = f['trait'].split('::')[-1] + '::' + f['name']
        c = T.get(n)
        if c is not None:
            USED.add(n)
            return c(cx, args, f)
        raise Unsupported('trait method %s on %r' % (n, [cx.deref(a) for a in args[:1]]))
    n = cx.P.short(f['path'])
    c = F.get(n)
    if c is None:
        raise Unsupported('external function ' + f['path'])
    USED.add(n)
    return c(cx, args, f)


# ------------------------------------------------------------ clone, deref, compare
def clone(cx, v):
    if v is None or is_scalar(v) or isinstance(v, (ArcV, FnV, UFn, PyFn, Opaque, SeqV, Ref)) and not isinstance(v, BoxV):
        return v
    if isinstance(v, BoxV):
        return BoxV(cx.slot(clone(cx, v.slot.v)))
    if isinstance(v, Abs):
        return v.clone(cx)
    if isinstance(v, Agg):
        p = cx.P.traits.get((v.k, 'Clone', 'clone'))
        if p and p in cx.P.fns:
            return cx.call_fn(p, [Ref(Slot(v))])
        return Agg(v.k, v.var, [clone(cx, x) for x in v.f])
    if isinstance(v, SymOpt):
        return SymOpt(v.cond, clone(cx, v.val))
    if isinstance(v, Clos):
        return Clos(v.key, [clone(cx, x) for x in v.caps])
    if isinstance(v, ListV):
        return ListV([clone(cx, x) for x in v.items], v.kind)
    if isinstance(v, It):
        return v.copy()
    raise Unsupported('clone of %r' % (v,))


@tr('Clone::clone', 'ToOwned::to_owned')
def _clone(cx, a, f):
    r = a[0]
    v = cx.load(r) if isinstance(r, Ref) else r
    if isinstance(v, Ref) and f['targs'] and f['targs'][0]['k'] != 'ref':
        v = cx.load(v)
    res = f.get('res')
    if res and res.get('local') and res['path'] in cx.P.fns:
        return cx.call_fn(res['path'], [r])
    return clone(cx, v)


@tr('Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'Borrow::borrow', 'AsMut::as_mut')
def _deref(cx, a, f):
    r = a[0]
    v = cx.load(r)
    if isinstance(v, Guard):
        if f['name'] == 'deref_mut' and v.mode == 'r':
            raise Unsupported('deref_mut of a read guard')
        return Ref(v.slot, v.proj)
    if isinstance(v, ArcV):
        return Ref(v.slot)
    if isinstance(v, Agg) and v.k.endswith('Pin'):
        return v.f[0]
    if isinstance(v, (ListV, SeqV)):
        return r
    if isinstance(v, Ref):
        return v
    if isinstance(v, Abs):
        return v.m_deref(cx, a, f)
    return r


@tr('PartialEq::eq', 'PartialEq::ne')
def _eq(cx, a, f):
    r = cx.eq(a[0], a[1])
    return r if f['name'] == 'eq' else znot(r)


@tr('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def _ord(cx, a, f):
    x, y = cx.deref(a[0]), cx.deref(a[1])
    if not (is_scalar(x) and is_scalar(y)):
        raise Unsupported('order of %r %r' % (x, y))
    return cx.binop({'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[f['name']], x, y)


@tr('Try::branch')
def _try(cx, a, f):
    v = a[0]
    if isinstance(v, Agg) and v.k == RES:
        good, x = v.var == 0, v.f[0]
        rest = Agg(RES, 1, v.f)
    else:
        good, x = as_opt(v)
        rest = NONE
    if cx.path.br(good) if is_z3(good) else good:
        return Agg('std::ops::ControlFlow', 0, (x,))
    return Agg('std::ops::ControlFlow', 1, (rest,))


@tr('FromResidual::from_residual')
def _residual(cx, a, f):
    return a[0]


def ordering(i):
    return Agg('std::cmp::Ordering', i + 1, ())


@tr('Ord::cmp')
def _cmp(cx, a, f):
    x, y = cx.deref(a[0]), cx.deref(a[1])
    if cx.path.br(x < y):
        return ordering(-1)
    return ordering(0) if cx.path.br(x == y) else ordering(1)


@tr('PartialOrd::partial_cmp')
def _pcmp(cx, a, f):
    return some(_cmp(cx, a, f))


@tr('Ord::max')
def _omax(cx, a, f):
    return a[0] if cx.path.br(a[0] > a[1]) else a[1]


@tr('Ord::min')
def _omin(cx, a, f):
    return a[1] if cx.path.br(a[1] < a[0]) else a[0]


ADD = z3.Function('add', I, I, I)


@tr('Add::add')
def _add(cx, a, f):
    x, y = cx.deref(a[0]), cx.deref(a[1])
    ty = f['targs'][0]['k'] if f['targs'] else 'param'
    return x + y if ty in ('int', 'uint') else ADD(zint(x), zint(y))


@tr('AddAssign::add_assign')
def _adda(cx, a, f):
    cx.store(a[0], _add(cx, [cx.load(a[0]), a[1]], f))
    return UNIT


@tr('Mul::mul', 'Div::div', 'Rem::rem')
def _arith(cx, a, f):
    x, y = cx.deref(a[0]), cx.deref(a[1])
    t = f['targs'][0] if f['targs'] else {}
    while t.get('k') == 'ref':
        t = t.get('t') or (t.get('a') or [{}])[0]
    if t.get('k') not in ('int', 'uint') or not (is_scalar(x) and is_scalar(y)):
        raise Unsupported('%s of %r' % (f['name'], t))
    return cx.binop(f['name'].capitalize(), x, y, t.get('n'))


@tr('Sub::sub')
def _sub(cx, a, f):
    return cx.binop('Sub', cx.deref(a[0]), cx.deref(a[1]), f['targs'][0].get('n') if f['targs'] else None)


@tr('Not::not')
def _not(cx, a, f):
    return znot(cx.deref(a[0]))


@tr('Default::default')
def _default(cx, a, f):
    return default(f['targs'][0])


def default(t):
    if t['k'] == 'tuple':
        return tup(*[default(x) for x in t['a']])
    if t['k'] in ('int', 'uint'):
        return 0
    if t['k'] == 'bool':
        return False
    n = t.get('p', '').split('::')[-1]
    if n == 'Option':
        return NONE
    if n in ('Vec', 'VecDeque'):
        return empty(n, t)
    if n in ('HashMap', 'BTreeMap'):
        from .maps import MapV
        return MapV.empty(t)
    raise Unsupported('Default of ' + tys(t))


@tr('Into::into', 'From::from')
def _into(cx, a, f):
    return a[0] if len(a) == 1 else UNIT


@tr('Drop::drop')
def _dropm(cx, a, f):
    return UNIT


@fn('mem::drop')
def _mdrop(cx, a, f):
    cx.drop(a[0])
    return UNIT


@fn('mem::take')
def _mtake(cx, a, f):
    v = cx.load(a[0])
    cx.store(a[0], default(f['targs'][0]))
    return v


@fn('mem::replace')
def _mrepl(cx, a, f):
    v = cx.load(a[0])
    cx.store(a[0], a[1])
    return v


@fn('mem::swap')
def _mswap(cx, a, f):
    v, w = cx.load(a[0]), cx.load(a[1])
    cx.store(a[0], w)
    cx.store(a[1], v)
    return UNIT


# ------------------------------------------------------------ calls of function values
@tr('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once')
def _call(cx, a, f):
    g = a[0]
    args = a[1].f if isinstance(a[1], Agg) else [a[1]]
    v = cx.deref(g)
    if isinstance(v, Clos):
        # a reference to the closure, for by-reference bodies
        r = g
        while isinstance(r, (Ref, ArcV)):
            w = cx.load(r)
            if isinstance(w, Clos):
                break
            r = w
        if isinstance(r, ArcV):
            r = Ref(r.slot)
        return cx.apply(r, args)
    return cx.apply(v, args)


# ------------------------------------------------------------ Option / Result
def opt(cx, v):
    """concretises an option: None or (payload,)"""
    v = cx.deref(v)
    c, p = as_opt(v)
    return (p if isinstance(v, Agg) else v.val,) if cx.path.br(c) else None


def opt_ref(cx, r):
    """reference to an option place -> reference to its payload or None"""
    while isinstance(cx.load(r), (Ref, ArcV)):
        w = cx.load(r)
        r = Ref(w.slot) if isinstance(w, ArcV) else w
    v = cx.load(r)
    c, _ = as_opt(v)
    if not cx.path.br(c):
        return None
    return Ref(r.slot, r.path + (('dc', 1), 0))


@fn('Option::is_some')
def _issome(cx, a, f):
    return as_opt(cx.deref(a[0]))[0]


@fn('Option::is_none')
def _isnone(cx, a, f):
    return znot(as_opt(cx.deref(a[0]))[0])


@fn('Option::as_ref', 'Option::as_mut', 'Option::as_deref', 'Option::as_deref_mut')
def _asref(cx, a, f):
    r = opt_ref(cx, a[0])
    return NONE if r is None else some(r)


@fn('Option::take')
def _otake(cx, a, f):
    v = cx.load(a[0])
    cx.store(a[0], NONE)
    return v


@fn('Option::replace')
def _orepl(cx, a, f):
    v = cx.load(a[0])
    cx.store(a[0], some(a[1]))
    return v


@fn('Option::insert')
def _oins(cx, a, f):
    cx.store(a[0], some(a[1]))
    return opt_ref(cx, a[0])


@fn('Option::get_or_insert_with')
def _ogoi(cx, a, f):
    if opt_ref(cx, a[0]) is None:
        cx.store(a[0], some(cx.apply(a[1], [])))
    return opt_ref(cx, a[0])


@fn('Option::get_or_insert')
def _ogoi2(cx, a, f):
    if opt_ref(cx, a[0]) is None:
        cx.store(a[0], some(a[1]))
    return opt_ref(cx, a[0])


@fn('Option::unwrap', 'Option::expect')
def _ounwrap(cx, a, f):
    o = opt(cx, a[0])
    if o is None:
        raise Panic('unwrap of None')
    return o[0]


@fn('Option::unwrap_or')
def _ounwrapor(cx, a, f):
    o = opt(cx, a[0])
    return a[1] if o is None else o[0]


@fn('Option::unwrap_or_default')
def _ouord(cx, a, f):
    o = opt(cx, a[0])
    return default(f['targs'][0]) if o is None else o[0]


@fn('Option::unwrap_or_else')
def _ounwrapelse(cx, a, f):
    o = opt(cx, a[0])
    return cx.apply(a[1], []) if o is None else o[0]


@fn('Option::map')
def _omap(cx, a, f):
    o = opt(cx, a[0])
    return NONE if o is None else some(cx.apply(a[1], [o[0]]))


@fn('Option::map_or')
def _omapor(cx, a, f):
    o = opt(cx, a[0])
    return a[1] if o is None else cx.apply(a[2], [o[0]])


@fn('Option::map_or_else')
def _omapore(cx, a, f):
    o = opt(cx, a[0])
    return cx.apply(a[1], []) if o is None else cx.apply(a[2], [o[0]])


@fn('Option::and_then')
def _oandthen(cx, a, f):
    o = opt(cx, a[0])
    return NONE if o is None else cx.apply(a[1], [o[0]])


@fn('Option::is_some_and')
def _oissa(cx, a, f):
    o = opt(cx, a[0])
    return False if o is None else cx.apply(a[1], [o[0]])


@fn('Option::is_none_or')
def _oisno(cx, a, f):
    o = opt(cx, a[0])
    return True if o is None else cx.apply(a[1], [o[0]])


@fn('Option::or')
def _oor(cx, a, f):
    o = opt(cx, a[0])
    return a[1] if o is None else some(o[0])


@fn('Option::or_else')
def _oore(cx, a, f):
    o = opt(cx, a[0])
    return cx.apply(a[1], []) if o is None else some(o[0])


@fn('Option::filter')
def _ofilter(cx, a, f):
    o = opt(cx, a[0])
    if o is None or not cx.path.br(cx.apply(a[1], [Ref(Slot(o[0]))])):
        return NONE
    return some(o[0])


@fn('Option::ok_or')
def _okor(cx, a, f):
    o = opt(cx, a[0])
    return err(a[1]) if o is None else ok(o[0])


@fn('Option::ok_or_else')
def _okorelse(cx, a, f):
    o = opt(cx, a[0])
    return err(cx.apply(a[1], [])) if o is None else ok(o[0])


@fn('Option::and')
def _oand(cx, a, f):
    return NONE if opt(cx, a[0]) is None else a[1]


@fn('Option::xor')
def _oxor(cx, a, f):
    x, y = opt(cx, a[0]), opt(cx, a[1])
    return some(x[0]) if x is not None and y is None else some(y[0]) if y is not None and x is None else NONE


@fn('Option::zip')
def _ozip(cx, a, f):
    x, y = opt(cx, a[0]), opt(cx, a[1])
    return NONE if x is None or y is None else some(tup(x[0], y[0]))


@fn('Option::flatten')
def _oflatten(cx, a, f):
    x = opt(cx, a[0])
    return NONE if x is None else x[0]


@fn('Option::take_if')
def _otakeif(cx, a, f):
    r = a[0]
    o = opt_ref(cx, r)
    if o is None or not cx.path.br(cx.apply(a[1], [o if isinstance(o, Ref) else o[0]])):
        return NONE
    v = cx.load(r)
    cx.store(r, NONE)
    return some(opt(cx, v)[0])


@fn('v1::Some', 'Option::Some')
def _some(cx, a, f):
    return some(a[0])


@fn('v1::Ok', 'Result::Ok')
def _okc(cx, a, f):
    return ok(a[0])


@fn('v1::Err', 'Result::Err')
def _errc(cx, a, f):
    return err(a[0])


@fn('Option::inspect')
def _oinsp(cx, a, f):
    o = opt(cx, a[0])
    if o is not None:
        cx.apply(a[1], [Ref(Slot(o[0]))])
    return a[0]


@fn('Option::cloned', 'Option::copied')
def _ocloned(cx, a, f):
    o = opt(cx, a[0])
    return NONE if o is None else some(clone(cx, cx.load(o[0])))


@fn('Option::iter', 'Option::into_iter')
def _oiter(cx, a, f):
    o = opt_ref(cx, a[0]) if isinstance(a[0], Ref) else opt(cx, a[0])
    if o is None:
        return ListIt([])
    return ListIt([o] if isinstance(o, Ref) else [o[0]])


@fn('Result::unwrap', 'Result::expect')
def _runwrap(cx, a, f):
    v = a[0]
    if v.var == 0:
        return v.f[0]
    raise Panic('unwrap of Err')


@fn('Result::unwrap_or_else')
def _runwrapelse(cx, a, f):
    v = a[0]
    return v.f[0] if v.var == 0 else cx.apply(a[1], [v.f[0]])


@fn('Result::expect_err', 'Result::unwrap_err')
def _rexpecterr(cx, a, f):
    v = a[0]
    if v.var == 1:
        return v.f[0]
    raise Panic('expect_err of Ok')


@fn('Result::unwrap_or')
def _runwrapor(cx, a, f):
    return a[0].f[0] if a[0].var == 0 else a[1]


@fn('Result::map')
def _rmap(cx, a, f):
    return ok(cx.apply(a[1], [a[0].f[0]])) if a[0].var == 0 else a[0]


@fn('Result::map_err')
def _rmaperr(cx, a, f):
    return err(cx.apply(a[1], [a[0].f[0]])) if a[0].var == 1 else a[0]


@fn('Result::map_or')
def _rmapor(cx, a, f):
    return cx.apply(a[2], [a[0].f[0]]) if a[0].var == 0 else a[1]


@fn('Result::map_or_else')
def _rmapore(cx, a, f):
    return cx.apply(a[2], [a[0].f[0]]) if a[0].var == 0 else cx.apply(a[1], [a[0].f[0]])


@fn('Result::and_then')
def _randthen(cx, a, f):
    return cx.apply(a[1], [a[0].f[0]]) if a[0].var == 0 else a[0]


@fn('Result::or_else')
def _rorelse(cx, a, f):
    return cx.apply(a[1], [a[0].f[0]]) if a[0].var == 1 else a[0]


@fn('Result::ok')
def _rok(cx, a, f):
    return some(a[0].f[0]) if a[0].var == 0 else NONE


@fn('Result::err')
def _rerr(cx, a, f):
    return some(a[0].f[0]) if a[0].var == 1 else NONE


@fn('Result::is_ok')
def _risok(cx, a, f):
    return cx.deref(a[0]).var == 0


@fn('Result::is_err')
def _riserr(cx, a, f):
    return cx.deref(a[0]).var == 1


@fn('Result::as_ref')
def _rasref(cx, a, f):
    r = a[0]
    v = cx.load(r)
    return Agg(RES, v.var, [Ref(r.slot, r.path + (('dc', v.var), 0))])


@fn('bool::then')
def _bthen(cx, a, f):
    return some(cx.apply(a[1], [])) if cx.path.br(a[0]) else NONE


@fn('bool::then_some')
def _bthens(cx, a, f):
    return some(a[1]) if cx.path.br(a[0]) else NONE


# ------------------------------------------------------------ Arc, Box, locks, atomics
@fn('Arc::new', 'Rc::new')
def _arcnew(cx, a, f):
    return ArcV(cx.slot(a[0], 'arc'))


@fn('Arc::clone', 'Rc::clone')
def _arcclone(cx, a, f):
    return cx.load(a[0])


@fn('Arc::ptr_eq')
def _ptreq(cx, a, f):
    return cx.load(a[0]).slot is cx.load(a[1]).slot


@fn('Box::new', 'Box::pin')
def _boxnew(cx, a, f):
    return BoxV(cx.slot(a[0], 'box'))


def lockcell(cx, v, f, kind):
    n = '%s%d' % (kind, len(cx.cells))
    if cx.fnstack:
        n = cx.P.short(cx.fnstack[-1].split('::{closure')[0]) + '.' + n
    s = cx.slot(v, n, f['targs'][0] if f.get('targs') else None, 'cell')
    cx.cells.append(s)
    return LockV(s, kind)


@fn('RwLock::new')
def _rwnew(cx, a, f):
    return lockcell(cx, a[0], f, 'rw')


@fn('Mutex::new')
def _mxnew(cx, a, f):
    return lockcell(cx, a[0], f, 'mx')


@fn('RwLock::read')
def _read(cx, a, f):
    return ok(cx.lock(cx.deref(a[0]), 'r'))


@fn('RwLock::write', 'Mutex::lock')
def _write(cx, a, f):
    return ok(cx.lock(cx.deref(a[0]), 'w'))


@fn('RwLock::try_read')
def _tryread(cx, a, f):
    g = cx.try_lock(cx.deref(a[0]), 'r')
    return ok(g) if g else err(Opaque('would block'))


@fn('RwLock::try_write', 'Mutex::try_lock')
def _trywrite(cx, a, f):
    g = cx.try_lock(cx.deref(a[0]), 'w')
    return ok(g) if g else err(Opaque('would block'))


@fn('Condvar::new')
def _cvnew(cx, a, f):
    return Opaque('condvar')


def _atomic_new(ty):
    def g(cx, a, f):
        t = ty
        m = re.search(r'Atomic::<(\w+)>', f['path'])
        if m:
            n = m.group(1)
            t = {'k': 'bool', 's': 'bool'} if n == 'bool' else {'k': 'uint' if n[0] == 'u' else 'int', 'n': n}
        l = lockcell(cx, a[0], dict(targs=[t]), 'at')
        return l
    return g


for _n, _t in (('AtomicBool', {'k': 'bool', 's': 'bool'}), ('AtomicUsize', {'k': 'uint', 'n': 'usize'}),
               ('AtomicI32', {'k': 'int', 'n': 'i32'}), ('AtomicU32', {'k': 'uint', 'n': 'u32'}),
               ('AtomicU64', {'k': 'uint', 'n': 'u64'}), ('AtomicI64', {'k': 'int', 'n': 'i64'}),
               ('AtomicIsize', {'k': 'int', 'n': 'isize'}), ('Atomic', {'k': 'uint', 'n': 'usize'})):
    F[_n + '::new'] = _atomic_new(_t)

    def _mk(op):
        def g(cx, a, f):
            s = cx.deref(a[0]).slot
            cx.task.on_lock(cx, s, 'w')
            old = s.v
            new = old
            if op == 'store':
                new = a[1]
            elif op == 'swap':
                new = a[1]
            elif op == 'add':
                new = old + a[1]
            elif op == 'sub':
                new = old - a[1]
            elif op == 'or':
                new = zor([old, a[1]])
            elif op == 'and':
                new = zand([old, a[1]])
            if op != 'load':
                cx.put(s, (), new)
            cx.task.on_unlock(cx, s, 'w')
            return UNIT if op == 'store' else old
        return g
    for _m, _o in (('load', 'load'), ('store', 'store'), ('swap', 'swap'), ('fetch_add', 'add'),
                   ('fetch_sub', 'sub'), ('fetch_or', 'or'), ('fetch_and', 'and')):
        F['%s::%s' % (_n, _m)] = _mk(_o)

    def _cas(cx, a, f):
        s = cx.deref(a[0]).slot
        cx.task.on_lock(cx, s, 'w')
        old = s.v
        hit = cx.path.br(cx.eq(old, a[1]))
        if hit:
            cx.put(s, (), a[2])
        cx.task.on_unlock(cx, s, 'w')
        return ok(old) if hit else err(old)
    F[_n + '::compare_exchange'] = _cas


# ------------------------------------------------------------ numbers
@fn('num::saturating_sub', 'usize::saturating_sub', 'i32::saturating_sub')
def _satsub(cx, a, f):
    x, y = a
    if cx.path.br(x >= y):
        return x - y
    return 0


def _wide(f):
    """these contracts are over the mathematical integers: not for 8 and 16 bit types"""
    if re.search(r'impl [ui](8|16)\b', f['path']):
        raise Unsupported('narrow ' + f['path'])


@fn('num::wrapping_add', 'num::saturating_add')
def _wadd(cx, a, f):
    _wide(f)
    return a[0] + a[1]


@fn('num::wrapping_sub')
def _wsub(cx, a, f):
    _wide(f)
    if is_z3(a[0]) or is_z3(a[1]) or a[0] < a[1]:
        if not cx.path.br(a[0] >= a[1]):
            raise Unsupported('wrapping subtraction')
    return a[0] - a[1]


@fn('num::abs_diff')
def _absdiff(cx, a, f):
    return a[0] - a[1] if cx.path.br(a[0] >= a[1]) else a[1] - a[0]


@fn('num::checked_sub')
def _chsub(cx, a, f):
    return some(a[0] - a[1]) if cx.path.br(a[0] >= a[1]) else NONE


@fn('num::checked_add')
def _chadd(cx, a, f):
    _wide(f)
    return some(a[0] + a[1])


@fn('cmp::min')
def _cmin(cx, a, f):
    return a[0] if cx.path.br(a[0] <= a[1]) else a[1]


@fn('cmp::max')
def _cmax(cx, a, f):
    return a[0] if cx.path.br(a[0] > a[1]) else a[1]


# ------------------------------------------------------------ sequences
ITEMLIKE = ('param', 'int', 'uint')


def itemlike(t):
    """types the verifier carries as one integer term"""
    if t is None:
        return False
    return t['k'] in ITEMLIKE or t['k'] == 'adt' and t['p'].split('::')[-1] in ('RxError', 'Instant', 'Duration', 'SystemTime')


def empty(n, t=None):
    kind = 'deque' if n == 'VecDeque' else 'vec'
    return ListV((), kind)


@fn('Vec::new', 'Vec::with_capacity')
def _vnew(cx, a, f):
    return ListV((), 'vec')


@fn('VecDeque::new', 'VecDeque::with_capacity')
def _dnew(cx, a, f):
    return ListV((), 'deque')


@fn('vec::from_elem')
def _fromelem(cx, a, f):
    if not isinstance(a[1], int):
        raise Unsupported('vec![x; n] of symbolic length')
    return ListV([clone(cx, a[0]) for _ in range(a[1])])


def push(cx, v, x, front=False):
    if isinstance(v, ListV):
        return ListV(((x,) + v.items) if front else v.items + (x,), v.kind)
    if isinstance(v, SeqV):
        u = z3.Unit(zint(x))
        return SeqV(z3.Concat(u, v.t) if front else z3.Concat(v.t, u), v.kind)
    raise Unsupported('push on %r' % (v,))


@fn('Vec::push', 'VecDeque::push_back')
def _push(cx, a, f):
    cx.store(a[0], push(cx, cx.load(a[0]), a[1]))
    return UNIT


@fn('VecDeque::push_front')
def _pushf(cx, a, f):
    cx.store(a[0], push(cx, cx.load(a[0]), a[1], True))
    return UNIT


@fn('Vec::insert', 'VecDeque::insert')
def _vinsert(cx, a, f):
    v, i = cx.load(a[0]), a[1]
    n = cx.length(v)
    if isinstance(i, int) and i == 0:
        cx.store(a[0], push(cx, v, a[2], True))
        return UNIT
    if not cx.path.br(n >= i):
        raise Panic('insert out of bounds')
    if isinstance(v, ListV):
        if not isinstance(i, int):
            i = next((k for k in range(len(v.items)) if cx.path.br(i == k)), len(v.items))
        cx.store(a[0], ListV(v.items[:i] + (a[2],) + v.items[i:], v.kind))
        return UNIT
    if isinstance(v, SeqV):
        i = zint(i)
        cx.store(a[0], SeqV(z3.Concat(z3.SubSeq(v.t, 0, i), z3.Unit(zint(a[2])), z3.SubSeq(v.t, i, n - i)), v.kind))
        return UNIT
    raise Unsupported('insert on %r' % (v,))


@fn('Vec::swap_remove')
def _swaprem(cx, a, f):
    v, i = cx.load(a[0]), a[1]
    if not isinstance(v, ListV):
        raise Unsupported('swap_remove')
    if not isinstance(i, int):
        i = next((k for k in range(len(v.items)) if cx.path.br(i == k)), len(v.items))
    if i >= len(v.items):
        raise Panic('swap_remove out of bounds')
    it = list(v.items)
    x, it[i] = it[i], it[-1]
    cx.store(a[0], ListV(it[:-1], v.kind))
    return x


@fn('Vec::retain', 'VecDeque::retain', 'Vec::retain_mut')
def _retain(cx, a, f):
    v = cx.load(a[0])
    if not isinstance(v, ListV):
        raise Unsupported('retain')
    keep = [x for x in v.items if cx.path.br(cx.apply(a[1], [Ref(Slot(x))]))]
    cx.store(a[0], ListV(keep, v.kind))
    return UNIT


@fn('slice::reverse', 'Vec::reverse')
def _reverse(cx, a, f):
    v = cx.load(a[0])
    if not isinstance(v, ListV):
        raise Unsupported('reverse')
    cx.store(a[0], ListV(v.items[::-1], v.kind))
    return UNIT


@fn('slice::swap', 'VecDeque::swap')
def _sswap(cx, a, f):
    v = cx.load(a[0])
    if not isinstance(v, ListV) or not isinstance(a[1], int) or not isinstance(a[2], int):
        raise Unsupported('swap')
    it = list(v.items)
    if max(a[1], a[2]) >= len(it):
        raise Panic('swap out of bounds')
    it[a[1]], it[a[2]] = it[a[2]], it[a[1]]
    cx.store(a[0], ListV(it, v.kind))
    return UNIT


@fn('Vec::split_off', 'VecDeque::split_off')
def _splitoff(cx, a, f):
    v, i = cx.load(a[0]), a[1]
    n = cx.length(v)
    if not cx.path.br(n >= i):
        raise Panic('split_off out of bounds')
    if isinstance(v, ListV) and isinstance(i, int):
        cx.store(a[0], ListV(v.items[:i], v.kind))
        return ListV(v.items[i:], v.kind)
    if isinstance(v, SeqV):
        i = zint(i)
        cx.store(a[0], SeqV(z3.SubSeq(v.t, 0, i), v.kind))
        return SeqV(z3.SubSeq(v.t, i, n - i), v.kind)
    raise Unsupported('split_off')


@fn('Vec::extend_from_slice')
def _extslice(cx, a, f):
    w = cx.deref(a[1])
    for x in drain(cx, iter_of(cx, w)):
        cx.store(a[0], push(cx, cx.load(a[0]), clone(cx, x)))
    return UNIT


def pop(cx, v, front):
    """-> (option, rest)"""
    if isinstance(v, ListV):
        if not v.items:
            return NONE, v
        return (some(v.items[0]), ListV(v.items[1:], v.kind)) if front else (some(v.items[-1]), ListV(v.items[:-1], v.kind))
    if isinstance(v, SeqV):
        n = z3.Length(v.t)
        if not cx.path.br(n > 0):
            return NONE, v
        if front:
            return some(v.t[0]), SeqV(z3.SubSeq(v.t, 1, n - 1), v.kind)
        return some(v.t[n - 1]), SeqV(z3.SubSeq(v.t, 0, n - 1), v.kind)
    if isinstance(v, Abs):
        return v.pop(cx, front)
    raise Unsupported('pop on %r' % (v,))


@fn('Vec::pop', 'VecDeque::pop_back')
def _popb(cx, a, f):
    o, r = pop(cx, cx.load(a[0]), False)
    cx.store(a[0], r)
    return o


class PopSeq(Abs):
    """a private sequence that is only taken apart from the front"""
    def __init__(self, it):
        self.it, self.buf = it, None

    def peek(self, cx):
        if self.buf is None:
            self.buf = self.it.next(cx)
        return self.buf

    def pop(self, cx, front):
        if not front:
            raise Unsupported('both ends of a sequence')
        v, self.buf = self.peek(cx), None
        return (NONE if v is END else some(v)), self

    def iterate(self, cx, ref):
        if ref is None and self.buf is None:
            return self.it
        raise Unsupported('iteration over a sequence that is being taken apart')


@fn('VecDeque::pop_front')
def _popf(cx, a, f):
    v = cx.load(a[0])
    if isinstance(v, SeqV) and hasattr(cx.task, 'private_seq') and cx.task.private_seq(cx, a[0]):
        cx.store(a[0], PopSeq(iter_of(cx, v)))
    o, r = pop(cx, cx.load(a[0]), True)
    cx.store(a[0], r)
    return o


@fn('Vec::remove', 'VecDeque::remove')
def _vremove(cx, a, f):
    v = cx.load(a[0])
    isopt = isinstance(getattr(v, 'kind', ''), str) and getattr(v, 'kind', '') == 'deque'
    i = a[1]
    if isinstance(v, ListV):
        if not isinstance(i, int):
            for k in range(len(v.items)):
                if cx.path.br(i == k):
                    i = k
                    break
            else:
                i = len(v.items)
        if i >= len(v.items):
            if isopt:
                return NONE
            raise Panic('remove out of bounds')
        cx.store(a[0], ListV(v.items[:i] + v.items[i + 1:], v.kind))
        return some(v.items[i]) if isopt else v.items[i]
    if isinstance(v, SeqV):
        n = z3.Length(v.t)
        if not cx.path.br(n > i):
            if isopt:
                return NONE
            raise Panic('remove out of bounds')
        x = v.t[i]
        cx.store(a[0], SeqV(z3.SubSeq(v.t, 1, n - 1) if isinstance(i, int) and i == 0 else
                            z3.Concat(z3.SubSeq(v.t, 0, i), z3.SubSeq(v.t, i + 1, n - i - 1)), v.kind))
        return some(x) if isopt else x
    raise Unsupported('remove on %r' % (v,))


@fn('Vec::len', 'VecDeque::len', 'slice::len', 'str::len')
def _len(cx, a, f):
    return cx.length(a[0])


@fn('Vec::is_empty', 'VecDeque::is_empty', 'slice::is_empty')
def _isempty(cx, a, f):
    r = a[0]
    while isinstance(r, Ref):
        v = cx.load(r)
        if isinstance(v, SeqV) and isinstance(r, Ref) and getattr(cx.task, 'popmode', False) and cx.task.private_seq(cx, r):
            v = PopSeq(iter_of(cx, v))
            cx.store(r, v)
        r = v
    if isinstance(r, PopSeq):
        return r.peek(cx) is END
    n = cx.length(a[0])
    return n == 0


@fn('Vec::clear', 'VecDeque::clear')
def _clear(cx, a, f):
    v = cx.load(a[0])
    if isinstance(v, Abs):
        return v.m_clear(cx, a, f)
    cx.store(a[0], ListV((), v.kind))
    return UNIT


@fn('Vec::truncate')
def _trunc(cx, a, f):
    v = cx.load(a[0])
    if isinstance(v, ListV) and isinstance(a[1], int):
        cx.store(a[0], ListV(v.items[:a[1]], v.kind))
        return UNIT
    if isinstance(a[1], int) and a[1] == 0:
        cx.store(a[0], ListV((), v.kind))
        return UNIT
    raise Unsupported('truncate')


@fn('Vec::as_slice', 'Vec::as_mut_slice', 'Vec::into_boxed_slice', 'VecDeque::make_contiguous')
def _asslice(cx, a, f):
    return a[0]


@fn('slice::to_vec', 'slice::into_vec', 'T::to_vec')
def _tovec(cx, a, f):
    v = cx.deref(a[0])
    if isinstance(v, SeqV):
        return SeqV(v.t, 'vec')
    return ListV([clone(cx, x) for x in v.items])


@fn('Vec::append', 'VecDeque::append')
def _append(cx, a, f):
    v, w = cx.load(a[0]), cx.load(a[1])
    if isinstance(v, ListV) and isinstance(w, ListV):
        cx.store(a[0], ListV(v.items + w.items, v.kind))
    else:
        cx.store(a[0], SeqV(z3.Concat(cx.as_seq(v), cx.as_seq(w)), v.kind))
    cx.store(a[1], ListV((), w.kind))
    return UNIT


@fn('Vec::drain', 'VecDeque::drain')
def _drain(cx, a, f):
    v = cx.load(a[0])
    if isinstance(a[1], Agg) and 'RangeFull' in a[1].k:
        cx.store(a[0], ListV((), v.kind))
        return iter_of(cx, v)
    raise Unsupported('drain')


@fn('slice::get', 'Vec::get', 'VecDeque::get', 'slice::get_mut', 'VecDeque::get_mut')
def _get(cx, a, f):
    r = a[0]
    while not isinstance(cx.load(r), (ListV, SeqV, Abs)):
        r = cx.load(r)
        if not isinstance(r, Ref):
            raise Unsupported('get on %r' % (r,))
    v, i = cx.load(r), a[1]
    if isinstance(v, Abs):
        return v.m_get(cx, [r, i], f)
    n = cx.length(v)
    if not cx.path.br(zand([i >= 0, i < n]) if is_z3(i) or is_z3(n) else 0 <= i < n):
        return NONE
    if isinstance(v, ListV) and not isinstance(i, int):
        for k in range(len(v.items)):
            if cx.path.br(i == k):
                i = k
                break
    return some(Ref(r.slot, r.path + (('ix', i),)))


@tr('Index::index', 'IndexMut::index_mut')
def _index(cx, a, f):
    v = cx.deref(a[0])
    if isinstance(v, Abs):
        return v.m_index(cx, a, f)
    o = _get(cx, a, f)
    if o is NONE:
        raise Panic('index out of bounds')
    return o.f[0]


@fn('slice::first', 'VecDeque::front', 'slice::first_mut', 'VecDeque::front_mut')
def _first(cx, a, f):
    return _get(cx, [a[0], 0], f)


@fn('slice::last', 'VecDeque::back', 'slice::last_mut', 'VecDeque::back_mut')
def _last(cx, a, f):
    v = cx.deref(a[0])
    if isinstance(v, Abs):
        return v.m_last(cx, a, f)
    n = cx.length(v)
    if not cx.path.br(n > 0):
        return NONE
    return _get(cx, [a[0], n - 1], f)


@fn('slice::contains', 'VecDeque::contains')
def _contains(cx, a, f):
    v = cx.deref(a[0])
    if isinstance(v, ListV):
        return zor([cx.eq(x, a[1]) for x in v.items])
    return z3.Contains(v.t, z3.Unit(zint(cx.deref(a[1]))))


# ------------------------------------------------------------ iterators
END = object()


class It(Abs):
    """an iterator value (mutable, owned)"""
    def next(self, cx):
        raise NotImplementedError

    def copy(self):
        raise Unsupported('clone of iterator')

    def clone(self, cx):
        return self.copy()

    def length(self, cx):
        n = 0
        c = self.copy()
        while c.next(cx) is not END:
            n += 1
        return n


class ListIt(It):
    def __init__(self, items, rep=False):
        self.items = list(items)
        self.rep = rep

    def next(self, cx):
        return self.items.pop(0) if self.items else END

    def next_back(self, cx):
        return self.items.pop() if self.items else END

    def copy(self):
        return ListIt(self.items, self.rep)


class SymIt(It):
    """iteration over a sequence of unknown length: elem(i) for 0 <= i < n (n None: endless).
    The loop around it is cut here, see Task.iter_next"""
    def __init__(self, n, elem, what, pos=0, user=False):
        self.n, self.elem, self.what, self.pos = n, elem, what, pos
        self.user = user
        self.started = self.again = self.unroll = False

    def next(self, cx):
        return cx.task.iter_next(cx, self)

    def copy(self):
        if self.started:
            raise Unsupported('clone of a running iterator')
        return SymIt(self.n, self.elem, self.what, self.pos, self.user)


class MapIt(It):
    def __init__(self, it, f, flat=False):
        self.it, self.f, self.rep = it, f, getattr(it, 'rep', False)

    def next(self, cx):
        v = self.it.next(cx)
        return END if v is END else cx.apply(self.f, [v])

    def copy(self):
        return MapIt(self.it.copy(), self.f)


class FilterIt(It):
    def __init__(self, it, f, kind):
        self.it, self.f, self.kind, self.rep, self.over = it, f, kind, getattr(it, 'rep', False), False

    def next(self, cx):
        while not self.over:
            v = self.it.next(cx)
            if v is END:
                return END
            if self.kind == 'filter_map':
                o = opt(cx, cx.apply(self.f, [v]))
                if o is not None:
                    return o[0]
            elif cx.path.br(cx.apply(self.f, [Ref(Slot(v))])):
                return v
            elif self.kind == 'take_while':
                self.over = True
        return END

    def copy(self):
        c = FilterIt(self.it.copy(), self.f, self.kind)
        c.over = self.over
        return c


class ChainIt(It):
    def __init__(self, its):
        self.its = its
        self.rep = any(getattr(i, 'rep', False) for i in its)

    def next(self, cx):
        while self.its:
            v = self.its[0].next(cx)
            if v is not END:
                return v
            self.its = self.its[1:]
        return END

    def copy(self):
        return ChainIt([i.copy() for i in self.its])


class GenIt(It):
    def __init__(self, g, rep=False):
        self.g, self.rep, self.count = g, rep, 0

    def next(self, cx):
        self.count += 1
        return next(self.g, END)


def iter_of(cx, v, ref=None):
    """by-value iteration (ref: a reference to the collection -> by-reference items)"""
    if isinstance(v, It):
        return v
    if isinstance(v, ListV):
        if ref is not None:
            return ListIt([Ref(ref.slot, ref.path + (('ix', i),)) for i in range(len(v.items))])
        return ListIt(v.items)
    if isinstance(v, SeqV):
        t = v.t
        return SymIt(z3.Length(t), (lambda i: Ref(Slot(t[i]))) if ref is not None else (lambda i: t[i]), ('seq', t))
    if isinstance(v, Agg) and v.k.endswith('Range'):
        lo, hi = v.f
        if isinstance(lo, int) and isinstance(hi, int):
            return ListIt(range(lo, hi))
        n = z3.If(zint(hi) > zint(lo), zint(hi) - zint(lo), z3.IntVal(0))
        return SymIt(n, lambda i: lo + i, ('range', lo, hi))
    if isinstance(v, Agg) and v.k.endswith('RangeFrom'):
        return SymIt(None, lambda i: v.f[0] + i, ('from', v.f[0]))
    if isinstance(v, (Agg, SymOpt)) and (isinstance(v, SymOpt) or v.k == OPT):
        if ref is not None:
            o = opt_ref(cx, ref)
            return ListIt([] if o is None else [o])
        o = opt(cx, v)
        return ListIt([] if o is None else [o[0]])
    if isinstance(v, Abs):
        return v.iterate(cx, ref)
    raise Unsupported('iteration over %r' % (v,))


def as_iter(cx, a):
    """argument of an iterator method: the iterator itself or a reference to it"""
    r = a
    while isinstance(r, Ref):
        v = cx.load(r)
        if isinstance(v, Agg) and (v.k.endswith('Range') or v.k.endswith('RangeFrom')):
            it = iter_of(cx, v)
            cx.store(r, it)
            return it
        r = v
    return iter_of(cx, r)


@fn('slice::iter', 'VecDeque::iter', 'slice::iter_mut', 'VecDeque::iter_mut', 'Vec::iter', 'HashMap::iter', 'HashMap::iter_mut',
    'HashMap::values', 'HashMap::values_mut', 'HashMap::keys', 'HashMap::into_values', 'HashMap::drain', 'HashMap::into_keys',
    'BTreeMap::iter', 'BTreeMap::values', 'BTreeMap::into_values')
def _iter(cx, a, f):
    r = a[0]
    while isinstance(r, Ref) and isinstance(cx.load(r), (Ref, ArcV)):
        w = cx.load(r)
        r = Ref(w.slot) if isinstance(w, ArcV) else w
    v = cx.deref(r)
    n = f['path'].split('::')[-1]
    if isinstance(v, Abs) and hasattr(v, 'iter_kind'):
        return v.iter_kind(cx, r, n)
    return iter_of(cx, v, r)


@tr('IntoIterator::into_iter')
def _intoiter(cx, a, f):
    v = a[0]
    if isinstance(v, Ref):
        w = cx.deref(v)
        if isinstance(w, It):
            return v
        return _iter(cx, a, dict(path='::iter'))
    if counted(cx, v):
        return v
    return iter_of(cx, v)


def counted(cx, v):
    """a range that is counted up like a variable of the loop (where loops are generalised by their own rule)"""
    return isinstance(v, Agg) and v.k.endswith(('Range', 'RangeFrom')) and getattr(cx, 'round', None) is not None


@fn('RangeInclusive::new')
def _rinc(cx, a, f):
    return Agg('std::ops::Range', 0, [a[0], a[1] + 1])


@fn('Range::contains', 'RangeInclusive::contains')
def _rcont(cx, a, f):
    r, x = cx.deref(a[0]), cx.deref(a[1])
    return zand([x >= r.f[0], x < r.f[1]])


@fn('iter::once')
def _once(cx, a, f):
    return ListIt([a[0]])


@fn('iter::empty')
def _iempty(cx, a, f):
    return ListIt([])


@fn('iter::repeat')
def _irep(cx, a, f):
    return SymIt(None, lambda i: clone(cx, a[0]), ('endless', 'repeat'))


@fn('iter::repeat_with')
def _irepw(cx, a, f):
    return SymIt(None, lambda i: stateless(cx, a[0], []), ('endless', 'repeat_with'))


@fn('iter::from_fn')
def _ifromfn(cx, a, f):
    g0 = own(cx, a[0])

    def g():
        while True:
            o = opt(cx, cx.apply(g0, []))
            if o is None:
                return
            yield o[0]
    return GenIt(g())


@tr('Iterator::next')
def _next(cx, a, f):
    r = a[0]
    while isinstance(r, Ref) and isinstance(cx.load(r), Ref):
        r = cx.load(r)
    if isinstance(r, Ref) and counted(cx, cx.load(r)):
        v = cx.load(r)
        if len(v.f) > 1 and not cx.path.br(zint(v.f[0]) < zint(v.f[1])):
            return NONE
        cx.store(r, Agg(v.k, v.var, [v.f[0] + 1] + list(v.f[1:])))
        return some(v.f[0])
    if isinstance(r, Ref) and r.slot.kind == 'cell' and r.slot.birth == 0 and isinstance(cx.load(r), It) and getattr(cx.task, 'C14', False) and cx.epoch > 0:
        cx.fail('shared', 'a subscription advances an iterator which all subscriptions of the observable share')
    v = as_iter(cx, a[0]).next(cx)
    return NONE if v is END else some(v)


@tr('DoubleEndedIterator::next_back')
def _nextb(cx, a, f):
    v = as_iter(cx, a[0]).next_back(cx)
    return NONE if v is END else some(v)


def own(cx, f):
    """a closure held by an adaptor: what it owns changes from call to call"""
    if not isinstance(f, Clos):
        return f
    if not hasattr(cx, 'owned'):
        cx.owned = {}
    return cx.owned.setdefault(id(f), (f, Ref(Slot(f))))[1]


def stateless(cx, f, args):
    g = own(cx, f)
    r = cx.apply(g, args)
    if isinstance(f, Clos) and g.slot.v is not f:
        raise Unsupported('a closure with a state of its own over a sequence of unknown length')
    return r


@tr('Iterator::map')
def _imap(cx, a, f):
    it = as_iter(cx, a[0])
    if isinstance(it, SymIt):
        e = it.elem
        return SymIt(it.n, lambda i: stateless(cx, a[1], [e(i)]), it.what, it.pos, it.user)
    return MapIt(it, own(cx, a[1]))


@tr('Iterator::cloned', 'Iterator::copied')
def _icloned(cx, a, f):
    it = as_iter(cx, a[0])
    if isinstance(it, SymIt):
        e = it.elem
        return SymIt(it.n, lambda i: clone(cx, cx.load(e(i))), it.what, it.pos, it.user)
    return MapIt(it, PyFn('clone', lambda cx, x: clone(cx, cx.load(x))))


@tr('Iterator::by_ref')
def _byref(cx, a, f):
    return a[0]


def unknown(it):
    return isinstance(it, SymIt) or any(unknown(i) for i in getattr(it, 'its', [getattr(it, 'it', None)]) if isinstance(i, It))


class kept:
    """what a loop inside a library function keeps from round to round"""
    def __init__(self, cx, *v):
        self.cx, self.v = cx, v

    def __enter__(self):
        self.cx.kept = getattr(self.cx, 'kept', ()) + (self.v,)

    def __exit__(self, *a):
        self.cx.kept = self.cx.kept[:-1]


def _each(cx, it, step):
    """step on every element until it answers something"""
    while True:
        v = it.next(cx)
        if v is END:
            return None
        r = step(v)
        if r is not None:
            return r


def _finite(it, each=0):
    """each: the adaptor depends on how many elements there are or on all of them, so one
    representative of the other entries of a map does not do"""
    if unknown(it):
        raise Unsupported('adaptor over a sequence of unknown length')
    if each and getattr(it, 'rep', False):
        raise Unsupported('count, search or fold over a map with unknown entries')
    return it


@tr('Iterator::filter', 'Iterator::filter_map', 'Iterator::take_while')
def _ifilter(cx, a, f):
    it = as_iter(cx, a[0])
    kind = f['name']
    if kind == 'take_while' and getattr(it, 'rep', False):
        _finite(it, 1)
    return FilterIt(it, own(cx, a[1]), kind)


@tr('Iterator::enumerate')
def _ienum(cx, a, f):
    it = as_iter(cx, a[0])
    if isinstance(it, SymIt) and not it.started:
        e, p = it.elem, it.pos
        return SymIt(it.n, lambda i: tup(i - p, e(i)), it.what, it.pos, it.user)
    _finite(it, 1)

    def g():
        i = 0
        while True:
            v = it.next(cx)
            if v is END:
                return
            yield tup(i, v)
            i += 1
    return GenIt(g())


@tr('Iterator::zip')
def _izip(cx, a, f):
    x, y = as_iter(cx, a[0]), iter_of(cx, a[1]) if not isinstance(a[1], Ref) else as_iter(cx, a[1])
    if isinstance(x, SymIt) and isinstance(y, SymIt) and not x.started and not y.started and x.pos == 0 and y.pos == 0:
        n = x.n if y.n is None else y.n if x.n is None else z3.If(x.n < y.n, x.n, y.n)
        e1, e2 = x.elem, y.elem
        return SymIt(n, lambda i: tup(e1(i), e2(i)), ('zip', x.what, y.what), 0, x.user or y.user)
    for p, q in ((x, y), (y, x)):
        if isinstance(p, SymIt) and p.n is None and not p.started and not p.user and not unknown(q) and not getattr(q, 'rep', False):
            # as many as the other one has
            l = drain(cx, q)
            e = [p.elem(z3.IntVal(p.pos + i)) for i in range(len(l))]
            return ListIt([tup(u, v) for u, v in (zip(e, l) if p is x else zip(l, e))])
    _finite(x, 1), _finite(y, 1)

    def g():
        while True:
            v = x.next(cx)
            if v is END:
                return
            w = y.next(cx)
            if w is END:
                return
            yield tup(v, w)
    return GenIt(g())


@tr('Iterator::chain')
def _ichain(cx, a, f):
    return ChainIt([as_iter(cx, a[0]), as_iter(cx, a[1])])


@tr('Iterator::skip')
def _iskip(cx, a, f):
    it = _finite(as_iter(cx, a[0]), 1)
    if not isinstance(a[1], int):
        raise Unsupported('skip(symbolic)')

    def g():
        for _ in range(a[1]):
            if it.next(cx) is END:
                return
        while True:
            v = it.next(cx)
            if v is END:
                return
            yield v
    return GenIt(g())


@tr('Iterator::take')
def _itake(cx, a, f):
    it = as_iter(cx, a[0])
    if isinstance(it, SymIt) and not it.started and it.pos == 0 and not it.user:
        k = zint(a[1])
        return SymIt(k if it.n is None else z3.If(it.n < k, it.n, k), it.elem, ('take', it.what, a[1]), 0)
    _finite(it, 1)
    if not isinstance(a[1], int):
        raise Unsupported('take(symbolic)')

    def g():
        for _ in range(a[1]):
            v = it.next(cx)
            if v is END:
                return
            yield v
    return GenIt(g())


@tr('Iterator::rev')
def _irev(cx, a, f):
    it = _finite(as_iter(cx, a[0]))
    return ListIt(drain(cx, it)[::-1])


def drain(cx, it):
    _finite(it)
    l = []
    while True:
        v = it.next(cx)
        if v is END:
            return l
        l.append(v)
        if len(l) > 64:
            raise Unsupported('long iteration')


@tr('Iterator::for_each')
def _foreach(cx, a, f):
    it = as_iter(cx, a[0])
    g = Ref(Slot(a[1])) if isinstance(a[1], Clos) else a[1]
    with kept(cx, it, g):
        _each(cx, it, lambda v: (cx.apply(g, [v]), None)[1])
    return UNIT


@tr('Iterator::try_for_each')
def _tryeach(cx, a, f):
    it = as_iter(cx, a[0])
    g = own(cx, a[1])
    last = []

    def step(v):
        r = cx.deref(cx.apply(g, [v]))
        if isinstance(r, SymOpt):
            r = some(r.val) if cx.path.br(r.cond) else NONE
        if not isinstance(r, Agg):
            raise Unsupported('try_for_each')
        last[:] = [r]
        good = r.var == 1 if r.k == OPT else r.var == 0
        return None if good else r
    with kept(cx, it, g):
        r = _each(cx, it, step)
    if r is not None:
        return r
    t = f['targs'][-1]
    if last:
        return last[0]
    n = str(t.get('p', '?') if isinstance(t, dict) else t).split('::')[-1]
    if n == 'Option':
        return some(UNIT)
    if n == 'Result':
        return ok(UNIT)
    if n == 'ControlFlow':
        return Agg('std::ops::ControlFlow', 0, (UNIT,))
    raise Unsupported('try_for_each of ' + n)


@tr('Iterator::all', 'Iterator::any')
def _all(cx, a, f):
    it = as_iter(cx, a[0])
    if getattr(it, 'rep', False):
        _finite(it, 1)
    end = f['name'] == 'any'
    g = own(cx, a[1])
    with kept(cx, it, g):
        return not end if _each(cx, it, lambda v: True if cx.path.br(cx.apply(g, [v])) == end else None) is None else end


@tr('Iterator::find')
def _find(cx, a, f):
    it = as_iter(cx, a[0])
    if getattr(it, 'rep', False):
        _finite(it, 1)
    g = own(cx, a[1])
    with kept(cx, it, g):
        r = _each(cx, it, lambda v: some(v) if cx.path.br(cx.apply(g, [Ref(Slot(v))])) else None)
    return NONE if r is None else r


@tr('Iterator::position')
def _position(cx, a, f):
    it = _finite(as_iter(cx, a[0]), 1)
    i = 0
    while True:
        v = it.next(cx)
        if v is END:
            return NONE
        if cx.path.br(cx.apply(own(cx, a[1]), [v])):
            return some(i)
        i += 1


@tr('Iterator::find_map')
def _findmap(cx, a, f):
    it = as_iter(cx, a[0])
    if getattr(it, 'rep', False):
        _finite(it, 1)
    g = own(cx, a[1])

    def step(v):
        o = opt(cx, cx.apply(g, [v]))
        return None if o is None else some(o[0])
    with kept(cx, it, g):
        r = _each(cx, it, step)
    return NONE if r is None else r


@tr('Iterator::skip_while')
def _skipwhile(cx, a, f):
    it = _finite(as_iter(cx, a[0]), 1)

    def g():
        on = False
        while True:
            v = it.next(cx)
            if v is END:
                return
            if not on and cx.path.br(cx.apply(own(cx, a[1]), [Ref(Slot(v))])):
                continue
            on = True
            yield v
    return GenIt(g())


@tr('Iterator::flat_map')
def _iflatmap(cx, a, f):
    it = _finite(as_iter(cx, a[0]))

    def g():
        while True:
            v = it.next(cx)
            if v is END:
                return
            z = _finite(iter_of(cx, cx.apply(own(cx, a[1]), [v])))
            while True:
                w = z.next(cx)
                if w is END:
                    break
                yield w
    return GenIt(g(), getattr(it, 'rep', False))


@tr('Iterator::flatten')
def _iflatten(cx, a, f):
    it = _finite(as_iter(cx, a[0]))

    def g():
        while True:
            v = it.next(cx)
            if v is END:
                return
            z = _finite(iter_of(cx, cx.load(v), v) if isinstance(v, Ref) else iter_of(cx, v))
            while True:
                w = z.next(cx)
                if w is END:
                    break
                yield w
    return GenIt(g(), getattr(it, 'rep', False))


@tr('Iterator::inspect')
def _iinspect(cx, a, f):
    def g(cx2, x):
        cx2.apply(a[1], [Ref(Slot(x))])
        return x
    return MapIt(as_iter(cx, a[0]), PyFn('inspect', g))


@tr('Iterator::count')
def _count(cx, a, f):
    it = _finite(as_iter(cx, a[0]), 1)
    return len(drain(cx, it))


@tr('Iterator::last')
def _ilast(cx, a, f):
    l = drain(cx, _finite(as_iter(cx, a[0]), 1))
    return some(l[-1]) if l else NONE


@tr('Iterator::nth')
def _inth(cx, a, f):
    it = _finite(as_iter(cx, a[0]), 1)
    for _ in range(a[1]):
        it.next(cx)
    v = it.next(cx)
    return NONE if v is END else some(v)


@tr('Iterator::fold')
def _fold(cx, a, f):
    acc = a[1]
    for v in drain(cx, _finite(as_iter(cx, a[0]), 1)):
        acc = cx.apply(own(cx, a[2]), [acc, v])
    return acc


@tr('ExactSizeIterator::len')
def _ilen(cx, a, f):
    return as_iter(cx, a[0]).length(cx)


@tr('Iterator::peekable', 'Iterator::fuse')
def _fuse(cx, a, f):
    return as_iter(cx, a[0])


def collect(cx, it, kind):
    if isinstance(it, SymIt):
        if it.what[0] == 'seq' and it.pos == 0:
            return SeqV(it.what[1], kind)
        raise Unsupported('collect of a sequence of unknown length')
    if hasattr(it, 'collect'):
        return it.collect(cx, kind)
    return ListV(drain(cx, it), kind)


def collect_as(cx, it, t):
    n = t.get('p', '?').split('::')[-1]
    if n in ('Vec', 'VecDeque'):
        return collect(cx, it, 'vec' if n == 'Vec' else 'deque')
    if n in ('Option', 'Result'):
        _finite(it)
        bad = []

        def g():
            while True:
                v = it.next(cx)
                if v is END:
                    return
                v = cx.deref(v)
                if n == 'Option':
                    o = opt(cx, v)
                    if o is None:
                        bad.append(NONE)
                        return
                    yield o[0]
                else:
                    if not isinstance(v, Agg):
                        raise Unsupported('collect into Result')
                    if v.var == 1:
                        bad.append(v)
                        return
                    yield v.f[0]
        r = collect_as(cx, GenIt(g(), getattr(it, 'rep', False)), t['a'][0])
        return bad[0] if bad else some(r) if n == 'Option' else ok(r)
    raise Unsupported('collect into ' + n)


@tr('FromIterator::from_iter')
def _fromiter(cx, a, f):
    return collect_as(cx, as_iter(cx, a[0]), f['targs'][0])


@tr('Iterator::collect')
def _collect(cx, a, f):
    return collect_as(cx, as_iter(cx, a[0]), f['targs'][-1])


@tr('Iterator::sum')
def _isum(cx, a, f):
    acc = 0
    for v in drain(cx, _finite(as_iter(cx, a[0]), 1)):
        acc = acc + cx.deref(v)
    return acc


@tr('Extend::extend')
def _extend(cx, a, f):
    for v in drain(cx, as_iter(cx, a[1])):
        cx.store(a[0], push(cx, cx.load(a[0]), v))
    return UNIT


# ------------------------------------------------------------ panics, time, threads
@fn('panicking::panic', 'rt::panic_fmt', 'panicking::panic_fmt', 'rt::begin_panic', 'option::unwrap_failed', 'panicking::assert_failed')
def _panic(cx, a, f):
    raise Panic('explicit panic')


@fn('Arguments::from_str', 'Arguments::new', 'Argument::new_debug', 'Argument::new_display', 'fmt::format', 'hint::must_use',
    'any::type_name', 'Arguments::new_const', 'Arguments::new_v1')
def _fmt(cx, a, f):
    return Opaque('text')


@fn('thread::sleep')
def _sleep(cx, a, f):
    cx.task.on_sleep(cx, a[0])
    return UNIT


@fn('Instant::now', 'SystemTime::now')
def _now(cx, a, f):
    return cx.task.now(cx)


@fn('Instant::elapsed')
def _elapsed(cx, a, f):
    return cx.task.now(cx) - cx.deref(a[0])


@fn('thread::spawn')
def _spawn(cx, a, f):
    return cx.task.on_spawn(cx, a[0])


@fn('thread::current', 'thread::yield_now')
def _thr(cx, a, f):
    return Opaque('thread')
