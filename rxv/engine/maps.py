"""HashMap contract: a finite map with symbolic integer keys.

`ents` are the entries the argument distinguishes; `rest` (count, representative) stands
for the others.  Iteration visits the entries and, if there are others, the
representative once: whatever is proved for it holds for each of them.
"""
import z3
from .core import *
from . import prims
from .prims import fn, It, ListIt, END, opt, clone


class MapV:
    __slots__ = ('ents', 'rest')

    def __init__(self, ents=(), rest=None):
        self.ents = tuple(ents)         # ((key, value), ...)   all present, keys distinct
        self.rest = rest                # None or (count term, make(cx) -> (key, value))

    @staticmethod
    def empty(t=None):
        return MapV()

    def __repr__(self):
        return 'map%r%s' % (dict((str(k), v) for k, v in self.ents), '+rest' if self.rest else '')

    def find(self, cx, k):
        for i, (kk, v) in enumerate(self.ents):
            if cx.path.br(cx.eq(kk, k)):
                return i
        return None

    def get_key(self, i):
        return self.ents[i][1]

    def put_key(self, cx, i, v):
        e = list(self.ents)
        e[i] = (e[i][0], v)
        return MapV(e, self.rest)


def self_map(cx, r):
    while not isinstance(cx.load(r), MapV):
        w = cx.load(r)
        if not isinstance(w, (Ref, ArcV)):
            raise Unsupported('map method on %r' % (w,))
        r = Ref(w.slot) if isinstance(w, ArcV) else w
    return r, cx.load(r)


def materialise(cx, m, k):
    """a lookup of key k: is it one of the others?  (`pick` of the rest decides)"""
    i = m.find(cx, k)
    if i is None and m.rest is not None:
        got = m.rest[1](cx, k)
        if got is not None:
            v, rest = got
            m = MapV(m.ents + ((k, v),), rest)
            return m, len(m.ents) - 1
    return m, i


@fn('HashMap::new', 'HashMap::with_capacity', 'BTreeMap::new')
def _new(cx, a, f):
    return MapV()


@fn('HashMap::get', 'HashMap::get_mut', 'BTreeMap::get')
def _get(cx, a, f):
    r, m = self_map(cx, a[0])
    m2, i = materialise(cx, m, cx.deref(a[1]))
    if m2 is not m:
        r.slot.v = cx.upd(r.slot.v, r.path, m2)
    return NONE if i is None else some(Ref(r.slot, r.path + (('key', i),)))


_old_index = prims.T['Index::index']


@prims.tr('Index::index')
def _mindex(cx, a, f):
    if not isinstance(cx.deref(a[0]), MapV):
        return _old_index(cx, a, f)
    o = _get(cx, a, f)
    if o is NONE:
        raise Panic('no entry for the key')
    return o.f[0]


@fn('HashMap::contains_key', 'BTreeMap::contains_key')
def _ck(cx, a, f):
    r, m = self_map(cx, a[0])
    m2, i = materialise(cx, m, cx.deref(a[1]))
    if m2 is not m:
        r.slot.v = cx.upd(r.slot.v, r.path, m2)
    return i is not None


@fn('HashMap::insert', 'BTreeMap::insert')
def _insert(cx, a, f):
    r, m = self_map(cx, a[0])
    m, i = materialise(cx, m, a[1])
    if i is None:
        cx.store(r, MapV(m.ents + ((a[1], a[2]),), m.rest))
        return NONE
    old = m.ents[i][1]
    e = list(m.ents)
    e[i] = (a[1], a[2])
    cx.store(r, MapV(e, m.rest))
    return some(old)


@fn('HashMap::remove', 'BTreeMap::remove')
def _remove(cx, a, f):
    r, m = self_map(cx, a[0])
    m, i = materialise(cx, m, cx.deref(a[1]))
    if i is None:
        return NONE
    cx.store(r, MapV(m.ents[:i] + m.ents[i + 1:], m.rest))
    return some(m.ents[i][1])


@fn('HashMap::len', 'BTreeMap::len')
def _len(cx, a, f):
    r, m = self_map(cx, a[0])
    n = len(m.ents)
    return n if m.rest is None else m.rest[0] + n


@fn('HashMap::is_empty', 'BTreeMap::is_empty')
def _ise(cx, a, f):
    n = _len(cx, a, f)
    return n == 0


@fn('HashMap::clear', 'BTreeMap::clear')
def _clear(cx, a, f):
    r, m = self_map(cx, a[0])
    cx.store(r, MapV())
    return UNIT


@fn('HashMap::retain', 'BTreeMap::retain')
def _retain(cx, a, f):
    r, m = self_map(cx, a[0])
    if m.rest is not None:
        raise Unsupported('retain on a map with unknown entries')
    out = []
    for i, (k, v) in enumerate(m.ents):
        sl = Slot(v)
        if cx.path.br(cx.apply(a[1], [Ref(Slot(k)), Ref(sl)])):
            out.append((k, sl.v))
    cx.store(r, MapV(out))
    return UNIT


def items(cx, m, ref, what):
    out = []
    for i, (k, v) in enumerate(m.ents):
        vv = Ref(ref.slot, ref.path + (('key', i),)) if ref is not None else v
        kk = Ref(Slot(k)) if ref is not None else k
        out.append(vv if what in ('values', 'values_mut', 'into_values') else kk if what in ('keys', 'into_keys') else tup(kk, vv))
    if m.rest is not None:
        g = m.rest[2](cx) if len(m.rest) > 2 else None
        if g is None:
            raise Unsupported('iteration over a map with unknown entries')
        if cx.path.br(m.rest[0] > 0):
            k, v = g
            vv = Ref(Slot(v)) if ref is not None else v
            kk = Ref(Slot(k)) if ref is not None else k
            out.append(vv if what in ('values', 'values_mut', 'into_values') else kk if what in ('keys', 'into_keys') else tup(kk, vv))
            return ListIt(out, True)
    return ListIt(out)


_old_iter = prims._iter


def _iter(cx, a, f):
    v = cx.deref(a[0])
    if isinstance(v, MapV):
        n = f['path'].split('::')[-1]
        if not isinstance(a[0], Ref):
            return items(cx, v, None, n)
        r, m = self_map(cx, a[0])
        if n == 'drain':
            cx.store(r, MapV())
            return items(cx, m, None, n)
        return items(cx, m, r, n)
    return _old_iter(cx, a, f)


prims._iter = _iter
for _n in list(prims.F):
    if prims.F[_n] is _old_iter:
        prims.F[_n] = _iter
_old_iter_of = prims.iter_of


def iter_of(cx, v, ref=None):
    if isinstance(v, MapV):
        return items(cx, v, ref, 'iter')
    return _old_iter_of(cx, v, ref)


prims.iter_of = iter_of
_old_clone = prims.clone


def clone2(cx, v):
    if isinstance(v, MapV):
        return MapV([(k, prims.clone(cx, x)) for k, x in v.ents], v.rest)
    return _old_clone(cx, v)


prims.clone = clone2


# ------------------------------------------------------------ entries
class Ent(Abs):
    """the place of one key in a map"""
    def __init__(self, ref, key):
        self.ref, self.key = ref, key

    def at(self, cx):
        r, m = self_map(cx, self.ref)
        i = m.find(cx, self.key)
        return None if i is None else Ref(r.slot, r.path + (('key', i),))

    def put(self, cx, v):
        r, m = self_map(cx, self.ref)
        cx.store(r, MapV(m.ents + ((self.key, v),), m.rest))
        return Ref(r.slot, r.path + (('key', len(m.ents)),))


ENTRY = 'std::collections::hash_map::Entry'


@fn('HashMap::entry', 'BTreeMap::entry')
def _entry(cx, a, f):
    r, m = self_map(cx, a[0])
    m2, i = materialise(cx, m, a[1])
    if m2 is not m:
        r.slot.v = cx.upd(r.slot.v, r.path, m2)
    # (hash_map: Occupied, Vacant; btree_map: Vacant, Occupied)
    occ = 1 if 'BTreeMap' in f['path'] else 0
    return Agg(ENTRY, occ if i is not None else 1 - occ, [Ent(r, a[1])])


def _ent(cx, a):
    e = a[0].f[0]
    return e, e.at(cx)


@fn('Entry::or_insert')
def _eoi(cx, a, f):
    e, r = _ent(cx, a)
    return r if r is not None else e.put(cx, a[1])


@fn('Entry::or_insert_with')
def _eow(cx, a, f):
    e, r = _ent(cx, a)
    return r if r is not None else e.put(cx, cx.apply(a[1], []))


@fn('Entry::or_default')
def _eod(cx, a, f):
    e, r = _ent(cx, a)
    return r if r is not None else e.put(cx, prims.default(f['targs'][-1]))


@fn('Entry::and_modify')
def _eam(cx, a, f):
    e, r = _ent(cx, a)
    if r is not None:
        cx.apply(a[1], [r])
    return a[0]


@fn('OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_mut')
def _oeg(cx, a, f):
    return cx.deref(a[0]).at(cx)


@fn('OccupiedEntry::insert')
def _oei(cx, a, f):
    r = cx.deref(a[0]).at(cx)
    old = cx.load(r)
    cx.store(r, a[1])
    return old


@fn('OccupiedEntry::remove')
def _oer(cx, a, f):
    e = cx.deref(a[0])
    r, m = self_map(cx, e.ref)
    i = m.find(cx, e.key)
    cx.store(r, MapV(m.ents[:i] + m.ents[i + 1:], m.rest))
    return m.ents[i][1]


@fn('VacantEntry::insert')
def _vei(cx, a, f):
    return cx.deref(a[0]).put(cx, a[1])


@fn('Entry::key', 'OccupiedEntry::key', 'VacantEntry::key')
def _ek(cx, a, f):
    e = cx.deref(a[0])
    e = e.f[0] if isinstance(e, Agg) else e
    return Ref(Slot(e.key))
