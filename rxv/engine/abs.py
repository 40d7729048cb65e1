"""Contract objects: the library's own building blocks as their callers may rely on them.

Each class below is the contract of one type of the crate; base.py proves every method's MIR
against the same contract.  Callers never look into their bodies.
"""
import z3
from .core import *
from . import prims


def recv(cx, r):
    """receiver of a method: the contract object behind references"""
    v = cx.deref(r)
    return v


class Callee(Abs):
    cls = '?'

    def __init__(self, cx):
        self.birth = cx.epoch
        self.n_ = len(cx.abs)
        cx.abs.append(self)

    def clone(self, cx):
        return self

    def m_deref(self, cx, a, f):
        return a[0]

    def refs(self):
        return ()

    def __repr__(self):
        return '%s%d' % (self.cls, self.n_)


class AFw(Callee):
    """FunctionWrapper: a shared, clearable function"""
    cls = 'fw'

    def __init__(self, cx, func):
        super().__init__(cx)
        self.func = func

    def refs(self):
        return (self.func,)

    def clear(self, cx):
        if self.func is not None:
            cx.task.on_abs_write(cx, self, 'clear')
        self.func = None

    def m_eq(self, cx, a, f):
        raise Unsupported('compare')


class AObs(Callee):
    """Observer: open until its first terminal or unsubscribe; then owns nothing"""
    cls = 'obs'

    def __init__(self, cx, n, e, c):
        super().__init__(cx)
        self.n, self.e, self.c = n, e, c
        self.open = True
        self.teardown = None
        self.down = False           # the subscriber itself
        self.term = None

    def refs(self):
        r = []
        if self.open is not False:
            r += [self.n, self.e, self.c]
        if self.teardown is not None:
            r.append(self.teardown)
        return r

    def is_open(self, cx):
        if not isinstance(self.open, bool):
            self.open = cx.path.br(self.open)
        return self.open

    def shut(self, cx, how):
        """close; run the teardown"""
        if self.open is not False:
            cx.task.on_close(cx, self, how)
        self.open = False
        t, self.teardown = self.teardown, None
        if t is not None:
            cx.apply(t, [])

    def next(self, cx, x):
        if self.is_open(cx):
            cx.apply(self.n, [x])

    def error(self, cx, e):
        if self.is_open(cx):
            f = self.e
            self.term = 'error'
            self.shut(cx, 'error')
            cx.apply(f, [e])

    def complete(self, cx):
        if self.is_open(cx):
            f = self.c
            self.term = 'complete'
            self.shut(cx, 'complete')
            cx.apply(f, [])

    def unsubscribe(self, cx):
        if self.is_open(cx):
            self.shut(cx, 'unsubscribe')
        elif self.teardown is not None:
            self.shut(cx, 'unsubscribe')

    def set_td(self, cx, f):
        self.teardown = f
        if not self.is_open(cx):
            self.shut(cx, 'late')


class AObsv(Callee):
    """Observable: what subscribing does"""
    cls = 'observable'

    def __init__(self, cx, kind, f=None):
        super().__init__(cx)
        self.kind, self.f = kind, f

    def refs(self):
        return (self.f,) if self.f is not None else ()

    def subscribe(self, cx, o):
        cx.task.before_subscribe(cx, self, o)
        if o.is_open(cx):
            if self.kind[0] == 'local':
                cx.apply(self.f, [o])
            elif self.kind[0] == 'win':
                raise Unsupported('subscription to a window inside the operator')
            else:
                cx.task.on_sub(cx, self, o)
        return ASub(cx, PyFn('unsubscribe', lambda cx: (o.unsubscribe(cx), UNIT)[1]),
                    PyFn('is_subscribed', lambda cx: o.is_open(cx)), o)


class ASub(Callee):
    """Subscription"""
    cls = 'subscription'

    def __init__(self, cx, un, iss, obs=None):
        super().__init__(cx)
        self.un, self.iss, self.obs = un, iss, obs

    def refs(self):
        return [x for x in (self.un, self.iss, self.obs) if x is not None]


class ASctl(Callee):
    """StreamController: the subscriber D and the registered upstream observers"""
    cls = 'sctl'

    def __init__(self, cx, D):
        super().__init__(cx)
        self.D = D
        self.ents = []              # [serial, observer, registered]
        self.oreg = 0               # registered observers not listed in ents
        self.serial = 0
        self.on_fin = None
        fin = PyFn('finalize', lambda cx: (self.finalize(cx), UNIT)[1])
        fin.owned = self
        D.set_td(cx, fin)
        cx.task.on_sctl(cx, self)

    def refs(self):
        r = [self.D]
        r += [o for _, o, reg in self.ents if reg is not False]
        if self.on_fin is not None:
            r.append(self.on_fin)
        return r

    def new_observer(self, cx, n, e, c):
        s = self.serial
        if isinstance(s, int):
            self.serial = s + 1
        else:
            self.serial = cx.path.fresh('serial')
            cx.path.add(self.serial > s)
        o = AObs(cx, PyFn('n', lambda cx, x: cx.apply(n, [s, x])), PyFn('e', lambda cx, x: cx.apply(e, [s, x])),
                 PyFn('c', lambda cx: cx.apply(c, [s])))
        o.user = [n, e, c]
        o.n.owned, o.e.owned, o.c.owned = n, e, c

        def rebind(nn, ee, cc):
            o.user = [nn, ee, cc]
            o.n = PyFn('n', lambda cx, x: cx.apply(nn, [s, x]))
            o.e = PyFn('e', lambda cx, x: cx.apply(ee, [s, x]))
            o.c = PyFn('c', lambda cx: cx.apply(cc, [s]))
            o.n.owned, o.e.owned, o.c.owned = nn, ee, cc
        o.rebind = rebind
        o.serial = s
        self.ents.append([s, o, True])
        if not self.D.is_open(cx):
            self.finalize(cx)
        return o

    def remove(self, cx, s):
        for en in self.ents:
            if en[2] is not False and cx.path.br(cx.eq(en[0], s)):
                if not isinstance(en[2], bool):
                    en[2] = cx.path.br(en[2])
                if en[2]:
                    en[2] = False
                    return en[1]
                return None
        return None

    def empty(self, cx):
        c = zand([znot(en[2]) for en in self.ents] + [self.oreg == 0])
        return cx.path.br(c)

    def finalize(self, cx):
        ents, oreg = self.ents, self.oreg
        take = []
        for en in ents:
            if en[2] is not False:
                take.append((en[1], en[2]))
                en[2] = False
        self.oreg = 0
        cx.task.close_others(cx, self, oreg)
        for o, reg in take:
            if isinstance(reg, bool) or cx.path.br(reg):
                o.unsubscribe(cx)
        if self.D.is_open(cx):
            self.D.unsubscribe(cx)
        f, self.on_fin = self.on_fin, None
        if f is not None:
            cx.apply(f, [])

    def sink_next(self, cx, x):
        if self.D.is_open(cx):
            self.D.next(cx, x)
        else:
            self.finalize(cx)

    def sink_error(self, cx, e):
        if self.D.is_open(cx):
            self.D.error(cx, e)
        self.finalize(cx)

    def sink_complete(self, cx, s):
        if self.D.is_open(cx):
            o = self.remove(cx, s)
            done = self.empty(cx)
            if o is not None:
                o.unsubscribe(cx)
            if done:
                self.D.complete(cx)
                self.finalize(cx)
        else:
            self.finalize(cx)

    def force(self, cx):
        if self.D.is_open(cx):
            self.D.complete(cx)
        self.finalize(cx)

    def abort(self, cx, s):
        o = self.remove(cx, s)
        if o is not None:
            o.unsubscribe(cx)


class ASubj(Callee):
    """Subject handed out as a window or group"""
    cls = 'subject'

    def __init__(self, cx):
        super().__init__(cx)
        self.w = None               # ghost: the contract's window it stands for

    def ev(self, cx, ev, v):
        cx.callout('a subject')
        cx.task.on_subj(cx, self, ev, v)


def contracts():
    C = {}

    def d(*names):
        def g(f):
            for n in names:
                C[n] = f
            return f
        return g

    # FunctionWrapper
    @d('FunctionWrapper::new')
    def _(cx, a, f, t):
        return AFw(cx, a[0])

    @d('FunctionWrapper::call')
    def _(cx, a, f, t):
        w = recv(cx, a[0])
        if w.func is None:
            raise Panic('no func')
        return cx.apply(w.func, [a[1]])

    @d('FunctionWrapper::call_if_available')
    def _(cx, a, f, t):
        w = recv(cx, a[0])
        return NONE if w.func is None else some(cx.apply(w.func, [a[1]]))

    @d('FunctionWrapper::call_and_clear_if_available')
    def _(cx, a, f, t):
        w = recv(cx, a[0])
        g = w.func
        w.clear(cx)
        return NONE if g is None else some(cx.apply(g, [a[1]]))

    @d('FunctionWrapper::clear')
    def _(cx, a, f, t):
        recv(cx, a[0]).clear(cx)
        return UNIT

    @d('FunctionWrapper::take')
    def _(cx, a, f, t):
        w = recv(cx, a[0])
        r = w.func is not None
        w.clear(cx)
        return r

    @d('FunctionWrapper::empty')
    def _(cx, a, f, t):
        return recv(cx, a[0]).func is None

    @d('FunctionWrapper::exists')
    def _(cx, a, f, t):
        return recv(cx, a[0]).func is not None

    # Observer
    @d('Observer::new')
    def _(cx, a, f, t):
        return AObs(cx, *a)

    @d('Observer::next')
    def _(cx, a, f, t):
        recv(cx, a[0]).next(cx, a[1])
        return UNIT

    @d('Observer::error')
    def _(cx, a, f, t):
        recv(cx, a[0]).error(cx, a[1])
        return UNIT

    @d('Observer::complete')
    def _(cx, a, f, t):
        recv(cx, a[0]).complete(cx)
        return UNIT

    @d('Observer::unsubscribe')
    def _(cx, a, f, t):
        recv(cx, a[0]).unsubscribe(cx)
        return UNIT

    @d('Observer::is_subscribed')
    def _(cx, a, f, t):
        return recv(cx, a[0]).is_open(cx)

    @d('Observer::set_on_unsubscribe')
    def _(cx, a, f, t):
        recv(cx, a[0]).set_td(cx, a[1])
        return UNIT

    # Observable
    @d('Observable::create')
    def _(cx, a, f, t):
        return AObsv(cx, ('local',), a[0])

    @d('Observable::inner_subscribe')
    def _(cx, a, f, t):
        return recv(cx, a[0]).subscribe(cx, recv(cx, a[1]))

    @d('Observable::subscribe')
    def _(cx, a, f, t):
        return recv(cx, a[0]).subscribe(cx, AObs(cx, *a[1:]))

    # Subscription
    @d('Subscription::new')
    def _(cx, a, f, t):
        return ASub(cx, a[0], a[1])

    @d('Subscription::unsubscribe')
    def _(cx, a, f, t):
        s = recv(cx, a[0])
        g, s.un = s.un, None
        if g is not None:
            cx.apply(g, [])
        return UNIT

    @d('Subscription::is_subscribed')
    def _(cx, a, f, t):
        return cx.apply(recv(cx, a[0]).iss, [])

    # StreamController
    @d('StreamController::new')
    def _(cx, a, f, t):
        return ASctl(cx, recv(cx, a[0]))

    @d('StreamController::new_observer')
    def _(cx, a, f, t):
        return recv(cx, a[0]).new_observer(cx, *a[1:])

    @d('StreamController::sink_next')
    def _(cx, a, f, t):
        recv(cx, a[0]).sink_next(cx, a[1])
        return UNIT

    @d('StreamController::sink_error')
    def _(cx, a, f, t):
        recv(cx, a[0]).sink_error(cx, a[1])
        return UNIT

    @d('StreamController::sink_complete')
    def _(cx, a, f, t):
        recv(cx, a[0]).sink_complete(cx, cx.deref(a[1]))
        return UNIT

    @d('StreamController::sink_complete_force')
    def _(cx, a, f, t):
        recv(cx, a[0]).force(cx)
        return UNIT

    @d('StreamController::upstream_abort_observe')
    def _(cx, a, f, t):
        recv(cx, a[0]).abort(cx, cx.deref(a[1]))
        return UNIT

    @d('StreamController::finalize')
    def _(cx, a, f, t):
        recv(cx, a[0]).finalize(cx)
        return UNIT

    @d('StreamController::is_subscribed')
    def _(cx, a, f, t):
        return recv(cx, a[0]).D.is_open(cx)

    @d('StreamController::set_on_finalize')
    def _(cx, a, f, t):
        s = recv(cx, a[0])
        s.on_fin = a[1]
        if not s.D.is_open(cx):
            s.finalize(cx)
        return UNIT

    # Subject
    @d('Subject::new')
    def _(cx, a, f, t):
        return ASubj(cx)

    @d('Subject::next', 'Subject::error')
    def _(cx, a, f, t):
        recv(cx, a[0]).ev(cx, f['name'], a[1])
        return UNIT

    @d('Subject::complete')
    def _(cx, a, f, t):
        recv(cx, a[0]).ev(cx, 'complete', None)
        return UNIT

    @d('Subject::observable')
    def _(cx, a, f, t):
        return AObsv(cx, ('win', recv(cx, a[0])))

    # RxError: stands for its payload
    @d('RxError::from_error')
    def _(cx, a, f, t):
        return a[0]

    @d('RxError::from_result')
    def _(cx, a, f, t):
        r = cx.deref(a[0])
        if not (isinstance(r, Agg) and r.k == RES):
            raise Unsupported('from_result of %r' % (r,))
        if r.var == 0:
            raise Panic('Result must be Result::Err!')
        return r.f[0]

    # every contract type is a shared handle: its clone is itself
    for ty in ('RxError', 'FunctionWrapper', 'Observer', 'Observable', 'Subscription', 'StreamController', 'Subject'):
        @d(ty + '::clone')
        def _(cx, a, f, t):
            v = cx.load(a[0]) if isinstance(a[0], Ref) else a[0]
            while isinstance(v, Ref):
                v = cx.load(v)
            return prims.clone(cx, v)
    return C


def refs_of(v, cx, out):
    """contract objects and heap slots directly owned by a value"""
    if isinstance(v, (ArcV,)):
        out.append(v.slot)
    elif isinstance(v, LockV):
        out.append(v.slot)
    elif isinstance(v, Abs):
        if isinstance(v, Callee):
            out.append(v)
        elif isinstance(v, prims.ListIt):
            for x in v.items:
                refs_of(x, cx, out)
    elif isinstance(v, Agg):
        for x in v.f:
            refs_of(x, cx, out)
    elif isinstance(v, SymOpt):
        refs_of(v.val, cx, out)
    elif isinstance(v, Clos):
        for x in v.caps:
            refs_of(x, cx, out)
    elif isinstance(v, ListV):
        for x in v.items:
            refs_of(x, cx, out)
    elif isinstance(v, PyFn):
        o = getattr(v, 'owned', None)
        if o is not None:
            refs_of(o, cx, out)
    elif isinstance(v, Ref):
        out.append(v.slot)
    else:
        ents = getattr(v, 'ents', None)
        if ents is not None:
            for k, x in ents:
                refs_of(x, cx, out)


def ownership_cycle(cx):
    """a reference cycle among everything allocated for this subscription, or None"""
    succ = {}

    def nodes(x):
        out = []
        if isinstance(x, Slot):
            refs_of(x.v, cx, out)
        else:
            for r in x.refs():
                refs_of(r, cx, out)
        return out
    color, stack = {}, []
    for root in list(cx.cells) + list(cx.abs):
        if id(root) in color:
            continue
        work = [(root, iter(nodes(root)))]
        color[id(root)] = 1
        keep = [root]
        while work:
            x, it = work[-1]
            for y in it:
                c = color.get(id(y), 0)
                if c == 1:
                    names = [w[0] for w in work]
                    i = [k for k, w in enumerate(names) if w is y][0]
                    return ' -> '.join(map(repr, names[i:] + [y]))
                if c == 0:
                    color[id(y)] = 1
                    keep.append(y)
                    work.append((y, iter(nodes(y))))
                    break
            else:
                color[id(x)] = 2
                work.pop()
        cx._keep = keep
    return None
