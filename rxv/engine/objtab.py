"""The contracts of the base types: what is called, and what must be true of it."""
from .core import *
from . import abs as A, prims
from .objv import Seq, Conc, Unsupported, is_none, is_some, calls, show, mentions, shape


def cm(short, *idx):
    """calls the method `short` on the object"""
    def code(cx, obj, args):
        return cx.call_fn(cx.P.method(short), [Ref(Slot(obj))] + list(args))
    return code


def noargs(t, cx, i):
    return []


def item(name):
    return lambda t, cx, i: [cx.path.fresh('%s%d' % (name, i))]


def mm(f):
    return lambda cx, mod, a: f(cx, mod, *a)


def wrap_unit(f):
    def g(cx, mod, *a):
        f(cx, mod, *a)
        return UNIT
    return mm(g)


C0 = A.contracts()


def con(*pre):
    return {k: v for k, v in C0.items() if k.split('::')[0] in pre + ('RxError',)}


# ------------------------------------------------------------ FunctionWrapper
class MFw:
    def __init__(self, f):
        self.f = f


def fw_new(t, cx):
    u = t.ufn(cx, 'func', lambda cx, x: x + 1000)
    return cx.call_fn(cx.P.method('FunctionWrapper::new'), [u]), MFw(u)


def fw_call(cx, m, x):
    if m.f is None:
        raise Panic('no func')
    return cx.apply(m.f, [x])


def fw_if(cx, m, x):
    return NONE if m.f is None else some(cx.apply(m.f, [x]))


def fw_once(cx, m, x):
    f, m.f = m.f, None
    return NONE if f is None else some(cx.apply(f, [x]))


def fw_take(cx, m):
    f, m.f = m.f, None
    return f is not None


FWM = {
    'call': (item('x'), mm(fw_call)), 'call_if_available': (item('x'), mm(fw_if)),
    'call_and_clear_if_available': (item('x'), mm(fw_once)),
    'clear': (noargs, mm(lambda cx, m: (fw_take(cx, m), UNIT)[1])), 'take': (noargs, mm(fw_take)),
    'empty': (noargs, mm(lambda cx, m: m.f is None)), 'exists': (noargs, mm(lambda cx, m: m.f is not None)),
}


def has(P, short):
    return any('{closure' not in k and 'test' not in k for k in P.by_short.get(short, ()))


def fw_seq(P):
    return Seq(P, 'FunctionWrapper', {
        'new': fw_new, 'canon': lambda m: m.f is not None,
        'methods': {n: (mk, cm('FunctionWrapper::' + n), mod) for n, (mk, mod) in FWM.items() if has(P, 'FunctionWrapper::' + n)}})


def fw_judge(t):
    def f(w):
        out = []
        i0 = t.init[w]
        for m, ev, r in t.runs:
            cs = [(i, e) for i, e in enumerate(ev) if e[0] == 'cs' and e[1] == w]
            saw = [i for i, e in cs if e[2] == i0]
            took = [i for i, e in cs if e[2] == i0 and e[3] != i0]
            gone = [i for i, e in cs if e[3] != i0]
            c = calls(ev, 'func')
            if m in ('call', 'call_if_available'):
                for k in c:
                    out.append((any(i < k for i in saw), 'grammar', '%s runs the function without having found it' % m, show(ev)))
                out.append((len(c) <= 1, 'grammar', '%s runs the function more than once' % m, show(ev)))
                out.append((bool(c) or bool(gone), 'grammar', '%s neither runs the function nor finds it gone' % m, show(ev)))
                out.append((not took, 'grammar', '%s removes the function' % m, show(ev)))
            if m == 'call_and_clear_if_available':
                out.append((len(c) == len(took) and len(took) <= 1, 'grammar', 'it runs the function without having been the one to remove it, or not exactly once', show(ev)))
                for k in c:
                    out.append((any(i < k for i in took), 'grammar', 'it runs the function before having removed it', show(ev)))
            if m == 'take':
                out.append((r is True and len(took) == 1 or r is False and not took, 'grammar', 'take reports %s' % r, show(ev)))
            if m in ('take', 'clear', 'call_and_clear_if_available'):
                out.append((bool(gone), 'cut', 'the function is still there after ' + m, show(ev)))
            if m == 'exists' and r is True or m == 'empty' and r is False:
                out.append((bool(saw), 'cut', '%s reports a function not seen' % m, show(ev)))
        back = [x for a, b in t.rel.get(w, ()) for x in [(a, b)] if a != i0 and b == i0]
        out.append((not back, 'cut', 'a removed function comes back', ''))
        return out
    t.best([c for c in sorted(t.init) if is_some(t.init[c])] or sorted(t.init), f)


def fw_conc(P):
    return Conc(P, 'FunctionWrapper/threads', {
        'name': 'fw', 'new': lambda t, cx: fw_new(t, cx)[0],
        'methods': {n: (mk, cm('FunctionWrapper::' + n)) for n, (mk, mod) in FWM.items() if has(P, 'FunctionWrapper::' + n)},
        'judge': fw_judge})


# ------------------------------------------------------------ Observer
def obs_new(t, cx):
    n, e, c = [t.ufn(cx, x) for x in ('next', 'error', 'complete')]
    return cx.call_fn(cx.P.method('Observer::new'), [n, e, c]), A.AObs(cx, n, e, c)


def td_args(t, cx, i):
    return [t.ufn(cx, 'teardown')]


OBM = {
    'next': (item('x'), wrap_unit(lambda cx, o, x: o.next(cx, x))),
    'error': (item('e'), wrap_unit(lambda cx, o, e: o.error(cx, e))),
    'complete': (noargs, wrap_unit(lambda cx, o: o.complete(cx))),
    'unsubscribe': (noargs, wrap_unit(lambda cx, o: o.unsubscribe(cx))),
    'is_subscribed': (noargs, mm(lambda cx, o: o.is_open(cx))),
    'set_on_unsubscribe': (td_args, wrap_unit(lambda cx, o, f: o.set_td(cx, f))),
}


def obs_grammar(o, ev):
    """what a subscriber may see, whoever calls from inside of its callbacks"""
    shut = term = None
    if not o.open:
        shut = 'the subscription had ended'
    for e in ev:
        if e[0] == 'ret':
            if e[1] in ('unsubscribe', 'error', 'complete'):
                shut = shut or e[1] + ' returned'
        elif e[1] in ('next', 'error', 'complete'):
            yield not term, 'grammar', '%s is called after %s' % (e[1], term)
            yield not shut, 'cut', '%s is called after %s' % (e[1], shut)
            term = e[1] if e[1] != 'next' else term


def obs_seq(P):
    return Seq(P, 'Observer', {
        'nested': (('next', 'error', 'complete'), ['next', 'error', 'complete', 'unsubscribe'], ['next', 'complete', 'error'], obs_grammar),
        'new': obs_new, 'canon': lambda o: (o.open, o.teardown and o.teardown.name),
        'methods': {n: (mk, cm('Observer::' + n), mod) for n, (mk, mod) in OBM.items()}})


def last_empty(ev, w):
    cs = [e for e in ev if e[0] == 'cs' and e[1] == w]
    return bool(cs) and not mentions(cs[-1][3])


def obs_judge(t):
    def f(w):
        out = []
        i0 = t.init[w]
        for m, ev, r in t.runs:
            s = show(ev)
            cs = [(i, e) for i, e in enumerate(ev) if e[0] == 'cs' and e[1] == w]
            saw = [i for i, e in cs if e[2] == i0]
            took = [i for i, e in cs if e[2] == i0 and e[3] != i0]
            gone = [i for i, e in cs if e[3] != i0]
            for k in calls(ev, 'next'):
                out.append((any(i < k for i in saw), 'grammar', 'next calls the subscriber without having found the subscription open', s))
            term = calls(ev, 'error', 'complete')
            for k in term:
                out.append((any(i < k for i in took), 'grammar', '%s delivers a terminal without having closed the subscription itself: two threads may both do it' % m, s))
            out.append((len(term) <= 1, 'grammar', '%s delivers two terminals' % m, s))
            out.append((len(calls(ev, 'next')) <= 1, 'grammar', '%s delivers an item twice' % m, s))
            if m in ('error', 'complete'):
                cut = any(e[0] == 'cs' and m in mentions(t.init.get(e[1])) and m not in mentions(e[2]) for e in ev)
                out.append((not took or len(term) == 1 or cut, 'grammar', '%s closes the subscription and delivers nothing' % m, s))
            if m in ('unsubscribe', 'error', 'complete'):
                out.append((bool(gone), 'cut', 'the subscription is still open when %s returns' % m, s))
            if m == 'is_subscribed':
                out.append((r is not True or bool(saw), 'cut', 'is_subscribed answers yes without having found the subscription open', s))
            if m == 'next':
                out.append((bool(calls(ev, 'next')) or bool(gone), 'grammar', 'next drops an item though the subscription is open', s))
            # the teardown
            if m in ('unsubscribe', 'error', 'complete') and (took or m == 'unsubscribe'):
                g = gone[0] if gone else 10 ** 6
                ok_ = any(i > g and e[0] == 'cs' and e[1] in tds and not mentions(e[3]) for i, e in enumerate(ev))
                out.append((ok_, 'upstream', '%s does not look for a teardown after closing' % m, s))
            rem = [i for i, e in enumerate(ev) if e[0] == 'cs' and e[1] in tds and 'teardown' in mentions(e[2]) and not mentions(e[3])]
            n = calls(ev, 'teardown')
            out.append((len(n) <= len(rem) and all(any(i < k for i in rem) for k in n), 'upstream', '%s runs a teardown it did not take: it may run twice' % m, s))
            if m in ('unsubscribe', 'error', 'complete', 'set_on_unsubscribe'):
                out.append((len(n) >= len(rem), 'upstream', '%s takes the teardown and does not run it' % m, s))
            if m == 'set_on_unsubscribe':
                put = [i for i, e in enumerate(ev) if e[0] == 'cs' and e[1] in tds and 'teardown' in mentions(e[3])]
                ok_ = bool(n) or any(i > k and e[0] == 'cs' and e[1] == w and e[3] == i0 for k in put for i, e in enumerate(ev)) \
                    or any(i > k and e[0] == 'cs' and e[1] in tds and not mentions(e[3]) for k in put for i, e in enumerate(ev))
                out.append((ok_, 'upstream', 'a teardown set while the subscription ends is lost', s))
            # nothing of the user's survives
            if m == 'unsubscribe' or took:
                for c in tops:
                    out.append((last_empty(ev, c), 'leak', '%s leaves a callback in %s' % (m, c), s))
        back = [1 for a, b in t.rel.get(w, ()) if a != i0 and b == i0]
        out.append((not back, 'cut', 'a closed subscription opens again', ''))
        return out
    tds = [c for c in t.init if is_none(t.init[c])]
    tops = [c for c in t.init if '/' not in c]
    w = t.best([c for c in sorted(t.init) if c not in tds], f)
    t.witness = w


def obs_conc(P):
    return Conc(P, 'Observer/threads', {
        'name': 'obs', 'new': lambda t, cx: obs_new(t, cx)[0],
        'methods': {n: (mk, cm('Observer::' + n)) for n, (mk, mod) in OBM.items()}, 'judge': obs_judge})


# ------------------------------------------------------------ Subscription
def sub_new(t, cx):
    u = t.ufn(cx, 'unsub')
    i = t.ufn(cx, 'issub', lambda cx: cx.path.br(z3b('issub')))
    return cx.call_fn(cx.P.method('Subscription::new'), [u, i]), A.ASub(cx, u, i)


def z3b(n):
    import z3
    return z3.Bool(n)


def sub_un(cx, s):
    g, s.un = s.un, None
    if g is not None:
        cx.apply(g, [])
    return UNIT


SUM = {'unsubscribe': (noargs, mm(sub_un)), 'is_subscribed': (noargs, mm(lambda cx, s: cx.apply(s.iss, [])))}


def sub_seq(P):
    return Seq(P, 'Subscription', {
        'new': sub_new, 'canon': lambda s: s.un is not None, 'contracts': con('FunctionWrapper') if False else {},
        'methods': {n: (mk, cm('Subscription::' + n), mod) for n, (mk, mod) in SUM.items()}})


def sub_judge(t):
    for m, ev, r in t.runs:
        s = show(ev)
        rem = [i for i, e in enumerate(ev) if e[0] == 'cs' and 'unsub' in mentions(e[2]) and 'unsub' not in mentions(e[3])]
        n = calls(ev, 'unsub')
        t.ob(len(n) == len(rem) <= 1 and all(i < k for i, k in zip(rem, n)), 'cut', '%s: the unsubscription does not run exactly once' % m, s)
    ws = [c for c in t.init if 'unsub' in mentions(t.init[c])]
    for m, ev, r in t.runs:
        if m == 'unsubscribe':
            t.ob(bool(calls(ev, 'unsub')) or any(e[0] == 'cs' and e[1] in ws and 'unsub' not in mentions(e[3]) for e in ev), 'cut',
                 'unsubscribe returns without the unsubscription having been started', show(ev))


def sub_conc(P):
    return Conc(P, 'Subscription/threads', {'name': 'sub', 'new': lambda t, cx: sub_new(t, cx)[0],
                'methods': {n: (mk, cm('Subscription::' + n)) for n, (mk, mod) in SUM.items()}, 'judge': sub_judge})


# ------------------------------------------------------------ Observable
class World:
    """an observable, an observer, and the subscription once there is one"""
    def __init__(self, o, s):
        self.o, self.s, self.sub = o, s, None


def osrc(t, cx, tag):
    """the closure given to create: reports the observer it was given"""
    return t.ufn(cx, 'source', lambda cx, s: (cx.ev.append(('call', 'with', (s,))), UNIT)[1])


def obv_new(t, cx):
    u = osrc(t, cx, 'a')
    f = lambda x: t.ufn(cx, x)
    s = A.AObs(cx, f('next'), f('error'), f('complete'))
    s.tag = 's'
    s2 = s
    o = cx.call_fn(cx.P.method('Observable::create'), [u])
    w = World(o, s)
    m = World(u, None)
    m.peer = w
    return w, m


def i_sub_code(cx, w, a):
    w.sub = cx.call_fn(cx.P.method('Observable::inner_subscribe'), [Ref(Slot(w.o)), w.s])
    return UNIT


def i_sub_model(cx, m, a):
    s = m.peer.s
    if s.is_open(cx):
        cx.apply(m.o, [s])
    m.sub = True
    return UNIT


def obv_sub_code(cx, w, a):
    n, e, c = a
    cx.call_fn(cx.P.method('Observable::subscribe'), [Ref(Slot(w.o)), n, e, c])
    s = [x for x in cx.ev if x[0] == 'call' and x[1] == 'with']
    if not s:
        cx.fail('events', 'subscribe: the source is not called')
    s = cx.deref(s[-1][2][0])
    if not isinstance(s, A.AObs):
        raise Unsupported('observer of another kind')
    ok_ = is_fn(cx, s.n, 'next', 1) and is_fn(cx, s.e, 'error', 1) and is_fn(cx, s.c, 'complete', 0)
    if not ok_:
        cx.fail('events', 'subscribe: the callbacks do not reach the source as given')
    cx.ev = [x for x in cx.ev if x[1] in ('source',)]
    cx.ev = [('call', 'source', ())]
    return UNIT


def is_fn(cx, f, name, n):
    if isinstance(f, UFn):
        return f.name == name
    ev, cx.ev = cx.ev, []
    x = cx.path.fresh('probe')
    cx.apply(f, [x] if n else [])
    got, cx.ev = cx.ev, ev
    return [e[1] for e in got] == [name] and (not n or got[0][2][0] is x or x.eq(got[0][2][0]))


def obv_sub_model(cx, m, a):
    cx.apply(m.o, [None])
    cx.ev = [('call', 'source', ())]
    return UNIT


def with_sub(f):
    def g(cx, w, a):
        if w.sub is None:
            return UNIT
        return f(cx, w)
    return g


def obv_seq(P):
    def close_code(cx, w, a):
        w.s.unsubscribe(cx)
        return UNIT

    def un_code(cx, w):
        cx.call(fnref(cx.P, 'Subscription::unsubscribe'), [Ref(Slot(w.sub))])
        return w.s.is_open(cx)

    def un_model(cx, m, a):
        return False if m.sub else UNIT

    def is_code(cx, w):
        return cx.call(fnref(cx.P, 'Subscription::is_subscribed'), [Ref(Slot(w.sub))])

    def is_model(cx, m, a):
        return m.peer.s.is_open(cx) if m.sub else UNIT
    cs = lambda t, cx, i: [t.ufn(cx, x) for x in ('next', 'error', 'complete')]
    return Seq(P, 'Observable', {
        'new': obv_new,
        'canon': lambda m: (m.sub, m.peer.s.open, m.peer.sub is not None and m.peer.sub.un is not None),
        'contracts': con('Observer', 'Subscription'),
        'obj': None,
        'methods': {
            'inner_subscribe': (noargs, i_sub_code, i_sub_model),
            'subscribe': (cs, obv_sub_code, obv_sub_model),
            'end': (noargs, close_code, lambda cx, m, a: UNIT),
            'unsubscribe': (noargs, with_sub(un_code), un_model),
            'is_subscribed': (noargs, with_sub(is_code), is_model),
        }})


def fnref(P, short):
    k = P.method(short)
    return {'path': k, 'local': True, 'name': short.split('::')[1], 'targs': []}


# ------------------------------------------------------------ Using
def using_new(t, cx):
    u = t.ufn(cx, 'unsub')
    s = A.ASub(cx, u, t.ufn(cx, 'issub', True))
    w = World(cx.call_fn(cx.P.method('Using::new'), [s]), None)
    return w, World(u, None)


def using_seq(P):
    def code(cx, w, a):
        if w.o is not None:
            cx.drop(w.o)
        w.o = None
        return UNIT

    def model(cx, m, a):
        if m.o is not None:
            cx.apply(m.o, [])
        m.o = None
        return UNIT
    return Seq(P, 'Using', {'new': using_new, 'canon': lambda m: m.o is not None, 'contracts': con('Subscription'),
                            'methods': {'drop': (noargs, code, model)}})


TASKS = {
    'FunctionWrapper': fw_seq, 'FunctionWrapper/threads': fw_conc,
    'Observer': obs_seq, 'Observer/threads': obs_conc,
    'Subscription': sub_seq, 'Subscription/threads': sub_conc,
    'Observable': obv_seq, 'Using': using_seq,
}


def late():
    from . import objsc, objsub, objq, objsched, objmem, objvec
    TASKS.update(objsched.TASKS)
    TASKS["to_vec"] = objvec.ToVec
    TASKS.update(objmem.TASKS)
    from . import objcon, objop, objerr
    TASKS.update(objerr.TASKS)
    TASKS.update(objcon.TASKS)
    TASKS.update(objop.TASKS)
    TASKS.update({'AsyncFunctionQueue': objq.QTask, 'schedulers': objq.SchedTask,
                  'Subject': objsub.subj_seq, 'Subject/threads': objsub.subj_conc,
                  'StreamController': objsc.sc_seq, 'StreamController/threads': objsc.sc_conc})


late()
