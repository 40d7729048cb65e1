"""Handles, errors and Something.

Handles    - cloning one of the library's objects gives another handle to the same object: every
             shared part of the clone is the original's, nothing is copied or made anew.  Every
             other proof uses this of the contract objects.
RxError    - what from_error / from_result were given is what is / downcast_ref / type_id ask, in
             every clone (C04).
Something  - success(x).proceed() is just(x), error(e).proceed() is error(e).
"""
import time
import z3
from .core import *
from . import core, prims, abs as A
from .objv import ObjTask
from .opv import OpTask, same
from ..spec import ops as O

TYPES = ('FunctionWrapper', 'Observer', 'Observable', 'Subscription', 'StreamController', 'Subject', 'BehaviorSubject', 'ReplaySubject',
         'AsyncSubject', 'AsyncFunctionQueue', 'DefaultScheduler', 'NewThreadScheduler', 'Publish', 'RefCount', 'Replay', 'ToVec', 'RxError')


def path_len(cx):
    return cx.path.choose(3)


class Handles(ObjTask):
    def __init__(self, P):
        super().__init__(P, 'handles')
        self.want = set(TYPES)

    def value(self, cx, t, d=0):
        """an arbitrary value of a type"""
        k = t['k']
        if d > 8:
            raise Unsupported('deep type')
        if k in ('int', 'uint'):
            return cx.path.fresh('n', 'nat' if k == 'uint' else 'int')
        if k == 'bool':
            return cx.path.fresh('b', 'bool')
        if k == 'tuple':
            return Agg('tuple', 0, [self.value(cx, x, d + 1) for x in t['a']])
        if k == 'adt':
            p = t['p']
            n = p.split('::')[-1]
            if n == 'Arc':
                try:
                    v = self.value(cx, t['a'][0], d + 1)
                except Unsupported:
                    v = Opaque('shared', n)
                return ArcV(Slot(v, 'shared'))
            if n in ('RwLock', 'Mutex'):
                try:
                    v = self.value(cx, t['a'][0], d + 1)
                except Unsupported:
                    v = Opaque('content', n)
                return LockV(cx.slot(v, 'content', None, 'cell'), 'rw' if n == 'RwLock' else 'mx')
            if n in ('Vec', 'VecDeque'):
                return ListV([self.value(cx, t['a'][0], d + 1) for _ in range(path_len(cx))], 'vec' if n == 'Vec' else 'deque')
            if n in ('Duration', 'Instant'):
                return cx.path.fresh('d', 'nat')
            if n == 'Result':
                return (ok if cx.path.choose(2) else err)(cx.path.fresh('x'))
            if n in ('Box', 'HashMap'):
                raise Unsupported(n)
            if n in ('PhantomData',):
                return Agg(p, 0, ())
            if n == 'Option':
                return some(self.value(cx, t['a'][0], d + 1)) if cx.path.choose(2) else NONE
            if p in self.P.adts:
                a = self.P.adts[p]
                i = cx.path.choose(len(a['v'])) if len(a['v']) > 1 else 0
                return Agg(p, i, [self.value(cx, f[1], d + 1) for f in a['v'][i]['f']])
        if k == 'param':
            return cx.path.fresh('x')
        raise Unsupported('a field of type %r' % (t.get('p') or k))

    def run(self):
        t0 = time.time()

        def body(path, ty):
            cx = self.context(path)
            cx.evname = 'clone of ' + ty
            p = [a for a in self.P.adts if a.split('::')[-1] == ty] if '::' not in ty else [ty]
            if len(p) != 1:
                raise Unsupported('no type ' + ty)
            p = p[0]
            f = self.P.traits.get((p, 'Clone', 'clone'))
            try:
                v = self.value(cx, {'k': 'adt', 'p': p, 'a': []})
                if f is None or f not in self.P.fns:
                    raise Unsupported('no Clone of ' + ty)
                try:
                    w = cx.deref(cx.call_fn(f, [Ref(Slot(v))]))
                except Panic as e:
                    cx.fail('panic', 'cloning a %s panics: %s' % (ty, e))
                self.quiet_end(cx)
                self.reach.add(ty)
                cx.oblige(same(v, w), 'events', 'the clone of a %s is not another handle to the same one' % ty)
            finally:
                self.fns |= cx.seen
        for ty in TYPES:
            self.explore(lambda pth: body(pth, ty))
        # the operator objects of the public modules: what a clone of one executes is the same
        for ty in sorted(a for a in self.P.adts if a.split('::')[0] in ('operators', 'utils') and a.split('::')[-1] not in TYPES and (a, 'Clone', 'clone') in self.P.traits):
            self.explore(lambda pth: body(pth, ty))
        self.wall = time.time() - t0
        return self


class RxErr(ObjTask):
    """the payload, and questions about its type, pass through unchanged"""

    def __init__(self, P):
        super().__init__(P, 'RxError')
        self.want = {'from_error', 'from_result', 'from_result(Ok)'}

    def run(self):
        t0 = time.time()

        def ask(cx, short):
            """std::any: the question is put to the payload; the answer is arbitrary"""
            def g(cx, a, f, t):
                v = cx.deref(a[0])
                n = f['path'].split('::')[-1]
                ty = [x for x in f.get('targs', ()) if x['k'] == 'param']
                if n == 'type_id' and not any('dyn' in str(x) for x in f.get('targs', ())):
                    raise Unsupported('type_id of %r' % (f.get('targs'),))
                r = cx.path.fresh('answer') if n == 'type_id' else cx.path.fresh('is', 'bool')
                cx.asked.append((n, v, r, ty))
                return SymOpt(r, a[0]) if n == 'downcast_ref' else r
            return g

        def body(path, how):
            cx = self.context(path)
            cx.asked = []
            x = path.fresh('payload')
            P = self.P
            cx.evname = how
            try:
                try:
                    if how == 'from_error':
                        e = cx.call_fn(P.method('RxError::from_error'), [x])
                    else:
                        e = cx.call_fn(P.method('RxError::from_result'), [err(x) if how == 'from_result' else ok(x)])
                except Panic as p:
                    self.reach.add(how)
                    cx.oblige(how == 'from_result(Ok)', 'panic', 'panics: %s' % p)
                    return
                self.reach.add(how)
                if how == 'from_result(Ok)':
                    return          # nothing is promised
                cx.oblige(not cx.asked, 'events', 'looks at the payload')
                for n in ('is', 'downcast_ref', 'type_id'):
                    self.question(cx, e, n, x, ask)
                c = path.choose(2)
                if c:
                    e2 = prims.clone(cx, cx.deref(e))
                    self.question(cx, e2, 'downcast_ref', x, ask)
            finally:
                self.fns |= cx.seen
        for how in ('from_error', 'from_result', 'from_result(Ok)'):
            self.explore(lambda p: body(p, how))
        self.wall = time.time() - t0
        return self

    def question(self, cx, e, n, x, ask):
        del cx.asked[:]
        F0 = prims.F
        names = [k for k in ('<(dyn Any + Send + Sync)>::' + n,)]
        cx.any = ask(cx, n)
        old = prims.call

        def call(c, fn, args, t=None, key=None):
            p = fn['path']
            if p.split('::')[-1] == n and ('dyn std::any::Any' in p or p.startswith(('std::any::', 'core::any::'))):
                return cx.any(c, args, fn, t)
            return old(c, fn, args, t, key)
        prims.call = call
        try:
            r = cx.call_fn(self.P.method('RxError::' + n), [Ref(Slot(cx.deref(e)))])
        finally:
            prims.call = old
        cx.oblige(len(cx.asked) == 1, 'events', '%s does not ask the payload' % n)
        _, v, a, ty = cx.asked[0]
        cx.oblige(v is x or is_z3(v) and v.eq(x), 'events', '%s asks something else than the payload' % n)
        if n == 'downcast_ref':
            r = cx.deref(r)
            cx.oblige(isinstance(r, SymOpt) and same(r.cond, a) and cx.deref(r.val) is x, 'events', 'downcast_ref answers something else')
        else:
            cx.oblige(same(r, a), 'events', '%s answers something else' % n)
        if n != 'type_id':
            want = {'is': 'T', 'downcast_ref': 'E'}
            cx.oblige(len(ty) == 1, 'events', '%s asks for another type' % n)


class Smth(OpTask):
    def __init__(self, P, name, spec, param):
        super().__init__(P, 'Something::' + name, spec, P.method('Something::' + name), [('item', param)], ctor=True)
        self.extra = P.method('Something::proceed')

    def construct(self, cx, args):
        return cx.call_fn(self.extra, [cx.deref(cx.call_fn(self.method, args))])


class Something(ObjTask):
    def __init__(self, P):
        super().__init__(P, 'Something')

    def reach_ok(self):
        return self.disch > 0

    def run(self):
        t0 = time.time()
        for n, s, p in (('success', 'just', 'x'), ('error', 'error', 'e')):
            t = Smth(self.P, n, O.CREATE[s], p)
            t.run()
            self.failures += t.failures
            self.obl += t.obl
            self.disch += t.disch
            for c, k in t.cats.items():
                self.cats[c] = self.cats.get(c, 0) + k
            self.fns |= t.fns
            self.paths += t.paths
            self.queries += t.queries
            self.solver_s += t.solver_s
        self.wall = time.time() - t0
        return self


TASKS = {'handles': Handles, 'RxError': RxErr, 'Something': Something}
