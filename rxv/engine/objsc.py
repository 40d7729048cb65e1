"""StreamController: refinement of ASctl for any number of registered observers, and its
critical sections under interference."""
import time
import z3
from .core import *
from . import abs as A, prims, maps
from .maps import MapV
from .objv import ObjTask, Failure, eqv, show
from .objtab import C0, con, item, noargs


class DObs(A.AObs):
    """the subscriber; with `env`, another thread may close it at any moment"""
    env = False

    def is_open(self, cx):
        if self.env and self.open is not False and cx.path.choose(2):
            self.open = False
            cx.ev.append(('env', 'closed'))
        r = super().is_open(cx)
        cx.ev.append(('look', self.tag, r))
        return r


class SCWorld:
    pass


def kind_of(s):
    v = s.v
    if isinstance(v, MapV):
        return 'map'
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int) or is_z3(v):
        return 'int'
    if isinstance(v, (Agg, SymOpt)) and (isinstance(v, SymOpt) or v.k == OPT):
        return 'opt'
    return '?'


def reach_cells(cx, v, out, d=0):
    if d > 8:
        return
    if isinstance(v, LockV):
        if v.slot not in out:
            out.append(v.slot)
            reach_cells(cx, v.slot.v, out, d + 1)
    elif isinstance(v, ArcV):
        reach_cells(cx, v.slot.v, out, d + 1)
    elif isinstance(v, Ref):
        reach_cells(cx, cx.load(v), out, d + 1)
    elif isinstance(v, Agg):
        for x in v.f:
            reach_cells(cx, x, out, d + 1)
    elif isinstance(v, Clos):
        for x in v.caps:
            reach_cells(cx, x, out, d + 1)


class SCTask(ObjTask):
    METHODS = ('sink_next', 'sink_error', 'sink_complete', 'sink_complete_force', 'upstream_abort_observe', 'finalize',
               'is_subscribed', 'set_on_finalize', 'new_observer')

    def __init__(self, P, name, conc):
        super().__init__(P, name)
        self.conc = conc
        self.want = set(self.METHODS)
        self.strict = {'<', '<='}

    def on_close(self, cx, o, how):
        if how != 'late':
            cx.callout('the teardown of an observer')
            cx.ev.append(('close', getattr(o, 'tag', 'C')))

    def close_others(self, cx, s, n):
        if is_z3(n) or n:
            if cx.path.br(zint(n) > 0):
                cx.callout('the teardown of an observer')
                cx.ev.append(('close', 'B'))

    # ---- building one world
    def dmake(self, cx):
        d = DObs(cx, *[self.ufn(cx, 'D.' + x) for x in ('next', 'error', 'complete')])
        d.tag = 'D'
        return d

    def ups(self, cx, tag):
        f = lambda x: self.ufn(cx, '%s.%s' % (tag, x))
        return [f('next'), f('error'), f('complete')]

    def code(self, cx, w, m, args):
        return cx.call_fn(cx.P.method('StreamController::' + m), [Ref(Slot(w.sc))] + args)

    def world(self, cx, conf):
        """the code's world: the object and its cells, in the state `conf`"""
        w = SCWorld()
        w.D = self.dmake(cx)
        w.sc = cx.call_fn(cx.P.method('StreamController::new'), [w.D])
        cells = []
        reach_cells(cx, w.sc, cells)
        k = {}
        for s in cells:
            k.setdefault(kind_of(s), []).append(s)
        if len(k.get('map', ())) != 1 or len(k.get('int', ())) != 1 or len(k.get('opt', ())) != 1 or len(cells) != 3:
            raise Unsupported('StreamController: state of another form')
        w.map, w.ser, w.fin = k['map'][0], k['int'][0], k['opt'][0]
        w.A = w.B = None
        w.kA = w.kB = None
        if conf['A']:
            w.ser.v = cx.path.fresh('s', 'nat')
            w.A = self.reg(cx, w, 'A')
            if len(w.map.v.ents) != 1:
                cx.fail('upstream', 'new_observer: the upstream observer is not registered')
            (w.kA, w.vA), = w.map.v.ents
        if conf['B']:
            m0 = w.map.v
            w.map.v = MapV()
            s1 = cx.path.fresh('s', 'nat')
            cx.path.add(s1 >= zint(w.ser.v))
            w.ser.v = s1
            w.B = self.reg(cx, w, 'B')
            if len(w.map.v.ents) != 1:
                cx.fail('upstream', 'new_observer: the upstream observer is not registered')
            (w.kB, w.vB), = w.map.v.ents
            w.cnt = cx.path.fresh('others', 'nat')
            w.map.v = MapV(m0.ents, (w.cnt, lambda cx, k: None, lambda cx: (w.kB, w.vB)))
        s2 = cx.path.fresh('s', 'nat')
        cx.path.add(s2 >= zint(w.ser.v))
        w.ser.v = s2
        if conf['fin']:
            self.code(cx, w, 'set_on_finalize', [self.ufn(cx, 'fin')])
        if conf['closed']:
            w.D.unsubscribe(cx)
        return w

    def reg(self, cx, w, tag):
        o = cx.deref(self.code(cx, w, 'new_observer', self.ups(cx, tag)))
        if not isinstance(o, A.AObs):
            raise Unsupported('new_observer returns %r' % (o,))
        o.tag = tag
        return o

    def model(self, cx, w, conf):
        m = SCWorld()
        m.D = self.dmake(cx)
        m.sc = A.ASctl(cx, m.D)
        m.A = None
        if conf['A']:
            m.sc.serial = w.kA
            m.A = m.sc.new_observer(cx, *self.ups(cx, 'A'))
            m.A.tag = 'A'
        m.sc.serial = w.ser.v
        if conf['B']:
            m.sc.oreg = w.cnt
        if conf['fin']:
            m.sc.on_fin = self.ufn(cx, 'fin')
        if conf['closed']:
            m.D.unsubscribe(cx)
        return m

    def confs(self, path):
        c = {'A': path.choose(2), 'B': path.choose(2), 'fin': path.choose(2), 'closed': path.choose(2)}
        return c

    def args(self, cx, w, m, conf):
        p = cx.path
        if m in ('sink_next', 'sink_error'):
            return [p.fresh('x')]
        if m in ('sink_complete', 'upstream_abort_observe'):
            if conf['A'] and p.choose(2):
                return [w.kA]
            u = p.fresh('u', 'nat')
            if conf['A']:
                p.add(u != w.kA)
            return [u]
        if m == 'set_on_finalize':
            return [self.ufn(cx, 'fin2')]
        if m == 'new_observer':
            return self.ups(cx, 'C')
        return []

    def body(self, path, m):
        cx = self.context(path)
        cx.contracts = con('Observer', 'FunctionWrapper')
        cx.reg = {}
        self.watch = None
        try:
            conf = self.confs(path)
            cx.evname = '%s %s' % (m, [k for k in conf if conf[k]])
            w = self.world(cx, conf)
            if path.check() == z3.unsat:
                raise Stop()
            args = self.args(cx, w, m, conf)
            a2 = [Ref(Slot(args[0]))] if m in ('sink_complete', 'upstream_abort_observe') else args
            cx.ev = []
            self.reach.add(m)
            if self.conc:
                return self.run_conc(cx, w, m, conf, args, a2)
            r = r2 = None
            w.log0 = {}
            try:
                r = self.code(cx, w, m, a2)
            except Panic as e:
                cx.fail('panic', 'panics: %s' % e)
            self.quiet_end(cx)
            if m == 'new_observer':
                w.C = cx.deref(r)
                w.C.tag = 'C'
            ev = cx.ev
            cx.ev = []
            mo = self.model(cx, w, conf)
            cx.ev = []
            s = mo.sc
            r2 = {'sink_next': lambda: s.sink_next(cx, *args), 'sink_error': lambda: s.sink_error(cx, *args),
                  'sink_complete': lambda: s.sink_complete(cx, *args), 'sink_complete_force': lambda: s.force(cx),
                  'upstream_abort_observe': lambda: s.abort(cx, *args), 'finalize': lambda: s.finalize(cx),
                  'is_subscribed': lambda: s.D.is_open(cx),
                  'set_on_finalize': lambda: C0['StreamController::set_on_finalize'](cx, [s, args[0]], None, None),
                  'new_observer': lambda: s.new_observer(cx, *args)}[m]()
            if m == 'new_observer':
                r2.tag = 'C'
            ev2 = cx.ev
            a, b = norm(ev), norm(ev2)
            cx.oblige([x[:2] for x in a] == [x[:2] for x in b], 'events', '%s: does %s, its contract %s' % (
                m, [x[1] for x in a], [x[1] for x in b]))
            for x, y in zip(a, b):
                if x[0] == 'call':
                    for p, q in zip(x[2], y[2]):
                        cx.oblige(eqv(cx, p, q), 'events', '%s: %s with another argument' % (m, x[1]))
            if m == 'is_subscribed':
                cx.oblige(eqv(cx, r, r2), 'events', 'is_subscribed answers %r' % (r,))
            # the state afterwards
            cx.oblige(w.D.open == mo.D.open, 'upstream', '%s: the subscriber is left %s' % (m, 'open' if w.D.open else 'closed'))
            if conf['A']:
                cx.oblige(w.A.open == mo.A.open, 'upstream', '%s: an upstream observer is left %s' % (m, 'open' if w.A.open else 'closed'))
                self.same_reg(cx, w, mo, w.kA, mo.A, m)
            mv = w.map.v
            if conf['B']:
                kept = mv.rest is not None
                keep2 = not (isinstance(mo.sc.oreg, int) and mo.sc.oreg == 0)
                cx.oblige(kept == keep2 or path.implied(w.cnt == 0), 'upstream', '%s: the other upstream observers are %s' % (m, 'kept' if kept else 'forgotten'))
            n = len([1 for k, v in mv.ents])
            cx.oblige(n <= 2, 'upstream', '%s: entries of unknown origin' % m)
            fin = w.fin.v
            c = as_opt(fin)[0]
            cx.oblige((c is True or c == 1) == (mo.sc.on_fin is not None), 'upstream', '%s: the finalizer is %s' % (m, 'kept' if c else 'dropped'))
            if m == 'new_observer':
                self.check_new(cx, w, conf, mo, r2)
        finally:
            self.fns |= cx.seen

    def same_reg(self, cx, w, mo, k, o, m):
        has = any(cx.path.br(cx.eq(kk, k)) for kk, _ in w.map.v.ents)
        has2 = any(en[1] is o and en[2] is True for en in mo.sc.ents)
        cx.oblige(has == has2, 'upstream', '%s: an upstream observer is left %s' % (m, 'registered' if has else 'unregistered'))

    def check_new(self, cx, w, conf, mo, o2):
        C = w.C
        cx.oblige(C.open == o2.open, 'upstream', 'new_observer: the new observer is %s' % ('open' if C.open else 'closed'))
        ents = [(k, v) for k, v in w.map.v.ents if not (conf['A'] and k is w.kA)]
        reg2 = any(en[1] is o2 and en[2] is True for en in mo.sc.ents)
        cx.oblige(len(ents) == (1 if reg2 else 0), 'upstream', 'new_observer: registered %d times' % len(ents))
        if not ents:
            return
        k, v = ents[0]
        if conf['A']:
            cx.oblige(k != w.kA, 'upstream', 'new_observer: reuses the key of a registered observer')
        if conf['B']:
            cx.oblige(k != w.kB, 'upstream', 'new_observer: reuses the key of a registered observer')
        # callbacks get the key
        for f, g, n in ((C.n, 'C.next', 1), (C.e, 'C.error', 1), (C.c, 'C.complete', 0)):
            cx.ev = []
            x = cx.path.fresh('probe')
            cx.apply(f, [x] if n else [])
            got = [e for e in cx.ev if e[0] == 'call']
            cx.oblige([e[1] for e in got] == [g], 'events', 'new_observer: an event of the source reaches %s' % [e[1] for e in got])
            a = got[0][2]
            cx.oblige(zand([cx.eq(a[0], k)] + ([cx.eq(a[1], x)] if n else [])), 'events', 'new_observer: %s with other arguments' % g)
        # and whoever finds the entry can close it
        cx.ev = []
        u = cx.deref(v)
        cx.apply(u.func if isinstance(u, A.AFw) else u, [UNIT])
        cx.oblige(C.open is False, 'upstream', 'new_observer: the registered entry does not close the observer')

    # ---- interference
    def on_lock(self, cx, slot, mode):
        w = self.watch
        if w is None:
            return
        p = cx.path
        if slot is w.map:
            m = slot.v
            ents = []
            for k, v in m.ents:
                if p.choose(2):
                    ents.append((k, v))     # still there
            c = p.fresh('others', 'nat')
            slot.v = MapV(ents, (c, lambda cx, k: None, lambda cx: (w.kB, w.vB)) if w.B is not None else None)
            w.pre = slot.v
        elif slot is w.ser:
            s = p.fresh('s', 'nat')
            p.add(s >= zint(slot.v))
            slot.v = s
            w.pres = s
        elif slot is w.fin:
            k = p.choose(2)
            if not k:
                slot.v = NONE
            elif as_opt(slot.v)[0] is False:
                slot.v = w.fin_some
            w.pref = slot.v

    def on_unlock(self, cx, slot, mode):
        w = self.watch
        if w is None:
            return
        if slot is w.map:
            cx.ev.append(('map', w.pre, slot.v))
        elif slot is w.ser:
            cx.ev.append(('ser', w.pres, slot.v))
            cx.oblige(zint(slot.v) >= zint(w.pres), 'upstream', 'the key counter goes back')
        elif slot is w.fin:
            cx.ev.append(('fin', as_opt(w.pref)[0] is True, as_opt(slot.v)[0] is True))

    def run_conc(self, cx, w, m, conf, args, a2):
        if conf['closed'] or not conf['fin']:
            raise Stop()
        w.fin_some = w.fin.v
        w.D.env = True
        self.watch = w
        r = None
        try:
            r = self.code(cx, w, m, a2)
        except Panic as e:
            cx.fail('panic', 'panics: %s' % e)
        self.watch = None
        self.quiet_end(cx)
        ev = cx.ev
        path = cx.path
        nonempty = lambda mv: bool(mv.ents) or (mv.rest is not None and not path.implied(zint(mv.rest[0]) == 0))
        seen_empty = lambda mv: not mv.ents and (mv.rest is None or path.implied(zint(mv.rest[0]) == 0))
        has = lambda mv, k: any(kk is k or path.implied(cx.eq(kk, k)) for kk, _ in mv.ents)
        maps_ = [(i, e) for i, e in enumerate(ev) if e[0] == 'map']
        comp = [i for i, e in enumerate(ev) if e[:2] == ('call', 'D.complete')]
        if m == 'sink_complete':
            look = [i for i, e in enumerate(ev) if e[0] == 'look']
            for i in comp:
                cx.oblige(any(j < i and seen_empty(e[2]) and not has(e[2], args[0]) for j, e in maps_), 'race',
                          'sink_complete completes the subscriber without having seen that every input is gone')
            last = [(j, e) for j, e in maps_]
            if last and not comp:
                j, e = last[0]
                gone = [i for i, x in enumerate(ev) if x == ('look', 'D', False) or x[:2] == ('env', 'closed')]
                if seen_empty(e[2]):
                    cx.oblige(bool(gone), 'race', 'sink_complete removes the last input and does not complete the subscriber')
            if not maps_:
                cx.oblige(any(x == ('look', 'D', False) for x in ev), 'race', 'sink_complete ignores an input')
            # its own entry and the emptiness must be decided together
            for j, e in maps_:
                if has(e[1], args[0]) and not has(e[2], args[0]):
                    later = [x for k, x in maps_ if k >= j]
                    cx.oblige(len(later) >= 1, 'race', '')
        if m in ('sink_complete', 'upstream_abort_observe') and conf['A'] and args[0] is w.kA:
            out = any(has(e[1], w.kA) and not has(e[2], w.kA) for j, e in maps_)
            if out:
                cx.oblige(w.A.open is False, 'upstream', '%s removes an upstream observer without closing it' % m)
        if m == 'finalize':
            cx.oblige(w.D.open is False, 'upstream', 'finalize leaves the subscriber open')
            took = [e for j, e in maps_ if e[1] is not e[2]]
            cx.oblige(any(seen_empty(e[2]) for j, e in maps_), 'upstream', 'finalize leaves upstream observers registered')
            if conf['A'] and any(has(e[1], w.kA) and not has(e[2], w.kA) for j, e in maps_):
                cx.oblige(w.A.open is False, 'upstream', 'finalize removes an upstream observer without closing it')
            n = sum(1 for e in ev if e[0] == 'fin' and e[1] and not e[2])
            c = [e for e in ev if e[:2] == ('call', 'fin')]
            cx.oblige(len(c) == n, 'upstream', 'finalize runs the finalizer %d times having taken it %d times' % (len(c), n))
            cx.oblige(any(e[0] == 'fin' and not e[2] for e in ev), 'upstream', 'finalize leaves the finalizer')
        if m == 'set_on_finalize':
            put = [i for i, e in enumerate(ev) if e[0] == 'fin' and e[2]]
            ok_ = put and any(i > put[0] and e == ('look', 'D', True) for i, e in enumerate(ev)) or \
                any(i > put[0] and e[0] == 'fin' and not e[2] for i, e in enumerate(ev)) if put else False
            cx.oblige(bool(ok_), 'upstream', 'a finalizer set while the subscription ends is lost')
        if m == 'new_observer':
            C = cx.deref(r)
            put = [(j, e) for j, e in maps_ if len(e[2].ents) > len(e[1].ents)]
            cx.oblige(len(put) == 1, 'upstream', 'new_observer registers %d times' % len(put))
            j, e = put[0]
            old = [k for k, _ in e[1].ents]
            key = [k for k, _ in e[2].ents if not any(k is q for q in old)][0]
            cx.oblige(any(i > j and x == ('look', 'D', True) for i, x in enumerate(ev)) or C.open is False
                      or any(i > j and not has(x[1], key) for i, x in maps_), 'upstream',
                      'an upstream observer made while the subscription ends stays open')
            sers = [x for x in ev if x[0] == 'ser' and x[1] is not x[2]]
            cx.oblige(len(sers) >= 1, 'upstream', 'new_observer takes no key of its own')
            b, a = zint(sers[0][1]), zint(sers[0][2])
            for op, c in (('<', z3.And(b <= key, key < a)), ('<=', z3.And(b < key, key <= a))):
                if op in self.strict and not path.implied(c):
                    self.strict = self.strict - {op}
            cx.oblige(bool(self.strict), 'upstream', 'two observers made at the same time may get the same key')
        self.obl += 1
        self.disch += 1
        self.cats['lock'] = self.cats.get('lock', 0) + 1

    def run(self):
        t0 = time.time()
        for m in self.METHODS:
            self.explore(lambda p: self.body(p, m))
        self.wall = time.time() - t0
        return self


def norm(ev):
    """call-outs in order; closings between two call-outs in any order"""
    out, run = [], []
    for e in ev:
        if e[0] == 'close':
            run.append(e)
        elif e[0] == 'call':
            out += sorted(run)
            run = []
            out.append(e)
    return out + sorted(run)


def sc_seq(P):
    return SCTask(P, 'StreamController', False)


def sc_conc(P):
    return SCTask(P, 'StreamController/threads', True)
