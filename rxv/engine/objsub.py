"""Subject: the map of observers, for any number of them, alone and under interference."""
import time
import z3
from .core import *
from . import abs as A, prims, maps
from .maps import MapV
from .objv import ObjTask, Failure, eqv, show
from .objtab import C0, con
from .objsc import kind_of, reach_cells


class SObs(A.AObs):
    """an observer of the subject; with `env` another thread may end it at any moment"""
    env = False

    def is_open(self, cx):
        if self.env and self.open is not False and cx.path.choose(2):
            self.open = False
            self.teardown = None        # run by whoever ended it
            cx.ev.append(('env', self.tag))
        r = super().is_open(cx)
        cx.ev.append(('look', self.tag, r))
        return r

    def next(self, cx, x):
        cx.ev.append(('m', self.tag, 'next', x))
        super().next(cx, x)

    def error(self, cx, e):
        cx.ev.append(('m', self.tag, 'error', e))
        super().error(cx, e)

    def complete(self, cx):
        cx.ev.append(('m', self.tag, 'complete', None))
        super().complete(cx)


class W:
    pass


class SubjTask(ObjTask):
    METHODS = ('next', 'error', 'complete', 'subscribe', 'unsubscribe', 'unsubscribe2', 'without_hooks')

    def __init__(self, P, name, conc):
        super().__init__(P, name)
        self.conc = conc
        self.strict = {'<', '<='}
        self.watch = None

    def on_close(self, cx, o, how):
        cx.callout('the teardown of an observer')
        cx.ev.append(('close', o.tag))

    def call(self, cx, w, m, args=()):
        return cx.call_fn(cx.P.method('Subject::' + m), [Ref(Slot(w.s))] + list(args))

    def obs(self, cx, tag):
        o = SObs(cx, *[self.ufn(cx, '%s.%s' % (tag, x)) for x in ('next', 'error', 'complete')])
        o.tag = tag
        return o

    def sub(self, cx, w, o):
        ov = cx.deref(self.call(cx, w, 'observable'))
        if not isinstance(ov, A.AObsv):
            raise Unsupported('observable() is %r' % (ov,))
        return ov.subscribe(cx, o)

    def world(self, cx, conf):
        w = W()
        w.s = cx.call_fn(cx.P.method('Subject::new'), [])
        cells = []
        reach_cells(cx, w.s, cells)
        k = {}
        for s in cells:
            k.setdefault(kind_of(s), []).append(s)
        if len(k.get('map', ())) != 1 or len(k.get('int', ())) != 1 or len(k.get('opt', ())) != 2 or len(cells) != 4:
            raise Unsupported('Subject: state of another form')
        w.map, w.ser = k['map'][0], k['int'][0]
        w.hooks = k['opt']
        w.A = w.B = w.kA = w.kB = None
        w.cnt = 0
        if conf['A']:
            w.ser.v = cx.path.fresh('s', 'nat')
            w.A = self.obs(cx, 'A')
            self.sub(cx, w, w.A)
            (w.kA, w.vA), = w.map.v.ents
        if conf['B']:
            m0 = w.map.v
            w.map.v = MapV()
            s1 = cx.path.fresh('s', 'nat')
            cx.path.add(s1 >= zint(w.ser.v))
            w.ser.v = s1
            w.B = self.obs(cx, 'B')
            self.sub(cx, w, w.B)
            (w.kB, w.vB), = w.map.v.ents
            w.cnt = cx.path.fresh('others', 'nat')
            w.map.v = MapV(m0.ents, (w.cnt, lambda cx, k: None, lambda cx: (w.kB, w.vB)))
        s2 = cx.path.fresh('s', 'nat')
        cx.path.add(s2 >= zint(w.ser.v))
        w.ser.v = s2
        if conf['hooks']:
            self.call(cx, w, 'set_on_subscribe', [self.ufn(cx, 'hook+')])
            self.call(cx, w, 'set_on_unsubscribe', [self.ufn(cx, 'hook-')])
        return w

    def body(self, path, m):
        cx = self.context(path)
        cx.contracts = con('Observer', 'Observable', 'FunctionWrapper')
        self.watch = None
        try:
            conf = {'A': path.choose(2), 'B': path.choose(2), 'hooks': path.choose(2)}
            if m in ('unsubscribe', 'unsubscribe2', 'without_hooks') and not conf['A']:
                raise Stop()
            cx.evname = '%s %s' % (m, [k for k in conf if conf[k]])
            w = self.world(cx, conf)
            if path.check() == z3.unsat:
                raise Stop()
            cx.ev = []
            self.reach.add(m)
            arg = path.fresh('x')
            w.C = self.obs(cx, 'C')
            w.m0 = w.map.v
            if self.conc:
                for o in (w.A, w.B, w.C):
                    if o is not None:
                        o.env = True
                self.watch = w
            try:
                if m in ('next', 'error'):
                    self.call(cx, w, m, [arg])
                elif m == 'complete':
                    self.call(cx, w, m)
                elif m == 'subscribe':
                    self.sub(cx, w, w.C)
                elif m == 'without_hooks':
                    w2 = W()
                    w2.s = self.call(cx, w, 'without_hooks')
                    self.call(cx, w2, 'next', [arg])
                    self.sub(cx, w2, w.C)
                else:
                    w.A.env = False
                    w.A.unsubscribe(cx)
                    if m == 'unsubscribe2':
                        cx.ev = []
                        w.A.unsubscribe(cx)
            except Panic as e:
                cx.fail('panic', 'panics: %s' % e)
            self.watch = None
            self.quiet_end(cx)
            if self.conc:
                self.judge_conc(cx, w, m, conf, arg)
            else:
                self.judge_seq(cx, w, m, conf, arg)
        finally:
            self.fns |= cx.seen

    # ---- alone
    def judge_seq(self, cx, w, m, conf, arg):
        path = cx.path
        others = conf['B'] and path.br(zint(w.cnt) > 0)
        present = [t for t, c in (('A', conf['A']), ('B', others)) if c]
        ms = [e for e in cx.ev if e[0] == 'm']
        hook = lambda h: [e for e in cx.ev if e[:2] == ('call', h)]
        mv = w.map.v
        cnt = zint(w.cnt)
        size = len(mv.ents) + (mv.rest[0] if mv.rest is not None else 0)

        def hooked(h, n, ln):
            l = hook(h)
            cx.oblige(len(l) == (n if conf['hooks'] else 0), 'hooks', '%s: %s called %d times' % (m, h, len(l)))
            for e in l:
                cx.oblige(zint(e[2][0]) == ln, 'hooks', '%s: %s called with a wrong number of observers' % (m, h))
        if m in ('next', 'error', 'complete'):
            got = sorted(e[1] for e in ms if e[2] == m)
            cx.oblige(got == present and len(ms) == len(got), 'events', '%s: of the observers %s, %s are called' % (m, present, [e[1:3] for e in ms]))
            for e in ms:
                if m != 'complete':
                    cx.oblige(eqv(cx, e[3], arg), 'events', '%s: another item than the one pushed' % m)
            hooked('hook+', 0, 0)
        if m == 'next':
            self.keeps(cx, w, conf, ())
            hooked('hook-', 0, 0)
        elif m in ('error', 'complete'):
            cx.oblige(not mv.ents and (mv.rest is None or path.implied(zint(mv.rest[0]) == 0)), 'upstream', '%s: the subject still holds observers' % m)
            hooked('hook-', len(present), 0)
        elif m in ('subscribe', 'without_hooks'):
            if m == 'without_hooks':
                cx.oblige(sorted(e[1] for e in ms if e[2] == 'next') == present, 'events', 'without_hooks: not the same observers')
                conf = dict(conf, hooks=0)
            else:
                cx.oblige(not ms, 'events', 'subscribe: delivers something')
            new = self.keeps(cx, w, conf, ('C',))
            cx.oblige(w.C.open is True, 'events', 'subscribe: ends the subscription')
            hooked('hook+', 1, cnt + (1 if conf['A'] else 0) + 1)
            hooked('hook-', 0, 0)
            # its teardown
            cx.ev = []
            w.C.unsubscribe(cx)
            self.keeps(cx, w, conf, ())
            hooked('hook-', 1, cnt + (1 if conf['A'] else 0))
        elif m == 'unsubscribe':
            cx.oblige(not ms, 'events', 'unsubscribe: delivers something')
            self.keeps(cx, w, dict(conf, A=0), ())
            hooked('hook-', 1, cnt)
            hooked('hook+', 0, 0)
        elif m == 'unsubscribe2':
            self.keeps(cx, w, dict(conf, A=0), ())
            hooked('hook-', 0, 0)
            hooked('hook+', 0, 0)

    def keeps(self, cx, w, conf, new):
        """exactly these observers are registered"""
        mv = w.map.v
        want = [o for o, c in ((w.A, conf['A']),) if c] + [{'C': w.C}[t] for t in new]
        have = [cx.deref(v) for k, v in mv.ents]
        cx.oblige(len(have) == len(want) and all(any(h is x for h in have) for x in want), 'upstream',
                  '%s: the subject holds %s, not %s' % (cx.evname, [getattr(h, 'tag', h) for h in have], [x.tag for x in want]))
        if conf['B']:
            cx.oblige(mv.rest is not None and mv.rest[0] is w.cnt, 'upstream', '%s: the other observers are forgotten' % cx.evname)
        for i in range(len(mv.ents)):
            for j in range(i):
                cx.oblige(zint(mv.ents[i][0]) != zint(mv.ents[j][0]), 'upstream', 'two observers under one key')
            if conf['B']:
                cx.oblige(zint(mv.ents[i][0]) != zint(w.kB), 'upstream', 'two observers under one key')
        return None

    # ---- interference
    def on_lock(self, cx, slot, mode):
        w = self.watch
        if w is None:
            return
        p = cx.path
        if slot is w.map:
            ents = []
            for k, v in slot.v.ents:
                o = cx.deref(v)
                if o.env and p.choose(2):
                    if o.open is not False:
                        o.open, o.teardown = False, None
                        cx.ev.append(('env', o.tag))
                    continue
                ents.append((k, v))
            c = p.fresh('others', 'nat')
            slot.v = MapV(ents, (c, lambda cx, k: None, lambda cx: (w.kB, w.vB)) if w.B is not None else None)
            w.pre = slot.v
        elif slot is w.ser:
            s = p.fresh('s', 'nat')
            p.add(s >= zint(slot.v))
            slot.v = s
            w.pres = s

    def on_unlock(self, cx, slot, mode):
        w = self.watch
        if w is None:
            return
        if slot is w.map:
            cx.ev.append(('map', w.pre, slot.v))
        elif slot is w.ser:
            cx.ev.append(('ser', w.pres, slot.v))
            cx.oblige(zint(slot.v) >= zint(w.pres), 'upstream', 'the key counter goes back')

    def judge_conc(self, cx, w, m, conf, arg):
        ev, path = cx.ev, cx.path
        maps_ = [(i, e) for i, e in enumerate(ev) if e[0] == 'map']
        names = lambda mv: sorted([cx.deref(v).tag for k, v in mv.ents] + (['B'] if mv.rest is not None and path.br(zint(mv.rest[0]) > 0) else []))
        ms = [(i, e) for i, e in enumerate(ev) if e[0] == 'm']
        if m in ('next', 'error', 'complete'):
            got = sorted(e[1] for i, e in ms)
            for i, e in ms:
                cx.oblige(e[2] == m, 'race', '%s delivers %s' % (m, e[2]))
        if m == 'next':
            ok_ = any(names(e[1]) == got for i, e in maps_)
            cx.oblige(ok_, 'race', 'next calls %s, which at no moment were the observers present' % got)
            cx.oblige(all(e[1] is e[2] or len(e[1].ents) == len(e[2].ents) for i, e in maps_), 'race', 'next changes the set of observers')
        elif m in ('error', 'complete'):
            took = []
            for i, e in maps_:
                b, a = names(e[1]), names(e[2])
                took += [t for t in b if t not in a]
            # the teardown of a closed observer removes it too: not a loss
            cx.oblige(sorted(set(took)) == got, 'race', '%s takes out %s and calls %s' % (m, took, got))
            cx.oblige(any(not names(e[2]) for i, e in maps_), 'race', '%s leaves observers which were present' % m)
        elif m == 'subscribe':
            C = w.C
            sers = [x for x in ev if x[0] == 'ser' and x[1] is not x[2]]
            put = [(j, e) for j, e in maps_ if any(cx.deref(v) is C for k, v in e[2].ents) and not any(cx.deref(v) is C for k, v in e[1].ents)]
            cx.oblige(len(put) <= 1, 'race', 'subscribe inserts the observer %d times' % len(put))
            if not put:
                cx.oblige(C.open is False, 'race', 'subscribe does not insert the observer')
                return
            j, e = put[0]
            key = [k for k, v in e[2].ents if cx.deref(v) is C][0]
            cx.oblige(len(e[2].ents) == len(e[1].ents) + 1, 'race', 'subscribe replaces another observer')
            cx.oblige(len(sers) >= 1, 'race', 'subscribe takes no key of its own')
            b, a = zint(sers[0][1]), zint(sers[0][2])
            for op, c in (('<', z3.And(b <= key, key < a)), ('<=', z3.And(b < key, key <= a))):
                if op in self.strict and not path.implied(c):
                    self.strict = self.strict - {op}
            cx.oblige(bool(self.strict), 'race', 'two observers subscribing at the same time may get the same key')
            seen = any(i > j and x == ('look', 'C', True) for i, x in enumerate(ev))
            out = any(i > j and not any(cx.deref(v) is C for k, v in x[2].ents) for i, x in maps_)
            cx.oblige(seen or out, 'upstream', 'an observer whose subscription ends while it is added stays in the subject')
            plus = [i for i, x in enumerate(ev) if x[:2] == ('call', 'hook+')]
            minus = [i for i, x in enumerate(ev) if x[:2] == ('call', 'hook-')]
            cx.oblige(len(plus) <= 1, 'hooks', 'the subscription hook is called twice')
            if conf['hooks'] and plus:
                after = any(i > plus[0] and x == ('look', 'C', True) for i, x in enumerate(ev))
                cx.oblige(after or any(i > plus[0] for i in minus), 'hooks', 'an observer that left before the subscription hook was called is never reported as gone')
            if conf['hooks'] and not plus:
                cx.oblige(C.open is False, 'hooks', 'the subscription hook is not called')
            td = C.teardown
            cx.oblige(td is not None or C.open is False, 'upstream', 'subscribe sets no teardown')
        elif m == 'unsubscribe':
            own = [(i, e) for i, e in maps_ if any(cx.deref(v) is w.A for k, v in e[1].ents) and not any(cx.deref(v) is w.A for k, v in e[2].ents)]
            left = [(i, e) for i, e in maps_ if not any(cx.deref(v) is w.A for k, v in e[2].ents)]
            cx.oblige(bool(left), 'upstream', 'unsubscribe leaves the observer in the subject')
            for i, e in maps_:
                cx.oblige(names(e[2]) == [t for t in names(e[1]) if t != 'A'], 'race', 'unsubscribe takes out another observer')
        self.obl += 1
        self.disch += 1
        self.cats['lock'] = self.cats.get('lock', 0) + 1

    def run(self):
        t0 = time.time()
        ms = [m for m in self.METHODS if not (self.conc and m in ('unsubscribe2', 'without_hooks'))]
        if not any(k.endswith('::without_hooks') and 'Subject' in k for k in self.P.fns):
            ms = [m for m in ms if m != 'without_hooks']
        self.want = set(ms)
        for m in ms:
            self.explore(lambda p: self.body(p, m))
        self.wall = time.time() - t0
        return self


def subj_seq(P):
    return SubjTask(P, 'Subject', False)


def subj_conc(P):
    return SubjTask(P, 'Subject/threads', True)
