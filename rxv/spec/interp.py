"""Concrete reference interpreter: runs the operator contracts on a script (replay oracle)."""
from .ops import *
from . import ops as O


class Env:
    """concrete values: ints, bools, tuples for sequences"""
    def br(self, b): return bool(b)
    def now(self): return 0
    def any(self, bs): return any(bs)
    def seq_empty(self): return ()
    def seq_push(self, s, x): return s + (x,)
    def seq_len(self, s): return len(s)
    def seq_head(self, s): return s[0]
    def seq_tail(self, s): return s[1:]
    def emit_all(self, s):
        for x in s:
            yield Next(x)
    def eq(self, a, b): return show(a) == show(b)
    def add(self, a, b): return num(a) + num(b)
    def min(self, a, b): return b if num(b) < num(a) else a
    def max(self, a, b): return b if num(b) > num(a) else a
    def map_empty(self): return {}
    def map_get(self, m, k): return m.get(k)
    def map_put(self, m, k, w):
        m = dict(m)
        m[k] = w
        return m
    def map_all(self, m, ev, v):
        for w in m.values():
            yield Subj(w, ev, v)


class Err(tuple):
    pass


def num(v):
    if isinstance(v, bool): return int(v)
    if isinstance(v, int): return v
    if isinstance(v, Material):
        return num(v.v) if v.tag == 'Next' else 7 if v.tag == 'Error' else 9
    if isinstance(v, tuple) and v and v[0] == 'win': return v[1]
    if isinstance(v, (list, tuple)): return sum(num(x) for x in v)
    if v is None: return 0
    raise TypeError(v)


def show(v):
    if isinstance(v, bool): return 'T' if v else 'F'
    if isinstance(v, int): return str(v)
    if isinstance(v, Material):
        return {'Next': 'N' + show(v.v) if v.tag == 'Next' else '', 'Error': 'Ee%s' % (v.v,),
                'Complete': 'C'}[v.tag]
    if isinstance(v, Pair): return '<%s,%s>' % (show(v.a), show(v.b))
    if isinstance(v, tuple) and v and v[0] == 'win': return 'W%d' % v[1]
    if isinstance(v, (list, tuple)): return '[%s]' % ','.join(show(x) for x in v)
    raise TypeError(repr(v))


class Pair:
    def __init__(self, a, b): self.a, self.b = a, b


FN1 = {'inc': lambda x: num(x) + 1, 'dbl': lambda x: num(x) * 2, 'neg': lambda x: -num(x), 'zero': lambda x: 0}
def _even(x): return x % 2 == 0
PRED = {'even': lambda i: i % 2 == 0, 'odd': lambda i: i % 2 != 0, 'lt2': lambda i: i < 2,
        'ge2': lambda i: i >= 2, 'true': lambda i: True, 'false': lambda i: False}
FN2 = {'add': lambda a, b: num(a) + num(b), 'sub': lambda a, b: num(a) - num(b),
       'left': lambda a, b: num(a), 'mix': lambda a, b: num(a) * 3 + num(b)}


class CObs:
    def __init__(self, n, e, c):
        self.n, self.e, self.c = n, e, c
        self.open = True
        self.teardown = []

    def next(self, x):
        if self.open:
            self.n(x)

    def error(self, e):
        if self.open:
            self.open = False
            self.e(e)
            self.down()

    def complete(self):
        if self.open:
            self.open = False
            self.c()
            self.down()

    def close(self):
        if self.open:
            self.open = False
            self.down()

    def down(self):
        t, self.teardown = self.teardown, []
        for f in t:
            f()

    def on_close(self, f):
        if self.open:
            self.teardown.append(f)
        else:
            f()


class Port:
    def __init__(self, kind, idx):
        self.kind, self.idx = kind, idx


class St:
    pass


class WSubj:
    def __init__(self):
        self.obs = []
        self.done = False

    def ev(self, ev, v):
        if ev == 'next':
            for o in list(self.obs):
                o('n', v)
        elif not self.done:
            self.done = True
            obs, self.obs = self.obs, []
            for o in obs:
                o(ev[0], v)


class Machine:
    def __init__(self, world, spec, children, D):
        self.world, self.spec, self.children, self.D = world, spec, children, D
        self.st = St()
        self.ports = []
        D.on_close(self.shutdown)
        self.run(spec.init(self.st))

    def shutdown(self):
        ports, self.ports = self.ports, []
        for _, o in ports:
            o.close()

    def run(self, g):
        v = None
        while True:
            try:
                a = g.send(v)
            except StopIteration:
                return
            v = None
            if isinstance(a, Next): self.D.next(a.v)
            elif isinstance(a, Error): self.D.error(a.e)
            elif isinstance(a, Complete): self.D.complete()
            elif isinstance(a, Side): self.world.side(a)
            elif isinstance(a, NewSubj): v = WSubj()
            elif isinstance(a, Subj): a.w.ev(a.ev, a.v)
            elif isinstance(a, Close):
                for p, o in list(self.ports):
                    if p.kind == a.kind and p.idx == a.idx:
                        self.ports.remove((p, o))
                        o.close()
            elif isinstance(a, Sub):
                if self.D.open:
                    self.sub(a)
            else:
                raise TypeError(a)

    def sub(self, a):
        p = Port(a.kind, a.idx)
        s = self.spec

        def gone():
            self.ports = [(q, o) for q, o in self.ports if q is not p]
        o = CObs(lambda x: self.run(s.next(self.st, p, x)),
                 lambda e: (gone(), self.run(s.error(self.st, p, e))),
                 lambda: (gone(), self.run(s.complete(self.st, p))))
        self.ports.append((p, o))
        src = self.children[a.src[1]] if a.src[0] == 'src' else a.src[1]
        self.world.subscribe(src, o)


def mk(op, env, node):
    """node -> (spec, children)"""
    h, a = node[0], node[1:]
    P = {}
    ch = None
    if h == 'map': P['f'] = FN1[a[0]]
    elif h in ('filter', 'take_while', 'skip_while', 'all'):
        f = PRED[a[0]]
        P['f'] = lambda x: f(num(x))
    elif h in ('take', 'skip', 'take_last', 'skip_last', 'element_at', 'buffer_with_count', 'window_with_count', 'retry'):
        P['n'] = a[0]
    elif h in ('scan', 'reduce'): P['f'] = FN2[a[0]]
    elif h == 'contains': P['t'] = a[0]
    elif h == 'default_if_empty': P['d'] = a[0]
    elif h == 'start_with': P['items'] = tuple(a[0])
    elif h == 'group_by':
        k = a[0]
        P['f'] = lambda x: num(x) % k
    elif h in ('merge', 'zip', 'combine_latest', 'amb', 'concat', 'sequence_equal'):
        ch = list(a)
        P['k'] = len(ch)
        if h == 'combine_latest': P['f'] = lambda l: l
    elif h in ('take_until', 'skip_until', 'sample', 'switch_on_next'): ch = list(a)
    elif h == 'flat_map':
        inner = a[1:]
        P['f'] = lambda x: inner[num(x) % len(inner)]
        ch = [a[0]]
    elif h == 'retry_when': P['f'] = PRED[a[0]]
    elif h == 'on_error_resume_next':
        inner = a[1:]
        P['f'] = lambda e: inner[e % len(inner)]
        ch = [a[0]]
    if ch is None:
        ch = [a[-1]]
    return O.OPS[h](env, **P), ch


class World:
    """runs a case; `trace` collects the expected lines"""
    def __init__(self, defs, root):
        self.trace = []
        self.hot = {}
        self.cold = []
        self.cold_n = {}
        self.subs = {}
        self.cnt = {}
        self.root = root
        self.wins = 0
        self.env = Env()
        self.sbj = {}
        self.con = {}
        from . import subj as J
        for d in defs:
            J.define(self, d)

    def log(self, s):
        self.trace.append(s)

    def side(self, a):
        self.log('tap n %s' % show(a.v) if a.tag == 'next' else 'tap e e%s' % a.v if a.tag == 'error' else 'tap c')

    def emit(self, o, ev):
        h = ev[0]
        if h == 'n': o.next(ev[1])
        elif h == 'e': o.error(ev[1])
        elif h == 'c': o.complete()
        elif h == 'mn': o.next(Material('Next', ev[1]))
        elif h == 'me': o.next(Material('Error', ev[1]))
        elif h == 'mc': o.next(Material('Complete', None))

    def subscribe(self, node, o):
        if not o.open:
            return
        h = node[0]
        if h == 'hot':
            self.log('sub %d' % node[1])
            self.hot.setdefault(node[1], []).append(o)
        elif h == 'cold':
            k = node[1]
            self.log('sub %d' % k)
            n = self.cold_n.get(k, 0)
            self.cold_n[k] = n + 1
            self.cold.append((k, o))
            for ev in node[2:][min(n, len(node) - 3)]:
                self.emit(o, ev)
        elif h == 'just': o.next(node[1]); o.complete()
        elif h == 'start': self.log('start'); o.next(node[1]); o.complete()
        elif h == 'ok': o.next(node[1]); o.complete()
        elif h in ('err', 'error'): o.error(node[1])
        elif h == 'from_iter':
            for x in node[1]: o.next(x)
            o.complete()
        elif h == 'range':
            for x in range(node[1], node[1] + node[2]): o.next(x)
            o.complete()
        elif h == 'empty': o.complete()
        elif h == 'never': pass
        elif h == 'repeat':
            while o.open: o.next(node[1])
        elif h == 'defer':
            self.log('defer')
            self.subscribe(node[1], o)
        elif h == 'sbj': self.sbj[node[1]].subscribe(o)
        elif h == 'con': self.con[node[1]].subscribe(o)
        elif h == 'ready_set_go':
            self.subscribe(node[2], o)
            for s in node[1]:
                self.step(s)
        elif h in ('observe_on_default', 'subscribe_on_default'):
            self.subscribe(node[1], o)
        elif h in ('window_with_count', 'group_by'):
            spec, ch = mk(h, self.env, node)
            p = CObs(lambda v: o.next(self.win(v)), o.error, o.complete)
            o.on_close(p.close)
            Machine(self, spec, ch, p)
        elif h == 'sum_and_count':
            spec, ch = mk(h, self.env, node)
            p = CObs(lambda v: o.next(Pair(*v)), o.error, o.complete)
            o.on_close(p.close)
            Machine(self, spec, ch, p)
        elif h == 'time_interval':
            spec, ch = mk(h, self.env, node)
            p = CObs(lambda v: o.next(True), o.error, o.complete)
            o.on_close(p.close)
            Machine(self, spec, ch, p)
        elif h in ('map_to_any', 'timestamp', 'delay'):
            self.subscribe(node[1], o)
        elif h == 'dematerialize':
            spec, ch = mk(h, self.env, node)
            conv = lambda v: v if isinstance(v, Material) else Material('Next', v)
            m = Machine.__new__(Machine)
            inner = spec.next
            spec.next = lambda st, p, x: inner(st, p, conv(x))
            m.__init__(self, spec, ch, o)
        else:
            spec, ch = mk(h, self.env, node)
            Machine(self, spec, ch, o)

    def win(self, v):
        i = self.wins
        self.wins += 1

        def rec(ev, x):
            self.log('w%d n %s' % (i, show(x)) if ev == 'n' else 'w%d e e%s' % (i, x) if ev == 'e' else 'w%d c' % i)
        w = v[1]
        w.obs.append(rec)
        return ('win', i)

    def step(self, s):
        h = s[0]
        if h == 'sub':
            i = s[1]
            hooks = s[2:]

            def nx(x):
                self.log('s%d n %s' % (i, show(x)))
                n = self.cnt[i] = self.cnt.get(i, 0) + 1
                for hk in hooks:
                    if hk[1] == n:
                        for st in hk[2:]:
                            self.step(st)
            o = CObs(nx, lambda e: self.log('s%d e e%s' % (i, e)), lambda: self.log('s%d c' % i))
            self.subscribe(self.root, o)
            self.subs[i] = o
        elif h in ('unsub', 'using'):
            if s[1] in self.subs: self.subs[s[1]].close()
        elif h in ('n', 'e', 'c', 'mn', 'me', 'mc'):
            for o in list(self.hot.get(s[1], ())):
                self.emit(o, (h,) + tuple(s[2:]))
        elif h == 'sn': self.sbj[s[1]].next(s[2])
        elif h == 'se': self.sbj[s[1]].error(s[2])
        elif h == 'sc': self.sbj[s[1]].complete()
        elif h == 'connect': self.con[s[1]].connect()
        elif h == 'disconnect': self.con[s[1]].disconnect()
        else: raise ValueError(s)

    def probe(self):
        p = 'probe'
        for k in sorted(self.hot):
            for o in self.hot[k]: p += ' h%d:%d' % (k, o.open)
        for k, o in self.cold: p += ' k%d:%d' % (k, o.open)
        for k in sorted(self.subs): p += ' s%d:%d' % (k, self.subs[k].open)
        self.log(p)

    def run(self, steps):
        for s in steps:
            self.step(s)
            self.probe()
        return self.trace


def sx(t):
    if isinstance(t, bool): return 'true' if t else 'false'
    if isinstance(t, (tuple, list)): return '(' + ' '.join(sx(x) for x in t) + ')'
    return str(t)
