"""Script families for replay and for bounded stand-ins."""
import itertools, random

EV = lambda a: [('n', a), ('n', a + 1), ('n', 5)]


def scripts(maxlen, vals=(0, 1, 2), ends=(('c',), ('e', 4), None), ill=True):
    for L in range(maxlen + 1):
        for xs in itertools.product(vals, repeat=L):
            for end in ends:
                yield [('n', x) for x in xs] + ([end] if end else [])


def mats(maxlen):
    al = [('mn', 1), ('mn', 2), ('me', 3), ('mc',)]
    for L in range(maxlen + 1):
        for xs in itertools.product(al, repeat=L):
            for end in (('c',), ('e', 4), None):
                yield list(xs) + ([end] if end else [])


UNARY = {
    'map': ['inc', 'dbl'], 'filter': ['even', 'true', 'false'], 'take': [0, 1, 2, 3],
    'skip': [0, 1, 2, 3], 'take_last': [0, 1, 2, 3], 'skip_last': [0, 1, 2, 3],
    'take_while': ['lt2', 'true', 'false', 'even'], 'skip_while': ['lt2', 'true', 'false', 'even'],
    'first': [None], 'last': [None], 'element_at': [0, 1, 2, 3], 'distinct_until_changed': [None],
    'scan': ['mix', 'sub'], 'reduce': ['mix', 'sub'], 'sum': [None], 'min': [None], 'max': [None],
    'count': [None], 'sum_and_count': [None], 'all': ['lt2', 'true', 'false'], 'contains': [1, 7],
    'default_if_empty': [9], 'ignore_elements': [None], 'start_with': [(), (7,), (7, 8)],
    'buffer_with_count': [1, 2, 3], 'materialize': [None], 'dematerialize': [None], 'tap': [None],
    'window_with_count': [1, 2, 3], 'group_by': [1, 2], 'map_to_any': [None],
    'timestamp': [None], 'time_interval': [None], 'delay': [None],
    'retry': [0, 1, 2, 3], 'retry_when': ['even', 'true', 'false'],
}
NARY = ['merge', 'zip', 'combine_latest', 'amb', 'concat', 'sequence_equal']
BIN = ['take_until', 'skip_until', 'sample', 'switch_on_next']


def un(op, p, src):
    return (op, src) if p is None else (op, p, src)


def hot_steps(script, k=0):
    return [(e[0], k) + tuple(e[1:]) for e in script]


ILL = [('c',), ('n', 1), ('e', 3), ('n', 0), ('c',)]


def unary_cases(op, maxlen=4, hooks=True):
    srcs = mats(min(maxlen, 3)) if op == 'dematerialize' else scripts(maxlen)
    ill = ILL
    for sc in srcs:
        for p in UNARY[op]:
            infinite = op in ('retry', 'retry_when')
            # hot
            yield ([], un(op, p, ('hot', 0)), [('sub', 0)] + hot_steps(sc) + hot_steps(ill) + [('unsub', 0)])
            # cold (finite attempts)
            if infinite:
                cold = ('cold', 0, sc, [('n', 6), ('e', 2)], [('n', 7), ('e', 3)], [('n', 8), ('c',)])
            else:
                cold = ('cold', 0, sc + ill)
            yield ([], un(op, p, cold), [('sub', 0), ('unsub', 0), ('sub', 1), ('unsub', 1)])
    # unsubscribe at every position, reentrant unsubscribe, second subscription interleaved
    base = [('n', 0), ('n', 1), ('n', 2), ('n', 1)] if op != 'dematerialize' else [('mn', 0), ('mn', 1), ('mn', 2)]
    for p in UNARY[op]:
        for i in range(len(base) + 1):
            hs = hot_steps(base)
            yield ([], un(op, p, ('hot', 0)), [('sub', 0)] + hs[:i] + [('unsub', 0)] + hs[i:] + [('unsub', 0), ('c', 0)])
            yield ([], un(op, p, ('hot', 0)), [('sub', 0)] + hs[:i] + [('using', 0)] + hs[i:])
            for end in (('c', 0), ('e', 0, 4)):
                yield ([], un(op, p, ('hot', 0)), [('sub', 0)] + hs[:i] + [('sub', 1)] + hs[i:] + [end, ('sub', 2)] + hs + [end])
        for m in (1, 2):
            for end in (('c', 0), ('e', 0, 4)):
                yield ([], un(op, p, ('hot', 0)), [('sub', 0, ('hook', m, ('unsub', 0)))] + hs + [end])
                yield ([], ('take', m, un(op, p, ('hot', 0))), [('sub', 0)] + hs + [end])
                yield ([], ('take', m, un(op, p, ('cold', 0, base + [end[:1] + end[2:]]))), [('sub', 0)])
    if op not in ('dematerialize',):
        for p in UNARY[op]:
            # retry around the operator: state must be fresh for every attempt
            yield ([], ('retry', 3, un(op, p, ('cold', 0, [('n', 0), ('n', 1), ('e', 2)], [('e', 2)], [('n', 2), ('c',)]))),
                   [('sub', 0), ('sub', 1)])
            yield ([], ('retry', 4, un(op, p, ('cold', 0, [('n', 0), ('n', 1), ('e', 2)], [('n', 2), ('n', 2), ('n', 2), ('c',)]))),
                   [('sub', 0), ('sub', 1)])


def nary_cases(op, k, maxlen, rng, limit):
    al = [('n', 0), ('n', 1), ('n', 2), ('c',), ('e', 3)]
    # interleavings of hot sources
    evs = [(e[0], s) + e[1:] for s in range(k) for e in al]
    out = []
    hots = tuple(('hot', s) for s in range(k))
    seqs = []
    for L in range(maxlen + 1):
        seqs += list(itertools.product(evs, repeat=L)) if len(evs) ** L <= limit else \
            [tuple(rng.choice(evs) for _ in range(L)) for _ in range(limit)]
    for s in seqs:
        out.append(([], (op,) + hots, [('sub', 0)] + list(s) + [('c', j) for j in range(k)] + [('unsub', 0)]))
    # mixtures of cold and hot
    colds = [[], [('c',)], [('n', 0), ('c',)], [('n', 1), ('n', 0), ('c',)], [('e', 3)], [('n', 1), ('e', 3)], [('n', 2)], [('n', 1), ('n', 2), ('n', 0), ('c',), ('n', 1)]]
    for combo in itertools.product(range(-1, len(colds)), repeat=k):
        if len(out) > 40 * limit:
            break
        ch = tuple(('hot', i) if c < 0 else ('cold', i, colds[c]) for i, c in enumerate(combo))
        out.append(([], (op,) + ch, [('sub', 0)] + [e for i in range(k) for e in (('n', i, 1), ('n', i, 2))] + [('c', i) for i in range(k)] + [('unsub', 0)]))
        if rng.random() < .3:
            out.append(([], ('take', 1, (op,) + ch), [('sub', 0), ('sub', 1)] + [('n', i, 1) for i in range(k)] + [('c', i) for i in range(k)] + [('unsub', 0), ('unsub', 1)]))
    # unsubscribe / second subscription in the middle
    for _ in range(limit):
        L = rng.randint(1, 6)
        s = [rng.choice(evs) for _ in range(L)]
        i = rng.randint(0, L)
        out.append(([], (op,) + hots, [('sub', 0)] + s[:i] + [('unsub', 0)] + s[i:] + [('unsub', 0)]))
        out.append(([], (op,) + hots, [('sub', 0)] + s[:i] + [('sub', 1)] + s[i:] + [('c', j) for j in range(k)] + [('unsub', 0), ('unsub', 1)]))
        out.append(([], (op,) + hots, [('sub', 0, ('hook', 1, ('unsub', 0)))] + s + [('c', j) for j in range(k)] + [('unsub', 0)]))
        out.append(([], (op,) + hots, [('sub', 0), ('e', 0, 1), ('sub', 1)] + s + [('c', j) for j in range(k)] + [('unsub', 1)]))
        if op == 'concat':
            out.append(([], ('retry', 3, (op, ('cold', 0, [('n', 0), ('c',)]), ('cold', 1, [('n', 1), ('e', 1)], [('n', 2), ('c',)]))), [('sub', 0), ('sub', 1)]))
    return out


def multi_cases(op, rng, maxlen=3, limit=400):
    out = []
    if op in NARY:
        for k in (1, 2, 3, 4):
            out += nary_cases(op, k, maxlen if k <= 2 else 2, rng, limit)
    elif op in BIN:
        out += nary_cases(op, 2, maxlen + 1, rng, limit * 2)
    elif op in ('flat_map', 'on_error_resume_next'):
        inner = [('hot', 1), ('hot', 2), ('cold', 3, [('n', 7), ('n', 8), ('c',)]), ('cold', 4, [('n', 7), ('e', 1)]), ('cold', 5, [('c',)])]
        al = [(e[0], s) + e[1:] for s in range(3) for e in ([('n', 0), ('n', 1), ('n', 2), ('n', 3), ('n', 4)] if s == 0 else [('n', 5)]) + [('c',), ('e', 0), ('e', 2), ('e', 3)]]
        for _ in range(limit * 4):
            L = rng.randint(0, 7)
            s = [rng.choice(al) for _ in range(L)]
            i = rng.randint(0, L)
            root = (op, ('hot', 0)) + tuple(inner)
            v = rng.randint(0, 4)
            if v == 0:
                out.append(([], root, [('sub', 0)] + s[:i] + [('unsub', 0)] + s[i:]))
            elif v == 1:
                out.append(([], root, [('sub', 0)] + s[:i] + [('sub', 1)] + s[i:] + [('c', 0), ('c', 1), ('c', 2), ('unsub', 0), ('unsub', 1)]))
            elif v == 2:
                out.append(([], ('take', 2, root), [('sub', 0)] + s + [('unsub', 0)]))
            else:
                out.append(([], root, [('sub', 0)] + s + [('c', 0), ('c', 1), ('c', 2), ('unsub', 0)]))
        for sc in scripts(3, ends=(('c',), ('e', 2), ('e', 3))):
            out.append(([], (op, ('cold', 0, sc + ILL)) + tuple(inner[2:]), [('sub', 0), ('sub', 1), ('unsub', 0), ('unsub', 1)]))
    return out


CREATE = [('just', 3), ('from_iter', ()), ('from_iter', (1, 2, 3)), ('range', 0, 0), ('range', -1, 3), ('range', 2, 1), ('range', 3, -2),
          ('empty',), ('never',), ('error', 5), ('defer', ('just', 1)), ('start', 4), ('ok', 2), ('err', 3)]


def create_cases():
    for c in CREATE + [('repeat', 2)]:
        for t in ((1, 2, 5) if c[0] == 'repeat' else (None, 1, 2)):
            r = c if t is None else ('take', t, c)
            yield ([], r, [('sub', 0), ('unsub', 0), ('sub', 1), ('unsub', 1)])
    yield ([], ('first', ('repeat', 2)), [('sub', 0)])
    for d in (('take_while', 'lt2', ('scan', 'add', ('repeat', 1))), ('contains', 3, ('scan', 'add', ('repeat', 1))),
              ('all', 'lt2', ('scan', 'add', ('repeat', 1))), ('element_at', 2, ('repeat', 1)),
              ('take_until', ('repeat', 1), ('just', 1)), ('amb', ('just', 1), ('repeat', 2)),
              ('merge', ('error', 1), ('repeat', 2)), ('zip', ('error', 1), ('repeat', 2)),
              ('flat_map', ('from_iter', (0, 1)), ('error', 1), ('repeat', 2)),
              ('dematerialize', ('concat', ('cold', 0, [('mn', 1), ('mc',)]), ('repeat', 1)))):
        yield ([], d, [('sub', 0), ('unsub', 0)])


def rsg_cases():
    """the action emits into what ready_set_go has just subscribed to"""
    acts = [(), (('sn', 0, 1),), (('sn', 0, 1), ('sn', 0, 2), ('sc', 0)), (('sn', 0, 1), ('se', 0, 4)), (('sc', 0),)]
    for d in (('plain', 0), ('behavior', 0, 9), ('replay', 0), ('async', 0)):
        for a in acts:
            r = ('ready_set_go', a, ('sbj', 0))
            for root in (r, ('map', 'inc', r), ('take', 1, r), ('merge', r, ('just', 5)), ('zip', ('from_iter', (0, 1)), r), ('concat', r, ('just', 5))):
                yield ([d], root, [('sub', 0), ('sn', 0, 3), ('unsub', 0)])
                yield ([d], root, [('sub', 0), ('sub', 1), ('sn', 0, 3), ('unsub', 0), ('sn', 0, 2), ('unsub', 1)])
        r = ('ready_set_go', (), ('sbj', 0))
        yield ([d], r, [('sub', 0), ('sn', 0, 3), ('sc', 0)])
    for a in acts:
        if a:
            inner = ('ready_set_go', a, ('sbj', 0))
            yield ([('plain', 0), ('plain', 1)], ('ready_set_go', (('sn', 1, 2),), ('merge', ('sbj', 1), inner)), [('sub', 0), ('unsub', 0)])


def sbj_cases(kind, rng, n=1500, maxlen=8):
    d = ('behavior', 0, 9) if kind == 'behavior' else (kind, 0)
    roots = [('sbj', 0), ('map', 'inc', ('sbj', 0)), ('take', 2, ('sbj', 0))]
    al = [('sub', 0), ('sub', 1), ('sub', 2), ('unsub', 0), ('unsub', 1), ('unsub', 2), ('sn', 0, 1), ('sn', 0, 2), ('sn', 0, 3), ('se', 0, 4), ('sc', 0)]
    w = [3, 3, 2, 1, 1, 1, 3, 3, 3, 1, 1]
    for _ in range(n):
        L = rng.randint(1, maxlen)
        used = set()
        st = []
        for _ in range(L):
            s = rng.choices(al, w)[0]
            if s[0] == 'sub':
                if s[1] in used:
                    continue
                used.add(s[1])
                if rng.random() < .15:
                    s = s + (('hook', rng.randint(1, 2), rng.choice([('unsub', s[1]), ('sub', s[1] + 3)])),)
            st.append(s)
        st += [('unsub', i) for i in range(6)]
        yield ([d], rng.choice(roots), st)


def con_cases(kind, rng, n=1200, maxlen=8):
    src = [('hot', 0), ('cold', 0, [('n', 1), ('n', 2), ('c',)]), ('cold', 0, [('n', 1), ('e', 2)]), ('cold', 0, [('n', 1), ('n', 2)])]
    for _ in range(n):
        s0 = rng.choice(src)
        al = [('sub', 0), ('sub', 1), ('sub', 2), ('unsub', 0), ('unsub', 1), ('unsub', 2)]
        al += [('n', 0, 1), ('n', 0, 2), ('c', 0), ('e', 0, 4)]
        if kind == 'publish':
            al += [('connect', 0), ('disconnect', 0)] * 2
        used, st, live = set(), [], set()
        conn = dead = False
        for _ in range(rng.randint(1, maxlen)):
            s = rng.choice(al)
            if s[0] == 'sub':
                if s[1] in used or (kind == 'creplay' and dead):
                    continue
                used.add(s[1])
                live.add(s[1])
            if s[0] == 'unsub' and s[1] in live:
                live.discard(s[1])
                dead = dead or not live
            if s[0] == 'connect':
                if conn:
                    continue
                conn = True
            st.append(s)
        st += [('unsub', i) for i in range(3)]
        if kind == 'publish':
            st.append(('disconnect', 0))
        if rng.random() < .5:
            s0 = ('map', 'inc', s0)
        root = ('con', 0)
        if rng.random() < .2:
            root = ('take', 1, root)
        yield ([(kind, 0, s0)], root, st)


def reent_cases(fam, rng, n):
    """callbacks that emit into, subscribe to or unsubscribe from the pipeline that calls them"""
    sbj = fam in ('plain', 'behavior', 'replay', 'async')
    con = fam in ('publish', 'ref_count', 'creplay')
    if fam in UNARY:
        roots = [un(fam, p, ('hot', 0)) for p in UNARY[fam]]
    elif fam in NARY or fam in BIN:
        roots = [(fam, ('hot', 0), ('hot', 1))]
    elif fam == 'flat_map':
        roots = [(fam, ('hot', 0), ('hot', 1), ('hot', 2), ('cold', 3, [('n', 7), ('c',)]))]
    elif sbj:
        roots = [('sbj', 0), ('map', 'inc', ('sbj', 0))]
    elif con:
        roots = [('con', 0)]
    else:
        return
    defs = [('behavior', 0, 9) if fam == 'behavior' else (fam, 0)] if sbj else [(fam, 0, ('hot', 0))] if con else []
    if sbj:
        ev = [('sn', 0, 1), ('sn', 0, 2), ('se', 0, 4), ('sc', 0)]
    elif fam == 'dematerialize':
        ev = [('mn', 0, 1), ('mn', 0, 2), ('mc', 0), ('me', 0, 2), ('c', 0)]
    else:
        ks = (0,) if fam in UNARY or con else (0, 1)
        ev = [e for k in ks for e in (('n', k, 1), ('n', k, 2), ('n', k, 3), ('c', k), ('e', k, 4))]
    nx = [e for e in ev if e[0][-1] == 'n']
    for _ in range(n):
        at = rng.choice((0, 1, 1, 1, 2, 3))
        hk = ('hook', at, rng.choice(ev + nx + [('unsub', 0), ('unsub', 1), ('sub', 5)]))
        st = [('sub', 0, hk)]
        if con and fam == 'publish':
            st.append(('connect', 0))
        if rng.random() < .3 or con or sbj:
            st.insert(rng.randint(0, len(st)), ('sub', 1))
        body = [rng.choice(nx + nx + ev) for _ in range(rng.randint(1, 7))]
        if rng.random() < .5:
            body = nx * 2 + body
        st += body
        if fam == 'publish':
            st.append(('disconnect', 0))
        st += [('unsub', 0), ('unsub', 1), ('unsub', 5)]
        yield (defs, rng.choice(roots), st)
