"""Judges one real run against the properties (aspect -> what is wrong)."""
from .replay import expected, split, canon, multicast, per_subscriber, run_real, case_line
from .spec.interp import sx


def grammar(ev):
    dead = {}
    for l in ev:
        w = l.split()
        if len(w) < 2 or w[1] not in ('n', 'e', 'c') or w[0] == 'tap':
            continue
        if w[0] in dead:
            return 'after its terminal %s receives: %s' % (w[0], l)
        if w[1] in 'ec':
            dead[w[0]] = 1
    return None


def flags(p):
    d = []
    for f in p.split()[1:]:
        k, v = f.rsplit(':', 1)
        d.append((k, v))
    return d


def walk(c, real):
    """self-consistency of one real trace with unsubscribe / is_subscribed"""
    steps = c[2]
    i, gone, ended, begun, handle = 0, set(), set(), set(), set()
    hooks, cnt = {}, {}
    out = []

    def start(i):
        if i < len(steps):
            s = steps[i]
            if s[0] == 'sub':
                begun.add(s[1])
                if len(s) > 2:
                    hooks[s[1]] = s[2]
    start(0)
    for l in real:
        if l.startswith('own'):
            continue
        if l.startswith('probe'):
            if i < len(steps) and steps[i][0] in ('unsub', 'using') and steps[i][1] in begun:
                gone.add(steps[i][1])
            for k, v in flags(l):
                if k[0] == 's':
                    s = int(k[1:])
                    want = '0' if s in gone or s in ended else '1'
                    if v != want:
                        out.append('step %d: is_subscribed of s%d is %s' % (i, s, v))
            if i < len(steps) and steps[i][0] == 'sub':
                handle.add(steps[i][1])
            i += 1
            start(i)
            continue
        w = l.split()
        if w[0][0] == 's' and w[0][1:].isdigit() and len(w) > 1 and w[1] in ('n', 'e', 'c'):
            s = int(w[0][1:])
            if s in gone:
                out.append('step %d: delivered after unsubscribe returned: %s' % (i, l))
            if w[1] in 'ec':
                ended.add(s)
            else:
                cnt[s] = cnt.get(s, 0) + 1
                h = hooks.get(s)
                if h and h[1] == cnt[s]:
                    if h[2][0] == 'sub':
                        begun.add(h[2][1])
                    elif h[2][1] in handle:
                        gone.add(h[2][1])
    return out


def reentrant(c):
    """does a callback emit into the pipeline? (the order of the results is then not compared)"""
    for s in c[2]:
        if s[0] == 'sub':
            for h in s[2:]:
                if h[1] == 0 or h[2][0] in ('n', 'e', 'c', 'mn', 'me', 'mc', 'sn', 'se', 'sc'):
                    return True
                if h[2][0] == 'unsub' and h[2][1] != s[1] and multicast(c):
                    return True
    return False


def judge(c, real):
    if isinstance(real, str):
        return {real: real}
    if reentrant(c):
        re, rp, own = split(real)
        out = {}
        g = grammar(re)
        if g:
            out['grammar'] = g
        fin = flags(rp[-1]) if rp else []
        if all(v == '0' for k, v in fin if k[0] == 's'):
            if own:
                out['leak'] = 'values and closures still owned after the end: %d' % own
        return out
    exp = expected(c)
    re, rp, own = split(real)
    ee, ep, _ = split(exp)
    if multicast(c):
        re, ee = per_subscriber(re), per_subscriber(ee)
    re, ee = canon(re), canon(ee)
    out = {}
    g = grammar(re)
    if g:
        out['grammar'] = g
    if re != ee:
        d = 'expected %s\n     got %s' % (ee, re)
        out['events'] = d
        sub = lambda l: [x for x in l if x[0] in 's' and x.split()[0][1:].isdigit()]
        err = lambda l: [x for x in sub(l) if ' e ' in x]
        if err(re) != err(ee) or (err(ee) and sub(re) != sub(ee)):
            out['error'] = d
    w = walk(c, real)
    if w:
        out['unsub'] = w[0]
    srcs = lambda p: [f for f in flags(p) if f[0][0] in 'hk']
    bad = [(i, a, b) for i, (a, b) in enumerate(zip(ep, rp)) if srcs(a) != srcs(b)]
    if bad and re == ee or len(ep) != len(rp):
        out['upstream'] = 'after step %d expected %s, got %s' % bad[0] if bad else 'steps'
    if rp:
        fin = flags(rp[-1])
        ended = all(v == '0' for k, v in fin if k[0] == 's')
        if own and ended:
            out['leak'] = 'values and closures still owned after the end: %d' % own
        if ended and any(v == '1' for k, v in srcs(rp[-1])) and not any(v == '1' for k, v in srcs(ep[-1])):
            out.setdefault('upstream', 'sources still subscribed at the end: ' + rp[-1])
    subs = [s[1] for s in c[2] if s[0] == 'sub']
    if re != ee and len(subs) > 1 and not c[0]:
        out['second'] = out['events']
    return out


def solo(c, k):
    """the case with subscriber k alone"""
    st = []
    for s in c[2]:
        if s[0] in ('sub', 'unsub', 'using') and s[1] != k:
            continue
        st.append(s)
    return (c[0], c[1], st)


def many_scripts(x):
    if isinstance(x, tuple):
        return (len(x) > 3 and x[0] == 'cold') or any(many_scripts(y) for y in x)
    return False


def independent(c, real):
    """C14: does a subscriber see something else than it would alone?"""
    if isinstance(real, str) or many_scripts(c[1]):
        return None
    ks = [s[1] for s in c[2] if s[0] == 'sub']
    if len(ks) < 2 or len(set(ks)) != len(ks):
        return None
    cs = [solo(c, k) for k in ks]
    mine = lambda tr, k: [l for l in tr if l.split()[0] == 's%d' % k]
    for k, cc, r in zip(ks, cs, run_real(cs, ms=5000)):
        if isinstance(r, str):
            continue
        a, b = mine(r, k), mine(real, k)
        if a != b:
            return 'alone s%d gets %s, together with others %s' % (k, a, b)
    return None
