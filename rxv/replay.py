"""Replays scripts on the real crate (harness) and compares with the contract machines."""
import itertools, os, random, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from .spec.interp import World, sx

WORK = os.environ.get('RXV_WORK', '/verif/work')
HARNESS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness')


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=WORK + '/h', CARGO_NET_OFFLINE='true')
    p = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=HARNESS, env=env, capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError('harness build failed\n' + p.stderr[-3000:])
    return WORK + '/h/debug/rxv-harness'


def case_line(c):
    defs, root, steps = c
    return sx(('case', tuple(defs), root, tuple(steps)))


def run_real(cases, ms=1500, jobs=8):
    """-> list of trace lists, or 'hang'/'panic'"""
    exe = WORK + '/h/debug/rxv-harness'
    chunks = [list(range(i, len(cases), jobs)) for i in range(jobs)]
    res = [None] * len(cases)

    def go(idx):
        idx = list(idx)
        while idx:
            inp = '\n'.join(case_line(cases[i]) for i in idx) + '\n'
            p = subprocess.run([exe], input=inp, capture_output=True, text=True,
                               env=dict(os.environ, RXV_MS=str(ms)))
            cur, done = None, 0
            for ln in p.stdout.split('\n'):
                if ln.startswith('#case'):
                    cur = []
                elif ln.startswith('#end'):
                    res[idx[done]] = cur
                    done += 1
                elif ln.startswith('#hang') or ln.startswith('#panic'):
                    res[idx[done]] = ln[1:].split()[0]
                    done += 1
                elif cur is not None and ln:
                    cur.append(ln)
            if done < len(idx):
                res[idx[done]] = 'crash'
                done += 1
            idx = idx[done:]
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(go, [c for c in chunks if c]))
    return res


def expected(c):
    defs, root, steps = c
    w = World(defs, root)
    return w.run(steps)


def split(tr):
    """trace -> streams: per subscriber/window/tap events; subscription order; probes"""
    ev, probes, own = [], [], None
    for l in tr:
        if l.startswith('probe'):
            probes.append(l)
        elif l.startswith('own'):
            own = int(l.split()[1])
        else:
            ev.append(l)
    return ev, probes, own


def canon(ev):
    """order between different windows is not fixed by the property"""
    out, i = [], 0
    while i < len(ev):
        j = i
        while j < len(ev) and ev[j].startswith('w') and not ' n ' in ev[j]:
            j += 1
        if j > i:
            out += sorted(ev[i:j])
            i = j
        else:
            out.append(ev[i])
            i += 1
    return out


def multicast(c):
    return bool(c[0]) or 'sbj' in sx(c[1])


def per_subscriber(ev):
    """order between different subscribers is not fixed by the property"""
    return sorted(ev, key=lambda l: l.split()[0])


def compare(c, real):
    """-> None or (aspect, detail).  aspects: hang panic events probe leak"""
    if isinstance(real, str):
        return (real, real)
    exp = expected(c)
    re, rp, own = split(real)
    ee, ep, _ = split(exp)
    if multicast(c):
        re, ee = per_subscriber(re), per_subscriber(ee)
    if canon(re) != canon(ee):
        return ('events', 'expected %s\n     got %s' % (canon(ee), canon(re)))
    if rp != ep:
        for a, b in zip(ep, rp):
            if a != b:
                return ('probe', 'expected %s\n     got %s' % (a, b))
    ended = all(f[-1] == '0' for f in rp[-1].split()[1:] if f[0] == 's') if rp else True
    if own and ended:
        return ('leak', 'tokens still owned: %d' % own)
    return None
