"""python3-vt -m rxv.check <property> [quick|thorough]

Decides one property: every obligation of every contract the property rests on is generated
from the MIR of /repo's current source and discharged; a failed obligation is turned into a
failing run of the real code where one is found.
"""
import os, sys, json, time, random, signal, traceback, multiprocessing as mp

from . import build, replay, gen, oracle, props
from .engine import core, prims

VERIF = os.environ.get('RXV_VERIF', '/verif')
G = {}


class TimeUp(Exception):
    pass


def alarm(*a):
    raise core.Unsupported('time limit')


def run_task(spec):
    """in a worker: (id, limit) -> result dict"""
    tid, limit = spec
    r = {'id': tid, 'obl': 0, 'disch': 0, 'cats': {}, 'failures': [], 'unsupported': None, 'wall': 0, 'solver_s': 0, 'fns': [], 'used': [], 'paths': 0}
    t0 = time.time()
    prims.USED.clear()
    signal.signal(signal.SIGALRM, alarm)
    t = None
    try:
        t = props.make(G['P'], tid)
        signal.alarm(limit)
        t.run()
        if not t.failures and not t.reach_ok():
            raise core.Unsupported('vacuous: nothing reached')
    except core.Unsupported as e:
        r['unsupported'] = str(e) or 'unsupported'
    except (RecursionError, AssertionError, KeyError, IndexError, AttributeError, TypeError, ValueError, NotImplementedError) as e:
        r['unsupported'] = 'verifier: %r at %s' % (e, traceback.format_exc().strip().split('\n')[-3].strip())
    except Exception as e:
        r['unsupported'] = 'verifier: %r' % e
    finally:
        signal.alarm(0)
    r['wall'] = round(time.time() - t0, 2)
    if t is not None:
        r['fns'] = sorted(t.fns)
        if r['unsupported'] is None:
            r.update(obl=t.obl, disch=t.disch, cats=t.cats, solver_s=round(getattr(t, 'solver_s', 0), 2), paths=getattr(t, 'paths', 0))
        seen = set()
        for f in t.failures:
            if (f.cat, f.msg) not in seen:
                seen.add((f.cat, f.msg))
                r['failures'].append({'cat': f.cat, 'msg': f.msg, 'fn': f.fn, 'model': f.model, 'where': f.ctx})
        if r['unsupported'] is not None:
            r['failures'] = []
    r['used'] = sorted(prims.USED)
    return r


def run_tasks(P, tids, limit):
    G['P'] = P
    with mp.Pool(min(8, max(1, len(tids)))) as pool:
        return list(pool.imap_unordered(run_task, [(t, limit) for t in tids], chunksize=1))


# ------------------------------------------------------------------ replay on the real code
def confirm(case):
    """runs one case alone with a generous time limit"""
    return replay.run_real([case], ms=6000)[0]


def run_family(fam, tier, seed):
    return list(props.family(fam, tier, random.Random('%s/%s' % (seed, fam))))


def bounded(prop, fams, tier, seed):
    """runs the script families on the real crate -> (number of runs, violations)"""
    total, nontriv, viol, samples = 0, 0, [], []
    for fam in fams:
        cases = run_family(fam, tier, seed)
        res = replay.run_real(cases, ms=400)
        total += len(cases)
        bad = []
        for c, r in zip(cases, res):
            if isinstance(r, list) and len(r) > len(c[2]) + 1:
                nontriv += 1
            j = oracle.judge(c, r)
            if j:
                bad.append((len(replay.case_line(c)), c, r, j))
        if cases:
            samples.append(replay.case_line(cases[len(cases) // 2]))
        bad.sort(key=lambda b: b[0])
        tried = 0
        for _, c, r, j in bad:
            if not props.relevant(prop, fam, c, j, None):
                continue
            tried += 1
            if tried > 40:
                break
            r2 = confirm(c)
            j2 = oracle.judge(c, r2)
            d = props.relevant(prop, fam, c, j2, r2)
            if d:
                viol.append((fam, c, r2, d))
                break
    return total, nontriv, viol, samples


def write(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        json.dump(obj, f, indent=1, sort_keys=True, default=str)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    os.makedirs(build.WORK, exist_ok=True)
    path = build.dump()
    try:
        P = core.load(path)
    finally:
        os.unlink(path)
    with build.locked('harness'):
        replay.build()
    tb = time.time()
    tids = props.tasks(prop, tier)
    results = run_tasks(P, tids, 150 if tier == 'quick' else 1500)
    results.sort(key=lambda r: r['id'])
    tv = time.time()
    fams = props.families(prop)
    n, nontriv, viol, samples = bounded(prop, fams, tier, seed)
    extra = props.extra(prop, tier, seed)          # bounded stand-ins and searches of their own
    failed = [(r, f) for r in results for f in r['failures'] if props.cat_relevant(prop, r['id'], f)]
    unsup = [r for r in results if r['unsupported']]
    known = known_findings(prop)
    rdir = '%s/work/replay' % VERIF if VERIF == '/verif' else build.WORK + '/replay'
    os.makedirs(rdir, exist_ok=True)
    lines = []
    covered = set()
    for i, (fam, c, r, d) in enumerate(viol):
        rp = '%s/%s-%s.json' % (rdir, prop, fam)
        obs = [f for rr, f in failed if props.family_of(rr['id']) == fam]
        write(rp, {'property': prop, 'kind': 'real run', 'case': replay.case_line(c), 'got': r, 'wrong': d, 'failed_obligations': obs,
                   'how': 'echo CASE | RXV_MS=6000 %s/h/debug/rxv-harness' % build.WORK})
        covered.add(fam)
        key = '%s %s' % (fam, replay.case_line(c))
        if key in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, known[key]))
            continue
        lines.append('VIOLATION property=%s replay=%s' % (prop, rp))
    for v in extra['violations']:
        rp = '%s/%s-%s.json' % (rdir, prop, v['name'])
        write(rp, dict(v, property=prop))
        covered |= set(v.get('covers', ()))
        if v['name'] in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, known[v['name']]))
            continue
        lines.append('VIOLATION property=%s replay=%s' % (prop, rp))
    if failed and not lines:
        byfam = {}
        for r, f in failed:
            byfam.setdefault(props.family_of(r['id']), []).append((r, f))
        for fam, l in sorted(byfam.items()):
            rp = '%s/%s-%s-obligation.json' % (rdir, prop, fam)
            write(rp, {'property': prop, 'kind': 'failed obligation', 'obligations': [dict(f, task=r['id']) for r, f in l]})
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
            break
    for r, f in failed:
        print('failed obligation: %s [%s] %s -- %s %s' % (r['id'], f['cat'], f['msg'], f['where'], f['model'][:120]))
    for r in unsup:
        print('not proved (bounded stand-in): %s: %s' % (r['id'], r['unsupported']))
    for l in lines:
        print(l)
    obl = sum(v for r in results for k, v in r['cats'].items() if props.cat_counts(prop, r['id'], k))
    bad = len(failed)
    fns = sorted({f for r in results for f in r['fns']})
    used = sorted({u for r in results for u in r['used']})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': props.LEVEL.get(prop, 'proof'),
        'wall_s': round(time.time() - t0, 1), 'violations': len(lines),
        'coverage': {
            'obligations': obl, 'discharged': obl - bad,
            'checker_cmd': 'python3-vt -m rxv.check %s %s' % (prop, tier),
            'trusted_base': props.TRUSTED + ['std: ' + u for u in used],
            'backend': 'rxv symbolic executor over rustc MIR, z3 %s' % __import__('z3').get_version_string(),
            'solver_s': round(sum(r['solver_s'] for r in results), 1),
            'paths': sum(r['paths'] for r in results),
            'contracts': {r['id']: {'obligations': {k: v for k, v in r['cats'].items() if props.cat_counts(prop, r['id'], k)}, 'wall_s': r['wall'], 'paths': r['paths']} for r in results if not r['unsupported']},
            'functions_under_contract': fns,
            'not_proved_bounded_stand_in': {r['id']: r['unsupported'] for r in unsup},
            'evaluations': n + extra['evaluations'], 'distinct_nontrivial': nontriv + extra['nontrivial'],
            'rule': 'bounded validation: scripts of the families in rxv/gen.py replayed on the real crate; non-trivial = something was delivered',
            'samples': samples[:6] + extra['samples'][:6],
            'explanation': props.EXPLAIN.get(prop, ''),
        },
        'assumptions': props.ASSUME + props.ASSUME_P.get(prop, []),
    }
    ev['coverage'].update(extra.get('coverage', {}))
    write('%s/evidence/%s.json' % (VERIF, prop), ev)
    print('%s %s: %d obligations, %d failed, %d tasks (%d without proof), %d real runs; build %.0fs, proof %.0fs, total %.0fs' % (
        prop, tier, obl, bad, len(results), len(unsup), n + extra['evaluations'], tb - t0, tv - tb, time.time() - t0))
    sys.exit(1 if lines else 0)


def known_findings(prop):
    out = {}
    try:
        for ln in open(VERIF + '/known-findings.txt'):
            if ln.startswith('known: property=%s ' % prop):
                key, _, what = ln.split(' ', 2)[2].partition(' :: ')
                out[key.strip()] = what.strip()
    except FileNotFoundError:
        pass
    return out


if __name__ == '__main__':
    main()
