"""Runs the concurrency scenarios of rxv/vsched on the mechanically rewritten copy of /repo:
a bounded search over schedules (labelled bounded in the evidence), and the replayer that turns
failed concurrency obligations into failing schedules of the real code."""
import subprocess, os, re, time
from concurrent.futures import ThreadPoolExecutor
from . import build, vcopy

RACE = ['race.' + x for x in 'merge zip combine_latest amb flat_map take_until skip_until sample switch_on_next concat merge_take merge_chain one direct retry sequence_equal'.split()]
SUBJ = ['subject.' + x for x in 'plain behavior replay async'.split()]
CONS = ['conserve.' + x for x in 'merge concat zip amb merge_take flat_map flat_map_threaded merge_nested'.split()]
MULT = ['multi.' + x for x in 'plain behavior replay async'.split()]
QUEUE = ['queue.' + x for x in 'no abort inside default'.split()]
OBSV = ['observe.' + x for x in 'observe_on observe_on_cold observe_twice subscribe_on both'.split()]
TIMED = ['timed.' + x for x in ('interval interval_take interval_chain interval_until interval_first_sub_on interval_zip interval_flat interval_amb interval_timeout '
                                'timer observe_on subscribe_on debounce timeout delay sample retry_timeout timeout_slow').split()]
TWICE = ['twice.' + x for x in ('observe_on subscribe_on both observe_ticks interval timer delay debounce sample timeout timeout_late merge zip flat_map amb '
                                'take_until skip_until switch_on_next retry').split()]
TOVEC = ['to_vec.' + x for x in 'wait busy'.split()]
CONN = ['connect.' + x for x in 'ref_count replay publish'.split()]
HOLD = ['hold.' + x for x in 'xplain xbehavior xreplay xasync ref_count replay publish'.split()]
UNSUB = ['unsub.' + x for x in 'plain inside using'.split()]
ALL = RACE + SUBJ + CONS + MULT + QUEUE + OBSV + TIMED + TWICE + TOVEC + CONN + HOLD + UNSUB

SCEN = {
    'C05': UNSUB + RACE + SUBJ + OBSV + TIMED, 'C06': RACE + OBSV + TIMED + HOLD, 'C07': ALL, 'C08': QUEUE, 'C09': OBSV, 'C11': CONS, 'C12': MULT, 'C14': TWICE,
    'C15': TIMED + OBSV, 'C16': TIMED, 'C17': RACE + SUBJ + CONS + OBSV + TIMED, 'C18': TOVEC, 'C19': RACE + SUBJ + CONN,
}
# a scenario of this group that blocks or panics breaks the group's own property as well
OWN = {'queue': 'C08', 'observe': 'C09', 'conserve': 'C11', 'multi': 'C12', 'to_vec': 'C18', 'twice': 'C14'}


def concerns(prop, scen, msg):
    tag = msg.split(' ')[0].rstrip(':')
    if tag in ('deadlock', 'livelock', 'panic'):
        return prop == 'C07' or OWN.get(scen.split('.')[0]) == prop or prop in ('C15',) and tag != 'panic'
    return tag == prop or prop == 'C05' and tag == 'C09' and 'unsubscribe' in msg


def run(binary, scen, first, count, prop, limit):
    """-> (seeds run, steps, (seed, message) | None, note)"""
    end, cur, steps, t0 = first + count, first, 0, time.time()
    env = dict(os.environ, VS_TAGS=prop)
    while cur < end:
        try:
            p = subprocess.run([binary, scen, str(cur), str(end - cur)], capture_output=True, text=True, errors='replace', env=env, timeout=max(5, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            return cur - first, steps, None, 'not finished within the time limit'
        out = p.stdout
        if p.returncode == 0 and out.startswith('OK'):
            return end - first, steps + int(out.split()[2]), None, None
        f = [ln for ln in (out + '\n' + p.stderr).split('\n') if ln.startswith('FAIL seed=')]
        if not f:
            return cur - first, steps, None, 'ended with code %s: %s' % (p.returncode, (out + p.stderr)[-200:])
        s, _, msg = f[0][len('FAIL seed='):].partition(' ')
        s = int(s)
        if concerns(prop, scen, msg):
            q = subprocess.run([binary, scen, str(s), '1'], capture_output=True, text=True, errors='replace', env=env, timeout=60)
            # object numbers differ from run to run
            if re.sub(r'\(\d+', '(', f[0]) in re.sub(r'\(\d+', '(', q.stdout + q.stderr):
                return s - first + 1, steps, (s, msg), None
        cur = s + 1
        if time.time() - t0 > limit:
            return cur - first, steps, None, 'not finished within the time limit'
    return end - first, steps, None, None


def explore(prop, tier, seed):
    r = {'violations': [], 'evaluations': 0, 'nontrivial': 0, 'samples': [], 'coverage': {}}
    scens = SCEN.get(prop)
    if not scens:
        return r
    try:
        with build.locked('vs'):
            binary = vcopy.make()
    except Exception as e:
        # the copy cannot follow the source: no schedule is explored, and nothing is claimed
        print('no schedules explored: %s' % str(e)[:1500])
        r['coverage']['schedules'] = 'none: the rewritten copy does not build'
        return r
    count = 150000 if tier == 'thorough' else (1500 if len(scens) > 40 else 6000 if len(scens) > 12 else 15000)
    limit = 700 if tier == 'thorough' else 60
    first = seed * 1000000
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda s: (s, run(binary, s, first, count, prop, limit)), scens))
    cov = {}
    for s, (n, steps, bad, note) in res:
        r['evaluations'] += n
        r['nontrivial'] += n
        cov[s] = {'schedules': n, 'steps': steps}
        if note:
            cov[s]['note'] = note
            print('schedules of %s: %s' % (s, note))
        if bad:
            r['violations'].append({'name': s, 'kind': 'schedule of the real code', 'scenario': s, 'seed': bad[0], 'wrong': bad[1],
                                    'how': 'cd /verif && python3 -c "from rxv import vcopy; print(vcopy.make())" && %s %s %d 1' % (binary, s, bad[0])})
    r['samples'] = ['%s seed %d..%d' % (s, first, first + v['schedules'] - 1) for s, v in list(cov.items())[:6]]
    r['coverage']['schedules'] = {'bounded': True, 'what': 'random and priority-based schedules of the real code (std::sync, std::thread, std::time replaced by a controlled scheduler with virtual time)', 'scenarios': cov}
    return r
