"""Long histories on the real crate (rxv/harness/src/bin/long.rs): bounded runs that go past what
small counters and tables hold."""
import os, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import replay

SCEN = {
    'C02': ['unary'], 'C03': ['flat_map', 'multi'], 'C04': ['retry'], 'C06': ['flat_map_unsub', 'ref_count_again'], 'C08': ['queue'],
    'C10': ['plain', 'behavior', 'replay', 'async', 'replay_items'], 'C13': ['ref_count', 'creplay', 'publish', 'ref_count_again'], 'C17': ['panic'],
}


def one(name, limit=120):
    exe = replay.WORK + '/h/debug/long'
    try:
        p = subprocess.run([exe, name], capture_output=True, text=True, errors='replace', timeout=limit)
    except subprocess.TimeoutExpired:
        return name, 'does not end'
    if p.returncode == 0 and p.stdout.startswith('OK'):
        return name, None
    f = [ln for ln in p.stdout.split('\n') if ln.startswith('FAIL ')]
    return name, f[0][5:] if f else 'ended with code %s: %s' % (p.returncode, p.stderr[-300:])


def explore(prop):
    scens = SCEN.get(prop, [])
    r = {'violations': [], 'evaluations': len(scens), 'nontrivial': len(scens), 'samples': [], 'coverage': {}}
    if not scens:
        return r
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, scens))
    for s, bad in res:
        if bad and one(s)[1]:
            r['violations'].append({'name': 'long.' + s, 'kind': 'long run of the real code', 'wrong': bad, 'how': replay.WORK + '/h/debug/long ' + s})
    r['coverage']['long_runs'] = {'bounded': True, 'what': 'histories of 70000 subscriptions, items or tasks on the real crate', 'scenarios': scens}
    return r
