"""Which contracts each property rests on, and which failures concern it."""
from . import gen, oracle, replay, vrun, longrun
from .engine import optab, objtab, core
from .spec import ops as O

CREATE = list(O.CREATE)
MULTI = ['merge', 'zip', 'combine_latest', 'amb', 'concat', 'sequence_equal', 'take_until', 'skip_until', 'sample', 'switch_on_next', 'flat_map']
HANDLERS = ['retry', 'retry_when', 'on_error_resume_next', 'materialize', 'dematerialize']
TIMED = [n for n in O.OPS if n in ('delay', 'timestamp', 'time_interval')]
UNARY = [n for n in O.OPS if n not in MULTI and n not in TIMED and n not in ('retry', 'retry_when', 'on_error_resume_next')]
OPS = list(O.OPS)
SLOW = {'op:combine_latest/3': 1, 'op:combine_latest/4': 1, 'op:sequence_equal/3': 1, 'op:sequence_equal/4': 1, 'op:amb/3': 1, 'op:amb/4': 1, 'op:zip/4': 1}


def arity_ids(n):
    spec = O.OPS[n]
    return ['op:%s/%d' % (n, k) for k in (1, 2, 3, 4)] if 'arity' in spec.PARAMS.values() else ['op:' + n]


def op_ids(names):
    return [i for n in names for i in (arity_ids(n) if n in O.OPS else ['create:' + n] if n in O.CREATE else ['util:' + n])]


def make(P, tid):
    kind, _, name = tid.partition(':')
    if kind == 'op':
        name, _, k = name.partition('/')
        l = list(optab.tasks(P, name))
        return l[int(k) - 1] if k else l[0]
    if kind == 'create':
        return list(optab.create_tasks(P, name))[0]
    if kind == 'util':
        return list(optab.util_tasks(P))[0]
    if kind == 'obj':
        return objtab.TASKS[name](P)
    raise core.Unsupported('no task ' + tid)


SELECT = {
    'C01': OPS + CREATE + ['ready_set_go'],
    'C02': UNARY + CREATE,
    'C03': MULTI + ['ready_set_go'],
    'C04': OPS + CREATE + ['ready_set_go'],
    'C05': OPS + CREATE + ['ready_set_go'],
    'C06': OPS + CREATE + ['ready_set_go'],
    'C07': OPS + CREATE + ['ready_set_go'],
    'C10': [],
    'C13': [],
    'C14': OPS + CREATE + ['ready_set_go'],
    'C17': OPS + CREATE + ['ready_set_go'],
}

# contracts of the building blocks, by property: task -> categories of its obligations that count
BASE_EV = {'FunctionWrapper': ('events', 'panic'), 'Observer': ('events', 'panic'), 'StreamController': ('events', 'panic')}
OBJ = {
    'C01': {'FunctionWrapper': ('events', 'panic'), 'Observer': ('events', 'panic', 'grammar')},
    'C02': BASE_EV, 'C03': BASE_EV, 'C04': BASE_EV,
    'C05': {'FunctionWrapper': ('events',), 'Observer': ('events', 'cut'), 'Observer/threads': ('cut',), 'FunctionWrapper/threads': ('cut',), 'Subscription': ('events', 'panic'), 'Subscription/threads': ('cut',),
            'Observable': ('events', 'panic'), 'Using': ('events', 'panic'), 'StreamController': ('events',)},
    'C06': {'Observable': ('events',), 'Observer': ('events',), 'Observer/threads': ('upstream',), 'StreamController': ('events', 'upstream'), 'StreamController/threads': ('upstream',), 'Subject': ('upstream', 'hooks'),
            'Subject/threads': ('upstream',)},
    'C07': {n: ('lock', 'spin', 'panic') for n in ('FunctionWrapper', 'FunctionWrapper/threads', 'Observer', 'Observer/threads', 'Subscription', 'Subscription/threads',
            'Observable', 'Using', 'StreamController', 'StreamController/threads', 'Subject', 'Subject/threads', 'AsyncFunctionQueue', 'schedulers')},
    'C08': {'AsyncFunctionQueue': ('queue', 'spin', 'panic', 'lock'), 'schedulers': ('queue', 'panic', 'events'), 'FunctionWrapper': ('events',)},
    'C10': {'Subject': ('events', 'panic', 'upstream'), 'Subject/threads': ('race', 'upstream')},
    'C11': {'StreamController': ('events', 'upstream'), 'StreamController/threads': ('race', 'upstream'), 'Observer/threads': ('grammar',)},
    'C12': {'Subject/threads': ('race', 'upstream')},
    'C13': {'Subject': ('hooks',)},
    'C17': {'Observer/threads': ('leak',), 'StreamController': ('upstream',), 'Subject': ('upstream',)},
    'C19': {'FunctionWrapper/threads': ('grammar',), 'Observer/threads': ('grammar',)},
}
SCHED = ('observe_on', 'subscribe_on', 'interval', 'timer', 'timeout', 'debounce')


def more(prop, names, cats):
    for n in names:
        OBJ.setdefault(prop, {})
        OBJ[prop][n] = tuple(sorted(set(OBJ[prop].get(n, ())) | set(cats)))


more('C04', ('observe_on', 'subscribe_on', 'timeout', 'debounce'), ('events',))
more('C05', SCHED, ('cut',))
more('C06', SCHED, ('upstream', 'threads'))
more('C07', SCHED, ('lock', 'spin', 'panic'))
more('C09', ('observe_on', 'subscribe_on'), ('sched', 'events', 'cut', 'panic', 'upstream'))
more('C09', ('AsyncFunctionQueue', 'schedulers'), ('queue', 'spin'))
more('C14', SCHED, ('shared', 'sched'))
more('C15', SCHED, ('threads', 'spin', 'upstream', 'panic'))
more('C15', ('AsyncFunctionQueue', 'schedulers'), ('queue', 'spin'))
more('C15', ('StreamController',), ('events', 'upstream'))
more('C15', ('Observer/threads',), ('upstream',))
more('C16', ('interval', 'timer', 'timeout', 'debounce'), ('time', 'events', 'sched', 'cut', 'panic'))
more('C17', SCHED, ('leak',))
more('C18', ('to_vec',), ('future', 'lock', 'panic'))
more('C07', ('to_vec',), ('lock',))
more('C04', ('to_vec',), ('future',))
MEM = ('BehaviorSubject', 'ReplaySubject', 'AsyncSubject')
more('C06', MEM, ('upstream',))
more('C07', MEM, ('lock', 'spin', 'panic'))
more('C10', MEM, ('events', 'panic', 'upstream', 'race'))
more('C12', MEM[:2], ('events', 'race', 'upstream'))
more('C13', ('ReplaySubject',), ('hooks', 'events'))
more('C17', MEM, ('leak', 'upstream'))
CONN = ('publish', 'ref_count', 'replay', 'ref_count/threads', 'replay/threads')
more('C13', CONN, ('events', 'hooks', 'panic', 'upstream', 'race'))
more('C06', CONN, ('upstream',))
more('C07', CONN, ('lock', 'spin', 'panic'))
more('C17', CONN, ('leak',))
for _p in ('C02', 'C03', 'C04', 'C05', 'C10', 'C12', 'C13', 'C18'):
    more(_p, ('handles',), ('events', 'panic'))
more('C04', ('RxError',), ('events', 'panic'))
more('C02', ('Something',), ('events', 'panic'))
more('C04', ('Something',), ('events', 'panic'))
OPTH = ('merge/threads', 'flat_map/threads', 'zip/threads', 'take/threads', 'amb/threads')
more('C11', OPTH, ('race', 'panic'))
more('C07', OPTH, ('lock', 'spin', 'panic'))
SELECT['C16'] = ['delay', 'sample']
CONS = ['merge', 'flat_map', 'zip', 'concat', 'amb']
SELECT['C11'] = CONS

# categories of obligations each property is made of
CATS = {
    'C01': ('events', 'panic'),
    'C02': ('events', 'panic', 'cut'),
    'C03': ('events', 'panic', 'cut'),
    'C04': ('events', 'panic', 'cut'),
    'C05': ('cut', 'upstream'),
    'C06': ('upstream', 'spin'),
    'C07': ('lock', 'spin'),
    'C10': ('events', 'panic'),
    'C11': ('events', 'panic', 'cut'),
    'C13': ('events', 'panic', 'upstream'),
    'C14': ('shared',),
    'C16': ('events', 'time', 'panic'),
    'C17': ('leak',),
}


def tasks(prop, tier):
    return [i for i in op_ids(SELECT.get(prop, ())) if tier == 'thorough' or i not in SLOW] + ['obj:' + n for n in OBJ.get(prop, ())]


def cat_counts(prop, tid, cat):
    if tid.startswith('obj:'):
        return cat in OBJ[prop].get(tid[4:], ())
    return cat in CATS.get(prop, ())


def cat_relevant(prop, tid, f):
    if not cat_counts(prop, tid, f['cat']):
        return False
    if tid.startswith('obj:'):
        return True
    name = tid.split(':')[1].split('/')[0]
    if prop == 'C04' and tid.startswith('op:') and name not in HANDLERS and name not in ('timestamp', 'delay'):
        return f['where'].startswith('error')
    if prop == 'C11' and f['where'].startswith('error'):
        return False        # about inputs that do not fail
    if prop == 'C01':
        return False        # decided by the Observer's contract alone
    return True


def family_of(tid):
    kind, _, name = tid.partition(':')
    if kind in ('create', 'util'):
        return 'create' if kind == 'create' else name
    if kind == 'obj':
        return name.replace('/', '-')
    return name.partition('/')[0]


SBJ = ['plain', 'behavior', 'replay', 'async']
CON = ['publish', 'ref_count', 'creplay']
FAM_UN = list(gen.UNARY)
FAM_MULTI = gen.NARY + gen.BIN + ['flat_map']


def families(prop):
    al = FAM_UN + FAM_MULTI + ['on_error_resume_next', 'create', 'ready_set_go'] + SBJ + CON
    return {
        'C01': al, 'C04': al, 'C05': al, 'C06': al, 'C07': al, 'C17': al,
        'C02': [f for f in FAM_UN if f not in ('retry', 'retry_when') and f not in TIMED] + ['create'],
        'C03': FAM_MULTI + ['ready_set_go'],
        'C10': SBJ, 'C13': CON, 'C11': CONS,
        'C14': FAM_UN + FAM_MULTI + ['on_error_resume_next', 'create', 'ready_set_go'],
    }.get(prop, [])


def family(fam, tier, rng):
    yield from family0(fam, tier, rng)
    yield from gen.reent_cases(fam, rng, 2500 if tier == 'thorough' else 250)


def family0(fam, tier, rng):
    deep = tier == 'thorough'
    if fam in gen.UNARY:
        return gen.unary_cases(fam, 4 if deep else 3)
    if fam == 'create':
        return gen.create_cases()
    if fam == 'ready_set_go':
        return gen.rsg_cases()
    if fam in SBJ:
        return gen.sbj_cases(fam, rng, 6000 if deep else 1200)
    if fam in CON:
        return gen.con_cases(fam, rng, 6000 if deep else 1000)
    if fam in gen.NARY + gen.BIN + ['flat_map', 'on_error_resume_next']:
        return gen.multi_cases(fam, rng, 4 if deep else 3, 1500 if deep else 300)
    return []


ASPECT = {
    'C01': ('grammar',), 'C02': ('events', 'panic', 'crash'), 'C03': ('events', 'panic', 'crash'),
    'C04': ('error',), 'C05': ('unsub',), 'C06': ('upstream', 'hang'), 'C07': ('hang',), 'C10': ('events', 'panic', 'crash', 'upstream'),
    'C13': ('events', 'panic', 'crash', 'upstream'), 'C17': ('leak',), 'C11': ('events', 'panic', 'crash'),
}


def relevant(prop, fam, case, j, real):
    """-> what of a bad run concerns this property (real is None: may it?)"""
    if prop == 'C14':
        if real is None:
            return j.get('second') or 'events' in j and oracle.many_scripts(case[1])
        if isinstance(real, str):
            return None
        d = oracle.independent(case, real)
        if d:
            return d
        if oracle.many_scripts(case[1]) and 'events' in j and sum(s[0] == 'sub' for s in case[2]) >= 1 and case[1][0] == 'retry' and fam != 'retry':
            return 'resubscription by retry: ' + j['events']
        return None
    if prop == 'C11' and any(e in replay.case_line(case) for e in ('(e ', '(error', 'err')):
        return None
    if prop == 'C04':
        if fam in HANDLERS or fam in ('retry', 'retry_when', 'on_error_resume_next'):
            return j.get('events')
        return j.get('error')
    if prop == 'C06' and 'hang' in j and not infinite(case[1]):
        return None
    for a in ASPECT[prop]:
        if a in j:
            return '%s: %s' % (a, j[a])
    return None


def infinite(x):
    return isinstance(x, (tuple, list)) and (x[:1] == ('repeat',) or any(infinite(y) for y in x))


def extra(prop, tier, seed):
    a, b = vrun.explore(prop, tier, seed), longrun.explore(prop)
    return {'violations': a['violations'] + b['violations'], 'evaluations': a['evaluations'] + b['evaluations'],
            'nontrivial': a['nontrivial'] + b['nontrivial'], 'samples': a['samples'] + b['samples'], 'coverage': dict(a['coverage'], **b['coverage'])}


LEVEL = {}
EXPLAIN = {}
TRUSTED = [
    'rustc front end: the MIR of the nightly compiler is the meaning of the source',
    'rxv/driver: MIR to JSON dump', 'rxv/engine: symbolic executor', 'z3',
]
ASSUME = [
    'machine integers are treated as mathematical integers (no wrap-around, no overflow panic)',
    'user callbacks return, do not panic, and are pure apart from re-entering the library',
    'HashMap, Vec, VecDeque, Arc, RwLock, Mutex, Option and iterators of std behave as their contracts in rxv/engine/prims.py say',
]
ASSUME_P = {}
