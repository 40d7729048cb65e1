"""Which method each contract machine belongs to."""
from .opv import OpTask
from .core import Unsupported
from ..spec import ops as O

PK = {'nat', 'pos', 'fn', 'pred', 'fn2', 'item', 'items', 'side', 'key', 'dur', 'obsfn', 'fnlist', 'errpred', 'errobsfn'}


def tasks(P, name, arities=(1, 2, 3, 4)):
    spec = O.OPS[name]
    m = P.method('Observable::' + name)
    pr = [(k, n) for n, k in spec.PARAMS.items() if k in PK]
    if 'arity' in spec.PARAMS.values():
        kn = [n for n, k in spec.PARAMS.items() if k == 'arity'][0]
        for k in arities:
            t = OpTask(P, name, spec, m, [('arity', kn), ('list', None)] + pr)
            t.k = k
            yield t
    elif getattr(spec, 'K', 1) == 2:
        yield OpTask(P, name, spec, m, [('obs', 1)] + pr)
    else:
        yield OpTask(P, name, spec, m, pr)



def create_tasks(P, name):
    spec = O.CREATE[name]
    yield OpTask(P, name, spec, P.method('%s::%s' % (name, name)), [(k, n) for n, k in spec.PARAMS.items()], ctor=True)


def util_tasks(P):
    yield OpTask(P, 'ready_set_go', O.ReadySetGo, P.method('ready_set_go::ready_set_go'), [('act', 'f'), ('recv', 'o')], ctor=True)
