"""The registered checks: which workloads, which violations count."""
import gen as G

LIVE = {'no-progress', 'deadlock'}


def v(kinds, tiers, nops, **k):
    return lambda g: G.value_session(g, kinds, tiers, nops, **k)


SM = {'tiny': 3, 'small': 4, 'mid': 2, 'large': .4, 'huge': .4}
SML = {'tiny': 2, 'small': 3, 'mid': 4, 'large': 3, 'huge': 2}

CHECKS = {}


QUICK = dict(C01=420, C02=1400, C03=420, C04=1500, C05=280, C06=1000, C07=1500, C08=1200, C09=1800, C10=2200, C11=4500, C12=1100, C13=1200, C14=400, C15=900, C16=600, C17=900, C18=2400, C19=10000, C20=280, C21=8000, C22=2000, C23=4000, C25=3000, C26=5000, C27=1500)


def check(pid, gen, classes, kinds=None, alone=False, thorough=20000, **k):
    CHECKS[pid] = dict(pid=pid, gen=gen, classes=set(classes) | LIVE, kinds=kinds and set(kinds),
                       alone=alone, quick=QUICK[pid], thorough=thorough, **k)


check('C01', v({'qmult': 8, 'qtoS': 2, 'qact': 1}, SM, (4, 9)), ['value'], ['qmult', 'qtoS', 'qact'])
check('C02', v({'mult': 8, 'toS': 2, 'act': 1}, SM, (4, 9)), ['value'], ['mult', 'toS', 'act'])
check('C03', v({'qpieri': 3, 'pieri': 2}, SML, (30, 60), noise=.05), ['value'], ['qpieri', 'pieri'])
check('C04', v({'qgiambelli': 3, 'giambelli': 2}, SM, (4, 10), noise=.1), ['value'], ['qgiambelli', 'giambelli'])
check('C05', v({'qmult_rh': 1}, {'tiny': 4, 'small': 5, 'mid': .5}, (4, 9), noise=.1, cls=('Gr',)), ['value'], ['qmult_rh'])
check('C06', v({'dualize': 1}, SML, (15, 30), noise=.1), ['value'], ['dualize'])
check('C07', v({'part2index': 2, 'index2part': 2, 'part2pair': 2, 'pair2part': 2, 'type_swap': 2, 'miami_swap': 1,
                'schub_type': 1}, SML, (15, 30), noise=.08), ['value'],
      ['part2index', 'index2part', 'part2pair', 'pair2part', 'type_swap', 'miami_swap', 'schub_type'])
check('C08', v({'schub_classes': 2, 'generators': 2, 'point_class': 2, 'degree_q': 1, 'get_type_data': 1, 'str': 1},
               SML, (8, 16), noise=.15), ['value', 'desc'],
      ['schub_classes', 'generators', 'point_class', 'degree_q', 'get_type_data', 'str', 'describe'])
check('C09', G.faults_session, ['value', 'desc'], alone=True)
check('C10', G.threads_session, ['value', 'desc'], alone=True)
check('C11', G.isolation_session, ['value', 'desc'], alone=True)
check('C12', G.poke_session, ['argmut', 'resmut', 'value'], alone=True)

# the memo sizes of the code under test, by hash-seed group (0: as shipped)
CACHE = [0, 0, 0, 0, 0, 0, 48, 12]
NGROUPS = 8


def families():
    """Extra operation families; imported here so that they register."""
    import importlib
    import os
    d = os.path.dirname(os.path.abspath(__file__))
    for m in sorted(os.listdir(d)):
        if m.startswith('fam_') and m.endswith('.py'):
            importlib.import_module(m[:-3])
