"""Bounded retention: identical rounds of requests leave nothing more behind."""
import gc
import sys
import tracemalloc

import checks
import core
import fam_arith
import fam_csv
import gen as G
import runner

WARM, ROUNDS = 3, 8


REFUSED = ('pair A', 'type A', 'text', 'space', 'form', 'partition', 'operator', 'special')


def refuse(what, sp):
    import schubertpy as S
    if what == 'pair A':
        return sp.part2pair('S[1]')
    if what == 'type A':
        return sp.schub_type([2, 1])
    if what == 'text':
        return sp.qmult('S[2,1] +', 'S[1]')
    if what == 'space':
        return S.Grassmannian(5, 2)
    if what == 'form':
        return S.LinearCombination({})
    if what == 'partition':
        return S.Partition([1, 2])
    if what == 'operator':
        return S.LinearCombination('S[1]') - 'S[1]'
    return sp.qact('S[3,2]*q', 'S[1]')


class Retain:
    names = {'measure', 'refused'}

    def setup(self, scn, w):
        if scn.get('retain'):
            tracemalloc.start(1)
            w.extra['mods'] = None

    def teardown(self, scn, w):
        if scn.get('retain'):
            tracemalloc.stop()

    def call(self, op, w):
        if op['op'] == 'refused':      # whatever it does, over and over
            sp = w.space(op['sp'])

            def f():
                try:
                    return bool(refuse(op['what'], sp))
                except Exception:
                    return None
            return [], f
        return [], self.measure

    @staticmethod
    def measure():
        gc.collect()
        live = {}
        for o in gc.get_objects():
            t = type(o)
            if t.__module__.split('.')[0] == 'schubertpy':
                live[t.__name__] = live.get(t.__name__, 0) + 1
        snap = tracemalloc.take_snapshot()
        pre = core._PREFIXES
        n = size = 0
        for tr in snap.traces:
            if tr.traceback[0].filename.startswith(pre):
                n += 1
                size += tr.size
        del snap
        return [sum(live.values()), n, size]

    def check(self, exp, op, rec):
        return None

    def check_exc(self, exp, op, rec):
        return None if runner.injected(rec) else 'raised %s: %s %s' % (rec['exc'], rec['msg'], rec.get('at'))

    def judge_final(self, scn, o, exp):
        if not scn.get('retain'):
            return []
        ms = [o['ops'][op['id']]['v'] for op in scn['threads'][0]
              if op['op'] == 'measure' and o['ops'].get(op['id'], {}).get('s') == 'ok']
        ms = [[x[1] for x in m[1]] for m in ms][-ROUNDS:]
        if len(ms) < ROUNDS:
            return []
        # which requests were answered in each round must be the same each time
        for i, what in enumerate(('live objects', 'memory blocks', 'bytes')):
            c = [m[i] for m in ms]
            h = len(c) // 2
            if all(a <= b for a, b in zip(c, c[1:])) and c[0] < c[h - 1] < c[-1] and self.steady(c):
                return [dict(cls='value', op=None, kind='retention',
                             msg='%s held after identical rounds of requests keep growing: %s' % (what, c))]
        return []

    @staticmethod
    def steady(c):
        """Growth does not die down."""
        h = len(c) // 2
        a, b = c[h - 1] - c[0], c[-1] - c[h]
        return b * 3 >= a


runner.FAMILIES.append(Retain())


def session(gen):
    r = gen.rng
    sps = [gen.add_space(gen.spec({'tiny': 3, 'small': 3})) for _ in range(r.choice([1, 1, 2]))]
    kinds = dict(G.ALL_KINDS)
    for k in r.sample(sorted(kinds), 5):
        kinds[k] *= 6
    clean, block = [], []
    for _ in range(r.randint(1, 4)):
        sp = r.choice(sps)
        k = gen.pick(kinds)
        if k == 'qmult_rh' and (gen.ring(sp).t != 'A' or gen.spaces[sp]['spec'][2] > 6):
            k = 'qmult'
        o = dict(gen.make(k, sp), keep=False)
        clean.append(o)
        if r.random() < .4:
            o = dict(o, fault=gen.fault(o))
        block.append(o)
    extra = {}
    if r.random() < .5:
        block = block[:2]
        clean = clean[:2]
        if r.random() < .3:
            extra['files'] = {'a.csv': [fam_csv.table_rows(gen, gen.ring(0)), 0]}
            extra['files']['b.csv'] = [extra['files']['a.csv'][0], r.randrange(1, 10**6)]
        else:
            extra['stdout'] = 1
        for _ in range(r.randint(1, 4)):
            o = other(gen, extra)
            clean.append(o)
            if r.random() < .3:
                o = dict(o, fault={'exc': r.choice(['KeyboardInterrupt', 'MemoryError', 'SimTimeout']),
                                   'at': int(2 ** r.uniform(0, 9))})
            block.append(o)
    if r.random() < .3:                       # each time from threads that did not exist before
        for o in block:
            if r.random() < .7:
                o['fresh'] = 1
    ops = []

    def put(bs):
        for o in bs:
            ops.append(dict(o, id=gen.nid))
            gen.nid += 1
    put(clean)
    for _ in range(WARM):
        put(block)
    for _ in range(ROUNDS):
        put(block)
        ops.append(dict(gen.op('measure'), keep=False))
    # distinct ids in order
    for i, o in enumerate(ops):
        o['id'] = i
    return gen.scenario([ops], retain=1, **extra)


def other(gen, extra):
    """A request which is no question to a space."""
    r = gen.rng
    g = gen.ring(0)
    k = r.choice(['refused', 'refused', 'schurpol', 'lc_bin', 'reread', 'expansion', 'apply', 'table', 'qtable'] +
                 (['csvcmp'] * 5 if 'files' in extra else ['draw', 'print_partition', 'yd', 'latex', 'lcdraw']))
    p = sorted((r.randint(1, 4) for _ in range(r.randint(0, 3))), reverse=True)
    if k in ('table', 'qtable') and len(g.classes) > 6:
        k = 'refused'
    if k == 'refused':
        return dict(gen.op(k, 0, what=r.choice(REFUSED)), keep=False)
    if k == 'schurpol':
        return dict(gen.op(k, p=p[:2], n=r.choice([2, 3])), keep=False)
    if k == 'lc_bin':
        return dict(gen.op(k, bin=r.choice(['add', 'sub', 'mul']), a=gen.pack(fam_arith.any_poly(gen, g), ['lc']),
                           b=gen.pack(fam_arith.any_poly(gen, g), ['lc'])), keep=False)
    if k == 'reread':
        return dict(gen.op(k, a=gen.pack(fam_arith.any_poly(gen, g))), keep=False)
    if k == 'expansion':
        return dict(gen.op(k, a=gen.pack(fam_arith.linear(gen, g)), q=True), keep=False)
    if k == 'apply':
        return dict(gen.op(k, a=gen.pack(fam_arith.linear(gen, g)), map=[[list(gen.lam(g)), list(gen.lam(g))]]), keep=False)
    if k in ('table', 'qtable'):
        return dict(gen.op(k, 0), keep=False)
    if k == 'csvcmp':
        return dict(gen.op(k, f1='a.csv', f2=r.choice(['b.csv', 'b.csv', 'none.csv'])), keep=False)
    if k == 'lcdraw':
        return dict(gen.op(k, a=gen.pack(fam_arith.linear(gen, g), ['str', 'lc']), q=True), keep=False)
    o = gen.op(k, p=p)
    if k == 'latex':
        o['alone'] = True
    return dict(o, keep=False)


checks.check('C20', session, ['value'], ['retention'], thorough=5000, knobs=False, minimise=False)
