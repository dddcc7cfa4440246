"""The enumerations and maps of partitions the spaces are built from."""
import functools
import itertools

import checks
import poly
import runner


@functools.lru_cache(None)
def inside(rows, cols):
    return [p for n in range(rows + 1) for p in itertools.combinations_with_replacement(range(cols, 0, -1), n)]


def strict(k, rows, cols):
    return [list(p) for p in inside(rows, cols) if all(a > b or a <= k for a, b in zip(p, p[1:]))]


def clip(p):
    p = list(p)
    while p and p[-1] == 0:
        p.pop()
    return p


def conj(p):
    return [sum(1 for x in p if x > i) for i in range(max(p, default=0))]


def contained(a, b):
    return len(a) <= len(b) and all(x <= y for x, y in zip(a, b))


class Blocks:
    names = {'all_kstrict', 'part_gen', 'part_conj', 'part_clip', 'part_len', 'skew_height', 'unique_schurs', 'symbol_text',
             'special_number', 'pair_round', 'padded'}

    def items(self, op, w):
        """The operand lists; some are the very same object each time."""
        d = w.extra.setdefault('lists', {})
        sh = op.get('sh')
        res = []
        for i, p in enumerate(op.get('p', [])):
            res.append(list(p) if sh is None else d.setdefault((sh, i), list(p)))
        return res

    def call(self, op, w):
        import schubertpy as S
        import schubertpy.qcalc as Q
        from schubertpy import schur
        from schubertpy.partition import skew_partition_height
        from schubertpy.utils import const, mix, kstrict
        k, a = op['op'], self.items(op, w)
        if k == 'all_kstrict':
            return a, lambda: kstrict.all_kstrict(*op['n'])
        if k == 'part_gen':
            return a, lambda: Q.part_gen(a[0])
        if k == 'part_conj':
            return a, lambda: Q.part_conj(a[0])
        if k == 'part_clip':
            return a, lambda: Q.part_clip(a[0])
        if k == 'part_len':
            return a, lambda: Q.part_len(a[0])
        if k == 'padded':
            return a, lambda: mix.padding_right(a[0], *op['n'])
        if k == 'skew_height':
            return a, lambda: skew_partition_height(*a)
        if k == 'unique_schurs':
            xs = [S.Schur(p) for p in a]
            return xs, lambda: schur.unique_schur_list(xs)
        if k == 'symbol_text':
            return a, lambda: [const.encode(op['t']), const.decode(const.encode(op['t']))]
        if k == 'pair_round':
            def f():
                x = Q.part2pair_inner(a[0], op['n'][0]).p
                return [[list(y) for y in x], list(Q.pair2part_inner(x).p)]
            return a, f
        sp = w.space(op['sp'])

        def num():
            s = sp.num2spec(op['n'][0])
            return [str(s), sp.spec2num(s), sp.spec2num(s.symbol())]
        return a, num

    def value(self, r):
        import schubertpy as S
        if isinstance(r, (list, tuple)) and any(isinstance(x, S.Schur) for x in r):
            return ['made', [list(x.p) for x in r]]
        if isinstance(r, int):
            return ['made', int(r)]
        return ['made', [x if isinstance(x, (int, str)) else list(x) for x in r]]

    def check(self, exp, op, rec):
        k, v, p = op['op'], rec['v'][1], op.get('p', [])
        if k == 'all_kstrict':
            want, v = sorted(strict(*op['n'])), sorted(map(list, v))
        elif k == 'part_gen':
            want, v = sorted(map(list, inside(len(p[0]), p[0][0]))), sorted(map(list, v))
        elif k == 'part_conj':
            want = conj(p[0])
        elif k == 'part_clip':
            want = clip(p[0])
        elif k == 'part_len':
            want = len(clip(p[0]))
        elif k == 'padded':
            want = p[0] + [op['n'][0]] * op['n'][1]
        elif k == 'skew_height':
            if not contained(*p):
                return '%s inside %s was accepted: %s' % (p[0], p[1], v)
            want = sum(1 for i, x in enumerate(p[1]) if x > (p[0] + [0] * 99)[i])
        elif k == 'unique_schurs':
            want = []
            for x in sorted(p):
                if x not in want:
                    want.append(x)
        elif k == 'symbol_text':
            if v[1] != op['t']:
                return '%s came back as %s' % (op['t'], v)
            return None if v[0].isalnum() else '%s is written %s, no name' % (op['t'], v[0])
        elif k == 'pair_round':
            kk = op['n'][0]
            low = [max(x - kk, 0) for x in p[0]]
            top = [sum(1 for x in p[0] if x > i) for i in range(kk)]
            zero = [0] if p[0] and p[0][-1] == 0 else []
            want = [[top, clip(low) + zero], p[0]]
        else:
            n = op['n'][0]
            want = [poly.name([n] if n > 0 else [-n, 0]), n, n]
            v = [v[0].replace(' ', '')] + v[1:]
        if v == want:
            return None
        s = lambda x: str(x) if len(str(x)) < 300 else str(x)[:300] + '...'
        if k in ('all_kstrict', 'part_gen'):
            return '%s: %d partitions, expected %d; missing %s, too many %s' % (
                op.get('n') or p, len(v), len(want), s([x for x in want if x not in v]),
                s([x for i, x in enumerate(v) if x not in want or x in v[:i]]))
        return '%s %s: got %s, expected %s' % (k, s(p or op['n']), s(v), s(want))

    def check_exc(self, exp, op, rec):
        if runner.injected(rec):
            return None
        if op['op'] == 'skew_height' and not contained(*op['p']) and rec['exc'] == 'ValueError':
            return None
        return 'raised %s: %s %s' % (rec['exc'], rec['msg'], rec.get('at'))


runner.FAMILIES.append(Blocks())
FAULTS = ['KeyboardInterrupt', 'MemoryError', 'SimTimeout', 'RecursionError']
LEN = {'all_kstrict': 900, 'part_gen': 500, 'part_conj': 60, 'unique_schurs': 30, 'pair_round': 60, 'special_number': 30}


def session(gen):
    r = gen.rng
    sp = gen.add_space(gen.spec({'tiny': 3, 'small': 4, 'mid': 1}))
    g = gen.ring(sp)
    ops, lists = [], []

    def part(rows=6, wide=7, zeros=.25):
        if lists and r.random() < .3:
            p = list(r.choice(lists))
            if len(clip(p)) <= rows and (not p or p[0] <= wide):
                return p if r.random() < zeros else clip(p)
        p = sorted((r.randint(1, wide) for _ in range(r.randint(0, rows))), reverse=True)
        if r.random() < zeros:
            p += [0] * r.choice([1, 1, 2, 4, 7])
        lists.append(p)
        return p

    for _ in range(r.randint(8, 24)):
        k = gen.pick({'all_kstrict': 4, 'part_gen': 2, 'part_conj': 2, 'part_clip': 1, 'part_len': 1, 'skew_height': 2, 'unique_schurs': 2,
                      'symbol_text': 1, 'special_number': 1.5, 'pair_round': 2, 'padded': 1, 'other': .5})
        if k == 'other':
            ops.append(gen.make(r.choice(['schub_classes', 'pieri', 'dualize', 'part2pair', 'generators']), sp, small=True))
            if ops[-1]['op'] == 'part2pair' and g.t == 'A':
                ops.pop()
            continue
        if k == 'all_kstrict':
            o = gen.op(k, n=[r.randint(0, 6), r.randint(1, 5), r.randint(1, 6)])
            if r.random() < .15:                # rows of two digits
                o['n'] = [r.randint(0, 13), r.randint(1, 3), r.randint(10, 13)]
        elif k == 'part_gen':
            o = gen.op(k, p=[[r.randint(1, 5)] * r.randint(1, 5)])
        elif k in ('part_conj', 'part_clip', 'part_len'):
            o = gen.op(k, p=[part()])
        elif k == 'padded':
            o = gen.op(k, p=[part()], n=[r.choice([0, 0, 1, 5]), r.randint(0, 4)])
        elif k == 'skew_height':
            b = clip(part())
            a = [r.randint(max(0, x - 2), x) for x in b]
            a = clip(sorted(a, reverse=True)) if r.random() < .8 else clip(part())
            o = gen.op(k, p=[a, b])
        elif k == 'unique_schurs':
            ps = [part(4, 12) for _ in range(r.randint(0, 7))]
            if ps and r.random() < .5:          # the same digits
                p = r.choice(ps)
                ps.append(p[:-2] + [p[-2] * 10 + p[-1]] if len(p) > 1 and p[-1] else p + [0] if r.random() < .5 else p)
            o = gen.op(k, p=[p for p in ps if p == sorted(p, reverse=True)])
        elif k == 'symbol_text':
            t = poly.name(part(wide=40))
            if r.random() < .3:
                t = 'S[%s,%s]' % (t[1:], poly.name(part())[1:])
            o = gen.op(k, t=t)
        elif k == 'pair_round':
            p, kk = part(), r.randint(1, 6)
            q = clip(p)
            if any(a == b > kk for a, b in zip(q, q[1:])):      # pairs belong to k-strict partitions
                continue
            if len(q) < len(p):                                 # the zero marks a type; it needs a row of k boxes
                p = q + [0] if kk in q else q
            o = gen.op(k, p=[p], n=[kk])
        else:
            n = r.randint(1, 9)
            o = gen.op(k, sp, n=[-n if g.t == 'D' and r.random() < .4 else n])
        if o.get('p') and r.random() < .4:
            old = [x for x in ops if x.get('p') == o['p'] and 'sh' in x]
            o['sh'] = old[0]['sh'] if old else r.randrange(1 << 20)
        elif k in ('all_kstrict', 'part_gen', 'part_conj', 'part_clip', 'unique_schurs', 'padded') and r.random() < .25:
            o['poke'] = 1                   # what the caller was given is the caller's to change
        if r.random() < .2:
            L = LEN.get(k, 20)
            ops.append(dict(o, fault={'exc': r.choice(FAULTS), 'at': int(L ** r.random())}))
            o = dict(o, id=gen.nid)
            gen.nid += 1
        ops.append(o)
        if r.random() < .3:                 # again
            ops.append(dict(o, id=gen.nid))
            gen.nid += 1
    return gen.scenario(gen.split(ops, r.choices([1, 2, 3], [.4, .35, .25])[0]))


checks.check('C26', session, ['value', 'argmut', 'resmut'], Blocks.names, thorough=40000)
