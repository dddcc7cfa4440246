"""Input forms, arithmetic of combinations, printing and reading back."""
import random
from fractions import Fraction

import algebra
import checks
import gen as G
import poly
import runner

BIN = {'add': '+', 'sub': '-', 'mul': '*', 'pow': '**'}


def apply_bin(op, a, b):
    return a + b if op == 'add' else a - b if op == 'sub' else a * b if op == 'mul' else a ** b


class Arith:
    names = {'lc_bin', 'schur_bin', 'read', 'reread', 'expansion', 'forms', 'apply'}

    def call(self, op, w):
        import schubertpy as S
        k = op['op']
        if k in ('lc_bin', 'schur_bin'):
            a = [self.operand(op['a'], w), self.operand(op['b'], w)]
            return a, lambda: apply_bin(op['bin'], *a)
        if k == 'read':
            a = [algebra.build(op['a'], w)]
            return a, lambda: S.LinearCombination(a[0])
        if k == 'reread':
            a = [algebra.build(op['a'], w)]

            def f():
                x = S.LinearCombination(a[0])
                y = S.LinearCombination(str(x))
                z = S.LinearCombination(repr(y))
                return [x, y, z]
            return a, f
        if k == 'expansion':
            a = [algebra.build(op['a'], w)]

            def f():
                x = a[0] if isinstance(a[0], S.LinearCombination) else S.LinearCombination(a[0])
                return x.schur_expansion(include_q=op['q'])
            return a, f
        if k == 'apply':
            a = [algebra.build(op['a'], w)]
            d = dict((tuple(x), y) for x, y in op['map'])

            def f():
                x = a[0] if isinstance(a[0], S.LinearCombination) else S.LinearCombination(a[0])
                return x.apply(lambda p: S.Schur(list(d.get(tuple(p), p))))
            return a, f
        if k == 'forms':
            o1, o2 = dict(op['inner'], sp=op['sp']), dict(op['inner2'], sp=op['sp'])
            a1, f1 = algebra.call(o1, w)
            a2, f2 = algebra.call(o2, w)
            return [a1, a2], lambda: [f1(), f2()]
        raise AssertionError(k)

    def operand(self, o, w):
        import schubertpy as S
        import sympy as sp
        if 'num' in o:
            return sp.Integer(o['num']) if o.get('sym') else o['num']
        if o.get('form') == 'sym':
            return sp.Symbol(o['name'].translate(algebra._ENC))
        return algebra.build(o, w)

    def value(self, r):
        import sympy as sp
        import schubertpy as S
        if isinstance(r, sp.Basic):
            return ['expr', algebra.nf_json(poly.from_sympy(r))]
        if isinstance(r, tuple):
            r = [r]
        if isinstance(r, list) and r and isinstance(r[0], tuple):
            out = []
            for c, p in r:
                e = c.expr if isinstance(c, S.LinearCombination) else sp.sympify(c)
                out.append([algebra.nf_json(poly.from_sympy(e)), list(p)])
            return ['expansion', out]
        if isinstance(r, list):
            return ['list', [self.value(x) for x in r]]
        if isinstance(r, S.Schur):
            return ['lc', algebra.nf_json({((poly.name(r.p), 1),): 1})]
        return algebra.value(r)

    @staticmethod
    def nf(o):
        if 'num' in o:
            return {(): o['num']} if o['num'] else {}
        if o.get('form') == 'sym':
            return {((o['name'], 1),): 1}
        return algebra.nf_load(o['nf'])

    def check(self, exp, op, rec):
        v = rec['v']
        k = op['op']
        if k in ('lc_bin', 'schur_bin'):
            a, b = self.nf(op['a']), self.nf(op['b'])
            if op['bin'] == 'add':
                e = poly.padd(a, b)
            elif op['bin'] == 'sub':
                e = poly.padd(a, {m: -c for m, c in b.items()})
            elif op['bin'] == 'mul':
                e = poly.pmul(a, b)
            else:
                e = poly.ppow(a, op['b']['num'])
            e = algebra.nf_json(poly.canon(e))
            if v[0] not in ('lc', 'expr') or v[1] != e:
                return 'got %s, expected %s' % (self.show(v), poly.show(algebra.nf_load(e)))
            if k == 'lc_bin' and v[0] != 'lc':
                return 'is not a linear combination'
            return None
        if k == 'read':
            e = ['lc', op['a']['nf']]
            return None if v == e else 'got %s, expected %s' % (self.show(v), poly.show(algebra.nf_load(e[1])))
        if k == 'reread':
            e = ['lc', op['a']['nf']]
            for x in v[1] if v[0] == 'list' else [v]:
                if x != e:
                    return 'got %s, expected %s' % (self.show(x), poly.show(algebra.nf_load(e[1])))
            return None
        if k == 'apply':
            d = dict((tuple(x), y) for x, y in op['map'])
            e = {}
            for m, c in algebra.nf_load(op['a']['nf']).items():
                mm = {}
                for s, x in m:
                    if s[0] == 'S':
                        s = poly.name(d.get(tuple(algebra.lam_of(s)), algebra.lam_of(s)))
                    mm[s] = mm.get(s, 0) + x
                e = poly.padd(e, {tuple(sorted(mm.items())): c})
            e = ['lc', algebra.nf_json(poly.canon(e))]
            return None if v == e else 'got %s, expected %s' % (self.show(v), poly.show(algebra.nf_load(e[1])))
        if k == 'expansion':
            if op['q'] and not self.supported(op):
                return None if v[0] == 'expansion' and self.refusable(op) else 'got %r' % (v,)
            if not op['q'] and not self.supported(op, False):
                return 'got %r' % (v,)
            want = []
            for m, c in algebra.nf_load(op['a']['nf']).items():
                qs = tuple((s, x) for s, x in m if s[0] == 'q')
                lam = [s for s, x in m if s[0] == 'S']
                if qs and not op['q']:
                    continue
                want.append([algebra.nf_json({qs: c}), algebra.lam_of(lam[0]) if lam else []])
            if v[0] == 'list' and v[1] == []:
                v = ['expansion', []]
            if v[0] != 'expansion':
                return 'got %r' % (v,)
            got = [list(x) for x in v[1] if x[0] or want]      # zero is no terms, or zero times the unit
            if sorted(map(repr, got)) != sorted(map(repr, want)):
                return 'got %r, expected %r' % (got, want)
            if [x[1] for x in got] != sorted(x[1] for x in got):
                return 'terms not in order of their partitions: %r' % (got,)
            return None
        if k == 'forms':
            a, b = v[1]
            if op['inner']['op'] in ('giambelli', 'qgiambelli') or a == b:
                return None
            return '%s against %s: %s, %s' % (runner.brief(dict(op['inner'], id=op['id'])), runner.brief(dict(op['inner2'], id=op['id'])),
                                              self.show(a), self.show(b))

    def supported(self, op, q=True):
        """Every term a multiple of a class, or a constant (with q False: every term without q)."""
        return all(sum(x for s, x in m if s[0] == 'S') == 1 or not m for m in algebra.nf_load(op['a']['nf'])
                   if q or not any(s[0] == 'q' for s, x in m))

    def refusable(self, op):
        """Terms of powers of q alone may be refused or be read as multiples of the unit."""
        return all(sum(x for s, x in m if s[0] == 'S') <= 1 for m in algebra.nf_load(op['a']['nf']))

    def check_exc(self, exp, op, rec):
        if runner.injected(rec):
            return None
        if op['op'] == 'expansion' and not self.supported(op):
            return None if rec['exc'] == 'ValueError' else 'raised %s and not a ValueError: %s' % (rec['exc'], rec['msg'])
        return 'raised %s: %s %s' % (rec['exc'], rec['msg'], rec.get('at'))

    @staticmethod
    def show(v):
        return poly.show(algebra.nf_load(v[1])) if v[0] in ('lc', 'expr') else repr(v)


runner.FAMILIES.append(Arith())


# ------------------------------------------------------------------ workload
def any_poly(gen, g, consts=True, deg=2):
    """An arbitrary polynomial in Schubert symbols and quantum parameters."""
    r = gen.rng
    nf = {}
    for _ in range(r.randint(1, 4)):
        m = {}
        for _ in range(r.choices([0, 1, 2], [.1 if consts else 0, .7, .2])[0] if deg > 1 else 1):
            s = poly.name(gen.lam(g))
            m[s] = m.get(s, 0) + r.choice([1, 1, 1, 2])
        if r.random() < .25:
            s = r.choice(['q', 'q', 'q1', 'q2'])
            m[s] = m.get(s, 0) + r.choice([1, 1, 2, 3])
        nf = poly.padd(nf, {tuple(sorted(m.items())): gen.coef()})
    return poly.canon(nf) or {((poly.name(()), 1),): 1}


def linear(gen, g, consts=False):
    r = gen.rng
    nf = {}
    for _ in range(r.randint(1, 4)):
        m = [(poly.name(gen.lam(g)), 1)]
        if r.random() < .25:
            m.append((r.choice(['q', 'q1', 'q2']), r.choice([1, 2])))
        nf = poly.padd(nf, {tuple(sorted(m)): gen.coef()})
    return poly.canon(nf) or {((poly.name(()), 1),): 1}


SHARED = {'lc_bin': 'ab', 'apply': 'a', 'expansion': 'a', 'reread': 'a'}
FORMOPS = ['qmult', 'mult', 'qpieri', 'pieri', 'dualize', 'part2index', 'part2pair', 'type_swap', 'miami_swap', 'qtoS',
           'toS', 'schub_type', 'qmult_rh', 'pair2part', 'index2part', 'act', 'qact']


def session(gen):
    r = gen.rng
    sps = [gen.add_space(gen.spec({'tiny': 3, 'small': 3, 'large': .5, 'huge': 1})) for _ in range(r.choice([1, 2]))]
    ops, kept = [], []
    for _ in range(r.randint(6, 16)):
        sp = r.choice(sps)
        g = gen.ring(sp)
        k = gen.pick({'lc_bin': 6, 'schur_bin': 2, 'read': 2, 'reread': 3, 'expansion': 2, 'forms': 4, 'apply': 2})
        if k == 'lc_bin':
            b = r.choice(sorted(BIN))
            a = gen.pack(any_poly(gen, g), ['lc'])
            if b == 'pow':
                if len(a['nf']) > 2:
                    a = gen.pack(linear(gen, g), ['lc'])
                o = {'num': r.randint(0, 3), 'sym': r.random() < .3}
            else:
                u = r.random()
                if u < .5:
                    o = gen.pack(any_poly(gen, g) if r.random() < .95 else {}, ['lc'])
                elif u < .7:
                    o = {'num': r.choice([0, 1, -1, 2, 5, -7]), 'sym': r.random() < .4}
                elif u < .85:
                    o = {'form': 'sym', 'name': r.choice(['q', 'q1', poly.name(gen.lam(g))])}
                else:
                    o = gen.pack(any_poly(gen, g), ['expr'])
                if ('num' in o or o.get('form') == 'sym') and r.random() < .5:
                    a, o = o, a        # number or symbol on the left
            op = gen.op(k, bin=b, a=a, b=o)
        elif k == 'schur_bin':
            b = r.choice(['add', 'mul', 'pow'])
            a = gen.class_op(gen.lam(g), ['schur'])
            if b == 'pow':
                o = {'num': r.randint(0, 3)}
            else:
                o = r.choice([gen.class_op(gen.lam(g), ['schur']), {'num': r.choice([0, 1, 3, -2])},
                              gen.pack(linear(gen, g) if r.random() < .7 else {}, ['lc'])])
                if 'num' in o and r.random() < .5:
                    a, o = o, a
            op = gen.op(k, bin=b, a=a, b=o)
        elif k in ('read', 'reread'):
            op = gen.op(k, a=gen.pack(any_poly(gen, g)))
            if len(op['a']['nf']) > 1 and r.random() < .3:
                op['a']['fac'] = 1
        elif k == 'expansion':
            nf = linear(gen, g)
            if r.random() < .15:
                nf = poly.padd(nf, {(): r.choice([1, -1, 2, 7, Fraction(1, 2), Fraction(-7, 3)])})
            if r.random() < .1:
                nf = {m: c * Fraction(1, 2) for m, c in nf.items()}
            if r.random() < .1:     # what it does not support it has to refuse
                x = poly.name(gen.lam(g))
                nf = poly.padd(nf, r.choice([{(('q', 2),): 1}, {((x, 2),): 1}, {(('q', 1),): 3}, {((x, 3),): -2}]))
            op = gen.op(k, a=gen.pack(nf), q=bool(r.random() < .6))
        elif k == 'apply':
            nf = linear(gen, g)
            op = gen.op(k, a=gen.pack(nf), map=[[list(gen.lam(g)), list(gen.lam(g))] for _ in range(3)] +
                        [[algebra.lam_of(s), list(gen.lam(g))] for m in nf for s, _ in m if s[0] == 'S'][:2])
        else:
            kk = r.choice(FORMOPS)
            if kk == 'qmult_rh' and g.t != 'A':
                kk = 'qmult'
            o = gen.make(kk, sp, small=len(g.classes) > 28)
            if o['op'] == 'schub_type':
                forms = ['schur', 'list']
            else:
                forms = None
            p = dict(o)
            for f in ('a', 'b', 'e'):
                if isinstance(o.get(f), dict) and 'nf' in o[f]:
                    p[f] = gen.pack(algebra.nf_load(o[f]['nf']), forms if forms else None)
                    if kk == 'pair2part' and p[f]['form'] in ('schur',):
                        p[f]['form'] = 'str'
            for x in (o, p):
                x.pop('id'), x.pop('sp')
            op = gen.op('forms', sp, inner=o, inner2=p)
        if k in SHARED and r.random() < .5:     # the very object of an earlier operation
            mine = r.choice([x for x in SHARED[k] if 'nf' in op.get(x, {})] or [None])
            if mine and kept and r.random() < .6 and not (k == 'lc_bin' and op['bin'] == 'pow'):
                x = r.choice(kept)
                if k != 'expansion' or algebra.linear(algebra.nf_load(x['nf'])):
                    op[mine] = x
            elif mine and op[mine].get('form') in ('lc', 'lcsum', 'expr'):
                if k != 'lc_bin' or op[mine]['form'] == 'lc':
                    op[mine]['form'] = 'lc'
                    op[mine]['sh'] = r.randrange(1 << 20)
                    kept.append(op[mine])
        if r.random() < .12:
            f = dict(op, fault={'exc': r.choice(['KeyboardInterrupt', 'MemoryError', 'SimTimeout']), 'at': r.randrange(1, 60)})
            ops.append(f)
            op = dict(op, id=gen.nid)
            gen.nid += 1
        ops.append(op)
    return gen.scenario(gen.split(ops, r.choices([1, 2, 3], [.4, .4, .2])[0]))


checks.check('C15', session, ['value', 'argmut', 'resmut'], Arith.names, thorough=25000)
