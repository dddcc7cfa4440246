"""Schur polynomials."""
import functools

import checks
import runner


@functools.lru_cache(None)
def schur(lam, n):
    """{exponents: coefficient} by branching: strip a horizontal strip of x_n."""
    if not lam:
        return {(0,) * n: 1}
    if len(lam) > n:
        return {}
    out = {}

    def strips(i, mu):
        if i == len(lam):
            yield tuple(mu)
            return
        low = lam[i + 1] if i + 1 < len(lam) else 0
        for x in range(low, lam[i] + 1):
            yield from strips(i + 1, mu + [x])
    for mu in strips(0, []):
        k = sum(lam) - sum(mu)
        m = tuple(x for x in mu if x)
        for e, c in schur(m, n - 1).items():
            out[e + (k,)] = out.get(e + (k,), 0) + c
    return out


class Pol:
    names = {'schurpol'}

    def call(self, op, w):
        import schubertpy as S
        a = [S.Schur(list(op['p']))]
        if 'sh' in op:
            a = [w.extra.setdefault('shared', {}).setdefault(op['sh'], a[0])]
        return a, lambda: a[0].to_polinomial_str(op['n'])

    def value(self, r):
        import sympy as sp
        if not isinstance(r, str) or '_' in r or '**' in r:
            return ['bad', repr(r)[:200]]
        xs = sp.symbols('x1:13')
        p = sp.Poly(sp.sympify(r.replace('^', '**')), *xs)
        return ['pol', sorted([list(e), int(c)] for e, c in p.terms() if c)]

    def check(self, exp, op, rec):
        lam = tuple(x for x in op['p'] if x)
        want = ['pol', sorted([list(e) + [0] * (12 - op['n']), c] for e, c in schur(lam, op['n']).items())]
        if rec['v'] != want:
            return 'got %s, expected %s' % (rec['v'], want)
        return None


runner.FAMILIES.append(Pol())


def session(gen):
    r = gen.rng
    ops = []
    for _ in range(r.randint(4, 12)):
        n = r.choice([1, 2, 2, 3, 3, 4, 5])
        m, k = r.choice([(3, 2), (2, 3), (4, 2), (2, 4), (3, 3), (5, 1)])
        p = sorted((r.randint(1, m) for _ in range(r.randint(0, k))), reverse=True)
        if n > 3 and sum(p) > 6:
            n = 3
        if r.random() < .08:        # many variables
            n = r.choice([6, 7, 9, 10, 11, 12])
            p = r.choice([[], [1], [1, 1], [2], [2, 1], [1, 1, 1], [3]] + ([[1] * 10, [1] * 9] if n > 8 else []))
        elif r.random() < .04:
            n, p = 2, r.choice([[9], [11], [10, 4], [12, 12], [15, 1], [13, 11]])
        if r.random() < .15:
            p = p + [0]
        o = gen.op('schurpol', p=p, n=n)
        if ops and r.random() < .5:       # the same object again, perhaps in another thread
            x = r.choice(ops)
            if n < 6 and x['n'] < 6 and (sum(x['p']) <= 6 or n <= 2) and (sum(x['p']) < 12 or n <= 2):
                x.setdefault('sh', x['id'])
                o.update(p=x['p'], sh=x['sh'])
        if r.random() < .2:
            ops.append(dict(o, fault={'exc': r.choice(['KeyboardInterrupt', 'MemoryError', 'SimTimeout', 'RecursionError']),
                                      'at': r.randrange(1, 300)}))
            o = dict(o, id=gen.nid)
            gen.nid += 1
        ops.append(o)
    if r.random() < .4:
        ops.append(dict(r.choice(ops), id=gen.nid))
        ops[-1].pop('fault', None)
        gen.nid += 1
    return gen.scenario(gen.split(ops, r.choices([1, 2, 3], [.4, .35, .25])[0]))


checks.check('C22', session, ['value', 'argmut', 'resmut'], Pol.names, thorough=30000)
