"""Creation of spaces, possible and impossible ones."""
from decimal import Decimal
from fractions import Fraction

import checks
import gen as G
import runner

KINDS = {'Gr': 'Grassmannian', 'IG': 'IsotropicGrassmannian', 'OG': 'OrthogonalGrassmannian'}
ERRORS = {'TypeError', 'ValueError'}


def param(p):
    t, v = p
    if t == 'int':
        return v
    return {'float': float, 'str': str, 'none': lambda x: None, 'list': lambda x: [int(x)], 'fraction': Fraction,
            'decimal': Decimal, 'complex': complex}[t](v)


def possible(kind, m, n):
    if m[0] != 'int' or n[0] != 'int':
        return False
    m, n = m[1], n[1]
    if m < 0 or n < 0:
        return False
    if kind == 'Gr':
        return m <= n
    return m <= n // 2 and (kind == 'OG' or n % 2 == 0)


class Spaces:
    names = {'newspace'}

    def call(self, op, w):
        import schubertpy as S
        cls = getattr(S, KINDS[op['fam']])
        a = [param(op['m']), param(op['n'])]

        def f():
            g = cls(*a)
            return [list(g.get_type_data()), str(g)]
        return a, f

    def value(self, r):
        return ['space', [str(x) for x in r[0]], r[1]]

    def check(self, exp, op, rec):
        who = '%s(%r, %r)' % (KINDS[op['fam']], param(op['m']), param(op['n']))
        if not possible(op['fam'], op['m'], op['n']):
            return '%s was accepted: %s' % (who, rec['v'])
        m, n = op['m'][1], op['n'][1]
        t = {'Gr': 'A', 'IG': 'C', 'OG': 'BD'[n % 2 == 0]}[op['fam']]
        if rec['v'][0] != 'space' or [rec['v'][1][0]] + rec['v'][1][3:6] != [t, op['fam'], str(m), str(n)]:
            return '%s is %s' % (who, rec['v'])
        if '%s(%d,%d)' % (op['fam'], m, n) not in rec['v'][2].replace(' ', ''):
            return '%s is described as %r' % (who, rec['v'][2])
        return None

    def check_exc(self, exp, op, rec):
        if runner.injected(rec):
            return None
        if possible(op['fam'], op['m'], op['n']):
            return 'refused: %s %s' % (rec['exc'], rec['msg'])
        if rec['exc'] not in ERRORS:
            return 'failed with %s %s and was not refused' % (rec['exc'], rec['msg'])
        return None


runner.FAMILIES.append(Spaces())


def numbers(r, kind):
    """Parameters near the edge between possible and impossible."""
    n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 20, 21, 64, 101])
    if kind == 'IG' and r.random() < .7:
        n += n % 2
    top = n if kind == 'Gr' else n // 2
    m = r.choice([top, top, top + 1, top + 1, top - 1, top + 2, 0, 1, n, n + 1, 2 * n, -1, -n, r.randint(0, n)])
    if r.random() < .08:
        n = r.choice([-1, -2, -n, 0 if kind != 'OG' or m > 0 else -2])
    return m, n


def session(gen):
    r = gen.rng
    sps = [gen.add_space(gen.spec({'tiny': 3, 'small': 2})) for _ in range(2)]
    ops, seen = [], []
    for _ in range(r.randint(6, 20)):
        if r.random() < .06:
            ops.append(gen.make(r.choice(['qpieri', 'dualize', 'point_class', 'qmult']), r.choice(sps), small=True))
            continue
        if seen and r.random() < .35:      # the same again, or something close to it
            o = dict(r.choice(seen), id=gen.nid)
            gen.nid += 1
            u = r.random()
            if u < .25:
                o['fam'] = r.choice(sorted(KINDS))
                if o['fam'] == 'OG' and o['n'] == ['int', 0] and o['m'] == ['int', 0]:
                    o['n'] = ['int', 2]
            elif u < .5:
                f = r.choice('mn')
                if o[f][0] == 'int':
                    o[f] = [r.choice(['float', 'fraction', 'decimal', 'str', 'complex', 'list']), o[f][1]]
            elif u < .6:
                o['m'], o['n'] = o['n'], o['m']
                if o['fam'] == 'OG' and o['n'] == ['int', 0] and o['m'] == ['int', 0]:
                    o['n'] = ['int', 2]
        else:
            kind = r.choice(sorted(KINDS))
            m, n = numbers(r, kind)
            o = gen.op('newspace', fam=kind, m=['int', m], n=['int', n])
            if r.random() < .12:
                f = r.choice('mn')
                o[f] = [r.choice(['float', 'fraction', 'decimal', 'str', 'none', 'list', 'complex']), o[f][1]]
                if o[f][0] == 'float' and r.random() < .3:
                    o[f][1] += .5
        o.pop('fault', None)
        if o['fam'] == 'OG' and o['n'] == ['int', 0]:
            o['n'] = ['int', 1]
        seen.append(o)
        if r.random() < .15:
            ops.append(dict(o, fault={'exc': r.choice(['KeyboardInterrupt', 'MemoryError', 'SimTimeout', 'RecursionError']),
                                      'at': r.randrange(1, 25)}))
            o = dict(o, id=gen.nid)
            gen.nid += 1
        ops.append(o)
    return gen.scenario(gen.split(ops, r.choices([1, 2, 3], [.4, .35, .25])[0]))


checks.check('C23', session, ['value'], Spaces.names, thorough=60000)
