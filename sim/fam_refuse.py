"""Requests that cannot be answered."""
import checks
import gen as G
import poly
import runner

PLAIN = {'ValueError', 'TypeError'}
# things that are no combination of classes
THINGS = {'dict': {}, 'dict1': {'S[1]': 1}, 'none': None, 'tuple': (2, 1), 'set': {1}, 'bytes': b'S[1]', 'complex': 1j,
          'rising': [1, 2], 'negative': [2, -1], 'fraction': [1.5], 'floats': [2.0, 1.0], 'float': [1.0], 'word': ['a'], 'hole': [None, 1], 'nested': [[2], [1]], 'object': object,
          'func': len}
NOT_INDEX = ('dict', 'dict1', 'none', 'tuple', 'set', 'bytes', 'complex', 'object', 'func')
TEXTS = ['', ' ', '(S[1]', '*S[1]', 'S[1] S[2]', 'S[2,1] +', 'S[-1]', 'S[1.5]', 'S[2]+*S[1]', 'S[2]**', 'S[1])', ')', '2 3', 'S[2,1] S[1]', '(', '+', 'S[1]^']
OPERANDS = ('none', 'dict', 'object', 'list', 'text', 'set', 'schur')
SIGNS = ['-', '/', '', '**', '+*', 'add', None, 1]
NOSCHUR = ['S1', 'x', 'S(1)', 'S[1.5]', 'S["a"]', 'S{1}', 'S[1]+S[2]', '', 'S[1']
ONE = ('dualize', 'toS', 'qtoS', 'giambelli', 'qgiambelli', 'part2index', 'index2part', 'type_swap', 'miami_swap')
TWO = ('mult', 'qmult', 'act', 'qact')


def thing(n):
    v = THINGS.get(n)
    return {'object': lambda: object(), 'list': lambda: [1], 'text': lambda: 'S[1]', 'schur': None}.get(n, lambda: type(v)(v) if isinstance(v, (dict, list, set)) else v)()


class Refuse:
    names = {'refuse'}

    @staticmethod
    def combo(op, x, w):
        """A combination; some requests are put to the very same object."""
        import schubertpy as S
        d = w.extra.setdefault('combos', {})
        if op.get('sh') is None:
            return S.LinearCombination(x)
        if op['sh'] not in d:
            d[op['sh']] = S.LinearCombination(x)
        return d[op['sh']]

    def call(self, op, w):
        import schubertpy as S
        from schubertpy.utils.mix import SchurPol
        from schubertpy.partition import skew_partition_height
        k, x = op['what'], op['x']
        if k == 'lc':
            a = [thing(x)]
            return a, lambda: S.LinearCombination(a[0])
        if k == 'text':
            return [], lambda: S.LinearCombination(x)
        if k == 'schur':
            return [], lambda: S.Schur(x)
        if k == 'arith':
            l = self.combo(op, op['l'], w)
            y = S.Schur([1]) if x == 'schur' else thing(x)
            f = {'add': lambda: l + y, 'radd': lambda: y + l, 'sub': lambda: l - y, 'rsub': lambda: y - l, 'mul': lambda: l * y,
                 'rmul': lambda: y * l, 'pow': lambda: l ** y}[op['bin']]
            return [l, y], f
        if k == 'classes':
            s, y = S.Schur([2, 1]), thing(x)
            f = {'add': lambda: s + y, 'radd': lambda: y + s, 'mul': lambda: s * y, 'pow': lambda: s ** y, 'lt': lambda: s < y}[op['bin']]
            return [s, y], f
        if k == 'sign':
            l = self.combo(op, op['l'], w)
            return [l], lambda: l.is_operator(x)
        if k == 'expansion':
            l = self.combo(op, x, w)
            return [l], (l.draw_ascii_partition if op.get('draw') else l.schur_expansion)
        if k == 'schurpol':
            p = list(op['p'])
            return [p], lambda: SchurPol(x, p)
        if k == 'skew':
            a = [list(p) for p in x]
            return a, lambda: skew_partition_height(*a)
        if k == 'fine':                          # the same kind of request, a possible one
            return [x], lambda: [str(S.LinearCombination(x)), str(S.Partition(x))]
        sp = w.space(op['sp'])
        if k == 'operand':
            a = [thing(x)]
            if op['m'] in TWO:
                b = op.get('b', 'S[1]')
                a = [a[0], b] if op['first'] else [b, a[0]]
            elif op['m'] in ('qpieri', 'pieri'):
                a = [1] + a
            m = getattr(sp, op['m'])
            return a, lambda: m(*a, *([op['k']] if op['m'] == 'type_swap' else []))
        if k == 'special':
            return [], lambda: getattr(sp, op['m'])(x, op['b'])
        if k == 'number':
            y = S.Schur(x) if isinstance(x, list) else thing(x)
            return [y], lambda: sp.spec2num(y)
        if k == 'typed':                         # what only spaces of other types have
            return [], lambda: getattr(sp, op['m'])(x)
        raise KeyError(k)

    def value(self, r):
        return ['answer', repr(r)[:200]]

    def check(self, exp, op, rec):
        if op['what'] == 'fine':
            w = repr([poly.name(op['x']), str(op['x'])])
            return None if rec['v'][1] == w else 'got %s, expected %s' % (rec['v'][1], w)
        return 'was answered: %s' % rec['v'][1]

    def check_exc(self, exp, op, rec):
        if runner.injected(rec):
            return None
        k, e = op['what'], rec['exc']
        if k == 'fine':
            return 'raised %s: %s %s' % (e, rec['msg'], rec.get('at'))
        if e in ('SimTimeout', 'KeyboardInterrupt', 'MemoryError', 'RecursionError', 'SystemExit', 'GeneratorExit', 'ParseError', 'KeyError'):
            return 'ended with %s: %s' % (e, rec['msg'])
        free = k in ('text', 'schur', 'classes', 'typed') or k == 'special' and 'x' in op['x']
        if not free and e not in PLAIN:
            return 'ended with %s: %s, which is no refusal: %s' % (e, rec['msg'], rec.get('at'))
        return None


runner.FAMILIES.append(Refuse())


def session(gen):
    r = gen.rng
    tiers = {'tiny': 3, 'small': 4, 'mid': 1}
    sps = [gen.add_space(gen.spec(tiers)) for _ in range(r.choice([1, 1, 2]))]
    if r.random() < .4:
        for _ in range(60):
            s = gen.spec(tiers, ('OG',))
            if s[2] % 2 == 0:
                sps.append(gen.add_space(s))
                break
    ds = [i for i in sps if gen.ring(i).t == 'D']
    kinds = dict(G.ALL_KINDS)
    ops = []
    fav = r.sample(['lc', 'text', 'schur', 'arith', 'classes', 'sign', 'expansion', 'schurpol', 'skew', 'operand', 'special', 'number', 'typed'], 3)

    def rows(lo, hi, w=5):
        return sorted((r.randint(1, w) for _ in range(r.randint(lo, hi))), reverse=True)

    def cls(lo=1):
        return poly.name(rows(lo, 3))

    for _ in range(r.randint(8, 22)):
        sp = r.choice(sps)
        g = gen.ring(sp)
        if r.random() < .35:
            k = gen.pick(kinds)
            if k == 'qmult_rh' and (g.t != 'A' or gen.spaces[sp]['spec'][2] > 6):
                k = 'qmult'
            o = gen.make(k, sp, small=True)
            if r.random() < .1:
                ops.append(dict(o, fault=gen.fault(o)))
                o = dict(o, id=gen.nid)
                gen.nid += 1
            ops.append(o)
            continue
        k = r.choice(fav) if r.random() < .4 else gen.pick({
            'lc': 1, 'text': 1, 'schur': 1, 'arith': 1.5, 'classes': .7, 'sign': .7, 'expansion': 1.5, 'schurpol': 1, 'skew': .7,
            'operand': 3, 'special': 2.5, 'number': 1, 'typed': 1.5})
        e, n = {}, None
        if k == 'lc' and r.random() < .4:
            k, x = 'fine', r.choice([[2, 1], [1], [], [2, 1, 0], rows(0, 4)])
        elif k == 'lc':
            x = r.choice(sorted(THINGS))
        elif k == 'text':
            x = r.choice(TEXTS)
        elif k == 'schur':
            x = r.choice(NOSCHUR)
        elif k == 'arith':
            e['bin'] = r.choice(['add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'pow'])
            e['l'] = r.choice(['S[1]', 'S[2,1]+S[3]', '2*S[1]', 'q*S[2]', '3'])
            x = r.choice([t for t in OPERANDS if t != 'schur' or e['bin'] in ('add', 'sub', 'mul', 'pow')])
            if x == 'schur':                     # classes on the right are no part of the promise
                x = 'none'
        elif k == 'classes':
            e['bin'] = r.choice(['add', 'radd', 'mul', 'pow', 'lt'])
            x = r.choice(['none', 'dict', 'object', 'set'])
        elif k == 'sign':
            x = r.choice(SIGNS)
            e['l'] = r.choice(['S[1]', 'S[2,1]+S[3]', '2*S[1]', 'S[1]^2', '3'])
        elif k == 'expansion':
            a, b, c = cls(), cls(), cls()
            x = r.choice(['%s*%s' % (a, b), '%s^2' % a, '%s*%s+%s' % (a, b, c), '%s^2+%s' % (a, b), '%s+3*%s*%s' % (a, b, c), '%s^2*q' % a, 'q*%s^2+%s' % (a, b)])
            e['draw'] = int(r.random() < .3)
        elif k == 'schurpol':
            x, p = r.choice([(0, [1]), (-1, [2, 1]), (-3, []), (0, []), (2, [1, 2]), (3, [2, -1]), (2, [-1]), (3, [2, 1, 3]), (2, [0, 1]), (3, [3, 0, 1]), (1, [1, 2])])
            e['p'] = p
        elif k == 'skew':
            a = rows(1, 4)
            i = r.randrange(len(a))
            b = [y for y in r.choice([a[:i], a[:i] + [a[i] - 1] + [min(y, a[i] - 1) for y in a[i + 1:]]]) if y]
            if r.random() < .4:
                b = [b[0] + 2 if b else 0] + b[1:] if len(b) > 1 else b
            x = [a, b]
            if not any(j >= len(b) or y > b[j] for j, y in enumerate(a)):
                continue
        elif k == 'operand':
            n = sp
            m = e['m'] = r.choice(ONE + TWO * 2 + ('qpieri',))
            names = [t for t in sorted(THINGS) if t in NOT_INDEX or m not in ('part2index', 'index2part', 'type_swap')]
            x = r.choice(names)
            e['first'] = int(r.random() < .5)
            if e['first'] == 0 and m in TWO and r.random() < .5:
                e['b'] = poly.name(r.choice(g.classes)) if 'act' not in m else 'S[1]'
            e['k'] = g.k
        elif k == 'special':
            n = sp
            bad = poly.name(rows(2, 3)) if r.random() < .8 or g.t == 'D' else poly.name(rows(1, 1) + [0])
            ok = [poly.name(g.special(i)) for i in g.specials()]
            t = r.choice(['B', 'B', 'A*B', 'A+B', 'B*q', 'A^2*B+A', 'C*A+2*B', 'B^2'] if ok else ['B', 'B*q', '3*B', 'B^2'])
            if r.random() < .1:
                bad, t = 'x', r.choice(['B', 'A+B', 'A*B'] if ok else ['B', '2*B'])
            if bad in ok:
                continue
            x = t.replace('B', bad)
            for c in 'AC':
                x = x.replace(c, r.choice(ok) if ok else '')
            e['m'] = r.choice(['act', 'qact'])
            e['b'] = poly.name(r.choice(g.classes))
        elif k == 'number':
            n = sp
            x = r.choice([rows(2, 4), rows(2, 4), 'none', 'list', 'text', 'dict', 'object'])
        else:
            n = sp
            m = e['m'] = 'schub_type' if g.t != 'D' and (g.t != 'A' or r.random() < .4) else r.choice(['part2pair', 'pair2part'])
            if g.t == 'D' or g.t != 'A' and m != 'schub_type':
                continue
            p = list(r.choice(g.classes))
            x = p if m == 'schub_type' else poly.name(p) if m == 'part2pair' else 'S[[1,0],[]]'
        o = gen.op('refuse', n, what=k, x=x, keep=False, **e)
        if r.random() < .1:
            ops.append(dict(o, fault={'exc': r.choice(['KeyboardInterrupt', 'MemoryError', 'SimTimeout']), 'at': r.randrange(1, 60)}))
            o = dict(o, id=gen.nid)
            gen.nid += 1
        ops.append(o)
        for _ in range(r.choice([0, 0, 0, 1, 1, 3])):      # it stays refused
            ops.insert(r.randint(len(ops) - min(2, len(ops) - 1), len(ops)), dict(o, id=gen.nid))
            gen.nid += 1
        if ds and n is not None and g.t != 'D' and k in ('special', 'number') and r.random() < .6:
            d = r.choice(ds)                    # what spaces of type D can answer
            i = r.choice([-i for i in gen.ring(d).specials() if i < 0] or [1])
            ops.insert(len(ops) - 1, gen.op('special_number', d, n=[-i]))
            p = poly.name([i, 0])
            e = dict(e, m=r.choice(['act', 'qact']), b=poly.name(r.choice(g.classes)))
            ops.append(gen.op('refuse', sp, what='special', x=r.choice(['%s', 'q*%s', '3*%s', '%s^2']) % p, keep=False, **e))
            ops.append(gen.op('refuse', sp, what='number', x=[i, 0], keep=False))
    shared = {}
    for i, o in enumerate(ops):
        o['id'] = i
        if o['op'] == 'refuse' and o['what'] in ('arith', 'sign', 'expansion'):
            l = o.get('l', o['x'])
            if l not in shared:
                shared[l] = r.randrange(1 << 20) if r.random() < .7 else None
            o['sh'] = shared[l]
    return gen.scenario(gen.split(ops, r.choices([1, 2, 3], [.4, .35, .25])[0]))


checks.check('C27', session, ['value', 'argmut'], Refuse.names, thorough=20000)
