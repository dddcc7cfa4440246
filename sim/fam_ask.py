"""Questions put to partitions, classes and combinations."""
import algebra
import checks
import poly
import runner

ODD = {'float': float, 'str': str, 'none': lambda x: None, 'list': lambda x: [x]}


def parts(p):
    return [x if isinstance(x, int) else ODD[x[0]](x[1]) for x in p]


def proper(p):
    return all(isinstance(x, int) for x in p) and all(x >= 0 for x in p) and all(a >= b for a, b in zip(p, p[1:]))


def hooks(lam, rows, cols):
    """What is left of lam (at most rows rows) when hooks of rows+cols boxes are taken off until it fits:
    (partition, number of hooks, rows they cover), or None."""
    n = rows + cols
    lam = [x for x in lam if x]
    beta = [x + rows - 1 - i for i, x in enumerate(lam + [0] * (rows - len(lam)))]
    if len({b % n for b in beta}) < rows:
        return None
    num = cover = 0
    while max(beta) >= n:
        b = max(beta)
        beta.remove(b)
        cover += 1 + sum(1 for x in beta if b - n < x)
        beta.append(b - n)
        num += 1
    beta.sort(reverse=True)
    return [x for x in (b - rows + 1 + i for i, b in enumerate(beta)) if x], num, cover


def nested(x):
    """Nested lists without their order."""
    return sorted((nested(y) for y in x), key=repr) if isinstance(x, list) else x


class Ask:
    names = {'part', 'inrange', 'rim', 'cmp', 'padding', 'lccount', 'lcis', 'lclinear', 'lcparts'}

    def obj(self, o, w):
        import schubertpy as S
        t, v, sh = o
        d = w.extra.setdefault('asked', {})
        if sh is not None and (t, sh) in d:
            return d[t, sh]
        if t == 'P':
            r = S.Partition(list(v))
        elif t == 'S':
            r = S.Schur(list(v))
        elif t == 'Ssym':
            r = S.Schur(S.Schur(list(v)).symbol())
        elif t == 'Sstr':
            r = S.Schur('S[%s]' % ','.join(map(str, v)))
        else:
            r = S.LinearCombination(algebra.build(v, w))
        return r if sh is None else d.setdefault((t, sh), r)

    def call(self, op, w):
        import schubertpy as S
        k = op['op']
        if k == 'part':
            a = [parts(op['p'])]
            if op.get('tuple'):
                a = [tuple(a[0])]

            def f():
                p = S.Partition(*a)
                return [str(p), repr(p), list(p.partition)]
            return a, f
        a = [self.obj(o, w) for o in op['o']]
        if k == 'inrange':
            return a, lambda: bool(a[0].is_in_range(op['r'], op['c']))
        if k == 'rim':
            def f():
                x, n, h = a[0].remove_rim_hooks(op['r'] + op['c'], (op['r'], op['c']))
                return [None if isinstance(x, int) and x == 0 else list(x.partition), int(n), int(h)]
            return a, f
        if k == 'cmp':
            def f():
                x, y = a[0], a[1]
                return [x == y, x != y, x < y, x > y, hash(x) == hash(y), [str(z) for z in sorted(set(a))],
                        [x in a[1:], {z: i for i, z in enumerate(a)}[x]]]
            return a, f
        if k == 'padding':
            return a, lambda: bool(a[0].has_part_zero_padding())
        if k == 'lccount':
            return a, lambda: len(a[0])
        if k == 'lcis':
            return a, lambda: bool(a[0].is_operator(op['c']))
        if k == 'lclinear':
            return a, lambda: bool(a[0].is_valid())

        def show(x):
            return [show(y) for y in x] if isinstance(x, list) else None if x is None else str(x)
        return a, lambda: [show(a[0].list_schur_oprands())]

    def value(self, r):
        return ['said', r]

    # ------------------------------------------------------------ expected
    @staticmethod
    def term(m, c):
        """Operands of a term as an expression: (kind, list)."""
        fs = []
        for s, x in m:
            n = s if s[0] == 'S' else None
            fs.append(('^', [n, None]) if x > 1 else ('', n))
        if not fs:
            return '', None
        if c != 1:
            fs.append(('', None))
        return fs[0] if len(fs) == 1 else ('*', [x for _, x in fs])

    def shape(self, nf):
        ts = [self.term(m, c) for m, c in nf.items()]
        return ('', None) if not ts else ts[0] if len(ts) == 1 else ('+', [x for _, x in ts])

    def want(self, op):
        k = op['op']
        if k == 'part':
            return None
        o = [x[1] for x in op['o']]
        if k == 'inrange':
            return len(o[0]) <= op['r'] and (not o[0] or o[0][0] <= op['c'])
        if k == 'cmp':
            x, y = o[0], o[1]
            us = []
            for z in sorted(o):
                if z not in us:
                    us.append(z)
            last = max(i for i, z in enumerate(o) if z == x)
            return [x == y, x != y, x < y, x > y, None, [poly.name(z) for z in us], [x in o[1:], last]]
        if op['o'][0][0] != 'L':
            return bool(o[0]) and o[0][-1] == 0
        nf = algebra.nf_load(o[0]['nf'])
        if k == 'padding':
            return any(s[0] == 'S' and algebra.lam_of(s)[-1:] == [0] for m in nf for s, _ in m)
        kind, ops = self.shape(nf)
        if k == 'lccount':
            return len(ops) if kind in ('+', '*') else 1
        if k == 'lcis':
            return kind == op['c']
        if k == 'lclinear':
            return all(sum(x for _, x in m) <= 1 for m in nf)
        return [ops]

    def check(self, exp, op, rec):
        v = rec['v'][1]
        if op['op'] == 'part':
            p = parts(op['p'])
            if op.get('tuple') or not proper(p):
                return 'Partition(%r) was accepted: %s' % (p, v[0])
            want = [str(p), 'Partition(%s)' % p, p]
        elif op['op'] == 'rim':
            lam, r, c = op['o'][0][1], op['r'], op['c']
            e = hooks(lam, r, c)
            who = 'hooks of %d boxes off %s to fit %d by %d: got %s' % (r + c, lam, r, c, v)
            if e is None:
                return None if not v[0] and v[1] == 0 else who + ', but that cannot be done'
            if v[:2] == [e[0], e[1]] and (v[2] == e[2] if e[1] == 1 else (v[2] - e[2]) % 2 == 0):
                return None
            return who + ', expected %s, %d, %d' % e
        elif op['op'] == 'cmp':
            want = self.want(op)
            want[4] = True if want[0] else v[4]
            want[5] = [x.replace(' ', '') for x in want[5]]
        elif op['op'] == 'lcparts':
            want = [nested(x) for x in self.want(op)]
            v = [nested(x) for x in v]
        else:
            want = self.want(op)
        return None if v == want else '%s: got %r, expected %r' % (self.who(op), v, want)

    @staticmethod
    def who(op):
        return '%s(%s%s)' % (op['op'], ', '.join(poly.show(algebra.nf_load(x[1]['nf'])) if x[0] == 'L' else str(x[1]) for x in op.get('o', [])),
                             ''.join(', %s' % op[f] for f in 'rc' if f in op))

    def check_exc(self, exp, op, rec):
        if runner.injected(rec):
            return None
        if op['op'] == 'part' and (op.get('tuple') or not proper(parts(op['p']))):
            return None if rec['exc'] == 'ValueError' else 'failed with %s %s' % (rec['exc'], rec['msg'])
        if op['op'] == 'inrange' and min(op['r'], op['c']) < 0:
            return None if rec['exc'] == 'ValueError' else 'failed with %s %s' % (rec['exc'], rec['msg'])
        return 'raised %s: %s %s' % (rec['exc'], rec['msg'], rec.get('at'))


runner.FAMILIES.append(Ask())


def partition(r, rows=6, wide=9):
    return sorted((r.randint(1, wide) for _ in range(r.randint(0, rows))), reverse=True)


def near(r, p):
    """A partition close to p: equal, a zero more or less, other boxes, digits run together."""
    p = list(p)
    u = r.random()
    if u < .3:
        return p
    if u < .5:
        return p[:-1] if p and p[-1] == 0 else p + [0]
    if u < .65 and len(p) > 1 and p[-1] != 0:
        q = p[:-2] + [p[-2] * 10 + p[-1]]
        return q if proper(q) else p
    if u < .85 and p:
        i = r.randrange(len(p))
        q = p[:i] + [p[i] + r.choice([-1, 1])] + p[i + 1:]
        return q if proper(q) else p[:-1]
    return p[:-1] if u < .95 else p + p[-1:]


def session(gen):
    r = gen.rng
    sp = gen.add_space(gen.spec({'tiny': 3, 'small': 4, 'mid': 1, 'huge': .3}))
    g = gen.ring(sp)
    ops, objs, rims = [], {'P': [], 'S': [], 'L': []}, []

    def obj(t, v):
        if t != 'L' and r.random() < .4 or t == 'L' and v['form'] in ('lc', 'lcsum', 'str', 'expr') and r.random() < .5:
            sh = r.randrange(1 << 20)
        else:
            sh = None
        k = r.choice(['S', 'S', 'Ssym', 'Sstr']) if t == 'S' else t
        o = [k, v, sh]
        objs[t].append(o)
        return o

    def have(t, new):
        return r.choice(objs[t]) if objs[t] and r.random() < .35 else obj(t, new())

    def lam():
        u = r.random()
        if u < .4 and objs['S']:
            return near(r, r.choice(objs['S'])[1])
        return list(gen.lam(g)) if u < .7 else partition(r) + [0] * (r.random() < .2)

    def combo():
        nf = {}
        for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
            m = {}
            for _ in range(r.choice([0, 1, 1, 1, 1, 1, 2])):
                s = poly.name(lam())
                m[s] = m.get(s, 0) + r.choice([1, 1, 1, 1, 2])
            if r.random() < .2:
                m[r.choice(['q', 'q1', 'q2'])] = r.choice([1, 1, 2])
            nf = poly.padd(nf, {tuple(sorted(m.items())): gen.coef()})
        return gen.pack(poly.canon(nf), ['lc', 'lcsum', 'str', 'expr'])

    for _ in range(r.randint(8, 22)):
        k = gen.pick({'part': 2, 'inrange': 2, 'rim': 4, 'cmp': 4, 'padding': 2, 'lccount': 1, 'lcis': 1.5, 'lclinear': 1.5, 'lcparts': 1.5,
                      'other': .5})
        if k == 'other':
            ops.append(gen.make(r.choice(['qmult', 'schub_classes', 'part2index', 'dualize']), sp, small=True))
            continue
        if k == 'part':
            p = partition(r)
            u = r.random()
            if u < .15:
                r.shuffle(p)
            elif u < .3:
                p.append(r.choice([-1, 0, 0, 1]))
            elif u < .45 and p:
                i = r.randrange(len(p))
                p[i] = [r.choice(sorted(ODD)), p[i]]
            o = gen.op(k, p=p)
            if r.random() < .05:
                o['tuple'] = 1
        elif k == 'inrange':
            x = have('P', lambda: partition(r, wide=6))
            p = x[1]
            if r.random() < .6 and x[2] is None:
                x[2] = r.randrange(1 << 20)
            for i in range(r.choice([1, 1, 2, 3, 4])):
                if i:
                    ops.append(o)
                o = gen.op(k, o=[x], r=max(-1, len(p) + r.choice([-2, -1, -1, 0, 0, 0, 1, 3])), c=max(-1, (p or [0])[0] + r.choice([-2, -1, -1, 0, 0, 0, 1, 3])))
        elif k == 'rim':
            for _ in range(50):
                rows, cols = r.randint(1, 5), r.randint(1, 5)
                if rims and r.random() < .5:
                    rows, cols = r.choice(rims)
                rims.append((rows, cols))
                old = [x for x in objs['P'] if len(x[1]) <= rows and x[1] and x[1][0] > cols and x[1][-1]]
                if old and r.random() < .3:
                    x = r.choice(old)
                    break
                p = partition(r, rows, r.choice([cols + rows, 2 * (cols + rows), 4 * (cols + rows)]))
                if p and p[0] > cols:
                    x = obj('P', p)
                    break
            else:
                continue
            o = gen.op(k, o=[x], r=rows, c=cols)
        elif k == 'cmp':
            x = have('S', lam)
            xs = [x] + [obj('S', near(r, x[1])) if r.random() < .6 else have('S', lam) for _ in range(r.choice([1, 1, 2, 4]))]
            o = gen.op(k, o=xs)
        elif k == 'padding' and r.random() < .4:
            o = gen.op(k, o=[have('S', lam)])
        else:
            o = gen.op(k, o=[have('L', combo)])
            if k == 'lcis':
                o['c'] = r.choice('+*^')
        ops.append(o)
        if r.random() < .15:
            o['fault'] = {'exc': r.choice(['KeyboardInterrupt', 'MemoryError', 'SimTimeout', 'RecursionError']), 'at': r.randrange(1, 40)}
            o = {x: y for x, y in o.items() if x != 'fault'}
            o['id'] = gen.nid
            gen.nid += 1
            ops.append(o)
    return gen.scenario(gen.split(ops, r.choices([1, 2, 3], [.4, .35, .25])[0]))


checks.check('C25', session, ['value', 'argmut'], Ask.names, thorough=40000)
