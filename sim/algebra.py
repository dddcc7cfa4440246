"""Operations of algebra sessions: execution on the real code, expected values
from the reference model, and operand construction."""
import ast
import random
from fractions import Fraction

import poly
import refmodel as R

CLS = {'Gr': 'Grassmannian', 'IG': 'IsotropicGrassmannian', 'OG': 'OrthogonalGrassmannian'}
_ENC = str.maketrans('[,]', 'fjg')


def nf_json(nf):
    return [[[list(p) for p in k], str(v)] for k, v in sorted(nf.items())]


def nf_load(j):
    out = {}
    for k, v in j:
        f = Fraction(v)
        out[tuple((s, e) for s, e in k)] = int(f) if f.denominator == 1 else f
    return out


def lam_of(name):
    return ast.literal_eval(name[1:])


def el_of(nf):
    """Normal form -> element (one Schubert symbol of degree one per term)."""
    out = {}
    for k, c in nf.items():
        lam, e = None, [0, 0, 0]
        for s, x in k:
            if s[0] == 'S':
                if lam is not None or x != 1:
                    raise ValueError('not linear')
                lam = tuple(lam_of(s))
            else:
                e[{'q': 0, 'q1': 1, 'q2': 2}[s]] += x
        if lam is None:
            raise ValueError('constant term')
        R.acc(out, (lam, tuple(e)), c)
    return out


# ------------------------------------------------------------ operand forms
def spell(nf, sty):
    """One of many spellings of an expression."""
    r = random.Random(sty)
    if not nf:
        return '0'
    terms = sorted(nf.items())
    r.shuffle(terms)
    out = ''
    pw = r.choice(['^', '**'])
    sp = r.choice(['', ' ', '', ' ', '  ', '\t'])
    mixed = r.random() < .15
    for i, (k, c) in enumerate(terms):
        if mixed:
            pw = r.choice(['^', '**'])
        fs = [s if e == 1 else (s + pw + str(e) if r.random() < .8 else '*'.join([s] * e)) for s, e in k]
        r.shuffle(fs)
        a = abs(c)
        if a != 1 or not fs:
            if a.denominator != 1:
                fs.insert(0, '(%d/%d)' % (a.numerator, a.denominator))
            else:
                fs.insert(r.randrange(len(fs) + 1), str(a))
        t = '*'.join(fs)
        if i == 0:
            out = ('-' if c < 0 else '') + t
        else:
            out += sp + ('-' if c < 0 else '+') + sp + t
    if r.random() < .15:
        out = '(' + out + ')'
    elif out[0] != '-' and r.random() < .05:
        out = '+' + sp + out
    if r.random() < .08:
        out = r.choice(['', ' ']) + out + r.choice(['', ' ', '\n'])
    return out


def spell_factored(nf, sty):
    """A spelling with one factor of several terms outside of parentheses."""
    count = {}
    for k in nf:
        for s, _ in k:
            count[s] = count.get(s, 0) + 1
    best = sorted(s for s, n in count.items() if n > 1)
    if not best:
        return spell(nf, sty)
    r = random.Random(sty)
    s = r.choice(best)
    inner, rest = {}, {}
    for k, c in nf.items():
        d = dict(k)
        if s in d:
            d[s] -= 1
            inner[tuple(sorted((a, x) for a, x in d.items() if x))] = c
        else:
            rest[k] = c
    t = '%s*(%s)' % (s, spell(inner, sty).strip())
    if r.random() < .5:
        t = '(%s)*%s' % (spell(inner, sty).strip(), s)
    return t + ' + ' + spell(rest, sty + 1).strip() if rest else t


def single(nf):
    """The class list when nf is one Schubert class with coefficient one."""
    if len(nf) == 1:
        (k, c), = nf.items()
        if c == 1 and len(k) == 1 and k[0][1] == 1 and k[0][0][0] == 'S':
            return lam_of(k[0][0])
    return None


def linear(nf):
    """Whether every term holds exactly one class."""
    return all(sum(e for s, e in k if s[0] == 'S') == 1 for k in nf)


def to_expr(nf):
    import sympy as sp
    e = sp.Integer(0)
    for k, c in nf.items():
        t = sp.Rational(c.numerator, c.denominator)
        for s, x in k:
            t = t * sp.Symbol(s.translate(_ENC)) ** x
        e = e + t
    return e


def build(o, w):
    """Operand object of operand description o, in world w."""
    import schubertpy as S
    if 'ref' in o:
        return w.results[o['ref']]
    if 'sh' in o:        # one object, used by several operations
        key = (o['sh'], o['form'], o.get('sty', 0), bool(o.get('fac')), repr(o['nf']))
        d = w.extra.setdefault('shared', {})
        return d[key] if key in d else d.setdefault(key, build({k: v for k, v in o.items() if k != 'sh'}, w))
    nf = nf_load(o['nf'])
    form = o.get('form', 'str')
    if form == 'str':
        return (spell_factored if o.get('fac') else spell)(nf, o.get('sty', 0))
    if form == 'schur':
        return S.Schur(single(nf))
    if form == 'list':
        return list(single(nf))
    if form == 'lc':
        return S.LinearCombination((spell_factored if o.get('fac') else spell)(nf, o.get('sty', 0)))
    if form == 'expr':
        return to_expr(nf)
    if form == 'lcsum':
        r = random.Random(o.get('sty', 0))
        acc = None
        for k, c in sorted(nf.items()):
            t = S.LinearCombination(spell({k: c}, r.randrange(100)))
            acc = t if acc is None else acc + t
        return acc if acc is not None else S.LinearCombination('0')
    raise AssertionError(form)


def snap(x):
    """Caller-visible state of an operand or result, for later comparison."""
    import sympy as sp
    t = type(x).__name__
    if t == 'LinearCombination':
        return [t, str(x), sp.srepr(x.expr) if isinstance(x.expr, sp.Basic) else repr(x.expr)]
    if t == 'Schur':
        return [t, str(x), repr(x.p)]
    if isinstance(x, (list, tuple)):
        return [t, [snap(y) for y in x]]
    if isinstance(x, sp.Basic):
        return [t, sp.srepr(x)]
    return [t, repr(x)]


def value(x):
    """Normal form of a result: (kind, data) or raises ParseError."""
    import sympy as sp
    import schubertpy as S
    if isinstance(x, S.LinearCombination):
        if not isinstance(x.expr, sp.Basic):
            raise poly.ParseError('expression holds %r' % (x.expr,))
        nf = poly.from_sympy(x.expr)
        txt = str(x)
        p = poly.parse(txt)
        if p != nf:
            raise poly.ParseError('renders as %r but is %s' % (txt, poly.show(nf)))
        return ['lc', nf_json(nf)]
    if isinstance(x, S.Schur):
        if str(x) != poly.name(x.p).replace(' ', ''):
            raise poly.ParseError('renders as %r but is %r' % (str(x), x.p))
        return ['schur', list(x.p)]
    if isinstance(x, (list, tuple)):
        return ['list', [value(y) for y in x]]
    if isinstance(x, bool) or x is None or isinstance(x, (int, str)):
        return ['py', x]
    return ['other', type(x).__name__, str(x)[:200]]


# --------------------------------------------------------------- execution
def call(op, w):
    """Run one operation on the real code; returns (result, args)."""
    k = op['op']
    sp = w.space(op['sp'])
    if k in ('qmult', 'mult', 'qmult_rh'):
        a = [build(op['a'], w), build(op['b'], w)]
        return a, lambda: getattr(sp, k)(*a)
    if k in ('qtoS', 'toS', 'giambelli', 'qgiambelli', 'dualize', 'part2index', 'index2part',
             'part2pair', 'miami_swap', 'schub_type'):
        a = [build(op['a'], w)]
        return a, lambda: getattr(sp, k)(*a)
    if k == 'pair2part':
        if op['a'].get('form') == 'list':
            nf = nf_load(op['a']['nf'])
            (m, c), = nf.items()
            a = [lam_of(m[0][0])]
        else:
            a = [build(op['a'], w)]
        return a, lambda: sp.pair2part(*a)
    if k == 'type_swap':
        a = [build(op['a'], w), op['k']]
        return a, lambda: sp.type_swap(*a)
    if k in ('act', 'qact'):
        a = [build(op['e'], w), build(op['b'], w)]
        return a, lambda: getattr(sp, k)(*a)
    if k in ('pieri', 'qpieri'):
        a = [op['i'], build(op['b'], w)]
        return a, lambda: getattr(sp, k)(*a)
    if k in ('schub_classes', 'generators', 'point_class', 'degree_q', 'get_type_data'):
        return [], lambda: getattr(sp, k)()
    if k == 'str':
        return [], lambda: str(sp)
    if k == 'clone':
        def f():
            c = sp.clone()
            return [c.get_type_data(), str(c), type(c).__name__, c is not sp]
        return [], f
    raise AssertionError(k)


# --------------------------------------------------------------- reference
def describe(spec):
    g = R.ring(*spec)
    cls, m, N = spec
    t = 'Type %s ;  (k,n) = (%d,%d) ;  %s(%d,%d) ;  deg(q) = %d' % (g.t, g.k, g.n, cls, m, N, g.deg_q())
    return [g.t, g.k, g.n, cls, m, N, g.deg_q()], t


class Expect:
    """Expected values of a scenario's operations, from the reference model."""

    def __init__(self, scn):
        self.scn = scn
        self.ops = {op['id']: op for th in scn['threads'] for op in th}
        self.memo = {}

    def spec(self, op):
        return tuple(self.scn['spaces'][op['sp']]['spec'])

    def operand(self, o):
        if 'ref' in o:
            e = self.expected(self.ops[o['ref']])
            assert e[0] == 'lc'
            return nf_load(e[1])
        return nf_load(o['nf'])

    def poly_eval(self, g, nf, right, quantum):
        """(polynomial in classes) * right, by successive multiplication."""
        res = {}
        for k, c in nf.items():
            el = dict(right)
            sh = [0, 0, 0]
            for s, x in k:
                if s[0] == 'S':
                    lam = tuple(lam_of(s))
                    for _ in range(x):
                        el = g.mul({(lam, R.ONE): 1}, el, quantum)
                else:
                    sh[{'q': 0, 'q1': 1, 'q2': 2}[s]] += x
            for (m, e), v in el.items():
                R.acc(res, (m, tuple(a + b for a, b in zip(e, sh))), v * c)
        return res

    def expected(self, op):
        r = self.memo.get(op['id'])
        if r is None:
            r = self.memo[op['id']] = self._expected(op)
        return r

    def _expected(self, op):
        k = op['op']
        spec = self.spec(op)
        g = R.ring(*spec)
        lc = lambda el: ['lc', nf_json(poly.canon(poly.from_element(el)))]
        one = {((), R.ONE): 1}
        if k in ('qmult', 'mult', 'qmult_rh'):
            qu = k != 'mult'
            b = el_of(self.operand(op['b']))
            return lc(self.poly_eval(g, self.operand(op['a']), b, qu))
        if k in ('qtoS', 'toS'):
            return lc(self.poly_eval(g, self.operand(op['a']), one, k == 'qtoS'))
        if k in ('qact', 'act'):
            return lc(self.poly_eval(g, self.operand(op['e']), el_of(self.operand(op['b'])), k == 'qact'))
        if k in ('qpieri', 'pieri'):
            return lc(g.pieri_el(op['i'], el_of(self.operand(op['b'])), k == 'qpieri'))
        if k in ('giambelli', 'qgiambelli'):
            return ['giam', None]
        if k in ('dualize', 'part2index', 'index2part', 'part2pair', 'pair2part', 'type_swap', 'miami_swap'):
            nf = self.operand(op['a'])
            out = {}
            for mono, c in nf.items():
                mm = []
                for s, x in mono:
                    if s[0] == 'S':
                        s = self.conv(g, k, s)
                    mm.append((s, x))
                out = poly.padd(out, {tuple(sorted(mm)): c})
            return ['lc', nf_json(out)]
        if k == 'schub_type':
            return ['py', g.schub_type(tuple(single(self.operand(op['a']))))]
        if k == 'schub_classes':
            return ['list', [['schur', list(x)] for x in g.classes]]
        if k == 'generators':
            return ['list', [['schur', list(g.special(p))] for p in g.specials()]]
        if k == 'point_class':
            return ['schur', list(g.point())]
        if k == 'degree_q':
            return ['py', g.deg_q()]
        d, t = describe(spec)
        if k == 'get_type_data':
            return ['list', [['py', x] for x in d]]
        if k == 'str':
            return ['py', t]
        if k == 'clone':
            return ['list', [['list', [['py', x] for x in d]], ['py', t], ['py', CLS[spec[0]]], ['py', True]]]
        raise AssertionError(k)

    def conv(self, g, k, s):
        lam = lam_of(s)
        if k == 'pair2part':
            top, bot = lam
            part = [sum(1 for x in top if x > r) for r in range(max(top, default=0))]
            zero = bool(bot) and bot[-1] == 0
            b = [x for x in bot if x]
            L = max(len(part), len(b))
            p = [(part[i] if i < len(part) else 0) + (b[i] if i < len(b) else 0) for i in range(L)]
            return poly.name(p + ([0] if zero else []))
        lam = tuple(lam)
        if k == 'dualize':
            return poly.name(g.dual(lam))
        if k == 'part2index':
            return poly.name(g.index(lam))
        if k == 'index2part':
            return poly.name(g.part(lam))
        if k == 'part2pair':
            top, bot = g.pair(lam)
            return 'S[%s,%s]' % (poly.name(top)[1:], poly.name(bot)[1:])
        if k == 'type_swap':
            return poly.name(g.swap(lam))
        if k == 'miami_swap':
            return poly.name(g.miami(lam))
        raise AssertionError(k)

    def check(self, op, got):
        """None when the returned value is right, else what is wrong."""
        exp = self.expected(op)
        if exp[0] == 'giam':
            return self.check_giambelli(op, got)
        if got == exp:
            return None
        if got[0] == 'lc' and exp[0] == 'lc':
            return 'got %s, expected %s' % (poly.show(nf_load(got[1])), poly.show(nf_load(exp[1])))
        return 'got %r, expected %r' % (got, exp)

    def check_giambelli(self, op, got):
        g = R.ring(*self.spec(op))
        qu = op['op'] == 'qgiambelli'
        if got[0] != 'lc':
            return 'not a linear combination: %r' % (got,)
        nf = nf_load(got[1])
        sp = {poly.name(g.special(p)) for p in g.specials()}
        okq = {'q', 'q1', 'q2'} if qu else set()
        src = self.operand(op['a'])
        okq |= {s for k in src for s, _ in k if s[0] == 'q'}
        for k in nf:
            for s, _ in k:
                if s not in sp and s not in okq:
                    return '%s is not a special class or a quantum parameter: %s' % (s, poly.show(nf))
        nums = {poly.name(g.special(p)): p for p in g.specials()}
        one = {((), R.ONE): 1}
        res = self.horner(g, nf, nums, one, qu)
        want = self.poly_eval(g, src, one, qu)
        if res != want:
            return 'polynomial %s is %s, not %s' % (poly.show(nf), poly.show(poly.from_element(res)),
                                                    poly.show(poly.from_element(want)))
        return None

    def horner(self, g, nf, nums, el, qu):
        vs = sorted({s for k in nf for s, _ in k if s in nums})
        if not vs:
            res = {}
            for k, c in nf.items():
                sh = [0, 0, 0]
                for s, x in k:
                    sh[{'q': 0, 'q1': 1, 'q2': 2}[s]] += x
                for (m, e), v in el.items():
                    R.acc(res, (m, tuple(a + b for a, b in zip(e, sh))), v * c)
            return res
        v = vs[0]
        with_v, without = {}, {}
        for k, c in nf.items():
            d = dict(k)
            if v in d:
                d[v] -= 1
                with_v[tuple(sorted((s, e) for s, e in d.items() if e))] = c
            else:
                without[k] = c
        a = self.horner(g, with_v, nums, el, qu)
        res = g.pieri_el(nums[v], a, qu)
        if without:
            for k, c in self.horner(g, without, nums, el, qu).items():
                R.acc(res, k, c)
        return res
