"""Multiplication tables."""
import algebra
import poly
import refmodel as R
import runner


class Table:
    names = {'table', 'qtable'}

    def call(self, op, w):
        import schubertpy as S
        sp = w.space(op['sp'])
        cls = S.QMultTable if op['op'] == 'qtable' else S.MultTable

        def f():
            t = cls(sp)
            if op.get('scribble'):      # an earlier matrix, which its caller goes on to change
                m = t.to_matrix()
                for row in m:
                    row[0], row[-1] = row[-1], 0
                    row.append('mine')
                m.reverse()
                m.append([])
            return (t, t.to_matrix(), str(t), repr(t), t.gr is sp)
        return [], f

    @staticmethod
    def label(x):
        import schubertpy as S
        return poly.name(x.p) if isinstance(x, S.Schur) else 'S' + str(x).lstrip('S')

    def value(self, r):
        t, mat, s, rp, own = r
        df = t.df
        labs = [[self.label(x) for x in ix] for ix in (df.index, df.columns)]
        cells = [[algebra.value(x) for x in row] for row in mat]
        cells2 = [[algebra.value(df.iat[i, j]) for j in range(len(labs[1]))] for i in range(len(labs[0]))]
        return ['table', labs, cells, cells2 == cells, s == rp, own, self.text(t, mat, s)]

    @staticmethod
    def text(t, mat, s):
        """The text shows these labels and these cells."""
        import pandas as pd
        d = pd.DataFrame([[str(x) for x in r] for r in mat], index=[str(x) for x in t.df.index],
                         columns=[str(x) for x in t.df.columns])
        return s in (str(d), d.to_string())

    def check(self, exp, op, rec):
        v = rec['v']
        if v[0] != 'table':
            return 'unreadable table %r' % (v,)
        g = R.ring(*exp.spec(op))
        want = [poly.name(x) for x in g.classes]
        if v[1][0] != want or v[1][1] != want:
            return 'labels %r / %r, expected %r' % (v[1][0], v[1][1], want)
        if len(v[2]) != len(want) or any(len(r) != len(want) for r in v[2]):
            return 'matrix is not %d x %d' % (len(want), len(want))
        if not v[3]:
            return 'to_matrix differs from the table'
        if not v[4] or not v[6]:
            return 'text of the table'
        if not v[5]:
            return 'table does not hold the space it was given'
        qu = op['op'] == 'qtable'
        for i, a in enumerate(g.classes):
            for j, b in enumerate(g.classes):
                e = ['lc', algebra.nf_json(poly.from_element(
                    g.mul({(a, R.ONE): 1}, {(b, R.ONE): 1}, qu)))]
                if v[2][i][j] != e:
                    return 'cell (%s, %s) is %s, expected %s' % (
                        want[i], want[j], self.show(v[2][i][j]), self.show(e))
        return None

    @staticmethod
    def show(v):
        return poly.show(algebra.nf_load(v[1])) if v[0] == 'lc' else repr(v)


runner.FAMILIES.append(Table())


def session(gen):
    """C14: tables built whole, interrupted, side by side, and after other work."""
    r = gen.rng
    tiers = {'tiny': 3, 'small': 1}

    def small():
        while True:
            s = gen.spec(tiers)
            if len(R.ring(*s).classes) <= 12:
                return s
    sps = [gen.add_space(small()) for _ in range(r.choice([1, 1, 2]))]
    ops = []
    for _ in range(r.randint(1, 3)):
        sp = r.choice(sps)
        kind = r.choice(['table', 'qtable'])
        n = len(gen.ring(sp).classes)
        if r.random() < .3:
            for _ in range(r.randint(1, 2)):
                ops.append(gen.op(kind, sp, fault={'exc': r.choice(['KeyboardInterrupt', 'MemoryError', 'SimTimeout']),
                                                   'at': r.randrange(1, 400 * n * n)}))
        if r.random() < .4:
            k = r.choice(['qmult', 'mult', 'qpieri', 'dualize'])
            ops.append(gen.make(k, sp))
        ops.append(gen.op(kind, sp, **({'scribble': 1} if r.random() < .2 else {})))
    if r.random() < .3:
        o = dict(ops[-1], id=gen.nid)
        gen.nid += 1
        ops.append(o)
    return gen.scenario(gen.split(ops, r.choices([1, 2], [.5, .5])[0]))


import checks      # noqa: E402
checks.check('C14', session, ['value', 'resmut'], ['table', 'qtable'], thorough=6000)
