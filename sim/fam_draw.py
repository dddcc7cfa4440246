"""Text drawings on a standard output that may fail, one stream per thread."""
import itertools

import algebra
import checks
import poly
import refmodel as R
import runner
import simio


def lines(t):
    return [x.rstrip() for x in t.split('\n')]


def coef(nf):
    """Texts a coefficient may be shown as, or '' for one."""
    (m, c), = nf.items()
    fs = ['%s' % s if e == 1 else '%s^%d' % (s, e) for s, e in m]
    if not fs:
        return '' if c == 1 else '%d*' % c
    t = '*'.join(fs)
    return '%s*' % t if c == 1 else '-%s*' % t if c == -1 else '%d*%s*' % (c, t)


class Draw:
    names = {'draw', 'print_partition', 'yd', 'lcdraw', 'tableprint', 'latex'}

    def setup(self, scn, w):
        if scn.get('stdout'):
            simio.install()
            import pandas as pd
            pd.set_option('display.width', 100000, 'display.max_columns', 1000, 'display.max_rows', 1000,
                          'display.max_colwidth', None)

    def teardown(self, scn, w):
        if scn.get('stdout'):
            simio.uninstall()

    def pre(self, op, w, c):
        simio.STATE.torn[c.tid] = bool(op.get('torn'))
        simio.OUT.take(c.tid)

    def post(self, op, w, rec, c):
        rec['out'] = simio.OUT.take(c.tid)

    @staticmethod
    def shared(op, w, make):
        if 'sh' not in op:
            return make()
        d = w.extra.setdefault('shared', {})
        k = (op['sh'], op['op'] == 'draw')
        return d[k] if k in d else d.setdefault(k, make())

    def call(self, op, w):
        import schubertpy as S
        k = op['op']
        if k == 'draw':
            a = [self.shared(op, w, lambda: S.Partition(list(op['p'])))]
            return [op['p']], a[0].draw
        if k == 'print_partition':
            a = [self.shared(op, w, lambda: S.Schur(list(op['p'])))]
            return a, a[0].print_partition
        if k == 'yd':
            a = [list(op['p'])]
            return a, lambda: S.yd(a[0])
        if k == 'latex':
            a = [self.shared(op, w, lambda: S.Schur(list(op['p'])))]
            return a, (a[0].latex_standalone if op['alone'] else a[0].latex)
        if k == 'lcdraw':
            a = [self.shared(op, w, lambda: S.LinearCombination(algebra.build(op['a'], w)))]
            return a, lambda: a[0].draw_ascii_partition(include_q=op['q'])
        sp = w.space(op['sp'])
        t = (S.QMultTable if op['quantum'] else S.MultTable)(sp)
        return [], t.print

    # ------------------------------------------------------------ expected
    def texts(self, exp, op):
        """Acceptable outputs, as lists of lines."""
        k = op['op']
        p = op.get('p')
        if k == 'draw':
            return [['0'] if not p else ['[]' * x for x in p]]
        if k == 'print_partition':
            return [['[ ]' * x for x in p]]
        if k == 'yd':
            return [['Young diagram for partition: %s' % (p,)] + ['[]' * x for x in p]]
        if k == 'lcdraw':
            ts = []
            for m, c in algebra.nf_load(op['a']['nf']).items():
                qs = tuple((s, x) for s, x in m if s[0] == 'q')
                if qs and not op['q']:
                    continue
                ts.append((algebra.lam_of([s for s, x in m if s[0] == 'S'][0]), coef({qs: c})))
            ts.sort(key=lambda x: x[0])
            groups = [list(itertools.permutations(list(g))) for _, g in itertools.groupby(ts, key=lambda x: x[0])]
            return [self.side(list(itertools.chain(*x))) for x in itertools.product(*groups)]

    def side(self, ts):
        h = max((len(p) for p, _ in ts), default=0)
        out = [''] * h
        for i, (p, c) in enumerate(ts):
            pre = (' + ' if i else '') + c
            width = 2 * max(p, default=0)
            for y in range(h):
                out[y] += (pre if y == 0 else ' ' * len(pre)) + ('[]' * p[y] if y < len(p) else '').ljust(width)
        return [x.rstrip() for x in out]

    def table_text(self, exp, op, out):
        """None when out shows the whole product table."""
        g = R.ring(*exp.spec(op))
        names = [poly.name(x).replace(' ', '') for x in g.classes]
        ls = [x for x in lines(out) if x]
        if len(ls) != len(names) + 1:
            return '%d lines for %d classes' % (len(ls), len(names))
        if ls[0].split() != names:
            return 'header %r' % ls[0]
        import re
        for a, la, line in zip(g.classes, names, ls[1:]):
            cs = re.split(r'\s{2,}', line.strip())
            if cs[0] != la or len(cs) != len(names) + 1:
                return 'row of %s is %r' % (la, line)
            for b, c in zip(g.classes, cs[1:]):
                e = poly.from_element(g.mul({(a, R.ONE): 1}, {(b, R.ONE): 1}, op['quantum']))
                try:
                    if poly.parse(c) != e:
                        return 'cell (%s, %s) reads %s' % (la, poly.name(b), c)
                except poly.ParseError:
                    return 'cell (%s, %s) reads %r' % (la, poly.name(b), c)
        return None

    def check(self, exp, op, rec):
        out = rec['out']
        if rec.get('fired') and 'stdout' in rec['fired']:
            return 'finished normally although standard output failed'
        if op['op'] == 'latex':
            if out:
                return 'printed %r' % out
            return self.check_latex(op, rec)
        if op['op'] == 'tableprint':
            return self.table_text(exp, op, out)
        if out and not out.endswith('\n'):
            return 'last line not ended: %r' % out
        got = lines(out)[:-1] if out else []
        ok = self.texts(exp, op)
        if got not in ok and [x for x in got if x] not in [[x for x in t if x] for t in ok]:
            return 'printed %r, expected %r' % (got, ok[0])
        return None

    def check_exc(self, exp, op, rec):
        if not runner.injected(rec):
            return 'raised %s: %s %s' % (rec['exc'], rec['msg'], rec.get('at'))
        if op['op'] in ('tableprint', 'latex'):
            return None
        out = lines(rec['out'])
        if any(out == t[:len(out)] or (out[:-1] == t[:len(out) - 1] and len(t) >= len(out) and
                                       t[len(out) - 1].startswith(out[-1]))
               or (out[-1] == '' and out[:-1] == t[:len(out) - 1]) for t in self.texts(exp, op)):
            return None
        return 'printed %r before failing, not a beginning of %r' % (rec['out'], self.texts(exp, op)[0])

    def check_latex(self, op, rec):
        import re
        v = rec['v']
        if v[0] != 'py' or not isinstance(v[1], str):
            return 'returned %r' % (v,)
        t = v[1]
        pos = re.findall(r'\\node at \((-?\d+)mm, (-?\d+)mm\) \{\};', t)
        want = sorted((5 * x, -5 * y) for y, n in enumerate(op['p']) for x in range(n))
        got = sorted((int(x), int(y)) for x, y in pos)
        if got != want:
            return 'boxes at %r, expected %r' % (got, want)
        body = t.split('\n')
        if [x for x in body if 'tikzpicture}' in x and ('begin' in x or 'end' in x)] != [
                '\\begin{tikzpicture}', '\\end{tikzpicture}']:
            return 'no tikzpicture around it: %r' % t
        if (body[0] == '\\documentclass{standalone}' and body[-1] == '\\end{document}') != bool(op['alone']):
            return 'document frame: %r' % t
        return None


runner.FAMILIES.append(Draw())


def session(gen):
    r = gen.rng
    ops = []
    tiny = [s for s in __import__('gen').catalog()['tiny'] if len(R.ring(*s).classes) <= 6]
    sps = [gen.add_space(r.choice(tiny)), gen.add_space(gen.spec({'tiny': 1, 'small': 2, 'mid': 1, 'huge': 1}))]
    g = gen.ring(1)
    for _ in range(r.randint(5, 14)):
        k = gen.pick({'draw': 3, 'print_partition': 3, 'yd': 2, 'lcdraw': 7, 'tableprint': .5, 'latex': 1.5})
        p = sorted((r.randint(1, 7) for _ in range(r.choice([0, 1, 2, 3, 5]))), reverse=True)
        if r.random() < .1:
            p = p + [0]
        if k in ('draw', 'print_partition', 'yd'):
            o = gen.op(k, p=p)
        elif k == 'latex':
            o = gen.op(k, p=p, alone=r.random() < .5)
        elif k == 'tableprint':
            o = gen.op(k, 0, quantum=bool(r.random() < .5))
        else:
            nf = {}
            for _ in range(r.choice([1, 2, 2, 3, 4])):
                m = [(poly.name(gen.lam(g)), 1)]
                if r.random() < .3:
                    m.append((r.choice(['q', 'q1', 'q2']), r.choice([1, 2])))
                nf = poly.padd(nf, {tuple(sorted(m)): gen.coef()})
            nf = poly.canon(nf)
            q = bool(r.random() < .6)
            o = gen.op(k, a=gen.pack(nf, ['str', 'lc', 'expr', 'lcsum', 'schur']) if nf else
                       gen.class_op((1,)), q=q)
        u = r.random()
        if u < .25:
            o['fault'] = {'exc': r.choice(['EPIPE', 'EIO', 'ENOSPC']), 'seam': 'stdout.write', 'at_call': r.choice([1, 1, 2, 3, 4, 6, 9])}
            if r.random() < .5:
                o['torn'] = 1
        elif u < .35:
            o['fault'] = {'exc': r.choice(['KeyboardInterrupt', 'MemoryError', 'SimTimeout']), 'at': r.randrange(1, 80)}
        same = [x for x in ops if o['op'] in ('draw', 'print_partition', 'latex', 'lcdraw') and x['op'] == o['op']
                or x['op'] in ('print_partition', 'latex') and o['op'] in ('print_partition', 'latex')]
        if same and r.random() < .4:      # the same object drawn again, in this thread or another
            x = r.choice(same)
            x.setdefault('sh', x['id'])
            for f in ('p', 'a', 'sh'):
                if f in x:
                    o[f] = x[f]
        ops.append(o)
        if 'fault' in o and r.random() < .5:
            o = {x: y for x, y in o.items() if x not in ('fault', 'torn')}
            o['id'] = gen.nid
            gen.nid += 1
            ops.append(o)
    return gen.scenario(gen.split(ops, r.choices([1, 2, 3], [.4, .35, .25])[0]), stdout=1)


checks.check('C18', session, ['value', 'argmut'], Draw.names, thorough=30000)
