"""Comparison of exported tables: real files behind the simulated raw layer."""
import gc
import os
import random

import algebra
import checks
import core
import poly
import runner
import simio


def render(rows, sty):
    """One file content for a list of rows [label, label, normal form | text]."""
    r = random.Random(sty)
    rows = list(rows)
    if sty:
        r.shuffle(rows)
    eol = r.choice(['\n', '\n', '\r\n'])
    out = []
    for a, b, nf in rows:
        t = algebra.spell(algebra.nf_load(nf), r.randrange(1000))
        cols = [a, b, t]
        if r.random() < .1:
            cols = ['"%s"' % x for x in cols]
        line = ';'.join(cols)
        if r.random() < .07:
            line += ';note'
        out.append(line)
        if r.random() < .1:
            out.append(r.choice(['', ';;', 'x;y', '']))
        if r.random() < .08:
            out.append(line)                 # the same row once more
    txt = eol.join(out)
    if r.random() < .85:
        txt += eol
    return txt


class Csv:
    names = {'csvcmp'}

    def setup(self, scn, w):
        if scn.get('files'):
            simio.install()
            for name, x in scn['files'].items():
                self.write(os.path.join(simio.ROOT, name), *x)

    @staticmethod
    def write(p, rows, sty, garble=None):
        t = render(rows, sty).encode()
        if garble is not None:       # a damaged byte: no text any more
            i = garble % (len(t) + 1)
            t = t[:i] + b'\xff' + t[i + 1:]
        with simio._real_open(p, 'wb') as f:
            f.write(t)

    def teardown(self, scn, w):
        if scn.get('files'):
            simio.uninstall()

    def pre(self, op, w, c):
        simio.STATE.chunk[c.tid] = op.get('chunk', 0)
        if 'put' in op:           # this thread's own file gets new contents first
            p = self.path('@', c.tid)
            self.write(p, *op['put'])
            w.extra['puts'] = w.extra.get('puts', 0) + 1
            os.utime(p, (10 ** 9 + w.extra['puts'], 10 ** 9 + w.extra['puts']))

    @staticmethod
    def path(name, tid):
        return os.path.join(simio.ROOT, 'own%d.csv' % tid if name == '@' else name)

    def call(self, op, w):
        from schubertpy.csv_bijection import check_bijection_with_permutation as chk
        import core
        a = [self.path(op[x], core.CUR.cur.tid) for x in ('f1', 'f2')]
        return a, lambda: chk(*a)

    def on_exc(self, op, w, rec, c, e):
        # a caller handling the error of a failed open or read finds all files closed
        if isinstance(e, OSError):
            rec['early'] = [os.path.basename(x) for x in simio.open_handles(c.tid)]

    def post(self, op, w, rec, c):
        left = simio.open_handles(c.tid)
        if left:
            gc.collect()
            left = simio.open_handles(c.tid)
        rec['left'] = [os.path.basename(x) for x in left] or rec.get('early')
        for h in simio.STATE.handles:
            if h._owner == c.tid and not h._done:
                h._done = True
        if w.scn.get('retain'):
            del simio.STATE.handles[:]

    @staticmethod
    def contents(exp, op):
        return dict(exp.scn['files'], **({'@': op['put']} if 'put' in op else {}))

    def rows(self, fs, f):
        return {(a, b, repr(sorted(map(repr, algebra.nf_load(nf).items())))) for a, b, nf in fs[f][0]}

    def check(self, exp, op, rec):
        fs = self.contents(exp, op)
        missing = [f for f in (op['f1'], op['f2']) if f not in fs]
        if rec['left']:
            return 'left files open: %s' % rec['left']
        if missing:
            return 'answered %r although %s does not exist' % (rec['v'], missing)
        if any(len(fs[f]) > 2 for f in (op['f1'], op['f2'])):
            return 'answered %r although a file is damaged and cannot be read as text' % (rec['v'],)
        if rec.get('fired') and 'fs.' in rec['fired']:
            return 'answered %r although reading failed (%s)' % (rec['v'], op['fault'])
        want = ['py', self.rows(fs, op['f1']) == self.rows(fs, op['f2'])]
        if rec['v'] != want:
            return 'answered %r, expected %r for %r and %r' % (rec['v'][1], want[1], fs[op['f1']], fs[op['f2']])
        return None

    def check_exc(self, exp, op, rec):
        if rec.get('left'):
            return 'left files open after failing: %s' % rec['left']
        if any(f not in self.contents(exp, op) for f in (op['f1'], op['f2'])) and rec['exc'] == 'FileNotFoundError':
            return None
        if runner.injected(rec):
            return None
        fs = self.contents(exp, op)
        if any(len(fs.get(f, ())) > 2 for f in (op['f1'], op['f2'])):
            return None
        return 'raised %s: %s %s' % (rec['exc'], rec['msg'], rec.get('at'))


runner.FAMILIES.append(Csv())


def table_rows(gen, g, quantum=True):
    """Rows of a real product table of the reference model."""
    import refmodel as R
    r = gen.rng
    cl = g.classes
    rows = []
    for _ in range(r.choice([0, 1, 2, 4, 8])):
        a, b = r.choice(cl), r.choice(cl)
        if len(cl) > 40 and r.random() < .7:
            a = r.choice([x for x in cl if sum(x) <= 3])
        nf = poly.from_element(g.mul({(a, R.ONE): 1}, {(b, R.ONE): 1}, quantum))
        rows.append([poly.name(a), poly.name(b), algebra.nf_json(nf)])
    seen, out = set(), []
    for x in rows:
        if (x[0], x[1]) not in seen:
            seen.add((x[0], x[1]))
            out.append(x)
    return out


def mutate(gen, g, rows):
    """A different table: one entry changed, dropped, added, relabelled, swapped."""
    r = gen.rng
    rows = [list(x) for x in rows]
    if not rows:
        return [['S[]', 'S[]', algebra.nf_json({(('S[]', 1),): 1})]]
    i = r.randrange(len(rows))
    how = r.choice(['coef', 'term', 'drop', 'add', 'label', 'swap', 'swapcols', 'power', 'double'])
    nf = algebra.nf_load(rows[i][2])
    if how == 'coef' and nf:
        k = r.choice(sorted(nf))
        nf[k] = -nf[k] if r.random() < .4 else nf[k] + r.choice([1, -2])
        nf = poly.canon(nf)
        rows[i][2] = algebra.nf_json(nf)
    elif how == 'term':
        rows[i][2] = algebra.nf_json(poly.padd(nf, {((poly.name(gen.lam(g)), 1), ): 1}))
    elif how == 'power':
        rows[i][2] = algebra.nf_json(poly.pmul(nf, {(('q', 1),): 1}) if nf else {(('q', 1),): 1})
    elif how == 'double':       # a second, different product of the same two classes
        rows.append([rows[i][0], rows[i][1], algebra.nf_json(poly.padd(nf, {(('S[]', 1),): 3}))])
    elif how == 'drop':
        rows.pop(i)
    elif how == 'add':
        rows.append(['S[]', 'S[9]', algebra.nf_json({(('S[9]', 1),): 1})])
    elif how == 'label':
        rows[i][r.randrange(2)] = 'S[9,9]'
    elif how == 'swap' and len(rows) > 1:
        j = (i + 1) % len(rows)
        rows[i][2], rows[j][2] = rows[j][2], rows[i][2]
    else:
        rows[i][0], rows[i][1] = rows[i][1], rows[i][0]
    return rows


def session(gen):
    r = gen.rng
    sp = gen.add_space(gen.spec({'tiny': 3, 'small': 3, 'mid': 1, 'huge': 1}))
    g = gen.ring(sp)
    files = {}
    base = table_rows(gen, g)
    files['a.csv'] = [base, 0]
    files['b.csv'] = [base, r.randrange(1, 10**6)]
    for n in ('c.csv', 'd.csv')[:r.choice([1, 2])]:
        files[n] = [mutate(gen, g, base), r.randrange(1, 10**6)]
    if r.random() < .3:
        files['e.csv'] = [table_rows(gen, g, False), r.randrange(1, 10**6)]
    if r.random() < .12:
        f = r.choice(sorted(files))
        if f != 'a.csv':
            files[f].append(r.randrange(1000))
    names = sorted(files)
    ops = []
    for _ in range(r.randint(3, 8)):
        u = r.random()
        if u < .35:
            p = ['a.csv', 'b.csv']
        elif u < .95:
            p = [r.choice(names), r.choice(names)]
        else:
            p = [r.choice(names), 'none.csv']
        if r.random() < .5:
            p.reverse()
        o = gen.op('csvcmp', f1=p[0], f2=p[1])
        if r.random() < .4:
            o['put'] = [base if r.random() < .5 else mutate(gen, g, base), r.randrange(1, 10**6)]
            o[r.choice(['f1', 'f2'])] = '@'
        if r.random() < .4:
            o['chunk'] = r.choice([1, 3, 7, 64])
        v = r.random()
        if v < .3:
            f = r.choice(['fs.open', 'fs.read'])
            o['fault'] = {'exc': r.choice(['EMFILE', 'EACCES', 'ENOENT', 'EIO'] if f == 'fs.open' else ['EIO']), 'seam': f,
                          'at_call': r.choice([1, 1, 2, 3, 4]) if f == 'fs.open' else r.choice([1, 2, 3, 4, 8, 20])}
        elif v < .42:
            o['fault'] = {'exc': r.choice(['KeyboardInterrupt', 'MemoryError', 'SimTimeout']), 'at': r.randrange(1, 120)}
        ops.append(o)
        if 'fault' in o and r.random() < .6:
            o = {k: x for k, x in o.items() if k != 'fault'}
            o['id'] = gen.nid
            gen.nid += 1
            ops.append(o)
    return gen.scenario(gen.split(ops, r.choices([1, 2, 3], [.4, .4, .2])[0]), files=files)


checks.check('C16', session, ['value'], Csv.names, thorough=30000)
