"""Rendering: the same request reads the same on every node of a deployment.

Every group (hash seed, memo size) executes the same requests, but in its own
order, on its own threads, with its own schedule and interruptions."""
import random

import checks
import gen as G
import poly
import refmodel as R
import runner


class Render:
    names = set()

    def judge_final(self, scn, o, exp):
        if not scn.get('render'):
            return []
        seen, out = {}, []
        for th in scn['threads']:
            for op in th:
                s = o['ops'].get(op['id'], {}).get('str')
                k = op.get('as', op['id'])
                if s is None:
                    continue
                if seen.setdefault(k, s) != s:
                    out.append(dict(cls='render', op=None, kind='render', msg='%s reads %r at one time, %r at another'
                                    % (runner.brief(op), seen[k][:300], s[:300])))
        return out


runner.FAMILIES.append(Render())


def text_op(gen, g):
    """Things that put an order on the terms of a combination."""
    r = gen.rng
    lams = [gen.lam(g) for _ in range(r.choice([1, 2, 3]))]
    nf = {}
    for _ in range(r.randint(2, 7)):
        m = [(poly.name(r.choice(lams)), 1)]
        if r.random() < .7:
            m += [(q, r.choice([1, 1, 2, 3])) for q in r.choice([['q'], ['q1'], ['q2'], ['q1', 'q2'], ['q', 'q2']])]
        nf = poly.padd(nf, {tuple(sorted(m)): r.choice([1, 1, -1, 2, -3, 7])})
    if not nf:
        nf = {((poly.name(lams[0]), 1), ('q', 1)): 1}
    k = gen.pick({'expansion': 4, 'lcdraw': 4, 'reread': 2, 'read': 2, 'apply': 2, 'schurpol': 1, 'print': 1})
    if k == 'schurpol':
        p = sorted((r.randint(1, 3) for _ in range(r.randint(1, 3))), reverse=True)
        return gen.op(k, p=p, n=r.choice([2, 3]))
    if k == 'print':
        return gen.op('latex', p=list(lams[0]), alone=True)
    o = gen.op(k, a=gen.pack(nf, ['str', 'lc', 'expr', 'lcsum']))
    if k in ('expansion', 'lcdraw'):
        o['q'] = True
    if k == 'apply':
        o['map'] = [[list(x), list(gen.lam(g))] for x in lams]
    return o


def session(gen):
    r = gen.rng
    sps = [gen.add_space(gen.spec({'tiny': 3, 'small': 4, 'mid': .2})) for _ in range(r.choice([1, 2, 2]))]
    kinds = dict(G.ALL_KINDS, qgiambelli=5, giambelli=4, qpieri=6, qmult=8)
    kinds.pop('clone')
    base = []
    for _ in range(r.randint(4, 9)):
        sp = r.choice(sps)
        u = r.random()
        if u < .2:
            import fam_arith
            g = gen.ring(sp)
            o = gen.op('lc_bin', bin=r.choice(['add', 'sub', 'mul']), a=gen.pack(fam_arith.any_poly(gen, g), ['lc']),
                       b=gen.pack(fam_arith.any_poly(gen, g), ['lc']))
        elif u < .25 and len(gen.ring(sp).classes) <= 6:
            o = gen.op(r.choice(['table', 'qtable']), sp)
        elif u < .45:
            o = text_op(gen, gen.ring(sp))
        else:
            k = gen.pick(kinds)
            if k == 'qmult_rh' and gen.ring(sp).t != 'A':
                k = 'qmult'
            o = gen.make(k, sp)
        o['keep'] = False
        base.append(o)
    if r.random() < .5:
        gen.share([base])
    # from here on: this node's own life
    n = gen.rng = random.Random('%s/%s/%s/node%s' % (gen.check, gen.seed, gen.run, getattr(gen, 'group', 0)))
    ops = list(base)
    for o in base:
        if n.random() < .3:
            ops.append(dict(o, id=1000 + gen.nid, **{'as': o['id']}))
            gen.nid += 1
        if n.random() < .25:
            ops.append(dict(o, id=1000 + gen.nid, fault=gen.fault(o), **{'as': o['id']}))
            gen.nid += 1
    for _ in range(n.randint(0, 2)):          # other work on this node
        o = gen.make(n.choice(['qpieri', 'qmult', 'qgiambelli']), n.choice(sps))
        o['id'] += 2000
        o['keep'] = False
        ops.append(o)
    n.shuffle(ops)
    return gen.scenario(gen.split(ops, n.choice([1, 2, 3])), render=True, stdout=1)


checks.check('C13', session, ['render'], ['render'], thorough=20000, shared=True)
