"""Workload, schedule and fault generation: every choice from one PRNG."""
import math
import random

import poly
import refmodel as R

QN = ('q', 'q1', 'q2')
_SP = None


def catalog():
    """Spaces by number of Schubert classes."""
    global _SP
    if _SP is None:
        _SP = {'tiny': [], 'small': [], 'mid': [], 'large': []}
        for sp in R.spaces():
            n = len(R.ring(*sp).classes)
            t = 'tiny' if n <= 8 else 'small' if n <= 28 else 'mid' if n <= 90 else 'large'
            _SP[t].append(sp)
        _SP['huge'] = R.huge()
    return _SP


def shape(sp):
    """Which of the special cases of the rules a space falls under."""
    g = R.ring(*sp)
    if g.t == 'A':
        return ('A', min(sp[1], sp[2] - sp[1]) <= 1, 0)
    return (g.t, min(g.k, 3), min(sp[1], 2))


class Gen:
    def __init__(self, check, seed, run):
        self.check, self.seed, self.run = check, seed, run
        self.rng = random.Random('%s/%s/%s' % (check, seed, run))
        self.spaces = []
        self.nid = 0
        self.lists = 0

    # ------------------------------------------------------------- spaces
    def pick(self, weights):
        ks = list(weights)
        return self.rng.choices(ks, [weights[k] for k in ks])[0]

    def spec(self, tiers, cls=None):
        for _ in range(50):
            pool = catalog()[self.pick(tiers)]
            if self.rng.random() < .4:      # every branch of the rules gets its share
                kinds = sorted({shape(x) for x in pool if cls is None or x[0] in cls})
                if kinds:
                    k = self.rng.choice(kinds)
                    pool = [x for x in pool if shape(x) == k]
            sp = self.rng.choice(pool)
            if len(R.ring(*sp).classes) == 1 and self.rng.random() < .85:
                continue      # points are many, and say little
            if cls is None or sp[0] in cls:
                return sp
        return sp

    def add_space(self, spec, slot=None, via=None):
        e = {'spec': list(spec), 'slot': len(self.spaces) if slot is None else slot}
        if via:
            e['via'] = via
        self.spaces.append(e)
        return len(self.spaces) - 1

    def ring(self, sp):
        return R.ring(*self.spaces[sp]['spec'])

    def op(self, kind, sp=None, **k):
        o = {'id': self.nid, 'op': kind}
        self.nid += 1
        if sp is not None:
            o['sp'] = sp
        o.update(k)
        return o

    # ----------------------------------------------------------- operands
    def qs(self, g):
        return ('q1', 'q2') if g.t == 'D' and g.k == 1 else ('q',)

    def lam(self, g, small=False):
        if small:
            c = [x for x in g.classes if sum(x) <= (4 if len(g.classes) < 600 else 3)]
            if self.rng.random() < .4:        # special classes of any degree
                c = [x for x in g.classes if len(x) == 1] or c
            return self.rng.choice(c)
        r = self.rng.random()
        if r < .08:
            return g.point()
        if r < .3:      # near the top of the poset, where quantum terms live
            return self.rng.choice(g.classes[-max(2, len(g.classes) // 3):])
        return self.rng.choice(g.classes)

    def coef(self):
        r = self.rng
        if r.random() < .06:
            return r.choice([10, 100, -12, 9999999, -10 ** 6, 2 ** 53 + 1, 10 ** 20, -10 ** 20 - 7])
        return r.choice([-3, -2, -1, 1, 1, 2, 5])

    def form(self, single, forms=None):
        r = self.rng
        if single:
            if self.lists and r.random() < self.lists and (not forms or 'list' in forms):
                return r.choice(['list', 'schur'])
            return r.choice(forms or ['str', 'schur', 'list', 'lc', 'expr'])
        return r.choice([f for f in (forms or ['str', 'lc', 'expr', 'lcsum']) if f not in ('schur', 'list')])

    def operand(self, g, terms=None, q=.15, small=False, forms=None, lams=None, name=poly.name):
        r = self.rng
        n = terms or r.choices([1, 2, 3, 5], [.68, .2, .09, .03])[0]
        nf = {}
        for _ in range(n):
            lam = r.choice(lams) if lams else self.lam(g, small)
            c = 1 if n == 1 and r.random() < .8 else self.coef()
            m = [(name(lam), 1)]
            if r.random() < q:
                m.append((r.choice(self.qs(g)), r.choice([1, 1, 2])))
            nf = poly.padd(nf, {tuple(sorted(m)): c})
        if not forms and r.random() < .02:
            return self.pack({})
        if not nf:
            nf = {((name(r.choice(lams) if lams else self.lam(g, small)), 1),): 1}
        o = self.pack(nf, forms)
        if len(nf) > 1 and r.random() < .1:
            o['fac'] = 1
        return o

    def pack(self, nf, forms=None):
        import algebra
        o = {'nf': algebra.nf_json(nf), 'sty': self.rng.randrange(1000)}
        o['form'] = self.form(algebra.single(nf) is not None, forms)
        return o

    def class_op(self, lam, forms=None):
        return self.pack({((poly.name(lam), 1),): 1}, forms)

    def polynomial(self, g, names, deg=3):
        """A small polynomial in the given class names."""
        r = self.rng
        nf = {}
        for _ in range(r.choice([1, 1, 2])):
            mono = {}
            power = deg > 2 and r.random() < .3
            for _ in range(r.randint(1, deg)):
                s = names[0] if power else r.choice(names)
                mono[s] = mono.get(s, 0) + 1
            if r.random() < .15:
                s = r.choice(self.qs(g))
                mono[s] = mono.get(s, 0) + 1
            nf = poly.padd(nf, {tuple(sorted(mono.items())): r.choice([1, 1, 1, 2, -1, 3])})
        if not nf:
            nf = {((names[0], 1),): 1}
        o = self.pack(nf, ['str', 'lc', 'expr'])
        if len(nf) > 1 and r.random() < .15:
            o['fac'] = 1
        return o

    # ---------------------------------------------------------- operations
    def make(self, kind, sp, small=False):
        r = self.rng
        g = self.ring(sp)
        if kind in ('qmult', 'mult', 'qmult_rh'):
            if kind == 'qmult_rh' and sum(g.point()) > 9:       # costs too much for more than single products
                return self.op(kind, sp, a=self.operand(g, terms=1, q=.05, small=small),
                               b=self.operand(g, terms=1, q=.05, small=small))
            q = .15 if kind == 'qmult' else .05
            return self.op(kind, sp, a=self.operand(g, q=q, small=small),
                           b=self.operand(g, q=q, small=small and (kind == 'qmult_rh' or r.random() < .4)))
        if kind in ('qtoS', 'toS'):
            if r.random() < .4:
                return self.op(kind, sp, a=self.operand(g, small=small))
            pool = [x for x in g.classes if 0 < sum(x) <= 4] or [()]
            return self.op(kind, sp, a=self.polynomial(g, [poly.name(x) for x in r.sample(pool, min(3, len(pool)))],
                                                       r.choice([2, 3, 3, 4, 5])))
        if kind in ('qact', 'act'):
            ps = [poly.name(g.special(p)) for p in g.specials()] or ['S[]']
            if ps == ['S[]']:
                return self.op('qmult' if kind == 'qact' else 'mult', sp, a=self.operand(g), b=self.operand(g))
            return self.op(kind, sp, e=self.polynomial(g, ps, 2 if small else r.choice([2, 3, 3, 4, 6])), b=self.operand(g, small=small and r.random() < .4))
        if kind in ('qpieri', 'pieri'):
            ps = g.specials()
            if not ps:
                return self.make('dualize', sp)
            return self.op(kind, sp, i=r.choice(ps), b=self.operand(g, q=.1))
        if kind in ('giambelli', 'qgiambelli'):
            if r.random() < .3:
                pool = [x for x in g.classes if 0 < sum(x) <= (3 if small else 5)] or [()]
                return self.op(kind, sp, a=self.polynomial(g, [poly.name(x) for x in r.sample(pool, min(3, len(pool)))],
                                                           r.choice([2, 3, 3, 4, 6])))
            return self.op(kind, sp, a=self.operand(g, small=small, q=.05))
        if kind in ('dualize', 'part2index', 'miami_swap'):
            return self.op(kind, sp, a=self.operand(g))
        if kind == 'index2part':
            return self.op(kind, sp, a=self.operand(g, lams=[g.index(self.lam(g)) for _ in range(3)]))
        if kind == 'type_swap':
            return self.op(kind, sp, a=self.operand(g), k=g.k)
        if kind in ('part2pair', 'pair2part'):
            if g.t == 'A':
                return self.make('part2index', sp)
            if kind == 'part2pair':
                return self.op(kind, sp, a=self.operand(g))

            def pname(lam):
                top, bot = g.pair(lam)
                return 'S[%s,%s]' % (poly.name(top)[1:], poly.name(bot)[1:])
            return self.op(kind, sp, a=self.operand(g, name=pname, forms=None))
        if kind == 'schub_type':
            if g.t != 'D':
                return self.make('miami_swap', sp)
            return self.op(kind, sp, a=self.class_op(self.lam(g), ['schur', 'list']))
        return self.op(kind, sp)

    # ----------------------------------------------------------- schedules
    def hot(self):
        r = self.rng
        u = r.random()
        if u < .25:
            s = {'mode': 'hot', 'p': r.choice([.02, .1, .3, .7])}
        elif u < .6:
            s = {'mode': 'hot', 'site': r.choice([.03, .1, .3])}
        else:
            s = {'mode': 'hot', 'depth': r.choice([1, 1, 2, 3]), 'span': r.choice([6, 12, 30, 100, 400])}
        if r.random() < .3:
            s['reads'] = 1
        return s

    def sched(self, nthreads, span=3000, fine=0.0):
        r = self.rng
        if nthreads < 2:
            return {'mode': 'serial'}
        s = {'seed': r.randrange(1 << 30)}
        if r.random() < .15:
            s.update(self.hot())
        elif r.random() < .45:
            s.update(mode='pct', depth=r.choice([1, 2, 3, 5]), span=span)
        else:
            s.update(mode='gap', gap=r.choice([1, 3, 10, 40, 150, 600]))
        if r.random() < fine:
            s['fine'] = 1
            if s['mode'] == 'pct':
                s['span'] = span * 9
        return s

    LEN = {'qmult': 9000, 'mult': 6000, 'qmult_rh': 6000, 'qtoS': 9000, 'toS': 6000, 'qact': 6000, 'act': 4000,
           'qgiambelli': 6000, 'giambelli': 5000, 'qpieri': 1500, 'pieri': 900}

    def fault(self, op, kinds=('KeyboardInterrupt', 'MemoryError', 'RecursionError', 'SimTimeout')):
        """A fault somewhere inside the operation."""
        r = self.rng
        if r.random() < .2:
            return {'exc': 'MemoryError', 'at_call': 1 + int(math.exp(r.random() * math.log(40)) - 1)}
        L = self.LEN.get(op['op'], 120)
        u = r.random()
        if u < .5:
            at = int(math.exp(r.random() * math.log(L)))
        else:
            at = r.randrange(1, max(2, L // 6))
        return {'exc': r.choice(kinds), 'at': max(1, at)}

    def scenario(self, threads, sched=None, **k):
        threads = [t for t in threads if t]
        s = {'spaces': self.spaces, 'threads': threads,
             'sched': sched or self.sched(len(threads))}
        if s['sched'].get('fine'):
            s['budget'] = 40_000_000
        s.update(k)
        if not s.get('retain') and not s.get('render') and self.rng.random() < .5:
            self.share(threads)
        return s

    def share(self, threads):
        """Some operations get the very same operand object."""
        r = self.rng
        last = {}
        if any(o.get('poke') or o.get('pokearg') for t in threads for o in t):
            return
        for o in (o for t in threads for o in t):
            for f, v in list(o.items()):
                if o['op'] in LINEAR and f in LINEAR[o['op']] and 'nf' in v:
                    k = (o['sp'], o['op'] == 'qmult_rh')
                    if k in last and r.random() < .35:
                        o[f] = last[k]
                    elif v['form'] != 'str' and (k not in last or r.random() < .4):
                        v['sh'] = r.randrange(1 << 20)
                        last[k] = v

    def split(self, ops, n):
        """Deal ops to n threads, keeping order (refs stay within a thread)."""
        ths = [[] for _ in range(n)]
        where = {}
        for o in ops:
            rs = [v['ref'] for v in o.values() if isinstance(v, dict) and 'ref' in v]
            t = where[rs[0]] if rs else self.rng.randrange(n)
            where[o['id']] = t
            ths[t].append(o)
        return ths


# -------------------------------------------------------------- generators
# operations taking any combination of classes, and which of their operands
LINEAR = {'qmult': 'b', 'mult': 'b', 'qmult_rh': 'ab', 'qpieri': 'b', 'pieri': 'b', 'dualize': 'a', 'part2index': 'a',
          'part2pair': 'a', 'type_swap': 'a', 'miami_swap': 'a', 'qact': 'b', 'act': 'b'}
ALL_KINDS = {'qmult': 6, 'mult': 3, 'qmult_rh': 2, 'qtoS': 2, 'toS': 1, 'qact': 1, 'act': 1, 'qpieri': 5, 'pieri': 3,
             'giambelli': 1, 'qgiambelli': 2, 'dualize': 2, 'part2index': 1, 'index2part': 1, 'part2pair': 1,
             'pair2part': 1, 'type_swap': 1, 'miami_swap': 1, 'schub_type': 1, 'schub_classes': 1, 'generators': 1,
             'point_class': 1, 'str': 1, 'clone': 1}
CHEAP = ('qpieri', 'pieri', 'dualize', 'part2index', 'index2part', 'part2pair', 'pair2part', 'type_swap', 'miami_swap',
         'schub_type', 'schub_classes', 'generators', 'point_class')
HEAVY = {'qmult', 'mult', 'qmult_rh', 'qtoS', 'toS', 'qact', 'act', 'giambelli', 'qgiambelli'}


TWIN = {'qmult': 'mult', 'mult': 'qmult', 'qtoS': 'toS', 'toS': 'qtoS', 'qact': 'act', 'act': 'qact', 'qpieri': 'pieri',
        'pieri': 'qpieri', 'giambelli': 'qgiambelli', 'qgiambelli': 'giambelli', 'qmult_rh': 'qmult'}


def value_session(gen, kinds, tiers, nops, noise=.2, fault_p=.35, max_threads=3, cls=None, forms=None):
    """One session of a value property: mostly the property's operations, over
    one to three spaces, in one to three threads, some of them interrupted."""
    r = gen.rng
    main = gen.add_space(gen.spec(tiers, cls))
    others, alike = [main], []
    for _ in range(r.choices([0, 1, 2], [.5, .35, .15])[0]):
        u = r.random()
        if u < .3:
            others.append(gen.add_space(gen.spaces[main]['spec'], via=r.choice([None, 'clone'])))
        else:
            others.append(gen.add_space(gen.spec({'tiny': 3, 'small': 2}, cls)))
    if r.random() < .15:      # a slot re-used by another space: the first object dies
        others.append(gen.add_space(gen.spec({'tiny': 3, 'small': 2}, cls), slot=0))
    if r.random() < .25:      # look-alikes, asked the same questions
        me = tuple(gen.spaces[main]['spec'])
        lim = 70 if HEAVY & set(kinds) else 300
        grp = sorted({x for c in clashes(lim) if me in c for x in c if x != me and (cls is None or x[0] in cls)})
        for s in r.sample(grp, min(len(grp), r.choice([1, 2]))):
            alike.append(gen.add_space(s))
    ops = []
    n = r.randint(*nops)
    faulty = r.random() < fault_p
    for _ in range(n):
        sp = main if r.random() < .7 else r.choice(others)
        if r.random() < noise:
            kind = gen.pick(ALL_KINDS)
            if kind == 'qmult_rh' and gen.ring(sp).t != 'A':
                kind = 'qmult'
        else:
            kind = gen.pick(kinds)
        big = len(gen.ring(sp).classes) > 90
        o = gen.make(kind, sp, small=big and kind in HEAVY)
        if r.random() < .12:        # what was asked before, in the other ring
            p = [x for x in ops if x['op'] in TWIN and 'fault' not in x and not
                 any(isinstance(y, dict) and 'ref' in y for y in x.values())]
            if p:
                p = r.choice(p)
                o = dict(p, id=o['id'], op=TWIN[p['op']])
                if r.random() < .3:
                    o['sp'] = r.choice([x for x in others + alike if gen.spaces[x]['spec'] == gen.spaces[p['sp']]['spec']])
        elif ops and r.random() < .12:
            prev = [p for p in ops if p['op'] in ('qmult', 'mult', 'qpieri', 'pieri', 'qmult_rh', 'dualize')
                    and p['sp'] == sp and 'fault' not in p]
            if prev:
                for f in ('b', 'a'):
                    if f in o and isinstance(o[f], dict) and o['op'] in ('qmult', 'mult', 'qpieri', 'pieri', 'qmult_rh',
                                                                         'dualize', 'part2index', 'qtoS', 'toS'):
                        o[f] = {'ref': r.choice(prev)['id']}
                        break
        if faulty and r.random() < .25:
            o['fault'] = gen.fault(o)
            ops.append(o)
            again = dict(o)
            again.pop('fault')
            again['id'] = gen.nid
            gen.nid += 1
            o = again
        ops.append(o)
        for sp in alike:
            try:
                o2 = dict(o, sp=sp, id=gen.nid)
                o2.pop('fault', None)
                if o['op'] not in ('str', 'clone', 'describe') and fits(gen, o2, gen.ring(sp)):
                    gen.nid += 1
                    if r.random() < .5:      # asked there before or after
                        ops.insert(-1, o2)
                    else:
                        ops.append(o2)
            except Exception:
                pass
    nt = r.choices([1, 2, 3], [.4, .35, .25])[0]
    nt = min(nt, max_threads)
    return gen.scenario(gen.split(ops, nt))


def faults_session(gen):
    """C09: the same request interrupted at several points, then asked again."""
    r = gen.rng
    tiers = {'tiny': 2, 'small': 4, 'mid': 1}
    sps = [gen.add_space(gen.spec(tiers)) for _ in range(r.choice([1, 1, 2]))]
    if r.random() < .3:
        sps.append(gen.add_space(gen.spaces[sps[0]]['spec'], via=r.choice([None, 'clone'])))
    ops = []
    for _ in range(r.randint(1, 3)):
        sp = r.choice(sps)
        kind = gen.pick(ALL_KINDS)
        if kind == 'qmult_rh' and gen.ring(sp).t != 'A':
            kind = 'qmult'
        o = gen.make(kind, sp)
        for _ in range(r.randint(1, 4)):
            f = dict(o)
            f['id'] = gen.nid
            gen.nid += 1
            f['fault'] = gen.fault(o)
            ops.append(f)
            if r.random() < .3:
                ops.append(gen.make(gen.pick({'qpieri': 2, 'qmult': 1, 'dualize': 1}), r.choice(sps)))
        again = dict(o)
        again['id'] = gen.nid
        gen.nid += 1
        ops.append(again)
        for _ in range(r.randint(1, 3)):
            k = gen.pick(ALL_KINDS)
            s2 = r.choice(sps)
            if k == 'qmult_rh' and gen.ring(s2).t != 'A':
                k = 'qmult'
            ops.append(gen.make(k, s2))
    nt = r.choices([1, 2, 3], [.6, .3, .1])[0]
    return gen.scenario(gen.split(ops, nt))


def threads_session(gen):
    """C10: several threads on shared spaces, preempted at any step; no faults."""
    r = gen.rng
    if r.random() < .07:
        return pressure_session(gen)
    fine = r.random() < .35
    tiers = {'tiny': 3, 'small': 4} if fine else {'tiny': 2, 'small': 4, 'mid': 1}
    sps = [gen.add_space(gen.spec(tiers)) for _ in range(r.choices([1, 2, 3], [.5, .3, .2])[0])]
    nt = r.choices([2, 3, 4], [.6, .25, .15])[0]
    kinds = dict(ALL_KINDS)
    for k in r.sample(sorted(kinds), 6):
        kinds[k] *= 6
    shared = []
    ths = []
    together = r.random() < .25                  # all begin with the same request
    if together:
        sp = r.choice(sps)
        k = gen.pick(ALL_KINDS)
        if r.random() < .3:
            sp, k = gen.add_space(gen.spec({'tiny': 1, 'small': 2}, cls=('Gr',))), 'qmult_rh'
        elif k == 'qmult_rh':
            k = 'qmult'
        shared.append(gen.make(k, sp, small=k != "qmult_rh" and r.random() < .6))
    for _ in range(nt):
        ops = []
        for _ in range(r.randint(1, 3)):
            if shared and (r.random() < .35 or together and not ops):
                o = dict(r.choice(shared) if ops or not together else shared[0])     # same request in two threads
                o['id'] = gen.nid
                gen.nid += 1
            else:
                sp = r.choice(sps)
                k = gen.pick(kinds)
                if k == 'qmult_rh' and gen.ring(sp).t != 'A':
                    k = 'qmult'
                o = gen.make(k, sp, small=r.random() < .3)
                shared.append(o)
            ops.append(o)
        ths.append(ops)
    sc = gen.sched(nt, span=r.choice([300, 3000, 10000]))
    if together and r.random() < .6:
        sc = dict(gen.hot(), seed=r.randrange(1 << 30))
    if fine:
        sc['fine'] = 1
        if sc['mode'] == 'pct':
            sc['span'] *= 9
    return gen.scenario(ths, sc)


def wide(gen, sp, kind):
    """A product with one special class, of many classes at once."""
    r = gen.rng
    g = gen.ring(sp)
    lams = r.sample(g.classes, min(len(g.classes), r.randint(10, 40)))
    nf = {((poly.name(x), 1),): r.choice([1, 1, 2, -1]) for x in lams}
    return gen.op(kind, sp, i=r.choice(g.specials()), b=gen.pack(nf, ['lc', 'expr']))


def pressure_session(gen):
    """C10: one thread asks for hundreds of different products, so that whatever
    is remembered grows, and gives way; others ask for a few, again and again."""
    r = gen.rng
    sps = []
    while not sps or r.random() < .4:
        sp = gen.spec({'small': 1, 'mid': 4, 'large': .5})
        if len(R.ring(*sp).specials()) and len(R.ring(*sp).classes) < 400:
            sps.append(gen.add_space(sp))
    kinds = r.choice([('qpieri',), ('pieri',), ('pieri', 'qpieri')])
    ths = [[wide(gen, r.choice(sps), r.choice(kinds)) for _ in range(r.randint(6, 16))]]
    for _ in range(r.choice([1, 1, 2])):
        few = []
        for _ in range(r.randint(1, 2)):
            sp = r.choice(sps)
            g = gen.ring(sp)
            few.append(gen.op(r.choice(kinds), sp, i=r.choice(g.specials()),
                              b=gen.operand(g, terms=r.choice([1, 2, 3]), q=.05)))
        ops = []
        for i in range(r.randint(2, 8)):
            o = dict(few[0] if i < 2 else r.choice(few), id=gen.nid)
            gen.nid += 1
            ops.append(o)
        ths.append(ops)
    if r.random() < .5:
        sc = {'mode': 'hot', 'site': r.choice([.1, .3, .6]), 'reads': 1}
    elif r.random() < .3:
        sc = gen.hot()
    elif r.random() < .5:
        sc = {'mode': 'gap', 'gap': r.choice([10, 40, 150, 600])}
    else:
        sc = {'mode': 'pct', 'depth': r.choice([1, 2, 3, 5]), 'span': r.choice([3000, 20000, 100000])}
    return gen.scenario(ths, dict(sc, seed=r.randrange(1 << 30)))


_CLASHES = {}


def clashes(limit=70):
    """Groups of spaces sharing internal parameters (k, n) or class or sizes."""
    if limit not in _CLASHES:
        by = {}
        for sp in R.spaces():
            g = R.ring(*sp)
            if len(g.classes) > limit:
                continue
            if limit > 70:
                if g.t != 'A':
                    by.setdefault(('nN', g.n, sp[2]), []).append(sp)
                by.setdefault(('size', len(g.classes[-1]), len(g.specials())), []).append(sp)
            by.setdefault(('kn', g.k, g.n), []).append(sp)
            by.setdefault(('mN', sp[1], sp[2]), []).append(sp)
            by.setdefault(('clsm', sp[0], sp[1]), []).append(sp)
            by.setdefault(('clsk', sp[0], g.k), []).append(sp)
        _CLASHES[limit] = [v for k, v in sorted(by.items()) if len(v) > 1]
    return _CLASHES[limit]


def grid_session(gen):
    """C11: the same cheap questions asked of each of several look-alikes."""
    r = gen.rng
    grp = r.choice(clashes(300))
    if r.random() < .4:
        grp = r.choice([x for x in clashes(300) if len({R.ring(*s).t for s in x}) > 1])
    specs = r.sample(grp, min(len(grp), r.choice([2, 2, 3, 4])))
    sps = [gen.add_space(s) for s in specs]
    for i, sp in enumerate(list(sps)):
        if r.random() < .15:
            sps.append(gen.add_space(specs[i], via=r.choice([None, 'clone'])))
    g0 = gen.ring(r.choice(sps))
    deep = [x for x in g0.classes if len(x) > 2]
    qs = []
    for _ in range(r.randint(5, 12)):
        lams = r.sample(deep, min(len(deep), 8)) if deep and r.random() < .6 else None
        k = gen.pick({'pieri': 3, 'qpieri': 3, 'part2pair': 2, 'part2index': 1, 'dualize': 1, 'miami_swap': 1})
        if 'pieri' in k and g0.specials():
            o = dict(op=k, i=r.choice(g0.specials()), b=gen.operand(g0, q=.05, lams=lams))
        else:
            o = dict(op=k if 'pieri' not in k else 'dualize', a=gen.operand(g0, q=.05, lams=lams))
        qs.append(o)
    ops = []
    order = [(s, q) for s in sps for q in qs]
    if r.random() < .6:
        r.shuffle(order)
    for s, q in order:
        o = dict(q, sp=s, id=gen.nid)
        if fits(gen, o, gen.ring(s)):
            gen.nid += 1
            ops.append(o)
    return gen.scenario(gen.split(ops, r.choices([1, 2], [.7, .3])[0]))


def isolation_session(gen):
    """C11: look-alike spaces used alternately, dropped, cloned, re-created."""
    r = gen.rng
    if r.random() < .4:
        return grid_session(gen)
    grp = r.choice(clashes())
    specs = r.sample(grp, min(len(grp), r.choice([2, 2, 3])))
    if r.random() < .3:
        specs.append(gen.spec({'tiny': 1, 'small': 1}))
    sps = []
    for s in specs:
        sps.append(gen.add_space(s, slot=r.choice([None, None, 0, 1])))
        if r.random() < .3:
            sps.append(gen.add_space(s, via=r.choice([None, 'clone'])))
    common = []
    ops = []
    for _ in range(r.randint(6, 14)):
        sp = r.choice(sps)
        g = gen.ring(sp)
        k = gen.pick(ALL_KINDS)
        if k == 'qmult_rh' and g.t != 'A':
            k = 'qmult'
        o = gen.make(k, sp, small=len(g.classes) > 30)
        # ask the look-alike the same question, when it makes sense there
        if common and r.random() < .5:
            c = r.choice(common)
            try:
                o2 = dict(c, sp=sp, id=o['id'])
                if fits(gen, o2, g):
                    o = o2
            except Exception:
                pass
        common.append(o)
        ops.append(o)
    nt = r.choices([1, 2], [.6, .4])[0]
    return gen.scenario(gen.split(ops, nt))


def fits(gen, o, g):
    """Whether the operands of o are classes of g."""
    import algebra
    if o['op'] in ('index2part', 'pair2part', 'schub_type', 'part2pair') and g.t == 'A':
        return False
    if o['op'] == 'qmult_rh' and g.t != 'A':
        return False
    if o['op'] in ('index2part', 'pair2part'):
        return False
    if o['op'] == 'schub_type' and g.t != 'D':
        return False
    if 'i' in o and o['i'] not in g.specials():
        return False
    if 'k' in o:
        o['k'] = g.k
    okq = set(gen.qs(g))
    for f in ('a', 'b', 'e'):
        if f in o:
            if 'ref' in o[f]:
                return False
            for m, c in algebra.nf_load(o[f]['nf']).items():
                for s, e in m:
                    if s[0] == 'S':
                        lam = tuple(algebra.lam_of(s))
                        if lam not in g.cset:
                            return False
                        if f == 'e' and lam not in [g.special(p) for p in g.specials()]:
                            return False
                    elif s not in okq:
                        return False
    return True


def poke_session(gen):
    """C12: results are kept, fed back, changed in place by the caller; then the
    same requests again."""
    r = gen.rng
    sps = [gen.add_space(gen.spec({'tiny': 3, 'small': 4, 'mid': 1})) for _ in range(r.choice([1, 1, 2]))]
    kinds = dict(ALL_KINDS, schub_classes=3, generators=3, point_class=2, qpieri=6, pieri=6, get_type_data=1)
    kinds.pop('str')
    kinds.pop('clone')
    for k in r.sample(sorted(kinds), 6):
        kinds[k] *= 5
    gen.lists = .6
    many = r.random() < .35        # many short requests, on lists kept by the caller
    if many:
        kinds = {k: r.choice([1, 4]) for k in CHEAP}
        gen.lists = .9
        if r.random() < .4:
            sps.append(gen.add_space(gen.spec({'tiny': 2, 'small': 3, 'mid': 2, 'large': 1}, ('OG',))))
    ops, bases = [], []
    tab = [x for x in sps if len(gen.ring(x).classes) <= 8]
    for _ in range(r.randint(12, 25) if many else r.randint(4, 10)):
        sp = r.choice(sps)
        if tab and r.random() < .03:     # a whole table, its matrix changed by whoever got it first
            o = gen.op(r.choice(['table', 'qtable']), r.choice(tab), scribble=1)
            if r.random() < .5:
                o['poke'] = 1
            ops.append(o)
            continue
        if bases and r.random() < .45:
            o = dict(r.choice(bases))
            o['id'] = gen.nid
            gen.nid += 1
            o.pop('poke', None)
            o.pop('pokearg', None)
        else:
            k = gen.pick(kinds)
            if k == 'qmult_rh' and gen.ring(sp).t != 'A':
                k = 'qmult'
            o = gen.make(k, sp)
            if any(isinstance(v, dict) and 'ref' in v for v in o.values()):
                continue
            bases.append(o)
        u = r.random()
        if u < .3:
            o['poke'] = 1
        elif u < .55:
            o['pokearg'] = 1
        elif o['op'] in ('qmult', 'mult', 'qpieri', 'pieri') and r.random() < .5:
            ops.append(o)
            n = gen.make(o['op'], o['sp'])
            n['b'] = {'ref': o['id']}
            o = n
        ops.append(o)
    for b in bases:
        o = dict(b)
        o.pop('poke', None)
        o.pop('pokearg', None)
        o['id'] = gen.nid
        gen.nid += 1
        ops.append(o)
    nt = r.choices([1, 2], [.7, .3])[0]
    return gen.scenario(gen.split(ops, nt))
