"""The memo decorators, on functions and methods of the caller's own."""
import functools

import checks
import core
import runner


FALSY = {'nil': None, 'zero': 0, 'empty': '', 'no': False}
BOOM = object()


def pure(kind, a, k):
    """What the undecorated function answers: depends on every argument."""
    def flat(x):
        if isinstance(x, (list, tuple)):
            return [flat(y) for y in x]
        return x
    if a and isinstance(a[0], str) and a[0] in FALSY:          # answers that count as false
        return FALSY[a[0]]
    return '%s(%s;%s)' % (kind, flat(list(a)), sorted((n, flat(v)) for n, v in k.items()))


class Boom(Exception):
    pass


class Memo:
    names = {'memo', 'memo_new'}

    def setup(self, scn, w):
        if 'memo' not in scn:
            return
        from schubertpy.utils.hash import hashable_lru_cache, hashable_lru_cache_method
        seam = lambda: core.CUR is not None and core.CUR.call('user code')
        calls = w.extra['calls'] = []

        def note(who, a, k):
            calls.append((core.CUR.cur.op, who, repr((a, sorted(k.items())))))
            seam()
        fs = w.extra['fs'] = {}
        for i, (style, size, typed) in enumerate(scn['memo']):
            if style == 'func':
                def body(*a, _i=i, **k):
                    note('f%d' % _i, a, k)
                    if a and a[0] == 'boom':
                        raise Boom('user error %s' % (a[1:],))
                    r = pure('f%d' % _i, a, k)
                    seam()
                    return r
                fs[i] = hashable_lru_cache(maxsize=size, typed=typed)(body)
            elif style == 'rec':
                cell = {}

                def body(n, items, _i=i, _c=cell):
                    note('r%d' % _i, (n, items), {})
                    seam()
                    return 0 if n <= 0 else sum(items) * n + _c['f'](n - 1, list(items))
                fs[i] = cell['f'] = hashable_lru_cache(maxsize=size, typed=typed)(body)
            elif style == 'fam':        # two methods, a subclass, objects which come and go
                def body(who, self, a, k, _i=i):
                    note('%s%d/%d' % (who, _i, self.tag), a, k)
                    if a and a[0] == 'boom':
                        raise Boom('user error %s' % (a[1:],))
                    r = pure('%s%d/%d' % (who, _i, self.tag), a, k)
                    seam()
                    return r
                memo = lambda f: hashable_lru_cache_method(maxsize=size, typed=typed)(f)

                def go(self, *a, _b=body, **k):
                    return _b('go', self, a, k)

                def back(self, *a, _b=body, **k):
                    return _b('back', self, a, k)
                base = type('Base%d' % i, (), {'__init__': lambda self, tag: setattr(self, 'tag', tag),
                                               'go': memo(go), 'back': memo(back)})

                def over(self, *a, _p=base, _b=body, **k):
                    return _b('over', self, a, k) + '<' + _p.go(self, *a, **k)
                over.__name__ = 'go'
                sub = type('Sub%d' % i, (base,), {'go': memo(over)})
                fs[i] = dict(cls=[base, sub], objs=[base(0), base(1), sub(2)])
            else:
                def meth(self, *a, _i=i, **k):
                    note('m%d/%d' % (_i, self.tag), a, k)
                    if a and a[0] == 'boom':
                        raise Boom('user error %s' % (a[1:],))
                    r = pure('m%d/%d' % (_i, self.tag), a, k)
                    seam()
                    return r
                cls = type('Owner%d' % i, (), {'go': hashable_lru_cache_method(maxsize=size, typed=typed)(meth)})
                os_ = []
                for t in range(2):
                    o = cls()
                    o.tag = t
                    os_.append(o)
                fs[i] = [o.go for o in os_]

    def call(self, op, w):
        f = w.extra['fs'][op['f']]
        if op['op'] == 'memo_new':
            def renew():
                f['objs'][op['who']] = None
                core_gc()
                f['objs'][op['who']] = f['cls'][op['who'] == 2](op['tag'])
            return [], renew
        if isinstance(f, dict):
            o = f['objs'][op['who']]
            w.extra.setdefault('tags', {})[op['id']] = o.tag
            f = functools.partial(f['cls'][0].go, o) if op['m'] == 'up' else getattr(o, op['m'])
        elif isinstance(f, list):
            f = f[op['who']]
        style = w.scn['memo'][op['f']][0]
        a = [self.arg(x) for x in op['args']]
        k = {n: self.arg(x) for n, x in op.get('kw', {}).items()}
        return [a, sorted(k.items())], lambda: f(*a, **k)

    @staticmethod
    def arg(x):
        return tuple(x['t']) if isinstance(x, dict) else list(x) if isinstance(x, list) else x

    def post(self, op, w, rec, c):
        rec['calls'] = [x[1:] for x in w.extra['calls'] if x[0] == op['id']]
        rec['tag'] = w.extra.get('tags', {}).get(op['id'])

    def want(self, exp, op, rec):
        style = exp.scn['memo'][op['f']][0]
        a = [self.arg(x) for x in op['args']]
        k = {n: self.arg(x) for n, x in op.get('kw', {}).items()}
        if style == 'rec':
            n, items = a
            return sum(sum(items) * x for x in range(1, n + 1))
        if a and a[0] == 'boom':
            return BOOM
        if style == 'fam':
            x = '%d/%d' % (op['f'], rec['tag'])
            if op['who'] == 2 and op['m'] == 'go':
                return pure('over' + x, a, k) + '<' + pure('go' + x, a, k)
            return pure({'up': 'go'}.get(op['m'], op['m']) + x, a, k)
        return pure('f%d' % op['f'] if style == 'func' else 'm%d/%d' % (op['f'], op['who']), a, k)

    def check(self, exp, op, rec):
        if op['op'] == 'memo_new':
            return None
        e = self.want(exp, op, rec)
        if e is BOOM:
            return 'answered %r, the undecorated function raises' % (rec['v'],)
        if rec['v'] != ['py', e]:
            return 'memoised function answered %r, undecorated one %r' % (rec['v'], e)
        style, size, _ = exp.scn['memo'][op['f']]
        if len({repr(x) for x in rec['calls']}) != len(rec['calls']):
            return 'ran the function twice in one call: %r' % (rec['calls'],)
        if style not in ('rec', 'fam') and len(rec['calls']) > 1:
            return 'ran the function %d times' % len(rec['calls'])
        return None

    def check_exc(self, exp, op, rec):
        if runner.injected(rec):
            return None
        if op['op'] == 'memo' and self.want(exp, op, rec) is BOOM and rec['exc'] == 'Boom':
            return None
        return 'raised %s: %s %s' % (rec['exc'], rec['msg'], rec.get('at'))

    def judge_final(self, scn, o, exp):
        """One thread, room for everything: no completed call is computed again."""
        if 'memo' not in scn or len(scn['threads']) != 1:
            return []
        done, out = set(), []
        for op in scn['threads'][0]:
            if op['op'] != 'memo':
                continue
            rec = o['ops'].get(op['id'])
            style, size, typed = scn['memo'][op['f']]
            if not rec or size is not None or style == 'rec':
                continue
            m = 'go' if op.get('m') == 'up' and op['who'] != 2 else op.get('m')
            key = repr((op['f'], op.get('who'), m, rec.get('tag'), [self.arg(x) if not isinstance(x, dict) else list(x['t']) for x in op['args']],
                        sorted((n, x if not isinstance(x, dict) else list(x['t'])) for n, x in op.get('kw', {}).items())))
            if rec['s'] == 'ok':
                if key in done and rec['calls']:
                    out.append(dict(cls='value', op=op['id'], kind='memo',
                                    msg='%s was computed again although remembered' % runner.brief(op)))
                done.add(key)
        return out


runner.FAMILIES.append(Memo())


def core_gc():
    import gc
    gc.collect()


def session(gen):
    r = gen.rng
    memo = []
    for _ in range(r.randint(1, 3)):
        memo.append([r.choice(['func', 'func', 'meth', 'rec', 'fam']), r.choice([None, None, 1, 2, 8]), bool(r.random() < .3)])
    ops, pool = [], []
    for _ in range(r.randint(5, 25)):
        fam = [i for i, x in enumerate(memo) if x[0] == 'fam']
        if fam and ops and r.random() < .1:
            ops.append(gen.op('memo_new', f=r.choice(fam), who=r.randrange(3)))
            ops[-1]['tag'] = 10 + ops[-1]['id']
        if pool and r.random() < .55:
            o = dict(r.choice(pool), id=gen.nid)
            gen.nid += 1
            if memo[o['f']][0] == 'fam':        # of another object, by another method
                if r.random() < .4:
                    o['who'] = r.randrange(3)
                if r.random() < .3:
                    o['m'] = r.choice(['go', 'back', 'up'])
            if r.random() < .2:                 # the same request with a list for a tuple and so on
                o['args'] = [(x['t'] if isinstance(x, dict) else {'t': x} if isinstance(x, list) else x) for x in o['args']]
            elif memo[o['f']][2] and memo[o['f']][0] != 'rec' and r.random() < .5:      # equal values of other types
                o['args'] = [r.choice([x, int(x), float(x), bool(x) if x in (0, 1) else x])
                             if isinstance(x, (int, float)) else x for x in o['args']]
        else:
            f = r.randrange(len(memo))
            style = memo[f][0]

            def val():
                u = r.random()
                v = [r.randint(0, 3) for _ in range(r.randint(0, 3))]
                if r.random() < .2:
                    v = [x if x else r.choice([-1, -2]) for x in v]
                if u < .85:
                    return v if u < .45 else {'t': v} if u < .6 else r.choice([0, 1, 2, 'a', 'S[1]', None])
                if memo[f][2]:      # equal values of different types
                    return r.choice([0, False, 0.0, 1, True, 1.0, 2, 2.0])
                return r.choice([-1, -2, 0, 2**61 - 1, '1', '0', 'None', '[1]', '(1,)', '-1'])
            if style == 'rec':
                o = gen.op('memo', f=f, args=[r.randint(0, 5), [r.randint(0, 3) for _ in range(3)]])
            else:
                args = [val() for _ in range(r.randint(0, 3))]
                if r.random() < .1:
                    args = ['boom'] + args
                elif style in ('func', 'meth') and r.random() < .12:
                    args = [r.choice(sorted(FALSY))] + args
                o = gen.op('memo', f=f, args=args)
                if r.random() < .4:
                    o['kw'] = {n: val() for n in r.sample(['x', 'y', 'zz'], r.randint(1, 2))}
                if style == 'meth':
                    o['who'] = r.randrange(2)
                if style == 'fam':
                    o['who'], o['m'] = r.randrange(3), r.choice(['go', 'go', 'back', 'up'])
            pool.append(o)
        if r.random() < .15:
            o = dict(o)
            o['fault'] = ({'exc': r.choice(['KeyboardInterrupt', 'MemoryError', 'SimTimeout']), 'at': r.randrange(1, 14)}
                          if r.random() < .5 else {'exc': 'MemoryError', 'at_call': r.choice([1, 1, 2, 3])})
            ops.append(o)
            o = {k: v for k, v in o.items() if k != 'fault'}
            o['id'] = gen.nid
            gen.nid += 1
        ops.append(o)
    nt = r.choices([1, 2, 3], [.45, .35, .2])[0]
    sc = gen.sched(nt, span=150)
    if sc['mode'] == 'gap':
        sc['gap'] = r.choice([1, 2, 5, 15])
    return gen.scenario(gen.split(ops, nt), sc, memo=memo)


checks.check('C19', session, ['value', 'argmut', 'resmut'], Memo.names, thorough=60000, knobs=False)
