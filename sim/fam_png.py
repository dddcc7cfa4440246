"""Partitions drawn as pictures: files behind the simulated raw layer."""
import gc
import io
import os

import checks
import pixels
import runner
import simio


class Png:
    names = {'png', 'plot', 'userfig'}

    def setup(self, scn, w):
        if scn.get('pictures'):
            import matplotlib.pyplot as plt
            simio.install()
            w.extra['figs'] = {}
            plt.close('all')

    def final(self, scn, w, final):
        if not scn.get('pictures'):
            return
        import matplotlib.pyplot as plt
        mine = {f.number for f in w.extra['figs'].values()}
        final['stray'] = sorted(set(plt.get_fignums()) - mine)
        final['lost'] = [i for i, f in w.extra['figs'].items() if not plt.fignum_exists(f.number)]
        final['soiled'] = [i for i, f in w.extra['figs'].items()
                           if len(f.axes) != 1 or len(f.axes[0].lines) != 1 or f.axes[0].patches or f.axes[0].texts]

    def teardown(self, scn, w):
        if scn.get('pictures'):
            simio.uninstall()

    def judge_final(self, scn, o, exp):
        f = o['final']
        out = []
        if f.get('stray'):
            out.append(dict(cls='value', op=None, kind='figures', msg='figures left behind: %s' % f['stray']))
        if f.get('lost') or f.get('soiled'):
            out.append(dict(cls='value', op=None, kind='figures',
                            msg="caller's own figures closed %s or drawn on %s" % (f.get('lost'), f.get('soiled'))))
        return out

    def pre(self, op, w, c):
        simio.STATE.wchunk[c.tid] = op.get('chunk', 0)
        simio.STATE.torn[c.tid] = bool(op.get('torn'))

    def call(self, op, w):
        import schubertpy as S
        import matplotlib.pyplot as plt
        if op['op'] == 'userfig':
            def f():
                fig, ax = plt.subplots()
                ax.plot([0, 1], [1, 0])
                w.extra['figs'][op['id']] = fig
                return None
            return [], f
        s = S.Schur(list(op['p']))
        if 'sh' in op:
            s = w.extra.setdefault('shared', {}).setdefault(op['sh'], s)
        if op['op'] == 'plot':
            return [s], lambda: s.plot_partition()
        path = os.path.join(simio.ROOT, op['file'])
        return [s, path], lambda: s.export_png(path)

    def value(self, r):
        import matplotlib.image
        import matplotlib.pyplot as plt
        if r is None:
            return ['py', None]
        fig, ax = r
        try:
            b = io.BytesIO()
            fig.savefig(b, format='png')
            b.seek(0)
            return ['rows', pixels.rows(matplotlib.image.imread(b))]
        finally:
            plt.close(fig)

    def post(self, op, w, rec, c):
        import matplotlib.image
        import matplotlib.pyplot as plt
        if op['op'] == 'userfig':
            return
        left = [h for h in simio.STATE.handles if h._owner == c.tid and not h._done]
        if left:
            gc.collect()
            left = [h for h in left if not h._done]
        rec['left'] = [os.path.basename(h._path) for h in left]
        for h in left:
            h._done = True
        if len(w.sim.ts) == 1 and op['op'] == 'png':
            mine = {f.number for f in w.extra['figs'].values()}
            rec['stray'] = sorted(set(plt.get_fignums()) - mine)
            if w.extra['figs']:
                last = list(w.extra['figs'].values())[-1]
                rec['current'] = plt.gcf() is last
        if op['op'] == 'png':
            try:
                with simio._real_open(os.path.join(simio.ROOT, op['file']), 'rb') as f:
                    rec['rows'] = pixels.rows(matplotlib.image.imread(f))
            except Exception as e:
                rec['rows'] = 'unreadable: %s' % type(e).__name__

    def general(self, op, rec):
        if rec.get('left'):
            return 'left files open: %s' % rec['left']
        if rec.get('stray'):
            return 'left figures behind: %s' % rec['stray']
        if rec.get('current') is False:
            return "the caller's current figure is not current any more"
        return None

    def check(self, exp, op, rec):
        if op['op'] == 'userfig':
            return None
        m = self.general(op, rec)
        if m:
            return m
        got = rec.get('rows') if op['op'] == 'png' else rec['v'][1]
        if got != op['p']:
            return 'drew rows %r%s' % (got, ' although storing failed' if rec.get('fired') else '')
        return None

    def check_exc(self, exp, op, rec):
        m = self.general(op, rec)
        if m:
            return m
        if runner.injected(rec):
            return None
        return 'raised %s: %s %s' % (rec['exc'], rec['msg'], rec.get('at'))


runner.FAMILIES.append(Png())


def session(gen):
    r = gen.rng
    ops = []
    nt = r.choices([1, 2, 3], [.45, .35, .2])[0]
    if nt == 1 and r.random() < .5:
        ops.append(gen.op('userfig'))
    for _ in range(r.randint(2, 5)):
        m, k = r.choice([(1, 4), (2, 3), (3, 3), (5, 3), (4, 5), (7, 2), (1, 9), (2, 8), (12, 2)])
        p = sorted((r.randint(1, m) for _ in range(r.randint(1, k))), reverse=True)
        if r.random() < .15:
            ops.append(gen.op('plot', p=p, keep=False))
            continue
        o = gen.op('png', p=p, file='f%d.png' % gen.nid, keep=False)
        prev = [x for x in ops if x['op'] == 'png']
        if prev and r.random() < .4:
            x = r.choice(prev)
            x.setdefault('sh', x['id'])
            o.update(p=x['p'], sh=x['sh'])
        if prev and r.random() < .3:       # over a picture stored before
            o['file'] = r.choice(prev)['file']
        if r.random() < .35:
            o['chunk'] = r.choice([1, 16, 100, 1000])
        if r.random() < .45:
            f = r.choice(['fs.open', 'fs.write', 'fs.write'])
            e = ['EMFILE', 'EACCES', 'ENOSPC', 'EROFS'] if f == 'fs.open' else ['ENOSPC', 'EIO', 'EDQUOT']
            o['fault'] = {'exc': r.choice(e), 'seam': f, 'at_call': 1 if f == 'fs.open' else r.choice([1, 1, 2, 3, 5, 8])}
            if r.random() < .25:          # a signal, or the end of memory, in the middle of it
                o['fault']['exc'] = r.choice(['KeyboardInterrupt', 'SimTimeout', 'MemoryError'])
            if r.random() < .4:
                o['torn'] = 1
        ops.append(o)
        if 'fault' in o and r.random() < .6:
            o = {k: x for k, x in o.items() if k not in ('fault', 'torn')}
            o['id'] = gen.nid
            gen.nid += 1
            if r.random() < .5:
                o['file'] = 'f%d.png' % o['id']
            ops.append(o)
    if nt == 1 and r.random() < .3:
        ops.insert(r.randrange(len(ops)), gen.op('userfig'))
    ths = gen.split(ops, nt)
    # one writer per file
    own = {}
    for i, th in enumerate(ths):
        for o in th:
            if o['op'] == 'png':
                if own.setdefault(o['file'], i) != i:
                    o['file'] = 'g%d.png' % o['id']
    sc = gen.sched(len([t for t in ths if t]), span=60)
    if sc['mode'] == 'gap':
        sc['gap'] = r.choice([1, 2, 4, 10])
    return gen.scenario(ths, sc, pictures=1)


checks.check('C17', session, ['value'], Png.names | {'figures'}, thorough=15000)
