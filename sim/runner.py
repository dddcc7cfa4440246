"""Runs one scenario in a forked child under the simulator, and judges it."""
import gc
import json
import os
import resource
import select
import signal
import socket
import sys
import time
import traceback

import algebra
import core
import poly

FAMILIES = []        # extra op families: objects with .names, .call, .check, .setup, .final


def family(op):
    n = op['op']
    for f in FAMILIES:
        if n in f.names:
            return f
    return None


class World:
    def __init__(self, scn, sim):
        self.scn = scn
        self.sim = sim
        self.slots = {}
        self.results = {}
        self.snaps = {}
        self.extra = {}

    def space(self, i):
        import schubertpy as S
        e = self.scn['spaces'][i]
        key = e['slot']
        cur = self.slots.get(key)
        want = (tuple(e['spec']), e.get('via'))
        if cur is not None and cur[0] == want:
            return cur[1]
        if cur is not None:
            del self.slots[key]      # the old space object is dropped first
            cur = None
        cls = getattr(S, algebra.CLS[e['spec'][0]])
        obj = cls(e['spec'][1], e['spec'][2])
        if e.get('via') == 'clone':
            obj = obj.clone()
        self.slots[key] = (want, obj)
        return obj


def refs(op):
    return [v['ref'] for v in op.values() if isinstance(v, dict) and 'ref' in v]


def exec_op(sim, c, op, w, out):
    retain = w.scn.get('retain')
    if retain:              # free lists hand blocks of the code under test to the record
        gc.collect()
    rec = out[op['id']] = {}
    for r in refs(op):
        if r not in w.results:
            rec['s'] = 'skip'
            return
    fam = family(op)
    args = None
    pre = None
    if fam and hasattr(fam, 'pre'):
        fam.pre(op, w, c)
    try:
        sim.begin(c, op['id'], op.get('fault'), op.get('budget'))
        try:
            args, thunk = (fam.call if fam else algebra.call)(op, w)
            sim.end(c)
            pre = algebra.snap(args)
            c.inop = True
            res = on_thread(c, thunk) if op.get('fresh') else thunk()
        finally:
            sim.end(c)
        rec['s'] = 'ok'
    except core.SimAbort:
        rec['s'] = 'abort'
        rec['n'] = c.lstep
        raise
    except BaseException as e:
        rec['s'] = 'exc'
        rec['exc'] = type(e).__name__
        rec['msg'] = str(e)[:300]
        if not c.fired:
            tb = traceback.extract_tb(e.__traceback__)
            rec['at'] = ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb
                         if f.filename.startswith(core._PREFIXES)][-3:]
        if fam and hasattr(fam, 'on_exc'):
            fam.on_exc(op, w, rec, c, e)
        e = None
    if retain:
        gc.collect()
    rec['n'] = c.lstep
    rec['fired'] = c.fired_at
    if fam and hasattr(fam, 'post'):
        fam.post(op, w, rec, c)
    if pre is not None:
        post = algebra.snap(args)
        if post != pre:
            rec['argmut'] = [pre, post]
    if rec['s'] == 'ok':
        if op.get('keep', True):
            w.results[op['id']] = res
            w.snaps[op['id']] = algebra.snap(res)
        try:
            if retain and op['op'] != 'measure':
                rec['v'] = None          # keep nothing that the code under test allocated
            else:
                rec['v'] = (fam.value if fam and hasattr(fam, 'value') else algebra.value)(res)
        except Exception as e:
            rec['v'] = ['bad', '%s: %s' % (type(e).__name__, str(e)[:300])]
        if op.get('poke'):
            poke(res)
            w.snaps.pop(op['id'], None)
    if op.get('pokearg'):
        w.snaps.pop(op['id'], None)
        for x in args or []:
            if not any(x is y for i, y in w.results.items() if i != op['id']):
                pokearg(x)
    if retain and op['op'] != 'measure':
        out[op['id']] = w.extra.setdefault('records', {}).setdefault(json.dumps(rec, sort_keys=True), rec)
    if w.scn.get('render') and rec['s'] == 'ok':
        rec['str'] = render(res) + rec.get('out', '')


def on_thread(c, f):
    """f in a thread of its own, which takes the place of c until it ends."""
    import threading
    me, c.ident = c.ident, None
    box = []

    def main():
        c.ident = core._ident()
        try:
            box.append((True, f()))
        except BaseException as e:
            box.append((False, e))
        finally:
            c.ident = None
    t = threading.Thread(target=main)
    t.start()
    t.join()
    del t, main
    c.ident = me
    ok, v = box.pop()
    if ok:
        return v
    try:
        raise v
    finally:
        del v


def render(x):
    if type(x).__name__.endswith('MultTable'):
        return str(x)
    if isinstance(x, (list, tuple)):
        return '[' + ', '.join(render(y) for y in x) + ']'
    return str(x) + '|' + repr(x)


def pokearg(x):
    """The caller goes on using the list or class object it passed in."""
    import schubertpy as S
    if isinstance(x, S.Schur):
        x = x.p
    if isinstance(x, list):
        if x and isinstance(x[0], int) and x[0] > 1:
            x[0] -= 1
        x.append(1)


def poke(res):
    """The caller changes, in place, the object it was handed."""
    import schubertpy as S
    import sympy as sp
    if isinstance(res, list):
        for y in res:
            if isinstance(y, S.Schur) and isinstance(y.p, list):
                y.p.append(9)
            elif isinstance(y, list):
                y.append(9)
        res.append('poked')
    elif isinstance(res, S.Schur) and isinstance(res.p, list):
        res.p.append(9)
    elif isinstance(res, S.LinearCombination):
        res.expr = sp.Integer(0)
    elif isinstance(res, tuple) and res and isinstance(res[0], (S.MultTable, S.QMultTable)):
        for row in res[1]:
            for y in row:
                poke(y)
        for y in list(res[0].df.index) + list(res[0].df.columns):
            if isinstance(y, S.Schur) and isinstance(y.p, list):
                y.p.append(9)


def child_main(scn):
    """Executes scn; returns the JSON-able outcome."""
    threads = scn['threads']
    sim = core.Sim(threads, scn['sched'], budget=scn.get('budget', 3_000_000),
                   excluded=EXCLUDED)
    w = World(scn, sim)
    out = {}
    for f in FAMILIES:
        if hasattr(f, 'setup'):
            f.setup(scn, w)

    def body(s, t):
        for op in t.ops:
            exec_op(s, t, op, w, out)
    sim.run(body)
    final = {}
    if not sim.abort:
        mut = []
        for i, old in w.snaps.items():
            try:
                now = algebra.snap(w.results[i])
            except Exception as e:
                now = ['unreadable', repr(e)[:200]]
            if now != old:
                mut.append([i, old, now])
        final['mut'] = mut
        desc = []
        for (want, obj) in w.slots.values():
            try:
                got = [list(obj.get_type_data()), str(obj), obj.degree_q()]
            except Exception as e:
                got = ['exc', repr(e)[:200]]
            desc.append([list(want[0]), got])
        final['desc'] = desc
        for f in FAMILIES:
            if hasattr(f, 'final'):
                f.final(scn, w, final)
    for f in FAMILIES:
        if hasattr(f, 'teardown'):
            f.teardown(scn, w)
    return {
        'ops': out, 'final': final, 'abort': sim.abort,
        'harness': getattr(sim, 'harness_error', None),
        'pre': sim.rec_pre, 'fin': sim.rec_fin, 'steps': sim.gstep,
        'switches': sim.switches, 'hash': sim.log.hexdigest(), 'events': sim.events[:400],
        'faults': sim.fault_hits,
    }


EXCLUDED = {}


class Watchdog(Exception):
    """A run takes too long on this machine: no verdict on it."""


class HarnessError(Exception):
    pass


def readn(fd, n):
    buf = b''
    while len(buf) < n:
        b = os.read(fd, n - len(buf))
        if not b:
            raise EOFError
        buf += b
    return buf


def writen(fd, data):
    v = memoryview(data)
    while v:
        v = v[os.write(fd, v):]


def serve(ctl, dat):
    """The pristine process: forks one child per run and does nothing else, so that every run, here or in
    another process with the same hash seed, starts from the same memory."""
    while True:
        b = os.read(ctl, 1)
        if not b:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                gc.disable()
                if b == b'w':
                    os._exit(0)
                dn = os.open('/dev/null', os.O_RDWR)
                os.dup2(dn, 0)
                os.dup2(dn, 1)
                resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                scn = json.loads(readn(dat, int.from_bytes(readn(dat, 8), 'little')))
                writen(dat, json.dumps(child_main(scn)).encode())
                code = 0
            except BaseException:
                try:
                    writen(dat, ('!' + traceback.format_exc()).encode())
                except BaseException:
                    pass
            finally:
                os._exit(code)
        os.write(ctl, pid.to_bytes(8, 'little'))
        os.waitpid(pid, 0)
        os.write(ctl, b'........')


ZYGOTE = None


def zygote():
    """Starts the pristine process; call it once everything is imported."""
    global ZYGOTE
    c0, c1 = socket.socketpair()
    d0, d1 = socket.socketpair()
    gc.collect()
    gc.freeze()
    pid = os.fork()
    if pid == 0:
        c0.close()
        d0.close()
        try:
            serve(c1.fileno(), d1.fileno())
        finally:
            os._exit(1)
    c1.close()
    d1.close()
    ZYGOTE = (c0, d0)
    for _ in range(3):
        c0.sendall(b'w')
        readn(c0.fileno(), 16)


def fork_run(scn, timeout=100):
    """Runs scn in a fresh fork of the pristine process."""
    c, d = ZYGOTE
    sys.stdout.flush()
    sys.stderr.flush()
    req = json.dumps(scn).encode()
    buf = []
    end = time.monotonic() + timeout
    c.sendall(b'r')
    pid = int.from_bytes(readn(c.fileno(), 8), 'little')
    d.sendall(len(req).to_bytes(8, 'little') + req)
    late = False
    while True:
        left = end - time.monotonic()
        rd = select.select([c, d], [], [], max(0, left))[0] if not late else [c]
        if d in rd:
            buf.append(d.recv(1 << 20))
            continue
        if c in rd:
            readn(c.fileno(), 8)
            break
        late = True
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    while True:
        try:
            b = d.recv(1 << 20, socket.MSG_DONTWAIT)
        except BlockingIOError:
            break
        if not b:
            raise HarnessError('the pristine process is gone')
        buf.append(b)
    if late:
        raise Watchdog('wall-clock watchdog (%ds)' % timeout)
    data = b''.join(buf)
    if not data or data[:1] == b'!':
        raise HarnessError('child: ' + data[1:].decode(errors='replace')[-3000:])
    o = json.loads(data)
    o['ops'] = {int(k): v for k, v in o['ops'].items()}
    if o['harness']:
        raise HarnessError(o['harness'][-3000:])
    return o


# ------------------------------------------------------------------ judging
def injected(rec):
    return bool(rec.get('fired'))


def judge(scn, o, exp=None):
    """All violations of a run: list of dicts {cls, op, kind, msg}."""
    exp = exp or algebra.Expect(scn)
    vs = []
    if o['abort'] and o['abort'][0] in ('deadlock', 'no-progress'):
        why, tid, opid = o['abort']
        op = exp.ops.get(opid, {'op': '?'})
        vs.append(dict(cls=why, op=opid, kind=op['op'],
                       msg='%s in thread %s, operation %s %s' % (why, tid, opid, brief(op))))
        return vs
    for i, rec in sorted(o['ops'].items()):
        op = exp.ops[i]
        fam = family(op)
        if rec['s'] == 'ok':
            if rec.get('v') is None:
                continue
            msg = (fam.check(exp, op, rec) if fam else exp.check(op, rec['v']))
            if msg:
                vs.append(dict(cls='value', op=i, kind=op['op'], msg='%s: %s' % (brief(op), msg)))
        elif rec['s'] == 'exc':
            if fam and hasattr(fam, 'check_exc'):
                msg = fam.check_exc(exp, op, rec)
                if msg:
                    vs.append(dict(cls='value', op=i, kind=op['op'], msg='%s: %s' % (brief(op), msg)))
            elif not injected(rec):
                vs.append(dict(cls='value', op=i, kind=op['op'],
                               msg='%s raised %s: %s %s' % (brief(op), rec['exc'], rec['msg'], rec.get('at'))))
        if rec.get('argmut'):
            vs.append(dict(cls='argmut', op=i, kind=op['op'],
                           msg='%s changed its argument: %r' % (brief(op), rec['argmut'])))
    for i, old, now in o['final'].get('mut', []):
        op = exp.ops[i]
        vs.append(dict(cls='resmut', op=i, kind=op['op'],
                       msg='result of %s changed later: %r -> %r' % (brief(op), old, now)))
    for spec, got in o['final'].get('desc', []):
        d, t = algebra.describe(tuple(spec))
        if got != [d, t, d[6]]:
            vs.append(dict(cls='desc', op=None, kind='describe', msg='space %s describes itself as %r' % (spec, got)))
    for f in FAMILIES:
        if hasattr(f, 'judge_final'):
            vs += f.judge_final(scn, o, exp)
    return vs


def brief(op):
    def b(x):
        if isinstance(x, dict) and 'nf' in x:
            return '%s as %s' % (poly.show(algebra.nf_load(x['nf'])), x.get('form', 'str'))
        if isinstance(x, dict) and 'ref' in x:
            return 'result #%d' % x['ref']
        return repr(x)
    a = ', '.join(b(v) for k, v in op.items() if k not in ('id', 'op', 'sp', 'fault', 'budget', 'keep', 'poke', 'pokearg'))
    f = ''
    if op.get('fault'):
        f = ' with fault %s' % json.dumps(op['fault'])
    return '#%s %s(%s)%s' % (op.get('id'), op.get('op'), a, f)


def init(knobs):
    """Prepares this process: imports the code under test behind the seams."""
    global EXCLUDED
    import sympy                        # noqa: F401  third party, before the seams
    import numpy, pandas                # noqa: F401,E401
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot            # noqa: F401
    core.install_locks()
    core.install_sympy_seam()
    restore = None
    if knobs.get('cache'):
        restore = core.install_cache_knob(knobs['cache'])
    sys.path.insert(0, core.REPO)
    import schubertpy
    import schubertpy.csv_bijection     # noqa: F401
    assert os.path.realpath(schubertpy.__file__).startswith(core.REPO + os.sep), schubertpy.__file__
    if restore:
        restore()
    EXCLUDED = core.excluded_lines()
    core.WRITES.update(core.shared_writes())
    core.READS.update(core.shared_reads())
    core.install_monitor()
    import warnings
    warnings.simplefilter('ignore')
    gc.collect()
    gc.freeze()
