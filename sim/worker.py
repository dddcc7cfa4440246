"""One simulator process: PYTHONHASHSEED and memo size are fixed per group, each
run happens in a fork of this process.  The job comes on standard input; answers
in JSON lines on the given fd."""
import hashlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def fix_addresses():
    """Same memory layout in every process, so that nothing depends on ASLR."""
    if os.environ.get('SIM_NOASLR'):
        return
    os.environ['SIM_NOASLR'] = '1'
    try:
        import ctypes
        libc = ctypes.CDLL(None)
        cur = libc.personality(0xffffffff)
        if cur != -1 and not cur & 0x0040000:
            if libc.personality(cur | 0x0040000) != -1:
                os.execv(sys.executable, [sys.executable] + sys.argv)
    except Exception:
        pass


KEEP = ('PATH', 'HOME', 'LANG', 'SIM_REPO', 'SIM_TMP')


def hashseed(seed, group):
    return int(hashlib.sha256(('h%s/%s' % (seed, group)).encode()).hexdigest()[:7], 16)


def env_for(seed, group):
    e = {k: v for k, v in os.environ.items() if k in KEEP}
    e.update(PYTHONHASHSEED=str(hashseed(seed, group)), PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1', MPLBACKEND='Agg',
             OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONWARNINGS='ignore',
             MPLCONFIGDIR=e.get('SIM_TMP', '/tmp'))
    return e


# ----------------------------------------------------------------- deciding
def relevant(chk, scn, o, vs, knob):
    """The violations of this check's own property."""
    import algebra
    import runner
    out = []
    for x in vs:
        if x['cls'] not in chk['classes']:
            continue
        if chk['kinds'] and x['kind'] not in chk['kinds']:
            continue
        if x['cls'] == 'no-progress' and knob:
            continue
        if chk['alone'] and x['cls'] in ('value', 'no-progress') and x['op'] is not None:
            if alone_fails(scn, x['op']):
                continue
        if chk.get('only') and not chk['only'](scn, x):
            continue
        out.append(x)
    return out


def alone_scn(scn, opid):
    import runner
    ops = {op['id']: op for th in scn['threads'] for op in th}
    need, todo = set(), [opid]
    while todo:
        i = todo.pop()
        if i in need:
            continue
        need.add(i)
        todo += runner.refs(ops[i])
    seq = []
    for th in scn['threads']:
        for op in th:
            if op['id'] in need:
                op = dict(op)
                op.pop('fault', None)
                op.pop('poke', None)
                op.pop('pokearg', None)
                op.pop('scribble', None)
                seq.append(op)
    spaces = [{'spec': e['spec'], 'slot': i} for i, e in enumerate(scn['spaces'])]
    k = {x: y for x, y in scn.items() if x not in ('spaces', 'threads', 'sched')}
    return dict(k, spaces=spaces, threads=[seq], sched={'mode': 'serial'})


def alone_fails(scn, opid):
    """Does the request go wrong by itself: fresh process, nothing else going on?"""
    import runner
    s = alone_scn(scn, opid)
    o = runner.fork_run(s)
    return any(x['op'] == opid or x['op'] is None for x in runner.judge(s, o))


def explicit(scn, o):
    s = dict(scn['sched'])
    e = {'mode': 'explicit', 'pre': o['pre'], 'fin': o['fin']}
    if s.get('fine'):
        e['fine'] = 1
    return dict(scn, sched=e)


def attempt(chk, scn, want, knob):
    """Runs scn; the matching violation and outcome, or None."""
    import runner
    try:
        o = runner.fork_run(scn)
    except (runner.HarnessError, runner.Watchdog):
        return None
    vs = [x for x in runner.judge(scn, o) if x['cls'] == want['cls'] and x['kind'] == want['kind']]
    vs = relevant(chk, scn, o, vs, knob) if vs else []
    return (vs[0], o) if vs else None


def drop_ops(scn, keep):
    """Scenario with only the operations in keep (and what they refer to)."""
    import runner
    ths = []
    for th in scn['threads']:
        ids = {op['id'] for op in th if op['id'] in keep}
        new = []
        for op in th:
            if op['id'] in ids and all(r in {x['id'] for x in new} for r in runner.refs(op)):
                new.append(op)
        ths.append(new)
    return dict(scn, threads=ths)


def ddmin(items, test, deadline):
    """Smaller list for which test holds (test(items) is known to hold)."""
    n = 2
    while len(items) >= 1 and time.monotonic() < deadline:
        size = max(1, len(items) // n)
        for i in range(0, len(items), size):
            cand = items[:i] + items[i + size:]
            if time.monotonic() > deadline:
                return items
            if test(cand):
                items = cand
                n = max(n - 1, 2)
                break
        else:
            if size == 1:
                break
            n = min(n * 2, len(items))
    return items


def minimise(chk, scn, viol, o, knob, budget=60):
    deadline = time.monotonic() + budget
    best = [explicit(scn, o), viol, o]
    first = attempt(chk, best[0], viol, knob)
    if first is None:
        return scn, viol, o, False
    best[1], best[2] = first

    def tryit(s):
        r = attempt(chk, s, viol, knob)
        if r is None:
            return False
        best[0], best[1], best[2] = s, r[0], r[1]
        return True
    import runner
    if chk.get('minimise') is not False:
        ids = [op['id'] for th in best[0]['threads'] for op in th]
        base = best[0]

        def t_ops(keep):
            return tryit(drop_ops(base, set(keep)))
        ddmin(ids, t_ops, deadline)
        # drop faults, then preemptions, then empty threads
        for th in best[0]['threads']:
            for op in th:
                if 'fault' in op and time.monotonic() < deadline:
                    b = best[0]
                    tryit(dict(b, threads=[[{k: v for k, v in x.items() if k != 'fault'} if x['id'] == op['id'] else x
                                            for x in t] for t in b['threads']]))
        base = best[0]

        def t_pre(pre):
            return tryit(dict(base, sched=dict(base['sched'], pre=pre)))
        if base['sched'].get('pre'):
            if not t_pre([]):
                ddmin(list(base['sched']['pre']), t_pre, deadline)
        b = best[0]
        tryit(dict(b, sched=dict(b['sched'], fin=[])))
        # shrink operands to single terms
        for th in best[0]['threads']:
            for op in th:
                for f in ('a', 'b', 'e'):
                    if isinstance(op.get(f), dict) and len(op[f].get('nf', [])) > 1 and time.monotonic() < deadline:
                        for i in range(len(op[f]['nf'])):
                            nop = dict(op, **{f: dict(op[f], nf=[op[f]['nf'][i]])})
                            if nop[f]['form'] == 'lcsum':
                                nop[f]['form'] = 'str'
                            b = best[0]
                            if tryit(dict(b, threads=[[nop if x['id'] == op['id'] else x for x in t]
                                                      for t in b['threads']])):
                                break
    return best[0], best[1], best[2], True


def main():
    fix_addresses()
    knob = int(sys.argv[1])
    out = os.fdopen(int(sys.argv[2]), 'w')

    def send(m):
        out.write(json.dumps(m) + '\n')
        out.flush()
    try:
        import runner
        import checks
        import gen
        runner.init({'cache': knob})
        checks.families()
        runner.zygote()
    except BaseException as e:
        import traceback
        send({'error': 'start: ' + traceback.format_exc()[-3000:]})
        return 2
    job = json.loads(sys.stdin.buffer.read())
    chk = checks.CHECKS[job['check']]
    if job.get('replay'):
        try:
            o = runner.fork_run(job['replay'])
            vs = relevant(chk, job['replay'], o, runner.judge(job['replay'], o), knob)
            send({'replay': vs, 'hash': o['hash'], 'steps': o['steps'], 'events': o['events'], 'outcome': o['ops']})
        except (runner.HarnessError, runner.Watchdog) as e:
            send({'error': str(e)})
        return 0
    t0 = time.monotonic()
    st = dict(runs=0, ops=0, ok=0, failed=0, skipped=0, steps=0, switches=0, faults={}, kinds={}, spaces={},
              recheck=0, diverged=0, preempted=0, faulted=0, fine=0, threads={}, aborted=0, abandoned=0)
    seen = []
    samples = []
    idx = job['group']
    viol = None
    stop_at = t0 + job['cap']
    digests = {}
    while idx < job['runs'] and time.monotonic() < stop_at:
        if idx in job.get('skip', ()):
            idx += job['ngroups']
            continue
        try:
            g = gen.Gen(job['check'], job['seed'], idx if not chk.get('shared') else idx // job['ngroups'])
            g.group = job['group']
            scn = chk['gen'](g)
            o = runner.fork_run(scn)
            vs = runner.judge(scn, o)
            rel = relevant(chk, scn, o, vs, knob) if vs else []
        except runner.Watchdog as e:
            st['abandoned'] += 1
            if st['abandoned'] > 2:
                send({'error': 'run %d: %s' % (idx, e)})
                return 2
            idx += job['ngroups']
            continue
        except runner.HarnessError as e:
            send({'error': 'run %d: %s' % (idx, e)})
            return 2
        except BaseException:
            import traceback
            send({'error': 'run %d: %s' % (idx, traceback.format_exc()[-3000:])})
            return 2
        st['runs'] += 1
        st['steps'] += o['steps']
        st['switches'] += o['switches']
        st['preempted'] += o['switches'] > 0
        st['faulted'] += bool(o['faults'])
        st['fine'] += bool(scn['sched'].get('fine'))
        st['aborted'] += bool(o['abort'])
        n = str(len(scn['threads']))
        st['threads'][n] = st['threads'].get(n, 0) + 1
        for k, c in o['faults'].items():
            st['faults'][k] = st['faults'].get(k, 0) + c
        for th in scn['threads']:
            for op in th:
                st['ops'] += 1
                r = o['ops'].get(op['id'], {}).get('s')
                st['ok' if r == 'ok' else 'failed' if r == 'exc' else 'skipped'] += 1
                st['kinds'][op['op']] = st['kinds'].get(op['op'], 0) + 1
                if 'sp' in op:
                    s = '%s(%d,%d)' % tuple(scn['spaces'][op['sp']]['spec'])
                    st['spaces'][s] = st['spaces'].get(s, 0) + 1
        if o['switches'] or o['faults']:
            seen.append(hashlib.sha256((o['hash'] + json.dumps([scn['threads'], scn['spaces']], sort_keys=True)).encode()).hexdigest()[:16])
        if len(samples) < 2 and (o['switches'] or o['faults']):
            samples.append(dict(run=idx, spaces=[e['spec'] for e in scn['spaces']],
                                threads=[[runner.brief(op) for op in th][:6] for th in scn['threads']],
                                schedule={k: v for k, v in scn['sched'].items()},
                                preemptions=o['pre'][:5], faults=o['faults'], steps=o['steps']))
        if chk.get('shared'):
            digests[idx // job['ngroups']] = {
                op.get('as', op['id']): o['ops'][op['id']]['str'] for th in scn['threads'] for op in th
                if op['id'] < 2000 and o['ops'].get(op['id'], {}).get('s') == 'ok'}
        if st['runs'] % 40 == 1 and not rel:
            try:
                o2 = runner.fork_run(scn)
            except runner.Watchdog:
                o2 = o
            st['recheck'] += 1
            if (o2['hash'], o2['ops']) != (o['hash'], o['ops']):
                st['diverged'] += 1
        if rel:
            x = rel[0]
            ms, mv, mo, ok = minimise(chk, scn, x, o, knob, job.get('min_budget', 60))
            viol = dict(run=idx, violation=mv, original=x, scenario=ms, full=explicit(scn, o), hash=mo['hash'],
                        minimised=ok, events=mo['events'][-60:], outcome={i: {k: v for k, v in r.items() if k != 'str'} for i, r in mo['ops'].items()})
            break
        idx += job['ngroups']
    send({'stats': st, 'seen': seen, 'samples': samples, 'violation': viol, 'digests': digests,
          'wall': time.monotonic() - t0, 'done': idx >= job['runs']})
    return 0


if __name__ == '__main__':
    sys.exit(main())
