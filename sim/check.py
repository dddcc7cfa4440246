"""Coordinator: check.py PROPERTY [--tier quick|thorough].

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Exit 2: the check itself failed (never reported as either)."""
import argparse
import fcntl
import json
import os
import selectors
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PY = os.environ.get('SIM_PY', '/opt/venv/bin/python')


def start(job, seed, group, tmp):
    import worker
    r, w0 = os.pipe()
    w = fcntl.fcntl(w0, fcntl.F_DUPFD, 100)
    os.close(w0)
    os.set_inheritable(w, True)
    env = worker.env_for(seed, group)
    env['SIM_TMP'] = tmp
    env['MPLCONFIGDIR'] = tmp
    env['TMPDIR'] = tmp
    p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py'), str(job.get('cache') or 0), str(w)], env=env, cwd=tmp,
                         pass_fds=[w], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, start_new_session=True)
    os.close(w)
    p.stdin.write(json.dumps(job).encode())
    p.stdin.close()
    return p, r


def kill(p):
    try:
        os.killpg(p.pid, 9)
    except ProcessLookupError:
        pass
    p.wait()


def collect(jobs, limit):
    """Runs jobs (key -> (job, seed, group)) side by side; key -> message."""
    tmp = tempfile.mkdtemp(prefix='sim.')
    res, procs = {}, {}
    sel = selectors.DefaultSelector()
    stop = False
    try:
        for k, (job, seed, group) in jobs.items():
            p, r = start(job, seed, group, tmp)
            procs[k] = p
            sel.register(r, selectors.EVENT_READ, [k, b''])
        end = time.monotonic() + limit
        while sel.get_map():
            left = end - time.monotonic()
            if left <= 0:
                for key in list(sel.get_map().values()):
                    res.setdefault(key.data[0], {'error': 'wall-clock watchdog of the coordinator'})
                break
            for key, _ in sel.select(left):
                b = os.read(key.fd, 1 << 20)
                if b:
                    key.data[1] += b
                    continue
                sel.unregister(key.fd)
                os.close(key.fd)
                k, data = key.data
                lines = data.decode().strip().splitlines()
                res[k] = json.loads(lines[-1]) if lines else {'error': 'worker died without an answer'}
                if res[k].get('violation') and not res[k].get('keep'):
                    stop = True
            if stop:
                break
    finally:
        for p in procs.values():
            kill(p)
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def replay(path):
    d = json.load(open(path))
    import checks
    job = dict(check=d['property'], replay=d['scenario'], cache=d['cache'])
    if d.get('pair'):
        return replay_pair(d)
    r = collect({0: (job, d['seed'], d['group'])}, 300)[0]
    return r


def replay_pair(d):
    """C13: the same session on two nodes (hash seeds, schedules)."""
    jobs = {}
    for i, (grp, cache, scn) in enumerate(d['pair']):
        jobs[i] = (dict(check=d['property'], replay=scn, cache=cache), d['seed'], grp)
    r = collect(jobs, 300)
    for x in r.values():
        if 'error' in x:
            return x
    a, b = [strings(d['pair'][j][2], r[j]['outcome']) for j in (0, 1)]
    diff = [i for i in sorted(a) if i in b and a[i] != b[i]]
    return {'replay': [dict(cls='render', op=i, kind='render', msg='operation %s reads %r on one node, %r on another' %
                            (i, a[i][:300], b[i][:300])) for i in diff],
            'hash': r[0]['hash'] + r[1]['hash']}


def strings(scn, outcome):
    out = {}
    for th in scn['threads']:
        for op in th:
            x = outcome.get(str(op['id'])) or outcome.get(op['id']) or {}
            if x.get('s') == 'ok' and op['id'] < 2000:
                out.setdefault(op.get('as', op['id']), x['str'])
    return out


def known():
    """Open findings: property -> list of (key, text)."""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding:'):
                f = line.split(None, 3)
                out.setdefault(f[1].split('=', 1)[1], []).append((f[2].split('=', 1)[1], f[3].strip()))
    return out


def cross_node(results, ngroups):
    """C13: first difference between what two nodes rendered."""
    base = {}
    for g in sorted(results):
        for run, d in results[g].get('digests', {}).items():
            for i, s in d.items():
                k = (int(run), int(i))
                if k not in base:
                    base[k] = (g, s)
                elif base[k][1] != s:
                    return k, base[k][0], g, base[k][1], s
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--runs', type=int)
    ap.add_argument('--cap', type=float)
    ap.add_argument('--workers', type=int, default=0)
    a = ap.parse_args()
    import checks
    import worker
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    checks.families()
    chk = checks.CHECKS[a.property]
    runs = a.runs or chk[tier]
    cap = a.cap or (240 if tier == 'quick' else 3600)
    ng = checks.NGROUPS
    print('seed %d, property %s, tier %s, %d runs over %d hash-seed groups' % (seed, a.property, tier, runs, ng), flush=True)
    cache = checks.CACHE if chk.get('knobs', True) else [0] * ng
    jobs = {g: (dict(check=a.property, seed=seed, group=g, ngroups=ng, runs=runs, cap=cap, cache=cache[g]), seed, g)
            for g in range(ng)}
    skip = []
    while True:
        res = {}
        for j in jobs.values():
            j[0]['skip'] = skip
        if a.workers:
            ks = list(jobs)
            while ks and not any(r.get('violation') for r in res.values()):
                res.update(collect({k: jobs[k] for k in ks[:a.workers]}, cap + 400))
                ks = ks[a.workers:]
        else:
            res = collect(jobs, max(60, t0 + cap + 400 - time.time()))
        rc, note, viols = (2 if skip else 0), '', 0
        out_dir = os.path.join(VERIF, 'evidence', 'replays')
        vg = next((g for g in sorted(res) if res[g].get('violation')), None)
        err = [(g, r['error']) for g, r in sorted(res.items()) if r.get('error')]
        msg = None
        if vg is None and chk.get('shared') and not err:
            x = cross_node(res, ng)
            if x:
                (run, opid), g1, g2, s1, s2 = x
                pair = minimise_pair(chk, a.property, seed, run, opid, g1, g2, cache)
                msg = 'operation %s of session %d renders as %r on node %d and %r on node %d' % (opid, run, s1[:200], g1, s2[:200], g2)
                viol = dict(property=a.property, seed=seed, run=run, group=g1, cache=cache[g1], scenario=None, pair=pair,
                            violation=dict(cls='render', op=opid, kind='render', msg=msg))
                vg = g1
        elif vg is not None:
            d = res[vg]['violation']
            viol = dict(property=a.property, seed=seed, run=d['run'], group=vg, cache=cache[vg],
                        hashseed=worker.hashseed(seed, vg), scenario=d['scenario'], violation=d['violation'],
                        original=d['original'], hash=d['hash'], minimised=d['minimised'], trace=d['events'],
                        outcome=d['outcome'])
            msg = d['violation']['msg']
            skip.append(d['run'])
        if vg is not None:
            os.makedirs(out_dir, exist_ok=True)
            path = os.path.join(out_dir, '%s-seed%d-run%d.json' % (a.property, seed, viol['run']))
            json.dump(viol, open(path, 'w'), indent=1)
            r = replay(path)
            if not r.get('replay') and 'scenario' in (res[vg].get('violation') or {}):
                viol['scenario'] = res[vg]['violation']['full']
                viol['violation'] = res[vg]['violation']['original']
                json.dump(viol, open(path, 'w'), indent=1)
                r = replay(path)
            if r.get('replay'):
                k = [t for key, t in known().get(a.property, []) if key in r['replay'][0]['msg']]
                if k:
                    print('KNOWN-FINDING: property=%s %s' % (a.property, k[0]))
                    note = 'stopped at a known finding'
                else:
                    viols = 1
                    rc = 1
                    print('what: ' + r['replay'][0]['msg'])
                    print('VIOLATION property=%s replay=%s' % (a.property, path))
            else:
                rc = 2
                print('error: a violation did not reproduce in a fresh process: %s (%s)' % (msg, r.get('error')), file=sys.stderr)
                if viol['scenario'] and len(skip) < 4 and time.time() - t0 < cap:
                    continue        # the search goes on without this run
        elif err:
            rc = 2
            for g, e in err:
                print('error: group %d: %s' % (g, e), file=sys.stderr)
        break
    evidence(a.property, chk, tier, seed, res, time.time() - t0, viols, note)
    return rc


def minimise_pair(chk, pid, seed, run, opid, g1, g2, cache):
    import gen
    import worker
    scns = []
    for g in (g1, g2):
        G = gen.Gen(pid, seed, run)
        G.group = g
        scns.append(chk['gen'](G))
    # keep only the operation and what it refers to, when that is enough
    small = [worker.drop_ops(s, same(s, opid)) for s in scns]
    for cand in (small, scns):
        d = dict(property=pid, seed=seed, pair=[[g, cache[g], s] for g, s in zip((g1, g2), cand)])
        if replay_pair(d).get('replay'):
            return d['pair']
    return d['pair']


def same(scn, opid):
    return {op['id'] for th in scn['threads'] for op in th if op.get('as', op['id']) == opid and 'fault' not in op}


def needed(scn, opid):
    ops = {op['id']: op for th in scn['threads'] for op in th}
    need, todo = set(), [opid]
    while todo:
        i = todo.pop()
        if i not in need:
            need.add(i)
            todo += [v['ref'] for v in ops[i].values() if isinstance(v, dict) and 'ref' in v]
    return need


RULE = ('One evaluation is one simulated run: a session of operations over one or more spaces in one or more caller '
        'threads, with a schedule and a fault plan, all drawn from the seed and run number. A run is non-trivial when '
        'at least one preemption or injected fault actually happened in it; two runs are distinct when their '
        'operations, or the recorded sequence of (thread, operation, code location) at which preemptions and faults '
        'happened, differ.')


def evidence(pid, chk, tier, seed, res, wall, viols, note):
    tot = dict(runs=0, ops=0, ok=0, failed=0, skipped=0, steps=0, switches=0, recheck=0, diverged=0, preempted=0,
               faulted=0, fine=0, aborted=0, abandoned=0)
    faults, kinds, spaces, threads, seen, samples = {}, {}, {}, {}, set(), []
    for g, r in sorted(res.items()):
        s = r.get('stats')
        if not s:
            continue
        for k in tot:
            tot[k] += s[k]
        for a, b in ((faults, 'faults'), (kinds, 'kinds'), (spaces, 'spaces'), (threads, 'threads')):
            for k, c in s[b].items():
                a[k] = a.get(k, 0) + c
        seen.update(r['seen'])
        samples += r['samples'][:1]
    cov = dict(
        evaluations=tot['runs'], distinct_nontrivial=len(seen), rule=RULE + ' ' + chk.get('rule', ''),
        samples=samples[:6], operations=tot['ops'], operations_answered=tot['ok'],
        operations_failed_as_injected=tot['failed'], operations_by_kind=kinds, spaces_used=len(spaces),
        operations_by_space=spaces, runs_by_thread_count=threads, preemptions=tot['switches'],
        runs_with_preemption=tot['preempted'], runs_with_fault=tot['faulted'],
        runs_with_preemption_between_bytecodes=tot['fine'], faults_injected=faults,
        runs_abandoned_by_watchdog=tot['abandoned'], simulated_steps=tot['steps'], runs_per_hour=int(tot['runs'] / wall * 3600) if wall else 0,
        seeds_per_hour=int(tot['runs'] / wall * 3600) if wall else 0,
        simulated_time='the code has no clock; simulated time is the step count (executed source lines and seam calls)',
        determinism_rechecks=tot['recheck'], determinism_divergences=tot['diverged'],
        hash_seed_groups=len(res), real_components=chk.get('real', 'all of schubertpy, sympy'),
        stub_components=chk.get('stub', 'none (threading locks, thread choice and fault delivery are the simulator\'s)'))
    if note:
        cov['note'] = note
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=cov, wall_s=round(wall, 2),
              violations=viols,
              assumptions=['threads switch only at source lines (or bytecodes, in the runs counted) of the code under '
                           'test and at seam calls; third-party calls are atomic',
                           'the reference model in sim/refmodel.py'])
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)
    print('%s: %d runs, %d distinct with preemption or fault, %d operations, %d steps, %d preemptions, faults %s, %.1fs'
          % (pid, tot['runs'], len(seen), tot['ops'], tot['steps'], tot['switches'], faults, wall), flush=True)


if __name__ == '__main__':
    sys.exit(main())
