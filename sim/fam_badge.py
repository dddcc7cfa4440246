"""The coverage-badge script: its sub-processes are stubs, its files simulated."""
import importlib.util
import io
import json
import os
import random
import shlex
import subprocess
import sys
from decimal import Decimal

import checks
import core
import runner
import simio

NAMES = ('evolution_endpoint.json', 'pr_endpoint.json')


class Process:
    """A process that has done its work once it is started."""
    pid = 4242
    stdin = stderr = None

    def __init__(self, fam, args, stdout, k):
        cmd = shlex.split(args) if isinstance(args, str) else [os.fspath(x) for x in args]
        to = None
        if k.get('shell') and '>' in cmd:
            to = cmd[cmd.index('>') + 1]
            cmd = cmd[:cmd.index('>')]
        self.args = args
        data, self.rc = fam.process(cmd, k.get('cwd') or '.')
        self.returncode = None
        text = k.get('text') or k.get('universal_newlines') or k.get('encoding')
        self.stdout = None
        if to is not None:
            with simio._real_open(to, 'wb') as f:
                f.write(data)
        elif stdout == subprocess.PIPE:
            self.stdout = io.BytesIO(data)
            if text:
                self.stdout = io.TextIOWrapper(self.stdout, k.get('encoding') or 'utf-8')
        elif data and isinstance(stdout, int) and stdout >= 0:
            os.write(stdout, data)
        elif data and hasattr(stdout, 'fileno'):
            os.write(stdout.fileno(), data)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.stdout:
            self.stdout.close()
        self.wait()

    def wait(self, timeout=None):
        self.returncode = self.rc
        return self.rc

    poll = wait

    def communicate(self, input=None, timeout=None):
        out = self.stdout.read() if self.stdout else None
        self.wait()
        return out, None

    def kill(self):
        pass

    terminate = kill


class Badge:
    names = {'badges'}
    mod = None

    def setup(self, scn, w):
        if not scn.get('badges'):
            return
        simio.install()
        w.extra['cwd'] = os.getcwd()
        os.chdir(simio.ROOT)
        self.real = subprocess.Popen, os.system
        self.world = w
        subprocess.Popen = self.popen
        os.system = lambda c: subprocess.call(c, shell=True) << 8
        spec = importlib.util.spec_from_file_location('coverage_badges', os.path.join(core.REPO, 'scripts', 'coverage_badges.py'))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        w.extra['mod'] = m

    def teardown(self, scn, w):
        if scn.get('badges'):
            subprocess.Popen, os.system = self.real
            os.chdir(w.extra['cwd'])
            simio.uninstall()

    def popen(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, *a, **k):
        return Process(self, args, stdout, k)

    def process(self, cmd, cwd):
        """What the process cmd writes and returns."""
        op = self.op
        self.log.append(cmd)
        core.CUR.call('process')
        data = b''
        rc = 0
        if 'git' in os.path.basename(cmd[0]):
            if 'show' in cmd or 'cat-file' in cmd:
                data = op['prev'].encode()
                rc = op.get('show_rc', 0)
        elif any('diff-cover' in x or 'diff_cover' in x for x in cmd):
            out = next((a.split('=', 1)[1] if '=' in a else cmd[i + 1] for i, a in enumerate(cmd)
                        if a.startswith('--json-report')), None)
            with simio._real_open(os.path.join(cwd, out), 'w') as f:
                f.write(op['report'])
            rc = op.get('diff_rc', 0)
        else:
            rc = 127
        if rc:
            core.CUR.hit('failing process')
        return data, rc

    def pre(self, op, w, c):
        self.op, self.log = op, []
        simio.STATE.chunk[c.tid] = op.get('chunk', 0)
        simio.STATE.wchunk[c.tid] = op.get('wchunk', 0)
        simio.STATE.torn[c.tid] = bool(op.get('torn'))
        for n in NAMES + ('prev_endpoint.json', 'pr_diff.json', 'coverage.xml'):
            if os.path.exists(n) and n not in op['old']:
                os.unlink(n)
        for n, t in op['old'].items():
            with simio._real_open(n, 'w') as f:
                f.write(t)
        if op['xml'] is not None:
            with simio._real_open('coverage.xml', 'w') as f:
                f.write(op['xml'])

    def call(self, op, w):
        return [], w.extra['mod'].main

    def post(self, op, w, rec, c):
        rec['files'] = {}
        for n in NAMES:
            if os.path.exists(n):
                with simio._real_open(n) as f:
                    rec['files'][n] = f.read()
        rec['log'] = self.log

    # -------------------------------------------------------------- oracle
    def want(self, op):
        """The badges of this run."""
        cov = Decimal(op['rate']) * 100
        try:
            prev = Decimal(json.loads(op['prev'])['message'].rstrip('%'))
        except Exception:
            prev = None
        if prev is None:
            m, col = '%d%%' % int(cov), 'blue'
        else:
            m = '%d%% > %d%%' % (int(prev), int(cov))
            col = 'blue' if cov == prev else 'brightgreen' if cov > prev else 'red'
        out = {NAMES[0]: dict(schemaVersion=1, label='Coverage evolution', message=m, color=col)}
        try:
            pr = Decimal(json.loads(op['report'])['coverage'])
        except Exception:
            return out, False
        out[NAMES[1]] = dict(schemaVersion=1, label='PR Coverage', message='%d%%' % int(pr),
                             color='brightgreen' if pr >= 100 else 'orange' if pr >= 70 else 'red')
        return out, True

    def check(self, exp, op, rec):
        w, ok = self.want(op)
        if op['xml'] is None or not ok or op.get('show_rc') or op.get('diff_rc'):
            return 'finished normally although a step failed'
        if rec.get('fired') and ('process' in rec['fired'] or 'fs.write' in rec['fired']):
            return 'finished normally although %s failed' % rec['fired']
        for n in NAMES:
            try:
                got = json.loads(rec['files'].get(n, 'null'))
            except ValueError:
                got = rec['files'][n]
            if got != w[n] and not (rec.get('fired') and n == NAMES[0]):
                return '%s holds %r, expected %r' % (n, got, w[n])
        return None

    def check_exc(self, exp, op, rec):
        w, ok = self.want(op)
        bad = op['xml'] is None or not ok or op.get('show_rc') or op.get('diff_rc')
        if not bad and not runner.injected(rec):
            return 'raised %s: %s %s' % (rec['exc'], rec['msg'], rec.get('at'))
        if rec.get('fired') and 'fs.' in rec['fired']:
            return None                 # the disk itself failed: contents not promised
        for n in NAMES:
            t = rec['files'].get(n)
            if t == op['old'].get(n):
                continue
            try:
                if json.loads(t) == w.get(n):
                    continue
            except (ValueError, TypeError):
                pass
            return 'failing run left %s as %r (before: %r, new: %r)' % (n, t, op['old'].get(n), w.get(n))
        return None


runner.FAMILIES.append(Badge())


def num(r):
    return r.choice(['0', '0.5', '0.699999', '0.7', '0.70', '0.7123', '0.999', '0.9999999', '1', '1.0', '0.29', '0.57',
                     '%.4f' % r.random(), '%.2f' % r.random()])


def session(gen):
    r = gen.rng
    ops = []
    for _ in range(r.randint(1, 4)):
        rate = num(r)
        pv = str((Decimal(num(r)) * 100).normalize()) if r.random() < .7 else str(Decimal(rate) * 100)
        prev = json.dumps({'schemaVersion': 1, 'label': 'coverage', 'message': format(Decimal(pv), 'f') + '%', 'color': 'green'})
        u = r.random()
        if u < .12:
            prev = r.choice(['', '{', '[]', '{"message": "n/a"}', 'null', prev[:-7]])
        rep = json.dumps({'coverage': r.choice([0, 100, 70, 69, 99, 50, r.randint(0, 100), '69.99', '70.0', '99.9', '100.0'])})
        o = gen.op('badges', rate=rate, xml='<?xml version="1.0" ?>\n<coverage line-rate="%s" branch-rate="0"><packages/></coverage>' % rate,
                   prev=prev, report=rep, old={}, keep=False)
        for n in NAMES:
            if r.random() < .5:
                o['old'][n] = json.dumps({'schemaVersion': 1, 'label': 'old', 'message': '1%', 'color': 'red'})
        if r.random() < .3:
            o['old']['prev_endpoint.json'] = json.dumps({'message': '%d%%' % r.randint(0, 100)})
            o['old']['pr_diff.json'] = json.dumps({'coverage': r.randint(0, 100)})
        u = r.random()
        if u < .06:
            o['xml'] = None
        elif u < .12:
            o['show_rc'] = 128
        elif u < .18:
            o['diff_rc'] = 1
        elif u < .24:
            o['report'] = r.choice(['{}', '', '{"coverage": "x"}'])
        elif u < .45:
            o['fault'] = {'exc': 'BadProcess', 'seam': 'process', 'at_call': r.choice([1, 2, 3])}
        elif u < .62:
            f = r.choice(['fs.write', 'fs.read', 'fs.open'])
            o['fault'] = {'exc': {'fs.write': r.choice(['ENOSPC', 'EIO']), 'fs.read': 'EIO', 'fs.open': 'EACCES'}[f], 'seam': f,
                          'at_call': r.choice([1, 2, 3, 4, 5])}
            if r.random() < .5:
                o['torn'] = 1
        elif u < .74:
            o['fault'] = {'exc': r.choice(['KeyboardInterrupt', 'SimTimeout']), 'at': r.randrange(1, 45)}
        if r.random() < .3:
            o['chunk'] = r.choice([1, 5])
            o['wchunk'] = r.choice([0, 1, 9])
        ops.append(o)
    return gen.scenario([ops], badges=1)


checks.check('C21', session, ['value'], Badge.names, thorough=40000,
             real='scripts/coverage_badges.py', stub='git and diff-cover (scripted answers, exit codes and failures)')
