"""Deterministic simulator core: one process, simulated threads, injected faults.

Caller threads of a run are real Python threads, but exactly one owns the baton;
it can lose it only at a seam the simulator owns:

* every source line of the code under test (sys.monitoring LINE events on code
  objects whose file lies under the repository; nothing in /repo is edited),
* every call the code makes through a wrapped seam (sympy entry points, file
  system, standard output, sub-processes),
* simulated locks (threading.Lock/RLock are replaced before the repository is
  imported), and the end of a thread.

All choices come from one PRNG, or are replayed from an explicit list.
"""
import _thread
import errno
import hashlib
import math
import os
import random
import subprocess
import sys
import threading

MON = sys.monitoring
TOOL = 4
REPO = os.path.realpath(os.environ.get('SIM_REPO', '/repo'))
_PREFIXES = (os.path.join(REPO, 'schubertpy') + os.sep,
             os.path.join(REPO, 'scripts') + os.sep)
_real_lock = _thread.allocate_lock
_ident = _thread.get_ident


class SimTimeout(BaseException):
    """Asynchronous cancellation delivered by a supervising thread or timer."""


class SimAbort(BaseException):
    """Ends every simulated thread of a run the simulator gave up on."""


EXC = {
    'KeyboardInterrupt': KeyboardInterrupt,
    'MemoryError': MemoryError,
    'RecursionError': RecursionError,
    'SimTimeout': SimTimeout,
}
for _e in ('EIO', 'ENOSPC', 'EMFILE', 'EACCES', 'ENOENT', 'EPIPE', 'EROFS', 'EDQUOT'):
    EXC[_e] = (lambda msg, n=getattr(errno, _e): OSError(n, os.strerror(n) + ' (%s)' % msg))
EXC['BadProcess'] = lambda msg: subprocess.CalledProcessError(128, ['simulated'], msg)

FAR = 1 << 60


class TState:
    __slots__ = ('tid', 'ops', 'gate', 'ident', 'inop', 'lstep', 'op', 'fault_at', 'fault_call',
                 'fault_exc', 'fired', 'ncall', 'nxt', 'done', 'blocked', 'held', 'budget', 'prio',
                 'fired_at', 'masked', 'line', 'fault_seam')

    def __init__(s, tid, ops):
        s.tid, s.ops = tid, ops
        s.gate = _real_lock()
        s.gate.acquire()
        s.ident = None
        s.inop = False
        s.lstep = 0
        s.op = None
        s.fault_at = s.fault_call = 0
        s.fault_exc = None
        s.fired = False
        s.fired_at = None
        s.ncall = 0
        s.nxt = FAR
        s.done = False
        s.blocked = None
        s.held = []
        s.budget = FAR
        s.prio = 0
        s.masked = 0
        s.line = 0
        s.fault_seam = ''


class Sim:
    """One simulated run."""

    def __init__(self, threads, sched, budget=3_000_000, excluded=None):
        self.ts = [TState(i, ops) for i, ops in enumerate(threads)]
        self.cur = None
        self.gstep = 0
        self.budget = budget
        self.excluded = excluded or {}
        self.sched = sched
        self.mode = sched.get('mode', 'serial')
        self.rec_pre = []
        self.rec_fin = []
        self.fin_i = 0
        self.abort = None
        self.switches = 0
        self.log = hashlib.sha256()
        self.done_lock = _real_lock()
        self.done_lock.acquire()
        self.events = []            # recorded (seq, kind, ...) history
        self.fault_hits = {}
        self.hot = None             # preempt around writes to shared state
        self.washot = False
        self.reads = bool(sched.get('reads'))
        self.fine = bool(sched.get('fine'))
        if self.fine:               # also between the bytecodes of a line
            for code in _seen:
                MON.set_local_events(TOOL, code, MON.events.LINE | MON.events.INSTRUCTION)
        if self.mode == 'explicit':
            self.pre = {}
            for opid, ls, to in sched.get('pre', []):
                self.pre.setdefault(opid, {})[ls] = to
            self.fin = list(sched.get('fin', []))
        else:
            self.rng = random.Random(sched.get('seed', 0))
            n = len(self.ts)
            if self.mode == 'pct':
                pr = list(range(n, 0, -1))
                self.rng.shuffle(pr)
                for t, p in zip(self.ts, pr):
                    t.prio = p
                span = sched.get('span', 3000)
                self.cps = sorted(1 + int(math.exp(self.rng.random() * math.log(span)))
                                  for _ in range(sched.get('depth', 2)))
                self.low = 0
            else:
                if n > 1 and self.mode == 'hot':
                    self.hot = sched.get('p', 0)
                    self.site = sched.get('site', 0)    # or stall threads that first reach some of the writing lines
                    self.sites = {}
                    self.stalled = set()
                    self.hotn = 0       # or at a few of the writes only
                    self.hotcps = {1 + int(math.exp(self.rng.random() * math.log(sched['span'])))
                                   for _ in range(sched['depth'])} if 'depth' in sched else ()
                self.gap = sched.get('gap', 50)
                self.next_switch = self._draw_gap() if n > 1 and self.mode == 'gap' else FAR

    # ------------------------------------------------------------- choices
    def _draw_gap(self):
        u = self.rng.random()
        return self.gstep + 1 + int(-math.log(1.0 - u) * self.gap)

    def runnable(self):
        return [t for t in self.ts if not t.done and (t.blocked is None or t.blocked.free_for(t))]

    def _arm(self, c):
        """Next local step at which the slow path must look at thread c."""
        n = c.budget
        if c.fault_at and not c.fired:
            n = min(n, max(c.fault_at, c.lstep + 1))
        if self.mode == 'explicit':
            d = self.pre.get(c.op)
            if d:
                later = [x for x in d if x > c.lstep]
                if later:
                    n = min(n, min(later))
        elif self.mode == 'gap':
            n = min(n, c.lstep + max(1, self.next_switch - self.gstep))
        elif self.mode == 'pct' and self.cps:
            n = min(n, c.lstep + max(1, self.cps[0] - self.gstep))
        c.nxt = n

    def pick_next(self, c):
        """Thread to run when c cannot go on (finished or blocked)."""
        cand = [t for t in self.runnable() if t is not c]
        if not cand:
            return None
        if self.mode == 'explicit':
            to = self.fin[self.fin_i] if self.fin_i < len(self.fin) else None
            self.fin_i += 1
            t = next((x for x in cand if x.tid == to), cand[0])
        elif self.mode in ('gap', 'hot'):
            t = self.rng.choice(self.fresh(cand))
        elif self.mode == 'pct':
            t = max(cand, key=lambda x: x.prio)
        else:
            t = cand[0]
        self.rec_fin.append(t.tid)
        return t

    # ------------------------------------------------------------- running
    def tick(self, c, where):
        """Slow path: something is due for thread c at this step."""
        if c.lstep >= c.budget:
            self.stop('no-progress', c)
            raise SimAbort()
        if c.fault_at and not c.fired and c.lstep >= c.fault_at:
            code, line = where
            if (c.held and self.at_lock(c)) or line in self.excluded.get(code.co_filename, ()):
                c.masked += 1
            else:
                c.fired = True
                c.fired_at = '%s:%s' % (os.path.relpath(code.co_filename, REPO), line)
                self.note('fault', c.tid, c.op, c.fault_exc, c.fired_at)
                self.hit('%s@line' % c.fault_exc)
                self._arm(c)
                raise EXC[c.fault_exc]('injected')
        to = None
        if self.mode == 'explicit':
            x = self.pre.get(c.op, {}).get(c.lstep)
            if x is not None:
                to = next((t for t in self.runnable() if t.tid == x and t is not c), None)
        elif self.mode == 'gap' and self.gstep >= self.next_switch:
            self.next_switch = self._draw_gap()
            cand = [t for t in self.runnable() if t is not c]
            if cand:
                to = self.rng.choice(cand)
        elif self.mode == 'pct' and self.cps and self.gstep >= self.cps[0]:
            self.cps.pop(0)
            self.low -= 1
            c.prio = self.low
            cand = self.runnable()
            best = max(cand, key=lambda x: x.prio) if cand else c
            to = best if best is not c else None
        if to is not None:
            self.rec_pre.append([c.op, c.lstep, to.tid])
            self.switch(c, to, where)
        self._arm(c)

    def fresh(self, cand):
        """Threads stalled at a write go on only when the others cannot."""
        if self.hot is None or not self.stalled:
            return cand
        return [t for t in cand if t.tid not in self.stalled] or cand

    def preempt(self, c, where, stall=False):
        cand = [t for t in self.runnable() if t is not c]
        if cand:
            to = self.rng.choice(self.fresh(cand))
            self.stalled.discard(to.tid)
            if stall:
                self.stalled.add(c.tid)
            self.rec_pre.append([c.op, c.lstep, to.tid])
            self.switch(c, to, where)
            self._arm(c)

    def at_lock(self, c):
        """Is c in a function that itself handles a lock it holds?  There an
        asynchronous exception can strand the lock however the code is written
        (between acquire and try, or on the way out of a with); in a callee of
        that function it cannot."""
        stack = []
        f = sys._getframe(1)
        while f is not None:
            stack.append(f)
            f = f.f_back
        top = next((f for f in stack if f.f_code.co_filename.startswith(_PREFIXES)), None)
        return any(h is top or h not in stack for h in c.held)

    def switch(self, c, to, where=None):
        self.switches += 1
        self.note('switch', c.tid, c.op, '' if where is None else '%s:%d' % (where[0].co_qualname, where[1]), to.tid)
        self.cur = to
        to.gate.release()
        c.gate.acquire()
        if self.abort:
            raise SimAbort()

    def note(self, *a):
        self.log.update(repr(a).encode())
        if len(self.events) < 4000:
            self.events.append([self.gstep] + list(a))

    def hit(self, kind):
        self.fault_hits[kind] = self.fault_hits.get(kind, 0) + 1

    def stop(self, why, c):
        if not self.abort:
            self.abort = (why, c.tid, c.op)
            self.note('abort', why, c.tid, c.op)

    def block(self, c, lock):
        c.blocked = lock
        to = self.pick_next(c)
        if to is None:
            self.stop('deadlock', c)
            c.blocked = None
            raise SimAbort()
        self.switch(c, to)
        c.blocked = None
        self._arm(c)

    def call(self, name):
        """A seam call by the code under test: a step, maybe a fault."""
        c = self.cur
        if c is None or not c.inop or _ident() != c.ident:
            return
        c.lstep += 1
        self.gstep += 1
        if name.startswith(c.fault_seam):
            c.ncall += 1
        if c.fault_call and not c.fired and c.ncall >= c.fault_call and name.startswith(c.fault_seam):
            c.fired = True
            c.fired_at = 'call ' + name
            self.note('fault', c.tid, c.op, c.fault_exc, c.fired_at)
            self.hit('%s@%s' % (c.fault_exc, name))
            raise EXC[c.fault_exc]('injected in ' + name)
        if c.lstep >= c.nxt:
            self.tick(c, (_seam_code(name), 0))

    def begin(self, c, op, fault=None, budget=None):
        c.op = op
        c.lstep = 0
        c.ncall = 0
        c.fired = False
        c.fired_at = None
        c.fault_at = c.fault_call = 0
        c.fault_exc = None
        c.fault_seam = ''
        c.masked = 0
        if fault:
            c.fault_seam = fault.get('seam', '')
            c.fault_exc = fault.get('exc')
            c.fault_at = fault.get('at', 0)
            c.fault_call = fault.get('at_call', 0)
        c.budget = budget or self.budget
        self._arm(c)
        c.inop = True

    def end(self, c):
        c.inop = False

    def run(self, body):
        """body(sim, tstate) runs the ops of one thread."""
        global CUR
        ths = []

        def main(t):
            t.gate.acquire()
            t.ident = _ident()
            try:
                if not self.abort:
                    body(self, t)
            except SimAbort:
                pass
            except BaseException as e:      # a bug of the harness, not of the code
                import traceback
                self.stop('harness', t)
                self.harness_error = ''.join(traceback.format_exception(e))
            t.inop = False
            t.done = True
            if self.abort:
                for x in self.ts:
                    if not x.done and x is not t:
                        self.cur = x
                        x.gate.release()
                        return
                self.done_lock.release()
                return
            to = self.pick_next(t)
            if to is None:
                left = [x for x in self.ts if not x.done]
                if left:
                    self.stop('deadlock', left[0])
                    self.cur = left[0]
                    left[0].gate.release()
                    return
                self.done_lock.release()
                return
            self.note('end', t.tid, to.tid)
            self.cur = to
            to.gate.release()
        CUR = self
        threading.stack_size(256 * 1024 * 1024)
        for t in self.ts:
            ths.append(_thread.start_new_thread(main, (t,)))
        first = TState(-1, [])
        to = self.pick_next(first)
        self.cur = to
        MON.set_events(TOOL, MON.events.PY_START)
        to.gate.release()
        self.done_lock.acquire()
        MON.set_events(TOOL, 0)
        CUR = None
        return self


CUR = None
_seen = set()


class _Seam:
    def __init__(s, name):
        s.co_filename = os.path.join(REPO, '<seam>')
        s.co_qualname = 'seam:' + name
        s.co_name = name


_seams = {}


def _seam_code(name):
    r = _seams.get(name)
    if r is None:
        r = _seams[name] = _Seam(name)
    return r


def _on_line(code, line):
    sim = CUR
    if sim is None:
        return
    c = sim.cur
    if c is None or not c.inop or _ident() != c.ident:
        return
    c.line = line
    c.lstep = n = c.lstep + 1
    sim.gstep += 1
    if n >= c.nxt:
        sim.tick(c, (code, line))
    if sim.hot is not None:
        is_hot = line in WRITES.get(code.co_filename, ()) or sim.reads and line in READS.get(code.co_filename, ())
        was, sim.washot = sim.washot, is_hot
        if is_hot or was:
            sim.hotn += 1
            if sim.site:
                k = code.co_filename, line, is_hot
                seen = sim.sites[k] = sim.sites.get(k, 0) + 1
                if seen < 3 and sim.rng.random() < sim.site:
                    sim.preempt(c, (code, line), True)
            elif sim.hotn in sim.hotcps or sim.hot and sim.rng.random() < sim.hot:
                sim.preempt(c, (code, line))


def _on_instr(code, off):
    sim = CUR
    if sim is None or not sim.fine:
        return
    c = sim.cur
    if c is None or not c.inop or _ident() != c.ident:
        return
    c.lstep = n = c.lstep + 1
    sim.gstep += 1
    if n >= c.nxt:
        sim.tick(c, (code, c.line))


def _on_start(code, off):
    if code.co_filename.startswith(_PREFIXES):
        if code not in _seen:
            _arm_code(code)
    return MON.DISABLE


def _arm_code(code):
    if code in _seen or not code.co_filename.startswith(_PREFIXES):
        return
    _seen.add(code)
    MON.set_local_events(TOOL, code, MON.events.LINE)
    for k in code.co_consts:
        if hasattr(k, 'co_consts'):
            _arm_code(k)


def install_monitor():
    import gc
    import types
    MON.use_tool_id(TOOL, 'simulator')
    MON.register_callback(TOOL, MON.events.LINE, _on_line)
    MON.register_callback(TOOL, MON.events.PY_START, _on_start)
    MON.register_callback(TOOL, MON.events.INSTRUCTION, _on_instr)
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            _arm_code(o.__code__)
    return len(_seen)


WRITES = {}
READS = {}


def shared_writes():
    """Lines that write to an attribute, an item, a global name or call a method
    that changes its object: where the 'hot' scheduler prefers to preempt.  It
    only weighs the random choice; every verdict is about behaviour."""
    import ast
    names = {'append', 'add', 'update', 'setdefault', 'pop', 'popitem', 'clear', 'extend', 'insert', 'remove',
             'discard', 'sort', 'reverse', '__setattr__', '__setitem__'}
    out = {}
    for root in _PREFIXES:
        for d, _, fs in os.walk(root):
            for f in fs:
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                try:
                    tree = ast.parse(open(p).read())
                except (OSError, SyntaxError, ValueError):
                    continue
                hot = set()
                glob = {n for x in ast.walk(tree) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
                for n in ast.walk(tree):
                    ts = []
                    if isinstance(n, (ast.Assign, ast.Delete)):
                        ts = n.targets
                    elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                        ts = [n.target]
                    elif isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr in names
                                                      or isinstance(n.func, ast.Name) and n.func.id == 'setattr'):
                        hot.update(range(n.lineno, n.end_lineno + 1))
                    for t in ts:
                        for y in ast.walk(t):
                            if isinstance(y, (ast.Attribute, ast.Subscript)) and isinstance(y.ctx, (ast.Store, ast.Del)) \
                                    or isinstance(y, ast.Name) and y.id in glob:
                                hot.update(range(n.lineno, n.end_lineno + 1))
                if hot:
                    out[p] = frozenset(hot)
    return out


def shared_reads():
    """Lines that look up an item of something the function did not itself make
    (a global, a variable of an enclosing function, an attribute), or ask
    whether something is in it.  Only weighs the random choice, as above."""
    import ast
    out = {}
    for root in _PREFIXES:
        for d, _, fs in os.walk(root):
            for f in fs:
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                try:
                    tree = ast.parse(open(p).read())
                except (OSError, SyntaxError, ValueError):
                    continue
                hot = set()

                def shared(e, local):
                    return isinstance(e, ast.Attribute) or isinstance(e, ast.Name) and e.id not in local

                def visit(fn):
                    local = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
                    inner = []
                    todo = list(fn.body)
                    nodes = []
                    while todo:
                        n = todo.pop()
                        nodes.append(n)
                        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            inner.append(n)
                            local.add(n.name)
                            continue
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            local.add(n.id)
                        todo.extend(ast.iter_child_nodes(n))
                    for n in nodes:
                        e = None
                        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                            e = [n.value]
                        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'get':
                            e = [n.func.value]
                        elif isinstance(n, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
                            e = n.comparators
                        if e and any(shared(x, local) for x in e):
                            hot.update(range(n.lineno, n.end_lineno + 1))
                    for n in inner:
                        visit(n)

                for n in ast.walk(tree):
                    if isinstance(n, (ast.Module, ast.ClassDef)):
                        for x in n.body:
                            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                                visit(x)
                if hot:
                    out[p] = frozenset(hot)
    return out


def excluded_lines():
    """Lines an asynchronous fault is not delivered at: clean-up code (finally
    and except bodies) and headers of with statements (run again on exit).  No
    Python code can be made safe against a second fault inside its clean-up."""
    import ast
    out = {}
    for root in _PREFIXES:
        for d, _, fs in os.walk(root):
            for f in fs:
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                try:
                    tree = ast.parse(open(p).read())
                except (OSError, SyntaxError, ValueError):
                    continue
                ex = set()
                for n in ast.walk(tree):
                    if isinstance(n, ast.Try):
                        for st in n.finalbody + n.handlers:
                            ex.update(range(st.lineno, st.end_lineno + 1))
                    elif isinstance(n, ast.With):
                        ex.update(range(n.lineno, n.body[0].lineno))
                        ex.add(n.lineno)
                if ex:
                    out[p] = frozenset(ex)
    return out


# ------------------------------------------------------------------ locks
class SimLock:
    """threading.Lock under the simulator's scheduler (real lock elsewhere)."""
    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._frames = []
        self._real = threading_RLock() if self.reentrant else _real_lock()

    def _managed(self):
        sim = CUR
        if sim is None or sim.cur is None or _ident() != sim.cur.ident:
            return None
        return sim

    def free_for(self, t):
        return self._owner is None

    def acquire(self, blocking=True, timeout=-1):
        sim = self._managed()
        if sim is None:
            return self._real.acquire(blocking, timeout)
        c = sim.cur
        if c.inop:
            sim.call('lock.acquire')
        if self.reentrant and self._owner is c:
            self._count += 1
            self._hold(c)
            return True
        while self._owner is not None:
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                if not [t for t in sim.runnable() if t is not c]:
                    return False
            sim.block(c, self)
        self._owner = c
        self._count = 1
        self._hold(c)
        return True

    def _hold(self, c):
        f = sys._getframe(1)
        while f.f_code.co_filename == __file__ and f.f_back is not None:
            f = f.f_back
        self._frames.append(f)
        c.held.append(f)

    def release(self):
        sim = self._managed()
        if sim is None or self._owner is None:
            if sim is None:
                return self._real.release()
            raise RuntimeError('release unlocked lock')
        if self.reentrant and self._owner is not sim.cur:
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._frames:
            f = self._frames.pop()
            held = self._owner.held
            i = next((i for i in range(len(held) - 1, -1, -1) if held[i] is f), None)
            if i is not None:
                del held[i]
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None or (hasattr(self._real, 'locked') and self._real.locked())

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        sim = self._managed()
        return self._owner is not None and (sim is None or self._owner is sim.cur)

    def _at_fork_reinit(self):
        self.__init__()


class SimRLock(SimLock):
    reentrant = True

    def _release_save(self):
        n = self._count
        for _ in range(n):
            self.release()
        return n

    def _acquire_restore(self, n):
        for _ in range(n):
            self.acquire()


threading_RLock = threading.RLock


def install_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock


# ------------------------------------------------------------- sympy seam
def install_sympy_seam():
    import functools
    import sympy

    def wrap(name):
        f = getattr(sympy, name)

        @functools.wraps(f)
        def g(*a, **k):
            sim = CUR
            if sim is not None:
                sim.call('sympy.' + name)
            return f(*a, **k)
        setattr(sympy, name, g)
    for n in ('parse_expr', 'expand', 'sympify', 'symbols'):
        wrap(n)


def install_cache_knob(limit):
    """Bound every memo of the code under test to `limit` entries (an eviction
    pressure knob; behaviour must not depend on the cache size)."""
    import functools
    real = functools.lru_cache

    def lru_cache(maxsize=128, typed=False):
        if callable(maxsize):
            return real(limit)(maxsize)
        m = limit if maxsize is None else min(maxsize, limit)
        return real(m, typed)

    functools.lru_cache = lru_cache
    functools.cache = lambda f: real(limit)(f)

    def restore():
        functools.lru_cache = real
        functools.cache = lambda f: real(None)(f)
    return restore
