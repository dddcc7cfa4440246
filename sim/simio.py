"""Simulated storage and standard output.

Files inside the run's scratch directory are real files reached through a raw
layer the simulator owns: every open, read, write, flush and close is a seam
(a preemption point, an injectable error), reads may be short and writes may be
partial.  Files elsewhere are untouched.  sys.stdout is one buffer per thread,
every write a seam."""
import builtins
import io
import os
import shutil
import sys
import tempfile

import core

_real_open = io.open
ROOT = None
STATE = None


class State:
    def __init__(self):
        self.handles = []
        self.chunk = {}       # thread id -> bytes per read (0: as asked)
        self.wchunk = {}
        self.stats = {}
        self.torn = {}


def _tid():
    sim = core.CUR
    if sim is not None and sim.cur is not None and sim.cur.inop and core._ident() == sim.cur.ident:
        return sim.cur.tid
    return None


def _seam(name):
    sim = core.CUR
    if sim is not None:
        sim.call(name)


class Raw(io.RawIOBase):
    def __init__(self, path, mode):
        self._path = path
        self._done = False
        _seam('fs.open')
        self._f = io.FileIO(path, mode)
        self._owner = _tid()
        STATE.handles.append(self)

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return self._f.seekable()

    def fileno(self):
        return self._f.fileno()

    def isatty(self):
        return False

    @property
    def name(self):
        return self._path

    @property
    def mode(self):
        return self._f.mode

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def truncate(self, *a):
        _seam('fs.write')
        return self._f.truncate(*a)

    def readinto(self, b):
        _seam('fs.read')
        n = STATE.chunk.get(_tid(), 0)
        if n and len(b) > n:
            core.CUR.hit('short read')
            d = self._f.read(n)
            b[:len(d)] = d
            return len(d)
        return self._f.readinto(b)

    def write(self, b):
        b = bytes(b)
        try:
            _seam('fs.write')
        except OSError:
            if STATE.torn.get(_tid()):        # some of it reached the disk
                core.CUR.hit('torn write')
                self._f.write(b[:max(0, len(b) // 2)])
            raise
        n = STATE.wchunk.get(_tid(), 0)
        if n and len(b) > n:
            core.CUR.hit('short write')
            return self._f.write(b[:n])
        return self._f.write(b)

    def close(self):
        if self._done:
            return
        self._done = True
        try:
            super().close()
        finally:
            self._f.close()


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    try:
        path = os.path.abspath(os.fspath(file)) if not isinstance(file, int) else None
    except TypeError:
        path = None
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if path is None or ROOT is None or not (path + os.sep).startswith(ROOT + os.sep) or opener is not None:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = 'b' in mode
    raw = Raw(path, mode.replace('b', '').replace('t', ''))
    if binary and buffering == 0:
        return raw
    size = 256           # small, so that there are many points to fail at
    if '+' in mode:
        buf = io.BufferedRandom(raw, size)
    elif raw.writable():
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, buffering == 1)
    t.mode = mode
    return t


class Out(io.TextIOBase):
    """Standard output: one stream per simulated thread."""
    encoding = 'utf-8'

    def __init__(self):
        self.text = {}

    def writable(self):
        return True

    def isatty(self):
        return False

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('write() argument must be str, not %s' % type(s).__name__)
        t = _tid()
        try:
            _seam('stdout.write')
        except OSError:
            if STATE.torn.get(t):
                self.text[t] = self.text.get(t, '') + s[:len(s) // 2]
            raise
        self.text[t] = self.text.get(t, '') + s
        return len(s)

    def flush(self):
        _seam('stdout.flush')

    def take(self, t):
        return self.text.pop(t, '')


OUT = None


def install():
    """In the child: scratch directory, patched open and standard output."""
    global ROOT, STATE, OUT
    STATE = State()
    ROOT = os.path.realpath(tempfile.mkdtemp(prefix='run.'))
    io.open = sim_open
    builtins.open = sim_open
    OUT = Out()
    sys.stdout = OUT
    return ROOT


def uninstall():
    global ROOT
    if ROOT:
        r, ROOT = ROOT, None
        io.open = builtins.open = _real_open
        sys.stdout = sys.__stdout__
        shutil.rmtree(r, ignore_errors=True)


def open_handles(tid=None):
    return [h._path for h in STATE.handles if not h._done and (tid is None or h._owner == tid)]
