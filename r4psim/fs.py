"""The file seam: files under a scratch directory are opened, written and closed through the
simulator, which may switch ranks, fail the operation, write only part of it, or kill the job.

The bytes reach a real file in the scratch directory exactly when the simulated system call
succeeds; what Python still buffers when the job is killed is lost, as in a real process."""
import builtins
import errno
import io
import os
import shutil
import tempfile
import threading

from . import kernel

_real_open = builtins.open
_real_stat = os.stat
_real_mkdir = os.mkdir
_active = None
ERR = {"eio": errno.EIO, "enospc": errno.ENOSPC, "eacces": errno.EACCES, "emfile": errno.EMFILE}


def _in_sim():
    s = kernel.CUR
    r = kernel.current_rank()
    return s is not None and r >= 0 and threading.current_thread() is s.ranks[r].thread


class Raw(io.RawIOBase):
    """The unbuffered file below Python's own buffering."""

    def __init__(self, fs, path, mode):
        super().__init__()
        self.fs = fs
        self.path = path
        self.f = io.FileIO(path, mode)

    def readable(self):
        return self.f.readable()

    def writable(self):
        return self.f.writable()

    def seekable(self):
        return True

    def seek(self, o, w=0):
        return self.f.seek(o, w)

    def tell(self):
        return self.f.tell()

    def truncate(self, size=None):
        return self.f.truncate(size)

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def isatty(self):
        return False

    def readinto(self, b):
        if _in_sim():
            kernel.CUR.yield_point("read")
        return self.f.readinto(b)

    def write(self, b):
        b = bytes(b)
        if self.fs.dead or not _in_sim() or kernel.CUR.killed:
            return len(b)           # the process is gone: nothing reaches the disk any more
        kernel.CUR.yield_point("write")
        if kernel.CUR.killed:
            return len(b)
        k = self.fs.fault("write", self.path)
        if k is None:
            self.fs.sim_writes += 1
            return self.f.write(b)
        kind, frac = k
        if kind == "short":
            part = b[:max(1, int(len(b) * frac))]
            self.f.write(part)
            return len(part)
        # as with write(2): an error means that nothing of this call was written
        raise OSError(ERR[kind], os.strerror(ERR[kind]), self.path)

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self.f.close()


class SimFS:
    """One scratch directory; `faults` is a list of [operation, nth, kind, fraction]."""

    def __init__(self, faults=()):
        self.dir = tempfile.mkdtemp(prefix="r4psim-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
        self.faults = [list(f) for f in faults]
        self.seen = {"write": 0, "open": 0, "mkdir": 0}
        self.fired = []
        self.dead = False
        self.sim_writes = 0
        self.opens = 0

    def fault(self, op, path):
        k = self.seen[op]
        self.seen[op] += 1
        for f in self.faults:
            if f[0] == op and f[1] <= k < f[1] + (f[4] if len(f) > 4 else 1):
                self.fired.append((op, f[2]))
                kernel.CUR.counts["disk " + f[2]] += 1
                return f[2], f[3]
        return None

    def owns(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        return isinstance(p, str) and os.path.abspath(p).startswith(self.dir + os.sep)

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        kernel.CUR.yield_point("open")
        self.opens += 1
        if any(c in mode for c in "wax+"):
            k = self.fault("open", file)
            if k is not None:
                raise OSError(ERR[k[0]], os.strerror(ERR[k[0]]), os.fspath(file))
        raw = Raw(self, os.fspath(file), mode.replace("b", "").replace("t", ""))
        if buffering == 0:
            return raw
        size = 64 if self.small else 8192
        buf = io.BufferedReader(raw) if not raw.writable() else (
            io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size))
        if "b" in mode:
            return buf
        t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
        t.mode = mode
        return t

    small = False

    def __enter__(self):
        global _active
        _active = self
        builtins.open = _open
        io.open = _open
        os.stat = _stat
        os.mkdir = _mkdir
        return self

    def __exit__(self, *a):
        global _active
        self.dead = True
        _active = None
        builtins.open = _real_open
        io.open = _real_open
        os.stat = _real_stat
        os.mkdir = _real_mkdir
        return False

    def remove(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def files(self):
        out = {}
        for d, _, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(d, f)
                with _real_open(p, "rb") as fh:
                    out[os.path.relpath(p, self.dir)] = fh.read()
        return out


def _open(file, mode="r", *a, **kw):
    fs = _active
    if fs is None or not _in_sim() or not fs.owns(file):
        return _real_open(file, mode, *a, **kw)
    return fs.open(file, mode, *a, **kw)


def _stat(path, *a, **kw):
    fs = _active
    if fs is not None and _in_sim() and not isinstance(path, int) and fs.owns(path):
        kernel.CUR.yield_point("stat")
    return _real_stat(path, *a, **kw)


def _mkdir(path, *a, **kw):
    fs = _active
    if fs is not None and _in_sim() and fs.owns(path):
        kernel.CUR.yield_point("mkdir")
        k = fs.fault("mkdir", path)
        if k is not None:
            raise OSError(ERR[k[0]], os.strerror(ERR[k[0]]), os.fspath(path))
    return _real_mkdir(path, *a, **kw)
