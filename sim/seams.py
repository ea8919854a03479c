"""Seams: everything nondeterministic that the code under test can reach.

File system (builtins.open, os.*), time, randomness, threads and locks are
replaced by versions that consult the simulator when called from a simulated
task and behave as usual otherwise.
"""
from __future__ import annotations

import _thread
import builtins
import errno
import fcntl
import io
import os
import queue
import random
import sys
import tempfile
import threading
import time

from . import core
from .core import REQ, cur, HarnessError, SimCrash, SimAbort

REAL = {}
SCRATCH = {"root": None, "watch": ()}  # per run: scratch dir; faultable prefixes


def _p(path):
    if isinstance(path, int):
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith("/"):
        p = REAL["os.getcwd"]() + "/" + p
    return os.path.normpath(p)


def watched(p):
    return p is not None and any(p == w or p.startswith(w + "/") for w in SCRATCH["watch"])


def inside(p):
    r = SCRATCH["root"]
    return r is not None and p is not None and (p == r or p.startswith(r + "/"))


def rel(p):
    r = SCRATCH["root"]
    if r and p and p.startswith(r):
        return p[len(r):]
    return p


ERR = {
    "EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES,
    "EDQUOT": errno.EDQUOT, "EROFS": errno.EROFS, "EMFILE": errno.EMFILE,
    "ESTALE": errno.ESTALE, "ETIMEDOUT": errno.ETIMEDOUT, "ENOMEM": errno.ENOMEM,
}


def oserr(kind, path):
    e = ERR[kind]
    return OSError(e, os.strerror(e), path)


def seam(site, path, mutates=False):
    """Returns (task, fault decision) for a file-system operation; (None, None)
    when it is not ours to control."""
    t = cur()
    if t is None:
        return None, None
    sim = t.sim
    p = _p(path)
    if mutates and p is not None and not inside(p) and not p.startswith("/dev/"):
        sim.escapes.append(f"{site} {p}")
        sim.event(f"ESCAPE {site} {p}")
        raise PermissionError(errno.EPERM, "outside the simulated file system", p)
    if not watched(p):
        sim.check_alive(t)
        return None, None
    if t.no_preempt:
        sim.check_alive(t)
        return None, None
    if mutates:
        sim.mutations.append((core.REQ.get(), site, p))
    sim.event(f"{site} {rel(p)}")
    sim.yield_point()
    d = sim.fault(site, p)
    if d is None:
        return t, None
    k = d["kind"]
    if k == "crash" and d.get("when", "before") == "before":
        t.proc.kill(f"at {site}")
        raise SimCrash()
    if k in ERR and not d.get("partial"):
        raise oserr(k, rel(p))
    return t, d


def after(t, d):
    """Fault that strikes after the operation took effect."""
    if t is None or d is None:
        return
    if d["kind"] == "crash" and d.get("when") == "after":
        t.proc.kill("after op")
        raise SimCrash()


# ---- files -----------------------------------------------------------
class SimRaw(io.RawIOBase):
    """Raw file on a real descriptor in the scratch directory."""

    def __init__(self, fd, path, mode, closefd=True, proc=None, readable=True, writable=True, append=False):
        self._fd = fd
        self.name = path
        self.mode = mode
        self._path = path
        self._closefd = closefd
        self._proc = proc
        self._r = readable
        self._w = writable
        self._append = append

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def isatty(self):
        return False

    def _fence(self):
        if self._proc is not None and self._proc.dead:
            raise SimCrash()

    def readinto(self, b):
        self._fence()
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        t, d = seam("read", self._path)
        n = len(b)
        if d is not None and d["kind"] == "short":
            n = max(1, min(n, d.get("arg", 1)))
        if d is not None and d["kind"] == "eof":    # the file seems to end here
            self._eof = True
        if getattr(self, "_eof", False):
            n = 0
        data = REAL["os.read"](self._fd, n) if n else b""
        b[: len(data)] = data
        after(t, d)
        return len(data)

    def write(self, b):
        self._fence()
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        b = bytes(b)
        t, d = seam("write", self._path, mutates=True)
        if d is not None:
            k = d["kind"]
            frac = d.get("arg", 0.5)
            n = int(len(b) * frac) if isinstance(frac, float) else int(frac)
            n = max(0, min(n, len(b)))
            if k == "short":
                n = max(1, n) if b else 0
                return REAL["os.write"](self._fd, b[:n])
            if k == "torn":  # part of the write reaches the disk, then the process dies
                if n:
                    REAL["os.write"](self._fd, b[:n])
                t.proc.kill("torn write")
                raise SimCrash()
            if k in ERR:  # partial write, then the error
                if n:
                    REAL["os.write"](self._fd, b[:n])
                raise oserr(k, rel(self._path))
        n = 0
        while n < len(b):
            n += REAL["os.write"](self._fd, b[n:])
        after(t, d)
        return len(b)

    def seek(self, off, whence=0):
        self._fence()
        return REAL["os.lseek"](self._fd, off, whence)

    def tell(self):
        return REAL["os.lseek"](self._fd, 0, 1)

    def truncate(self, size=None):
        self._fence()
        if size is None:
            size = self.tell()
        t, d = seam("truncate", self._path, mutates=True)
        REAL["os.ftruncate"](self._fd, size)
        after(t, d)
        return size

    def close(self):
        if self.closed:
            return
        try:
            io.RawIOBase.close(self)
        finally:
            if self._closefd:
                dead = self._proc is not None and self._proc.dead
                try:
                    if not dead and cur() is not None:
                        t, d = seam("close", self._path)
                        after(t, d)
                    elif dead and cur() is not None:
                        raise SimCrash()
                finally:
                    try:
                        REAL["os.close"](self._fd)
                    except OSError:
                        pass
                    FDS.pop(self._fd, None)

    def __del__(self):
        try:
            if not self.closed:
                io.RawIOBase.close(self)
                if self._closefd:
                    REAL["os.close"](self._fd)
                    FDS.pop(self._fd, None)
        except BaseException:
            pass


FDS: dict[int, str] = {}  # fd -> path for descriptors opened by simulated tasks
FDREQ: dict[int, str] = {}  # fd -> the request that opened it


def _flags(mode):
    m = mode.replace("b", "").replace("t", "").replace("U", "")
    plus = "+" in m
    m = m.replace("+", "")
    if m == "r":
        fl = os.O_RDWR if plus else os.O_RDONLY
    elif m == "w":
        fl = (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_TRUNC
    elif m == "x":
        fl = (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_EXCL
    elif m == "a":
        fl = (os.O_RDWR if plus else os.O_WRONLY) | os.O_CREAT | os.O_APPEND
    else:
        raise ValueError(f"invalid mode: {mode!r}")
    return fl | os.O_CLOEXEC, plus, m


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    t = cur()
    if t is None:
        return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in "wax+")
    if isinstance(file, int):
        if file not in FDS:
            return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        fd, path = file, FDS[file]
        fl, plus, m = _flags(mode)
    else:
        p = _p(file)
        if not writing and not watched(p):
            return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        if writing and p is not None and p.startswith("/dev/") and not inside(p):
            return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        fl, plus, m = _flags(mode)
        path = p
        if opener is not None:
            fd = opener(file, fl)
        else:
            fd = sim_os_open(file, fl, 0o666)
    binary = "b" in mode
    raw = SimRaw(fd, path, mode, closefd, t.proc, readable=(m == "r" or plus),
                 writable=(m != "r" or plus), append=(m == "a"))
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    line = buffering == 1 and not binary
    size = buffering if buffering > 1 else BUFSIZE["n"]
    if plus:
        buf = io.BufferedRandom(raw, size)
    elif m != "r":
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    txt = io.TextIOWrapper(buf, encoding, errors, newline, line)
    txt.mode = mode
    return txt


BUFSIZE = {"n": 8192}


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    t = cur()
    if t is None or dir_fd is not None:
        return REAL["os.open"](path, flags, mode, dir_fd=dir_fd)
    writing = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
    p = _p(path)
    tt, d = seam("open_w" if writing else "open_r", p, mutates=writing)
    fd = REAL["os.open"](path, flags, mode)
    FDS[fd] = p
    FDREQ[fd] = REQ.get()
    if d is not None and d["kind"] == "crash":
        REAL["os.close"](fd)
        FDS.pop(fd, None)
    after(tt, d)
    return fd


def _wrap1(name, site, mutates):
    real = getattr(os, name)
    REAL["os." + name] = real

    def f(path=None, *a, **kw):
        t = cur()
        if t is None or kw.get("dir_fd") is not None:
            return real(path, *a, **kw) if path is not None else real(*a, **kw)
        if path is None:
            path = "."
        if isinstance(path, int):
            path_ = FDS.get(path)
            if path_ is None:
                return real(path, *a, **kw)
            tt, d = seam(site, path_, mutates)
        else:
            tt, d = seam(site, path, mutates)
        r = real(path, *a, **kw)
        after(tt, d)
        return r

    f.__name__ = name
    setattr(os, name, f)


def _wrap2(name, site):
    real = getattr(os, name)
    REAL["os." + name] = real

    def f(src, dst, *a, **kw):
        if cur() is None:
            return real(src, dst, *a, **kw)
        # only a move needs its source to be ours; a (sym)link reads it
        if site == "rename" and not inside(_p(src)):
            seam(site, src, True)
        tt, d = seam(site, dst, True)
        r = real(src, dst, *a, **kw)
        after(tt, d)
        return r

    f.__name__ = name
    setattr(os, name, f)


def sim_listdir(path="."):
    t = cur()
    if t is None:
        return REAL["os.listdir"](path)
    tt, d = seam("listdir", path if path is not None else ".")
    r = sorted(REAL["os.listdir"](path))
    if tt is not None:
        t.sim.rng_misc.shuffle(r)  # directory order is unspecified
    after(tt, d)
    return r


class _ScanIter:
    def __init__(self, ents):
        self._it = iter(ents)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass


def sim_scandir(path="."):
    t = cur()
    if t is None:
        return REAL["os.scandir"](path)
    tt, d = seam("listdir", path if path is not None else ".")
    with REAL["os.scandir"](path) as it:
        ents = sorted(it, key=lambda e: e.name)
    if tt is not None:
        t.sim.rng_misc.shuffle(ents)
    after(tt, d)
    return _ScanIter(ents)


def sim_os_write(fd, b):
    if cur() is None or fd not in FDS:
        return REAL["os.write"](fd, b)
    raw = SimRaw(fd, FDS[fd], "wb", False, cur().proc, False, True)
    return raw.write(b)


def sim_os_read(fd, n):
    if cur() is None or fd not in FDS:
        return REAL["os.read"](fd, n)
    t, d = seam("read", FDS[fd])
    if d is not None and d["kind"] == "short":
        n = max(1, min(n, d.get("arg", 1)))
    return REAL["os.read"](fd, n)


def sim_os_close(fd):
    if cur() is None or fd not in FDS:
        return REAL["os.close"](fd)
    try:
        t, d = seam("close", FDS[fd])
    finally:
        FDS.pop(fd, None)
        REAL["os.close"](fd)
    after(t, d)


def sim_nosendfile(*a, **kw):
    if cur() is None:
        return REAL["os.sendfile"](*a, **kw)
    raise OSError(errno.ENOTSOCK, "sendfile not simulated")


def sim_flock(fd, op):
    t = cur()
    if t is None:
        return REAL["fcntl.flock"](fd, op)
    return _flock_loop(t, REAL["fcntl.flock"], fd, op)


def sim_lockf(fd, op, *a):
    t = cur()
    if t is None:
        return REAL["fcntl.lockf"](fd, op, *a)
    # POSIX locks are per real process: emulate with flock on the descriptor
    return _flock_loop(t, REAL["fcntl.flock"], fd, op)


def _flock_loop(t, fn, fd, op):
    t.sim.yield_point()
    if op & (fcntl.LOCK_NB | fcntl.LOCK_UN):
        return fn(fd, op)
    while True:
        try:
            return fn(fd, op | fcntl.LOCK_NB)
        except BlockingIOError:
            t.sim.block("flock", 0.001)


# ---- locks and threads ----------------------------------------------
class SimLock:
    """threading.Lock whose blocking is decided by the simulator."""

    def __init__(self):
        self._real = core._allocate()
        self._owner = None
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        t = cur()
        if t is None:
            return self._real.acquire(blocking, timeout)
        sim = t.sim
        if not t.no_preempt:
            sim.yield_point()
        if self._real.acquire(False):
            self._owner = t
            return True
        if not blocking:
            return False
        end = None if timeout is None or timeout < 0 else sim.now + timeout
        while True:
            self._waiters.append(t)
            try:
                sim.block("lock", None if end is None else end - sim.now)
            finally:
                if t in self._waiters:
                    self._waiters.remove(t)
            if self._real.acquire(False):
                self._owner = t
                return True
            if end is not None and sim.now >= end:
                return False

    def release(self):
        self._owner = None
        self._real.release()
        for w in self._waiters:
            w.sim.wake(w)

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    acquire_lock = acquire
    release_lock = release

    def _at_fork_reinit(self):
        self._real = core._allocate()
        self._waiters = []


def lock_factory():
    if cur() is None:
        return core._allocate()
    return SimLock()


_PyRLock = threading._PyRLock


def rlock_factory(*a, **kw):
    if cur() is None:
        return REAL["threading.RLock"](*a, **kw)
    r = _PyRLock.__new__(_PyRLock)
    r._block = SimLock()
    r._owner = None
    r._count = 0
    return r


def sim_get_ident():
    t = cur()
    return _thread.get_ident() if t is None else t.ident


def sim_thread_start(self):
    t = cur()
    if t is None:
        return REAL["Thread.start"](self)
    sim = t.sim
    import contextvars
    ctx = contextvars.copy_context()

    def body():
        threading._active[c.ident] = self
        try:
            ctx.run(self.run)
        except (SimCrash, SimAbort):
            raise
        except SystemExit:
            pass
        except BaseException:
            sim.event("thread exception")
        finally:
            threading._active.pop(c.ident, None)
            self._is_stopped = True
            for w in self._sim_waiters:
                sim.wake(w)

    self._sim_waiters = []
    c = sim.spawn(f"{t.label}/thr", body, proc=t.proc)
    self._ident = c.ident
    self._native_id = c.ident
    self._sim_task = c
    self._started.set()
    with threading._active_limbo_lock:
        threading._limbo.pop(self, None)


def sim_thread_join(self, timeout=None):
    t = cur()
    if t is None or not hasattr(self, "_sim_task"):
        return REAL["Thread.join"](self, timeout)
    sim = t.sim
    end = None if timeout is None else sim.now + timeout
    while not self._is_stopped:
        self._sim_waiters.append(t)
        sim.block("join", None if end is None else end - sim.now)
        if end is not None and sim.now >= end:
            return


def sim_thread_is_alive(self):
    if hasattr(self, "_sim_task"):
        return not self._is_stopped
    return REAL["Thread.is_alive"](self)


# ---- time and randomness ---------------------------------------------
WALL0 = 1_700_000_000.0


def _time_patch():
    for n in ("time", "monotonic", "perf_counter", "sleep", "time_ns", "monotonic_ns",
              "perf_counter_ns"):
        REAL["time." + n] = getattr(time, n)

    def mk(name, conv):
        real = REAL["time." + name]

        def f():
            t = cur()
            if t is None:
                return real()
            return conv(t.sim)

        f.__name__ = name
        setattr(time, name, f)

    mk("time", lambda s: WALL0 + s.now + s.wall_skew)
    mk("time_ns", lambda s: int((WALL0 + s.now + s.wall_skew) * 1e9))
    mk("monotonic", lambda s: s.now)
    mk("perf_counter", lambda s: s.now)
    mk("monotonic_ns", lambda s: int(s.now * 1e9))
    mk("perf_counter_ns", lambda s: int(s.now * 1e9))

    def sleep(d):
        t = cur()
        if t is None:
            return REAL["time.sleep"](d)
        t.sim.sleep(d)

    time.sleep = sleep


class _Names:
    def __iter__(self):
        return self

    def __next__(self):
        t = cur()
        rng = t.sim.rng_misc if t else random
        return "".join(rng.choice("abcdefghijklmnopqrstuvwxyz0123456789_") for _ in range(8))


class _NoIdle:
    @staticmethod
    def acquire(*a, **kw):
        return False

    @staticmethod
    def release(*a):
        pass


def install():
    REAL["open"] = builtins.open
    for n in ("open", "read", "write", "close", "lseek", "ftruncate", "listdir", "scandir",
              "getcwd", "getpid", "urandom", "sendfile", "walk"):
        REAL["os." + n] = getattr(os, n)
    REAL["fcntl.flock"] = fcntl.flock
    REAL["fcntl.lockf"] = fcntl.lockf
    builtins.open = sim_open
    io.open = sim_open
    os.open = sim_os_open
    os.write = sim_os_write
    os.read = sim_os_read
    os.close = sim_os_close
    os.listdir = sim_listdir
    os.scandir = sim_scandir
    os.sendfile = sim_nosendfile
    for n, site, mut in (
        ("stat", "stat", False), ("lstat", "stat", False), ("access", "stat", False),
        ("mkdir", "mkdir", True), ("rmdir", "rmdir", True),
        ("unlink", "unlink", True), ("remove", "unlink", True),
        ("chmod", "meta", True), ("utime", "meta", True), ("truncate", "truncate", True),
        ("fsync", "fsync", False), ("fdatasync", "fsync", False), ("ftruncate", "truncate", True),
        ("chown", "meta", True), ("readlink", "stat", False), ("mkfifo", "meta", True),
    ):
        _wrap1(n, site, mut)
    for n, site in (("rename", "rename"), ("replace", "rename"), ("renames", "rename"),
                    ("link", "link"), ("symlink", "link")):
        _wrap2(n, site)
    fcntl.flock = sim_flock
    fcntl.lockf = sim_lockf

    def getpid():
        t = cur()
        return t.proc.ospid if t is not None and t.proc is not None else REAL["os.getpid"]()

    os.getpid = getpid

    def urandom(n):
        t = cur()
        return t.sim.rng_misc.randbytes(n) if t is not None else REAL["os.urandom"](n)

    os.urandom = urandom
    random._urandom = urandom
    tempfile._name_sequence = _Names()
    _time_patch()

    REAL["threading.RLock"] = threading.RLock
    threading.Lock = lock_factory
    threading._allocate_lock = lock_factory
    threading.RLock = rlock_factory
    queue.SimpleQueue = queue._PySimpleQueue
    REAL["Thread.start"] = threading.Thread.start
    REAL["Thread.join"] = threading.Thread.join
    REAL["Thread.is_alive"] = threading.Thread.is_alive
    threading.Thread.start = sim_thread_start
    threading.Thread.join = sim_thread_join
    threading.Thread.is_alive = sim_thread_is_alive
    threading.get_ident = sim_get_ident

    import concurrent.futures.thread as cft
    import contextlib
    # made before the seams: a real lock must not be held across a hand-over
    cft._global_shutdown_lock = contextlib.nullcontext()
    submit = cft.ThreadPoolExecutor.submit

    def sim_submit(self, fn, /, *a, **kw):
        if cur() is None:
            return submit(self, fn, *a, **kw)
        # Counting idle workers is racy in the library: it can leave a job waiting for a busy
        # worker although the pool may grow.  Not our subject: always grow.
        self._idle_semaphore = _NoIdle
        req = core.REQ.get()

        def run(*a, **kw):
            core.REQ.set(req)       # faults and connections belong to the request
            return fn(*a, **kw)
        return submit(self, run, *a, **kw)

    cft.ThreadPoolExecutor.submit = sim_submit

    prev = sys.unraisablehook

    def hook(u):
        if u.exc_type is not None and issubclass(u.exc_type, (SimCrash, SimAbort)):
            return
        prev(u)

    sys.unraisablehook = hook
