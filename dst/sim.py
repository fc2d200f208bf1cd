"""The simulator: every source of nondeterminism the properties touch sits behind one of
these seams, and a scenario decides what each of them does.

  randomness   the `random` module (SimRandom)
  disk         open/io.open on the run's scratch directory (SimDisk), stat-like calls
  interrupts   an exception raised at the k-th executed line of library code
  threads      caller threads parked and released one at a time (ThreadSim)
"""
import _thread
import builtins
import errno
import io
import os
import random
import sys
import threading

LIB = os.path.join(os.path.realpath(os.environ.get("DST_REPO", "/repo")), "jsgf") + os.sep
_real_open, _real_stat = builtins.open, os.stat
_real = {n: getattr(os, n) for n in ("replace", "rename", "remove", "unlink", "fsync",
                                     "listdir", "scandir", "access")}
_RealRandom = random.Random
ROOT = [None]


def set_root(d):
    ROOT[0] = os.path.realpath(d) + os.sep


class Deadlock(Exception):
    pass


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimInterrupt(KeyboardInterrupt):
    """An asynchronous interrupt (Ctrl-C) delivered between two lines."""


class SimNoMemory(MemoryError):
    """An allocation that fails between two lines."""


# ------------------------------------------------------------------ random
class SimRandom(_RealRandom):
    """The only random source the library sees.  Underlying values come from a seeded
    generator; `script` substitutes chosen outcomes for chosen draws."""

    def __init__(self, seed=0):
        self.script = {}
        self.draws = 0
        self.edges = 0
        self.trace = None
        super(SimRandom, self).__init__(seed)

    def program(self, seed, script=None, edge_rate=0.0):
        _RealRandom.seed(self, seed)
        self.script = {int(k): v for k, v in (script or {}).items()}
        self.edge_rate = edge_rate
        self.draws = self.edges = 0
        self.aux = _RealRandom("%s/edge" % (seed,))

    edge_rate = 0.0
    EDGES = (0.0, 1.0 - 2.0 ** -53, 2.0 ** -53, 0.5, 0.25, 0.75, 1e-12, 0.1, 0.9)

    def _next(self):
        """A scripted fraction in [0, 1) for this draw, or None."""
        k = self.draws
        self.draws += 1
        if k in self.script:
            self.edges += 1
            return self.script[k]
        if self.edge_rate and self.aux.random() < self.edge_rate:
            self.edges += 1
            return self.aux.choice(self.EDGES)
        return None

    def seed(self, *a, **k):
        # The library does not get to reseed the simulator.
        if not hasattr(self, "_seeded"):
            self._seeded = True
            super(SimRandom, self).seed(*a, **k)

    def random(self):
        v = super(SimRandom, self).random()
        f = self._next()
        return v if f is None else f

    def getrandbits(self, k):
        v = super(SimRandom, self).getrandbits(k)
        f = self._next()
        return v if f is None else min(int(f * (1 << k)), (1 << k) - 1)

    def _randbelow(self, n):
        f = self._next()
        v = int(super(SimRandom, self).random() * n) % n
        return v if f is None else min(int(f * n), n - 1)


RANDOM = SimRandom(0)


def install_random():
    """Replace the module-level functions and classes of `random`."""
    for name in ("random", "uniform", "randint", "choice", "choices", "randrange",
                 "sample", "shuffle", "getrandbits", "betavariate", "expovariate",
                 "gauss", "normalvariate", "triangular", "seed", "randbytes",
                 "lognormvariate", "vonmisesvariate", "gammavariate",
                 "paretovariate", "weibullvariate", "binomialvariate"):
        if hasattr(RANDOM, name):
            setattr(random, name, getattr(RANDOM, name))
    random.Random = random.SystemRandom = lambda *a, **k: RANDOM
    random._inst = RANDOM


# -------------------------------------------------------------------- disk
class SimDisk(object):
    """Text and binary files below the run's scratch directory, with faults.

    cfg: enc   the locale's text encoding          nl    the platform's line separator
         buf   buffer size in bytes                chunk text layer chunk size
         faults [{"op": open|read|write|close|touch, "at": n, "kind": ..., "n": ...}]
    Operations are numbered per kind from 0 as the library performs them.  kinds:
      short (n bytes only)  eintr  eio  enospc (disk full from here)  eacces  emfile
      crash (process dies; n more bytes reach the disk)
    """

    def __init__(self, cfg, rec):
        self.cfg, self.rec = cfg, rec
        self.enc = cfg.get("enc", "utf-8")
        self.nl = cfg.get("nl", "\n")
        self.count = {}
        self.faults = {}
        for f in cfg.get("faults", ()):
            self.faults.setdefault((f["op"], f["at"]), f)
        self.dead = False
        self.full = None
        self.on_touch = None          # callable(index, what, path)
        self.opened = []
        self.fired = []

    # A numbered operation; returns the fault planned for it, if any.
    def tick(self, op):
        k = self.count.get(op, 0)
        self.count[op] = k + 1
        f = self.faults.get((op, k))
        if f is not None and not self.dead:
            self.rec.fault("%s-%s" % (op, f["kind"]))
            self.fired.append(f)
            return f
        return None

    def inside(self, path):
        if not isinstance(path, (str, bytes, os.PathLike)) or ROOT[0] is None:
            return False
        p = os.path.abspath(os.fsdecode(os.fspath(path)))
        return (p + os.sep).startswith(ROOT[0])

    def touch(self, what, path):
        if self.on_touch is not None and not self.dead and self.inside(path):
            k = self.count.get("touch", 0)
            self.count["touch"] = k + 1
            cb, self.on_touch = self.on_touch, None
            try:
                cb(k, what, os.fspath(path))
            finally:
                self.on_touch = cb

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        if not self.inside(file):
            return _real_open(file, mode, buffering, encoding, errors, newline,
                              closefd, opener)
        self.touch("open", file)
        f = self.tick("open")
        if f:
            if f["kind"] == "crash":
                self.dead = True
                raise SimCrash()
            code = {"eacces": errno.EACCES, "emfile": errno.EMFILE, "eio": errno.EIO,
                    "enospc": errno.ENOSPC}[f["kind"]]
            raise OSError(code, os.strerror(code), os.fspath(file))
        if self.dead:
            raise SimCrash()
        binary = "b" in mode
        raw_mode = mode.replace("b", "").replace("t", "")
        if raw_mode not in ("r", "w", "a", "x", "r+", "w+", "a+", "x+"):
            raise ValueError("invalid mode: %r" % mode)
        self.opened.append((os.path.basename(os.fspath(file)), mode))
        raw = SimRaw(self, io.FileIO(file, raw_mode))
        size = max(1, self.cfg.get("buf", 8192))
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        if raw_mode.endswith("+"):
            buf = io.BufferedRandom(raw, size)
        elif raw_mode == "r":
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            return buf
        if encoding in (None, "locale"):
            encoding = self.enc
        # newline=None writes the platform's separator; reading translates as usual.
        if newline is None and raw_mode != "r" and self.nl != "\n":
            newline = self.nl
        text = io.TextIOWrapper(buf, encoding, errors, newline,
                                line_buffering=(buffering == 1))
        text._CHUNK_SIZE = max(1, self.cfg.get("chunk", 8192))
        text.mode = mode
        return text

    # -------------------------------------------------------------- install
    def __enter__(self):
        builtins.open = io.open = self.open

        def stat(path, *a, **k):
            if isinstance(path, (str, bytes, os.PathLike)):
                self.touch("stat", path)
            return _real_stat(path, *a, **k)
        os.stat = stat

        def guarded(name):
            def f(*a, **k):
                if self.dead:
                    return None
                return _real[name](*a, **k)
            return f
        for n in ("replace", "rename", "remove", "unlink", "fsync"):
            setattr(os, n, guarded(n))

        def listing(name):
            def f(path=".", *a, **k):
                self.touch(name, path)
                return _real[name](path, *a, **k)
            return f
        for n in ("listdir", "scandir", "access"):
            setattr(os, n, listing(n))
        return self

    def __exit__(self, *exc):
        builtins.open = io.open = _real_open
        os.stat = _real_stat
        for n, f in _real.items():
            setattr(os, n, f)
        return False


class SimRaw(io.RawIOBase):
    def __init__(self, disk, raw):
        super(SimRaw, self).__init__()
        self.disk, self.raw = disk, raw
        self.name, self.mode = raw.name, raw.mode

    def readable(self):
        return self.raw.readable()

    def writable(self):
        return self.raw.writable()

    def seekable(self):
        return True

    def fileno(self):
        return self.raw.fileno()

    def seek(self, *a):
        return self.raw.seek(*a)

    def tell(self):
        return self.raw.tell()

    def truncate(self, size=None):
        if self.disk.dead:
            return size
        return self.raw.truncate(size)

    def readinto(self, b):
        f = self.disk.tick("read")
        if f:
            if f["kind"] == "eio":
                raise OSError(errno.EIO, os.strerror(errno.EIO))
            if f["kind"] == "eintr":
                raise InterruptedError(errno.EINTR, os.strerror(errno.EINTR))
            if f["kind"] == "short":
                m = memoryview(b)[:max(1, min(f.get("n", 1), len(b)))]
                return self.raw.readinto(m)
        return self.raw.readinto(b)

    def write(self, b):
        d = self.disk
        data = bytes(b)
        if d.dead:
            return len(data)
        f = d.tick("write")
        if f:
            k = f["kind"]
            if k == "eio":
                raise OSError(errno.EIO, os.strerror(errno.EIO))
            if k == "eintr":
                raise InterruptedError(errno.EINTR, os.strerror(errno.EINTR))
            if k == "short":
                return self.raw.write(data[:max(1, min(f.get("n", 1), len(data)))])
            if k == "enospc":
                d.full = f.get("n", 0)
            if k == "crash":
                self.raw.write(data[:f.get("n", 0)])
                d.dead = True
                raise SimCrash()
        if d.full is not None:
            if d.full <= 0:
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            n = min(d.full, len(data))
            d.full -= n
            return self.raw.write(data[:n])
        return self.raw.write(data)

    def close(self):
        if self.closed:
            return
        f = None
        if self.raw.writable():
            f = self.disk.tick("close")
        try:
            super(SimRaw, self).close()
        finally:
            self.raw.close()
        if f and not self.disk.dead:
            if f["kind"] == "crash":
                self.disk.dead = True
                raise SimCrash()
            raise OSError(errno.EIO, os.strerror(errno.EIO))


# --------------------------------------------------------------- interrupts
class Lines(object):
    """Counts executed library lines; optionally raises at line number `at`."""

    def __init__(self, at=None, exc=SimInterrupt):
        self.at, self.exc = at, exc
        self.n = 0
        self.fired = None
        self.names = set()      # functions that ran

    def _call(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(LIB):
            self.names.add(frame.f_code.co_qualname)
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event == "line":
            n = self.n
            self.n = n + 1
            if n == self.at:
                self.fired = "%s:%s" % (os.path.basename(frame.f_code.co_filename),
                                        frame.f_code.co_name)
                raise self.exc()
        return self._line

    def __enter__(self):
        sys.settrace(self._call)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
        return False


# ------------------------------------------------------------------ threads
_CURRENT = [None]      # the running ThreadSim, if any


class ThreadSim(object):
    """Runs caller threads one at a time.  A running thread keeps the baton until it
    reaches the next scheduled preemption point (a count of executed library lines),
    blocks on a simulated lock, or ends.

    switches: [[line count, thread index], ...] in increasing order.
    hot: [function name, m, most]: also a preemption at every m-th line run in it."""

    MAX_LINES = 3000000

    def __init__(self, fns, switches, first=0, kills=None, hot=None):
        self.hot, self.hot_n = hot, 0
        self.kills = kills or {}        # thread -> its own line number to die at
        self.fns, self.switches, self.pos = fns, switches, 0
        self.first = first
        self.lines = 0
        self.per = [0] * len(fns)
        self.order = []
        self.results = [None] * len(fns)
        self.done = [False] * len(fns)
        self.gates = [_thread.allocate_lock() for _ in fns]
        self.finish = _thread.allocate_lock()
        self.cur = None
        self.taken = 0
        self.next_at = switches[0][0] if switches else None
        self.blocked = 0
        self.fatal = None

    # -- called in simulated threads
    def _call(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(LIB):
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            self.per[self.cur] += 1
            if self.kills and self.kills.get(self.cur) == self.per[self.cur]:
                raise SimInterrupt()
            if self.next_at is not None and self.lines >= self.next_at:
                target = self.switches[self.pos][1]
                self.pos += 1
                self.next_at = self.switches[self.pos][0] \
                    if self.pos < len(self.switches) else None
                where = frame.f_code.co_name
                self._switch(target, where)
            if self.hot and frame.f_code.co_qualname == self.hot[0]:
                self.hot_n += 1
                if self.hot_n % self.hot[1] == 0 and self.hot_n <= self.hot[2]:
                    self._switch((self.cur + 1) % len(self.fns), frame.f_code.co_name)
            if self.lines > self.MAX_LINES:
                raise Deadlock("no progress in %d lines" % self.lines)
        return self._line

    def _switch(self, target, where=""):
        me = self.cur
        n = len(self.fns)
        for k in range(n):
            t = (target + k) % n
            if not self.done[t]:
                break
        if t == me:
            return
        self.taken += 1
        self.order.append((me, t, where))
        self.cur = t
        self.gates[t].release()
        self.gates[me].acquire()
        if self.fatal:
            raise self.fatal

    def wait_for(self, try_acquire):
        """Block the calling simulated thread until try_acquire() succeeds."""
        spins = 0
        while not try_acquire():
            spins += 1
            if spins > 2 * len(self.fns) + 2 or sum(self.done) == len(self.fns) - 1:
                raise Deadlock("all caller threads are blocked")
            self._switch((self.cur + 1) % len(self.fns), "lock")
        return True

    def _body(self, i):
        self.gates[i].acquire()
        sys.settrace(self._call)
        try:
            self.results[i] = ("ok", self.fns[i]())
        except BaseException as e:   # noqa
            self.results[i] = ("raise", e)
        finally:
            sys.settrace(None)
        self.done[i] = True
        for k in range(1, len(self.fns) + 1):
            t = (i + k) % len(self.fns)
            if not self.done[t]:
                self.cur = t
                self.gates[t].release()
                return
        self.finish.release()

    def run(self):
        for g in self.gates:
            g.acquire()
        self.finish.acquire()
        old = threading.stack_size(16 * 1024 * 1024)
        for i in range(len(self.fns)):
            _thread.start_new_thread(self._body, (i,))
        threading.stack_size(old)
        _CURRENT[0] = self
        self.cur = self.first
        self.gates[self.first].release()
        self.finish.acquire()
        _CURRENT[0] = None
        return self.results


def hot_function(pick, names):
    """[fraction, m] and the functions seen -> what ThreadSim calls hot."""
    names = sorted(names)
    if not pick or not names:
        return None
    return [names[min(int(pick[0] * len(names)), len(names) - 1)], pick[1], 400]


class SimLock(object):
    """Stands in for threading.Lock/RLock in code loaded after install_locks()."""

    def __init__(self, reentrant=False):
        self.owner, self.depth, self.re = None, 0, reentrant

    def _try(self):
        me = _thread.get_ident()
        if self.owner is None or (self.re and self.owner == me):
            self.owner = me
            self.depth += 1
            return True
        return False

    def acquire(self, blocking=True, timeout=-1):
        if self._try():
            return True
        if not blocking:
            return False
        s = _CURRENT[0]
        if s is None:
            raise Deadlock("lock acquired twice by its owner")
        return s.wait_for(self._try)

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if not self.depth:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


def install_locks():
    threading.Lock = lambda: SimLock(False)
    threading.RLock = lambda: SimLock(True)
