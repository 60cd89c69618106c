"""Simulated environment: storage, HDF5 reads, clock, randomness, allocation and asynchronous interrupts.

Installed once inside each (forked) simulation process.  The library keeps calling the ordinary functions;
everything it can observe from outside is decided here, and nowhere else.
"""
import ast
import builtins
import errno
import hashlib
import io
import logging
import os
import random
import re
import sys
import time
import zlib
import datetime as _dtmod

import numpy as np

REAL_OPEN = io.open
REAL_DT = _dtmod.datetime


class SimCrash(BaseException):
    """The simulated process dies here; nothing below may run."""


class InjectedKBI(KeyboardInterrupt):
    pass


ERR = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EACCES": errno.EACCES, "EDQUOT": errno.EDQUOT,
       "EMFILE": errno.EMFILE, "EROFS": errno.EROFS, "ESTALE": errno.ESTALE}


class World:
    """State of the simulated environment of one process."""

    def __init__(self):
        self.root = None
        self.reset_op()
        self.dead = False        # the simulated process has crashed
        self.fired = {}          # fault kind -> times it actually fired
        self.seam = {}           # seam -> events seen
        self.watch = None        # path whose flushes are observed
        self.observed = 0
        self.flushes = []        # [(size, crc, did it only grow)] of the watched path after each flush
        self.last = []           # its last two contents
        self.keep_content = True
        self.clock = 1_600_000_000.0
        self.reads = []          # (instant, what the library was told) for every look at the clock
        self.mono = 1000.0       # simulated monotonic time (progress reporting, elapsed-time measurement)
        self.tick = 1e-6         # how much of it passes between two looks at the timer: a slow machine or disk
        self.warnings = 0
        self.reported_size = None

    def reset_op(self, faults=()):
        self.count = {}
        self.faults = [dict(f) for f in faults]
        self.fired_now = []

    def hit(self, site):
        """Count an event at a seam; return the fault scheduled for it, if any."""
        n = self.count.get(site, 0) + 1
        self.count[site] = n
        self.seam[site] = self.seam.get(site, 0) + 1
        for f in self.faults:
            if f["site"] == site and (f["n"] == n or (f.get("sticky") and n >= f["n"])):
                k = f["kind"]
                key = f"{site}:{k}"
                self.fired[key] = self.fired.get(key, 0) + 1
                self.fired_now.append(key)
                return f
        return None

    def raise_fault(self, f):
        k = f["kind"]
        if k == "KBI":
            raise InjectedKBI()
        if k == "MEM":
            raise MemoryError("injected")
        if k == "CRASH":
            self.dead = True
            raise SimCrash()
        if k == "EINTR":
            raise InterruptedError(errno.EINTR, "injected EINTR")
        if k == "H5":
            raise OSError("Can't synchronously read data (injected)")
        raise OSError(ERR[k], f"injected {k}")


W = World()


# ------------------------------------------------------------------------------------------------- storage

class SimRaw(io.FileIO):
    """Raw file whose system calls the simulator decides."""

    def write(self, b):
        if W.dead:
            raise SimCrash()
        f = W.hit("write")
        if f:
            k = f["kind"]
            mv = memoryview(b).cast("B") if not isinstance(b, (bytes, bytearray)) else b
            if k == "STALL":
                W.mono += 30.0
                return super().write(b)
            if k == "SHORT":
                n = max(1, min(len(mv) - 1, int(len(mv) * f.get("frac", 0.5)))) if len(mv) > 1 else len(mv)
                return super().write(mv[:n])
            if k in ("ENOSPC", "EDQUOT", "EIO", "CRASH") and f.get("partial") and len(mv) > 1:
                super().write(mv[:max(1, int(len(mv) * f.get("frac", 0.5)))])
            W.raise_fault(f)
        return super().write(b)

    def close(self):
        if self.closed:
            return
        if W.dead:
            super().close()
            return
        f = W.hit("close")
        super().close()
        if f:
            W.raise_fault(f)


class SimBuffered(io.BufferedWriter):
    _path = None

    def flush(self):
        super().flush()
        _observe(self._path)

    def close(self):
        was = self.closed
        super().close()
        if not was and not W.dead:
            _observe(self._path)
            f = W.hit("flushed")
            if f:
                W.raise_fault(f)


def _observe(path):
    if path is None or W.watch is None or path != W.watch:
        return
    # every one of the first flushes, then ever fewer of them
    W.observed += 1
    if W.observed > 64 and W.observed % (W.observed // 32):
        return
    try:
        with REAL_OPEN(path, "rb") as fh:
            data = fh.read()
    except OSError:
        return
    prev = W.last[-1] if W.last else None
    if prev != data:
        # only the last two contents are kept: files can be large and flushes many
        W.flushes.append((len(data), zlib.crc32(data), prev is None or data.startswith(prev)))
        W.last = W.last[-1:] + [data]


class _UnbufferedWatch(SimRaw):
    _path = None

    def write(self, b):
        n = super().write(b)
        _observe(self._path)
        return n


def _within(path):
    if W.root is None:
        return None
    try:
        p = os.path.abspath(os.fspath(path))
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return p if p.startswith(W.root + os.sep) else None


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    p = None if isinstance(file, int) else _within(file)
    if p is None or "b" not in mode or not (set(mode) & set("wax+")):
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    f = W.hit("open")
    if f:
        W.raise_fault(f)
    rawmode = mode.replace("b", "").replace("t", "")
    if "+" in mode:
        raw = SimRaw(p, rawmode, opener=opener)
        return io.BufferedRandom(raw)
    if buffering == 0:
        raw = _UnbufferedWatch(p, rawmode, opener=opener)
        raw._path = p
        return raw
    raw = SimRaw(p, rawmode, opener=opener)
    buf = SimBuffered(raw, buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE)
    buf._path = p
    return buf


# ------------------------------------------------------------------------------------------ clock, randomness

class _SimDTMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, REAL_DT)

    def __subclasscheck__(cls, c):
        return issubclass(c, REAL_DT)

    def __call__(cls, *a, **k):
        return REAL_DT(*a, **k)

    def __getattr__(cls, n):
        return getattr(REAL_DT, n)

    def __eq__(cls, o):
        return o is REAL_DT or o is SimDateTime

    def __hash__(cls):
        return hash(REAL_DT)


class SimDateTime(metaclass=_SimDTMeta):
    """Stands in for ``datetime`` in the library's modules: same type, simulated now()."""

    @staticmethod
    def now(tz=None):
        W.seam["clock"] = W.seam.get("clock", 0) + 1
        x = REAL_DT.fromtimestamp(W.clock, tz)
        W.reads.append((W.clock, x))
        return x

    @staticmethod
    def utcnow():
        W.seam["clock"] = W.seam.get("clock", 0) + 1
        x = REAL_DT.fromtimestamp(W.clock, _dtmod.timezone.utc).replace(tzinfo=None)
        W.reads.append((W.clock, x))
        return x

    @staticmethod
    def today():
        return SimDateTime.now()


HUGE = 1 << 26


class _BAMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, bytearray)

    def __subclasscheck__(cls, c):
        return issubclass(c, bytearray)

    def __call__(cls, *a, **k):
        if len(a) == 1 and isinstance(a[0], int):
            f = W.hit("alloc")
            if f:
                W.raise_fault(f)
            if a[0] > HUGE:
                a = (HUGE,)
        return bytearray(*a, **k)

    def __getattr__(cls, n):
        return getattr(bytearray, n)

    def __eq__(cls, o):
        return o is bytearray or o is SimBytearray

    def __hash__(cls):
        return hash(bytearray)


class SimBytearray(metaclass=_BAMeta):
    """Stands in for ``bytearray`` in the library's modules: allocation may fail, and huge buffers are cut down."""


class _SimDTModule:
    datetime = SimDateTime

    def __getattr__(self, n):
        return getattr(_dtmod, n)


class _SimTimeModule:
    """Stands in for the ``time`` module in the library's modules."""

    @staticmethod
    def time():
        W.seam["clock"] = W.seam.get("clock", 0) + 1
        W.reads.append((W.clock, REAL_DT.fromtimestamp(W.clock)))
        return W.clock

    @staticmethod
    def time_ns():
        return int(_SimTimeModule.time() * 10 ** 9)

    def __getattr__(self, n):
        return getattr(time, n)


def _tree(mod):
    try:
        with REAL_OPEN(mod.__file__, "rb") as fh:
            return ast.walk(ast.parse(fh.read()))
    except (OSError, TypeError, AttributeError, SyntaxError, ValueError):
        return ()


def _uses(mod, attrs, name):
    return any(isinstance(n, ast.Attribute) and n.attr in attrs and isinstance(n.value, ast.Name) and n.value.id == name
               for n in _tree(mod))


def _calls(mod, name):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == name for n in _tree(mod))


def set_tz(name):
    os.environ["TZ"] = name
    time.tzset()


# ------------------------------------------------------------------------------------------------- logging

class _Tap(logging.Handler):
    def createLock(self):
        self.lock = None

    def handle(self, record):
        if record.levelno >= logging.WARNING:
            W.warnings += 1
        else:
            m = _SIZE.search(record.getMessage()) if "size" in str(record.msg) else None
            if m:
                W.reported_size = int(m.group(1))
        return True


_SIZE = re.compile(r"[Tt]otal (?:file|output) size is (\d+)")
_installed = False


_plan = None


def prepare():
    """Which names of which library modules are to be replaced (worked out once, before forking; nothing is changed)."""
    global _plan
    if _plan is not None:
        return _plan
    plan = []
    for name, mod in list(sys.modules.items()):
        if not (name == "dliswriter" or name.startswith("dliswriter.")) or mod is None:
            continue
        d = mod.__dict__
        for k, v in list(d.items()):
            # only modules that ask for the current time see the simulated class; the others keep the real one, so
            # that exact type lookups (datetime: DTIME) are untouched
            if v is REAL_DT and _uses(mod, {"now", "utcnow", "today"}, k):
                plan.append((d, k, SimDateTime))
            elif v is _dtmod:
                plan.append((d, k, _SimDTModule()))
            elif v is time:
                plan.append((d, k, _SimTimeModule()))
            elif getattr(v, "__self__", None) is REAL_DT and getattr(v, "__name__", "") in ("now", "utcnow", "today"):
                plan.append((d, k, getattr(SimDateTime, v.__name__)))
            elif v is time.time or v is time.time_ns:
                plan.append((d, k, getattr(_SimTimeModule, v.__name__)))
        # output buffers: the default one of 4 GiB is cut down to what the simulated files can ever fill
        if "bytearray" not in d and _calls(mod, "bytearray"):
            plan.append((d, "bytearray", SimBytearray))
    _plan = plan
    return plan


def install(root):
    """Put every seam in place (idempotent)."""
    global _installed
    W.root = os.path.abspath(root)
    if _installed:
        return
    _installed = True
    import h5py
    import dliswriter                     # noqa: F401
    builtins.open = sim_open
    io.open = sim_open

    for d, k, v in prepare():
        d[k] = v

    # HDF5 reads
    real_get = h5py.Dataset.__getitem__
    real_init = h5py.File.__init__

    def getitem(self, *a, **k):
        f = W.hit("h5read")
        if f:
            W.raise_fault(f)
        return real_get(self, *a, **k)

    def finit(self, *a, **k):
        f = W.hit("h5open")
        if f:
            W.raise_fault(f)
        return real_init(self, *a, **k)

    h5py.Dataset.__getitem__ = getitem
    h5py.File.__init__ = finit

    # allocation of chunk buffers by the library
    real_zeros = np.zeros

    def zeros(*a, **k):
        if sys._getframe(1).f_globals.get("__name__", "").startswith("dliswriter"):
            f = W.hit("alloc")
            if f:
                W.raise_fault(f)
        return real_zeros(*a, **k)

    np.zeros = zeros

    # randomness: generators the library makes without a seed take it from the seeded global one
    real_rng = np.random.default_rng

    def default_rng(seed=None):
        return real_rng(np.random.randint(1 << 31) if seed is None else seed)

    np.random.default_rng = default_rng

    # monotonic timer
    import timeit

    def timer():
        W.mono += W.tick
        return W.mono

    timeit.default_timer = timer
    timeit.timeit.__defaults__ = tuple(timer if v is time.perf_counter else v for v in timeit.timeit.__defaults__)

    lg = logging.getLogger("dliswriter")
    lg.handlers[:] = [_Tap()]
    lg.propagate = False
    lg.setLevel(logging.INFO)
    logging.raiseExceptions = False


class LineFault:
    """Deliver an asynchronous interrupt at the n-th line of library code executed by the current operation."""

    def __init__(self, fault):
        self.left = fault["n"]
        self.fault = fault
        self.lines = 0

    def _local(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            self.left -= 1
            if self.left == 0:
                key = f"line:{self.fault['kind']}"
                W.fired[key] = W.fired.get(key, 0) + 1
                W.fired_now.append(key)
                sys.settrace(None)
                W.raise_fault(self.fault)
        return self._local

    def _global(self, frame, event, arg):
        if _in_lib(frame.f_code.co_filename):
            return self._local
        return None

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


_libcache = {}


def _in_lib(fn):
    r = _libcache.get(fn)
    if r is None:
        r = _libcache[fn] = ("dliswriter" + os.sep) in fn and "/dst/" not in fn
    return r


def sha(b):
    return hashlib.sha256(b).hexdigest()[:16]
