"""Seams: every source of nondeterminism the properties depend on.

Nothing in /repo is changed; each seam is a Python-level attachment point that
numpy, joblib, the interpreter or the import system already offers:

* operating system entropy   numpy.random.bit_generator.randbits, os.urandom
* clocks                     time.time & co.
* process identity           os.getpid
* the machine                os.cpu_count, os.sched_getaffinity, os.getloadavg, socket.gethostname
* legacy global generator    numpy.random.seed / set_state / permutation / shuffle
* a caller's Generator       SimBitGen, a BitGenerator whose bits we choose
* worker pools               joblib.parallel.BACKENDS, joblib.parallel.time
* thread scheduling          sys.settrace line events in pointpats frames
* asynchronous interruption  the same line events, raising
* files                      builtins.open
* optional packages          builtins.__import__
"""

import builtins
import ctypes
import errno
import hashlib
import io
import os
import random as pyrandom
import sys
import threading
import time as _time

import numpy as np

REPO = os.environ.get("DST_REPO", "/repo")
PKG = os.path.join(REPO, "pointpats") + os.sep


class HarnessError(Exception):
    """The simulator itself failed; never reported as a violation."""


# --------------------------------------------------------------------------
# entropy, clocks, identity
# --------------------------------------------------------------------------
class Entropy:
    """Simulated OS entropy: never repeats, fully determined by (seed, vpid)."""

    def __init__(self):
        self.reset(0)

    def reset(self, seed, vpid=0):
        self.seed, self.vpid, self.n = seed, vpid, 0

    def bytes(self, k):
        out = b""
        while len(out) < k:
            self.n += 1
            out += hashlib.sha256(
                f"entropy:{self.seed}:{self.vpid}:{self.n}".encode()
            ).digest()
        return out[:k]

    def randbits(self, k):
        return int.from_bytes(self.bytes((k + 7) // 8), "big") >> (-k % 8)


ENTROPY = Entropy()


class Clock:
    """Virtual clock. `tick` is how far every reading advances it (0 = stalled)."""

    def __init__(self):
        self.reset()

    def reset(self, start=1_700_000_000.0, tick=0.0):
        self.now, self.tick, self.reads, self.elapsed = start, tick, 0, 0.0

    def read(self):
        self.reads += 1
        self.now += self.tick
        return self.now

    def advance(self, dt):
        self.now += dt
        self.elapsed += dt


CLOCK = Clock()
REAL_TIME = _time.monotonic
REAL_GETPID = os.getpid
_vpid = [None]


class Machine:
    """What a program can learn about the machine it runs on."""

    def __init__(self):
        self.cores, self.host = 8, "sim"

    def install(self):
        import multiprocessing
        import platform
        import socket

        os.cpu_count = lambda: self.cores
        os.sched_getaffinity = lambda pid=0: set(range(self.cores))
        os.getloadavg = lambda: (0.5 * self.cores,) * 3
        if hasattr(os, "process_cpu_count"):
            os.process_cpu_count = os.cpu_count
        multiprocessing.cpu_count = os.cpu_count
        platform.node = socket.gethostname = lambda: self.host


MACHINE = Machine()
REAL_CPUS = os.cpu_count() or 4


def install_base():
    """Patch entropy, clocks and pids. Called once, before pointpats is imported."""
    import secrets

    from numpy.random import bit_generator

    if not hasattr(bit_generator, "randbits"):
        raise HarnessError("numpy's entropy seam moved")
    bit_generator.randbits = ENTROPY.randbits
    secrets.randbits = ENTROPY.randbits
    os.urandom = ENTROPY.bytes


def install_clock():
    for name, scale in (
        ("time", None),
        ("monotonic", None),
        ("perf_counter", None),
        ("process_time", None),
        ("time_ns", 1e9),
        ("monotonic_ns", 1e9),
        ("perf_counter_ns", 1e9),
    ):
        if scale:
            setattr(_time, name, lambda: int(CLOCK.read() * 1e9))
        else:
            setattr(_time, name, CLOCK.read)
    MACHINE.install()
    os.getpid = lambda: 4242 if _vpid[0] is None else _vpid[0]


def reset(seed, global_seed=0, tick=0.0):
    """Put every source of randomness in a state decided by the plan."""
    ENTROPY.reset(seed)
    CLOCK.reset(tick=tick)
    np.random.seed(global_seed & 0xFFFFFFFF)
    pyrandom.seed(global_seed)


def global_state():
    """Everything ambient that a library call must leave alone."""
    import warnings

    st = np.random.get_state()
    return {
        "np.random": hashlib.sha1(
            repr((st[0], st[1].tobytes(), st[2:])).encode()
        ).hexdigest(),
        "random": hashlib.sha1(repr(pyrandom.getstate()).encode()).hexdigest(),
        "errstate": repr(sorted(np.geterr().items())),
        "printoptions": repr(sorted(np.get_printoptions().items(), key=str)),
        "warnings.filters": repr([f[0:1] + (str(f[1]),) + f[2:3] for f in warnings.filters]),
        "cwd": os.getcwd(),
        **process_state(),
    }


def process_state():
    """Settings of the process and of the libraries a caller shares with pointpats."""
    import decimal
    import gc
    import locale
    import logging
    import signal

    import matplotlib
    import pandas
    import sklearn

    def sha(x):
        return hashlib.sha1(repr(x).encode()).hexdigest()

    # not .items(): that would resolve the plotting backend
    rc = {k: v for k, v in dict.items(matplotlib.rcParams) if k not in ("backend", "backend_fallback")}
    mask = os.umask(0o22)
    os.umask(mask)
    return {
        "interactive plotting": repr(rc.pop("interactive", None)),
        "rcParams": sha(sorted(rc.items(), key=lambda kv: kv[0])),
        "pandas options": sha(pandas._config.config._global_config),
        "scikit-learn configuration": repr(sorted(sklearn.get_config().items(), key=str)),
        "environment variables": sha(sorted(os.environ.items())),
        "garbage collection": repr((gc.isenabled(), gc.get_threshold())),
        "recursion limit": repr(sys.getrecursionlimit()),
        "locale": repr(locale.setlocale(locale.LC_ALL)),
        "decimal context": repr((decimal.getcontext().prec, decimal.getcontext().rounding)),
        "logging": repr((logging.root.level, logging.root.manager.disable, len(logging.root.handlers))),
        "numpy error callback": repr(np.geterrcall() is None),
        "interrupt handler": repr(signal.getsignal(signal.SIGINT) is signal.default_int_handler),
        "umask": repr(mask),
        "module search path": sha(sys.path),
    }


# --------------------------------------------------------------------------
# adversarial random streams
# --------------------------------------------------------------------------
_U64 = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p)
_U32 = ctypes.CFUNCTYPE(ctypes.c_uint32, ctypes.c_void_p)
_DBL = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p)


class _bitgen_t(ctypes.Structure):
    _fields_ = [
        ("state", ctypes.c_void_p),
        ("next_uint64", _U64),
        ("next_uint32", _U32),
        ("next_double", _DBL),
        ("next_raw", _U64),
    ]


class StreamExhausted(BaseException):
    """More draws than the budget: the caller made no progress."""


class SimBitGen:
    """A bit generator whose output is decided by the simulator.

    Every value it delivers is one a real uniform generator can deliver; the
    stream is only unlucky. Deviations are drawn from the plan's seed:

    extreme   0.0 / the largest double below 1
    repeat    the previous value again
    stuck     one value for a long burst
    tiny      values within 2**-40 of an edge
    low/high  bursts confined to one end (starves a rejection sampler)
    """

    KINDS = ("extreme", "repeat", "stuck", "tiny", "low", "high")

    def __init__(self, seed, rates, burst=12):
        self.r = pyrandom.Random(seed)
        self.rates = {k: v for k, v in rates.items() if v}
        self.burst = burst
        self.n = 0
        self.fired = {}
        self.left = 0
        self.mode = None
        self.last = 0
        self.lock = threading.RLock()
        self._cb = (
            _U64(lambda _s: self._u64()),
            _U32(lambda _s: self._u64() >> 32),
            _DBL(lambda _s: (self._u64() >> 11) * (1.0 / 9007199254740992.0)),
            _U64(lambda _s: self._u64()),
        )
        self._struct = _bitgen_t(None, *self._cb)
        new = ctypes.pythonapi.PyCapsule_New
        new.restype = ctypes.py_object
        new.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        self._name = ctypes.c_char_p(b"BitGenerator")
        self.capsule = new(ctypes.addressof(self._struct), self._name, None)

    def _u64(self):
        self.n += 1
        if self.left > 0:
            self.left -= 1
        else:
            self.mode = None
            x = self.r.random()
            for k, rate in self.rates.items():
                if x < rate:
                    self.mode = k
                    self.fired[k] = self.fired.get(k, 0) + 1
                    self.left = (
                        self.r.randrange(1, self.burst)
                        if k in ("stuck", "low", "high")
                        else 0
                    )
                    self.stuck_at = self.last
                    break
                x -= rate
        m, r = self.mode, self.r
        if m is None:
            v = r.getrandbits(64)
        elif m == "extreme":
            v = r.choice((0, 2**64 - 1, 2**63))
        elif m in ("repeat", "stuck"):
            v = self.last
        elif m == "tiny":
            v = r.getrandbits(24)
            if r.random() < 0.5:
                v = 2**64 - 1 - v
        elif m == "low":
            v = r.getrandbits(60)
        else:
            v = 2**64 - 1 - r.getrandbits(60)
        self.last = v
        return v

    def generator(self):
        return np.random.Generator(self)


# --------------------------------------------------------------------------
# scripted permutations on the legacy global stream
# --------------------------------------------------------------------------
class PermScript:
    """Decides what numpy.random.permutation / shuffle do.

    mode None: the real functions. Otherwise `fn(k, n)` returns the k-th
    permutation of range(n) to apply.
    """

    def __init__(self):
        self.fn = None
        self.k = 0
        self.calls = 0
        self.real_perm = np.random.permutation
        self.real_shuffle = np.random.shuffle

    def install(self):
        np.random.permutation = self.permutation
        np.random.shuffle = self.shuffle

    def script(self, fn):
        self.fn, self.k = fn, 0

    def _next(self, n):
        p = np.asarray(self.fn(self.k, n))
        self.k += 1
        return p

    def permutation(self, x):
        self.calls += 1
        if self.fn is None:
            return self.real_perm(x)
        if isinstance(x, (int, np.integer)):
            return self._next(int(x))
        a = np.asarray(x)
        return a[self._next(len(a))]

    def shuffle(self, x):
        self.calls += 1
        if self.fn is None:
            return self.real_shuffle(x)
        p = self._next(len(x))
        if isinstance(x, np.ndarray):
            x[...] = x[p].copy()
        else:
            x[:] = [x[i] for i in p]


PERM = PermScript()


# --------------------------------------------------------------------------
# line-level scheduling and interruption of pointpats code
# --------------------------------------------------------------------------
def _is_pkg(code, cache={}):
    fn = code.co_filename
    r = cache.get(fn)
    if r is None:
        r = cache[fn] = fn.startswith(PKG)
    return r


_with_exits = {}


def _leaving_with(frame):
    """Is the next instruction the start of a with statement's own exit?

    CPython reports a line event there, but delivers no signal between the end
    of the block and __exit__; raising at it would skip the exit altogether."""
    code = frame.f_code
    offs = _with_exits.get(code)
    if offs is None:
        import dis

        ins = [i for i in dis.get_instructions(code) if i.opname not in ("CACHE", "EXTENDED_ARG", "NOP")]
        offs = set()
        for a, b, c, d in zip(ins, ins[1:], ins[2:], ins[3:]):
            if all(x.opname == "LOAD_CONST" and x.argval is None for x in (a, b, c)) and d.opname.startswith("CALL"):
                offs.add(a.offset)
        for a in ins:
            if a.opname in ("PUSH_EXC_INFO", "WITH_EXCEPT_START"):
                offs.add(a.offset)
        _with_exits[code] = offs
    return frame.f_lasti in offs


class LineCounter:
    """Counts pointpats line events in this thread; optionally raises at one."""

    def __init__(self, at=None, exc=None, limit=None, skip=()):
        self.skip = skip  # source files whose lines do not count
        self.n, self.at, self.exc, self.limit = 0, at, exc, limit
        self.fired = None
        self.seen = set()
        self.firsts = []  # the step at which each source line first runs

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            here = (frame.f_code, frame.f_lineno)
            if here not in self.seen:
                self.seen.add(here)
                self.firsts.append(self.n)
            if self.at is not None and self.n >= self.at and not self.fired and not _leaving_with(frame):
                self.fired = (
                    os.path.basename(frame.f_code.co_filename),
                    frame.f_code.co_name,
                )
                raise self.exc
            if self.limit is not None and self.n > self.limit:
                raise StreamExhausted(f"no result within {self.limit} steps")
        return self._local

    def _global(self, frame, event, arg):
        if _is_pkg(frame.f_code) and not frame.f_code.co_filename.endswith(self.skip or "\0"):
            return self._local
        return None

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


class Interleaver:
    """Runs callables in real threads, one at a time, switching where it decides.

    Every pointpats line event is a scheduling point. `switches` is an explicit
    list of [step, thread] (replay) or None, in which case a seeded policy picks
    them and records them in `trace`.
    """

    def __init__(self, seed, p=0.05, switches=None, interrupts=(), limit=3_000_000):
        self.r = pyrandom.Random(seed)
        self.p = p
        self.replay = None if switches is None else {s: t for s, t in switches}
        self.trace = []
        self.step = 0
        self.limit = limit
        self.interrupts = {(t, k): e for t, k, e in interrupts}
        self.fired = []
        self.error = None
        self.waiting = set()  # threads that found their lock taken since the last release

    def run(self, fns, timeout=600):
        n = len(fns)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.main = threading.Semaphore(0)
        self.alive = list(range(n))
        self.lines = [0] * n
        self.out = [None] * n
        ts = [
            threading.Thread(target=self._body, args=(i, f), daemon=True)
            for i, f in enumerate(fns)
        ]
        for t in ts:
            t.start()
        first = self._pick(None)
        self.sems[first].release()
        if not self.main.acquire(timeout=timeout):
            raise HarnessError("interleaver stalled")
        for t in ts:
            t.join(timeout=30)
        if self.error:
            raise self.error
        return self.out

    def _pick(self, cur):
        if self.replay is not None:
            t = self.replay.get(self.step)
            if t is not None and t in self.alive:
                if t != cur:
                    self.trace.append([self.step, t])
                return t
            if cur in self.alive:
                return cur
            t = self.alive[0]
            return t
        if cur is None or cur not in self.alive or self.r.random() < self.p:
            t = self.r.choice(self.alive)
            if t != cur:
                self.trace.append([self.step, t])
            return t
        return cur

    def _body(self, i, fn):
        self.sems[i].acquire()
        sys.settrace(self._tracer(i))
        try:
            self.out[i] = ("ok", fn())
        except BaseException as e:  # noqa: BLE001
            self.out[i] = ("exc", e)
        finally:
            sys.settrace(None)
            self.alive.remove(i)
            self.step += 1
            if self.alive:
                self.sems[self._pick(None)].release()
            else:
                self.main.release()

    def _tracer(self, i):
        def local(frame, event, arg):
            if event == "line":
                self.lines[i] += 1
                e = self.interrupts.get((i, self.lines[i]))
                if e is not None and _leaving_with(frame):
                    self.interrupts[i, self.lines[i] + 1] = e
                    e = None
                self.yield_point(i)
                if e is not None:
                    self.fired.append((i, frame.f_code.co_name, e.__name__))
                    raise e("injected")
            return local

        def glob(frame, event, arg):
            return local if _is_pkg(frame.f_code) else None

        return glob

    def yield_point(self, i, must=False):
        self.step += 1
        if self.step > self.limit:
            raise StreamExhausted("no progress within the step limit")
        if must and len(self.alive) > 1:
            nxt = self.r.choice([t for t in self.alive if t != i])
        else:
            nxt = self._pick(i)
        if nxt != i:
            self.sems[nxt].release()
            self.sems[i].acquire()


CURRENT = [None]  # the Interleaver in charge, for locks created by pointpats


class SimLock:
    """Stands in for a threading.Lock/RLock that pointpats code creates: waiting
    for it hands the turn to another simulated thread instead of blocking."""

    def __init__(self, real):
        self._l = real
        self._owner, self._depth = None, 0

    def _took(self):
        self._owner = threading.get_ident()
        self._depth += 1
        return True

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self._l.acquire(False):
            return self._took()
        if not blocking:
            return False
        il, i = CURRENT[0], getattr(threading.current_thread(), "_dst_i", None)
        if il is None or i is None:
            if timeout < 0 and (self._owner == me or self._owner not in sys._current_frames()):
                raise StreamExhausted("waits for a lock that nobody is left to release")
            return self._l.acquire(True, timeout) and self._took()
        if timeout >= 0:  # simulated time: others move until nobody can
            for _ in range(2000):
                il.yield_point(i, must=True)
                if self._l.acquire(False):
                    return self._took()
            return False
        while not self._l.acquire(False):
            il.waiting.add(i)
            if il.waiting.issuperset(il.alive):
                il.error = StreamExhausted("deadlock: every thread waits for a lock")
                raise StreamExhausted("deadlock")
            il.yield_point(i, must=True)
        il.waiting.discard(i)
        return self._took()

    def release(self):
        self._depth -= 1
        if self._depth <= 0:
            self._owner = None
        if CURRENT[0] is not None:
            CURRENT[0].waiting.clear()
        self._l.release()

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


def install_locks():
    real_lock, real_rlock = threading.Lock, threading.RLock

    def factory(real):
        def make(*a, **k):
            f = sys._getframe(1)
            if _is_pkg(f.f_code):
                return SimLock(real(*a, **k))
            return real(*a, **k)

        return make

    threading.Lock = factory(real_lock)
    threading.RLock = factory(real_rlock)


def interleave(fns, **kw):
    il = Interleaver(**kw)

    def wrap(i, f):
        def g():
            threading.current_thread()._dst_i = i
            return f()

        return g

    CURRENT[0] = il
    try:
        out = il.run([wrap(i, f) for i, f in enumerate(fns)])
    finally:
        CURRENT[0] = None
    return out, il


# --------------------------------------------------------------------------
# optional packages
# --------------------------------------------------------------------------
class ImportFaults:
    """Makes `import X` fail when it is executed by a pointpats module."""

    def __init__(self):
        self.real = builtins.__import__
        self.rules = {}
        self.fired = {}
        self.count = {}

    def install(self):
        builtins.__import__ = self._imp

    def uninstall(self):
        builtins.__import__ = self.real

    def _imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if self.rules and globals and level == 0:
            who = globals.get("__name__", "")
            root = name.split(".")[0]
            rule = self.rules.get(root)
            if rule and (who == "pointpats" or who.startswith("pointpats.")):
                k = self.count[root] = self.count.get(root, 0) + 1
                if rule["when"] == "always" or k in rule["when"]:
                    self.fired[root] = self.fired.get(root, 0) + 1
                    if rule["exc"] == "ModuleNotFoundError":
                        raise ModuleNotFoundError(f"No module named '{root}'", name=root)
                    raise ImportError(f"{root}: cannot open shared object file")
        return self.real(name, globals, locals, fromlist, level)


# --------------------------------------------------------------------------
# files
# --------------------------------------------------------------------------
class SimDisk:
    """The disk below a scratch root: every raw open, read, seek and close of a
    file there is one numbered operation that may fail, be short, or find the
    file cut. Python's own buffering runs above it, with a buffer size the plan
    chooses (a small one makes a small file behave like a large one)."""

    ERR = ("EIO", "EACCES", "EMFILE", "ENOENT", "ESTALE", "EINTR")

    def __init__(self, root, plan=None, bufsize=io.DEFAULT_BUFFER_SIZE):
        self.root = os.path.realpath(root) + os.sep
        self.real = builtins.open
        self.handles, self.keep, self.fresh = [], [], None
        self.ops = 0
        self.plan = {int(k): v for k, v in (plan or {}).items()}
        self.bufsize = bufsize
        self.fired = {}
        self.log = []
        self.shorten = 0  # every read delivers at most this many bytes, if set

    def __enter__(self):
        builtins.open = self._open
        return self

    def __exit__(self, *a):
        builtins.open = self.real

    def tick(self, what, path):
        self.ops += 1
        self.log.append((what, os.path.splitext(path)[1]))
        f = self.plan.get(self.ops)
        if not f:
            return None
        kind = f[0]
        if kind == "cut":
            with self.real(os.path.join(self.root, f[1]), "r+b") as g:
                size = os.fstat(g.fileno()).st_size
                g.truncate(int(size * f[2]))
        elif kind == "short":
            if what != "read":
                return None
        elif what == "read" or what == "open" or what == "close" and kind == "EIO":
            self.fired[kind] = self.fired.get(kind, 0) + 1
            code = getattr(errno, kind)
            raise OSError(code, os.strerror(code), path)
        else:
            return None
        self.fired[kind] = self.fired.get(kind, 0) + 1
        return kind

    def _open(self, file, mode="r", buffering=-1, *a, **k):
        try:
            p = os.path.realpath(os.fspath(file))
        except TypeError:
            return self.real(file, mode, buffering, *a, **k)
        if not isinstance(p, str) or not p.startswith(self.root) or set(mode) & set("wax+"):
            return self.real(file, mode, buffering, *a, **k)
        self.tick("open", p)
        raw = SimRaw(p, self)
        f = io.BufferedReader(raw, self.bufsize)
        self.handles.append(raw)
        self.keep.append(f)  # so that only an explicit close counts as one
        return f if "b" in mode else io.TextIOWrapper(f, **k)

    def constructor(self, cls):
        """Notes which handles a reader that failed to construct has opened."""
        real = cls.__init__

        def init(this, *a, **k):
            first = len(self.handles)
            try:
                real(this, *a, **k)
            except BaseException:
                for h in self.handles[first:]:
                    h.lost = True
                raise
            self.fresh = (self.ops, self.handles[first:])

        cls.__init__ = init
        return lambda: setattr(cls, "__init__", real)

    def excuse_fresh(self):
        """An interruption right after a constructor finds its reader in nobody's hands."""
        if self.fresh and all(w == "close" for w, _ in self.log[self.fresh[0]:]):
            for h in self.fresh[1]:
                h.lost = True

    def open_handles(self):
        return [h for h in self.handles if not h.done and not h.lost]


class SimRaw(io.RawIOBase):
    def __init__(self, path, disk):
        self.done = False
        self.f = disk.real(path, "rb", buffering=0)
        self.path, self.disk = path, disk
        self.lost = False  # opened by a constructor that failed: nobody holds it

    def readable(self):
        return True

    def seekable(self):
        return True

    def readinto(self, b):
        r = self.disk.tick("read", self.path)
        n = len(b)
        if r == "short":
            n = max(1, n // 3)
        if self.disk.shorten:
            n = min(n, self.disk.shorten)
        data = self.f.read(n)
        b[: len(data)] = data
        return len(data)

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def close(self):
        if self.done:
            return
        self.done = True
        self.f.close()
        super().close()
        self.disk.tick("close", self.path)
