"""joblib backends driven by a seeded single-threaded event loop.

`Parallel(...)` in pointpats runs unchanged; only the backend behind it and the
clock it sleeps on are replaced. Process workers are real forked interpreters
stepped one request at a time, so everything a fork clones (global generators,
module state) is cloned for real, while the loop alone decides which worker
takes which task, how long it takes, when its result is delivered and whether
it dies. Thread workers are real threads that only run when the loop grants
them a slice of pointpats lines.
"""

import os
import pickle
import random as pyrandom
import signal
import sys
import threading
import types

import joblib.parallel as jp
import numpy as np
from joblib._parallel_backends import (
    FallbackToBackend,
    ParallelBackendBase,
    SequentialBackend,
)
import cloudpickle

from . import seams


class WorkerLost(RuntimeError):
    """Stands for loky's TerminatedWorkerError / BrokenProcessPool."""


class InjectedTaskError(RuntimeError):
    pass


def inner_error(k):
    """What a failing system call, allocation or library may raise, by line number."""
    return (InjectedTaskError, MemoryError, OSError, FloatingPointError, InjectedTaskError, MemoryError,
            ValueError)[k % 7]("injected inside the task")


class Plan:
    """Schedule and fault plan of every Parallel call in a run."""

    def __init__(self):
        self.reset({})

    def reset(self, d):
        self.seed = d.get("seed", 0)
        self.start = d.get("start", "fork")  # fork: clone state; spawn: fresh state
        self.batch = d.get("batch", 1)
        # [kind, nth task started] or ["line", nth, k, error]: fail at the task's
        # k-th line; for negative k at its |k|-th line outside the point generators
        self.faults = list(d.get("faults", []))
        self.cpus = d.get("cpus", 4)
        self.slow = d.get("slow", 0.0)
        self.r = pyrandom.Random(self.seed)
        self.started = 0
        self.lines = []
        self.pool = None
        self.stats = {
            "pools": 0,
            "tasks": 0,
            "calls": 0,
            "out_of_order": 0,
            "sim_time": 0.0,
            "max_workers": 0,
        }
        self.order = []  # (task, worker) in the order results were delivered
        self.fired = {}
        self.next_vpid = 1


PLAN = Plan()


class Future:
    def __init__(self):
        self.state, self.val = None, None

    def result(self, timeout=None):
        if self.state == "err":
            raise self.val
        return self.val

    get = result

    def done(self):
        return self.state is not None

    def cancel(self):
        return False


class ProcWorker:
    """A forked interpreter that runs one pickled task per request."""

    def __init__(self, idx, plan):
        self.vpid = plan.next_vpid
        plan.next_vpid += 1
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                self._child(r1, w2, plan)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w = os.fdopen(w1, "wb")
        self.r = os.fdopen(r2, "rb")
        self.dead = False

    def _child(self, rfd, wfd, plan):
        sys.settrace(None)
        r, w = os.fdopen(rfd, "rb"), os.fdopen(wfd, "wb")
        seams.ENTROPY.reset(seams.ENTROPY.seed, vpid=self.vpid)
        seams._vpid[0] = 10_000 + self.vpid
        if plan.start == "spawn":
            import random

            np.random.seed(seams.ENTROPY.randbits(32))
            random.seed(seams.ENTROPY.randbits(64))
        PLAN.pool = None
        while True:
            try:
                inject, blob = pickle.load(r)
            except EOFError:
                return
            lc = None
            try:
                if inject == "task_error":
                    raise InjectedTaskError("injected into the task")
                if inject == "memory":
                    raise MemoryError("injected into the task")
                if isinstance(inject, list):
                    k, e = inject if len(inject) > 1 else (inject[0], inject[0])
                    lc = seams.LineCounter(at=abs(k), exc=inner_error(e), skip=("random.py",) if k < 0 else ())
                    with lc:
                        val = pickle.loads(blob)()
                    out = ("ok", val, lc.fired)
                else:
                    out = ("ok", pickle.loads(blob)(), None)
            except BaseException as e:  # noqa: BLE001
                out = ("err", e, lc and lc.fired)
            try:
                data = cloudpickle.dumps(out)
            except BaseException as e:  # noqa: BLE001
                data = cloudpickle.dumps(("err", RuntimeError(f"unpicklable: {e!r}"), None))
            pickle.dump(data, w)
            w.flush()

    def run(self, inject, blob):
        pickle.dump((inject, blob), self.w)
        self.w.flush()
        try:
            return pickle.loads(pickle.load(self.r))
        except EOFError:
            raise seams.HarnessError("simulated worker vanished") from None

    def kill(self):
        if not self.dead:
            self.dead = True
            self.w.close()
            self.r.close()
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)


class ThreadWorker:
    """A thread that advances only while the loop grants it a slice."""

    def __init__(self, idx, plan):
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.slice = 0
        self.task = None
        self.res = None
        self.t = threading.Thread(target=self._loop, daemon=True)
        self.t.start()

    def _trace(self, frame, event, arg):
        def local(frame, event, arg):
            if event == "line":
                self.slice -= 1
                if self.slice <= 0:
                    self.back.release()
                    self.go.acquire()
            return local

        return local if seams._is_pkg(frame.f_code) else None

    def _loop(self):
        while True:
            self.go.acquire()
            if self.task is None:
                return
            inject, func = self.task
            sys.settrace(self._trace)
            try:
                if inject == "task_error":
                    raise InjectedTaskError("injected into the task")
                if inject == "memory":
                    raise MemoryError("injected into the task")
                res = ("ok", func())
            except BaseException as e:  # noqa: BLE001
                res = ("err", e)
            sys.settrace(None)
            self.task = None
            self.res = res
            self.back.release()

    def grant(self, n):
        self.slice = n
        self.go.release()
        if not self.back.acquire(timeout=120):
            raise seams.HarnessError("thread worker stalled")
        return self.res is not None

    def kill(self):
        pass


class SimPool:
    def __init__(self, n, threads, plan):
        self.n, self.threads, self.plan = n, threads, plan
        self.queue = []
        self.workers = []  # lazily created
        self.idle = []
        self.running = []  # [finish_time, seqno, worker, future, callback, outcome]
        self.broken = None
        self.seq = 0
        self.submitted = 0
        plan.stats["pools"] += 1
        plan.stats["max_workers"] = max(plan.stats["max_workers"], n)

    def submit(self, func, callback):
        f = Future()
        f.no = self.submitted
        self.submitted += 1
        blob = func if self.threads else cloudpickle.dumps(func)
        self.queue.append((f, blob, callback))
        if self.broken:
            self._fail_all()
        return f

    def _fail_all(self):
        todo = [(f, cb) for f, _b, cb in self.queue] + [
            (t[3], t[4]) for t in self.running
        ]
        self.queue, self.running = [], []
        for f, cb in todo:
            f.state, f.val = "err", WorkerLost(self.broken)
            if cb:
                cb(f)

    def step(self):
        """One event. Returns False when there is nothing to do."""
        p = self.plan
        choices = []
        if self.queue and (self.idle or len(self.workers) < self.n):
            choices.append("start")
        if self.running:
            choices.append("finish")
        if not choices:
            return False
        what = p.r.choice(choices)
        if what == "start":
            # workers may be created late: a straggler that forks after others ran
            if self.idle and (len(self.workers) >= self.n or p.r.random() < 0.5):
                w = self.idle.pop(p.r.randrange(len(self.idle)))
            else:
                cls = ThreadWorker if self.threads else ProcWorker
                w = cls(len(self.workers), p)
                self.workers.append(w)
            f, blob, cb = self.queue.pop(0)
            p.started += 1
            p.stats["tasks"] += 1
            inject = None
            for k, nth, *rest in p.faults:
                if nth == p.started and (rest or k != "line"):
                    if rest and self.threads:
                        continue
                    inject = rest if rest else k
                    if not rest:
                        p.fired[k] = p.fired.get(k, 0) + 1
            dur = p.r.expovariate(1.0) * (20.0 if p.r.random() < p.slow else 1.0)
            if inject in ("crash", "crash_after"):
                self.broken = "a worker process terminated unexpectedly"
                if inject == "crash_after" and not self.threads:
                    w.run(None, blob)
                self.running.append([0, 0, w, f, cb, None])
                self._fail_all()
                return True
            if self.threads:
                w.res, w.task = None, (inject, blob)
                out = None
            else:
                *out, hit = w.run(inject, blob)
                if hit:
                    p.fired["line"] = p.fired.get("line", 0) + 1
                    p.lines.append(tuple(hit))
            self.seq += 1
            self.running.append([seams.CLOCK.now + dur, self.seq, w, f, cb, out])
            return True
        if self.threads:
            i = p.r.randrange(len(self.running))
            t = self.running[i]
            seams.CLOCK.advance(0.001)
            p.stats["sim_time"] += 0.001
            if not t[2].grant(1 + int(p.r.expovariate(1 / 8.0))):
                return True
            t[5] = t[2].res
        else:
            t = min(self.running)[:]
            dt = max(0.0, t[0] - seams.CLOCK.now)
            seams.CLOCK.advance(dt)
            p.stats["sim_time"] += dt
            i = next(k for k, x in enumerate(self.running) if x[1] == t[1])
        self.running.pop(i)
        _, _, w, f, cb, out = t
        self.idle.append(w)
        if f.no < max((x for x, _ in p.order), default=-1):
            p.stats["out_of_order"] += 1
        p.order.append((f.no, self.workers.index(w)))
        f.state, f.val = out
        if cb:
            cb(f)
        return True

    def close(self):
        for w in self.workers:
            w.kill()
        self.workers, self.idle, self.queue, self.running = [], [], [], []


class SimBackend(ParallelBackendBase):
    supports_retrieve_callback = True
    supports_inner_max_num_threads = True
    threads = False

    def effective_n_jobs(self, n_jobs):
        if n_jobs == 0:
            raise ValueError("n_jobs == 0 in Parallel has no meaning")
        if n_jobs is None:
            return 1
        if n_jobs < 0:
            return max(PLAN.cpus + 1 + n_jobs, 1)
        return n_jobs

    def configure(self, n_jobs=1, parallel=None, prefer=None, require=None, **kw):
        n = self.effective_n_jobs(n_jobs)
        if n == 1:
            raise FallbackToBackend(SequentialBackend(nesting_level=self.nesting_level))
        self.parallel = parallel
        self.pool = SimPool(min(n, 8), self.threads, PLAN)
        PLAN.pool = self.pool
        PLAN.stats["calls"] += 1
        return n

    def compute_batch_size(self):
        return PLAN.batch

    def submit(self, func, callback=None):
        return self.pool.submit(func, callback)

    apply_async = submit

    def retrieve_result_callback(self, out):
        return out.result()

    def terminate(self):
        if getattr(self, "pool", None):
            self.pool.close()

    def abort_everything(self, ensure_ready=True):
        self.pool.close()
        if ensure_ready:
            self.pool = SimPool(self.pool.n, self.threads, PLAN)
            PLAN.pool = self.pool

    def get_nested_backend(self):
        return SequentialBackend(nesting_level=1), None


class SimProcessBackend(SimBackend):
    pass


class SimThreadBackend(SimBackend):
    uses_threads = True
    supports_sharedmem = True
    threads = True


def _sleep(dt):
    pool = PLAN.pool
    if pool is None:
        raise seams.HarnessError("joblib slept without a simulated pool")
    if not pool.step():
        raise seams.HarnessError("joblib waits and no simulated task can run")


def install():
    for name in list(jp.BACKENDS):
        if name in ("loky", "multiprocessing"):
            jp.BACKENDS[name] = SimProcessBackend
        elif name == "threading":
            jp.BACKENDS[name] = SimThreadBackend
    fake = types.SimpleNamespace(sleep=_sleep, time=lambda: seams.CLOCK.now)
    jp.time = fake
