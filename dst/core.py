"""Runner: seeded plans, isolated runs, minimisation, replay, evidence."""

import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
_real_monotonic = time.monotonic


class Violation(Exception):
    def __init__(self, kind, detail=""):
        super().__init__(kind, detail)
        self.kind, self.detail = kind, detail


class Ctx:
    """What a run reports: probes, fired faults, a state signature, violations."""

    def __init__(self):
        self.probes = {}
        self.faults = {}
        self.h = hashlib.sha1()
        self.events = 0
        self.sim_time = 0.0
        self.schedule = None
        self.nontrivial = False
        self.extra = {}

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def log(self, *what):
        self.events += 1
        self.h.update(repr(what).encode())
        if os.environ.get("DST_TRACE"):
            print("EVENT", *what, flush=True)

    def fail(self, kind, detail=""):
        raise Violation(kind, str(detail)[:1500])

    def check(self, cond, kind, detail=""):
        if not cond:
            self.fail(kind, detail() if callable(detail) else detail)

    def judge(self, fn, kind="result does not have its documented form"):
        """Run oracle code on a library result; a result the oracle cannot even
        read is a violation, not a harness error."""
        try:
            return fn()
        except (Violation, MemoryError):
            raise
        except Exception as e:  # noqa: BLE001
            self.fail(kind, f"{e!r} at {traceback.format_exc().strip().splitlines()[-2].strip()}")


def digest(x):
    """Bit-exact digest of a result (arrays, frames, nested containers)."""
    h = hashlib.sha1()
    _dig(h, x)
    return h.hexdigest()


def _dig(h, x):
    import numpy as np

    if isinstance(x, np.ndarray):
        h.update(f"nd{x.shape}{x.dtype}".encode())
        if x.dtype == object:
            for v in x.ravel():
                _dig(h, v)
        else:
            h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, (float, np.floating)):
        h.update(b"f" + struct.pack("<d", float(x)))
    elif isinstance(x, (bool, np.bool_)):
        h.update(b"b1" if x else b"b0")
    elif isinstance(x, (int, np.integer)):
        h.update(b"i%d" % int(x))
    elif isinstance(x, (str, bytes, type(None))):
        h.update(repr(x).encode())
    elif isinstance(x, dict):
        h.update(b"{")
        for k in x:
            _dig(h, k)
            _dig(h, x[k])
    elif isinstance(x, (set, frozenset)):
        h.update(b"s")
        for v in sorted(digest(v) for v in x):
            h.update(v.encode())
    elif isinstance(x, (list, tuple)):
        h.update(b"(%d" % len(x))
        for v in x:
            _dig(h, v)
    elif type(x).__module__.startswith("shapely"):
        import shapely

        h.update(shapely.to_wkb(x))
    elif type(x).__module__.split(".")[0] in ("pandas", "geopandas"):
        import pandas as pd

        if isinstance(x, pd.DataFrame):
            h.update(repr(list(x.columns)).encode())
            _dig(h, x.index.to_numpy())
            for c in range(x.shape[1]):
                _dig(h, np.asarray(x.iloc[:, c].to_numpy()))
        else:
            _dig(h, np.asarray(x.to_numpy()))
    elif isinstance(x, BaseException):
        h.update(f"E{type(x).__name__}".encode())
    else:
        h.update(f"{type(x).__name__}:{x!r}".encode())


# --------------------------------------------------------------------------
# isolated execution
# --------------------------------------------------------------------------
def fork_call(fn, timeout):
    """Run fn() in a forked child. Returns ("ok", value) | ("died", why) | ("timeout",)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0)
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException as e:  # noqa: BLE001
                out = ("raise", repr(e), traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        except BaseException:  # noqa: BLE001
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    end = _real_monotonic() + timeout
    ok = True
    while True:
        left = end - _real_monotonic()
        if left <= 0:
            ok = False
            break
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf.append(b)
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    _, st = os.waitpid(pid, 0)
    if not ok:
        return ("timeout",)
    data = b"".join(buf)
    if not data:
        return ("died", f"wait status {st}")
    return pickle.loads(data)


def pristine(fn, timeout=120):
    """Compute fn() in a fork of the current state; raises HarnessError if it
    cannot (baselines for differential oracles)."""
    from . import seams

    out = fork_call(fn, timeout)
    if out[0] != "ok":
        raise seams.HarnessError(f"baseline failed: {out}")
    return out[1]


def execute(prop, plan):
    """One run, in this process. Returns a JSON-able result."""
    from . import seams, simjoblib

    ctx = Ctx()
    res = {"violation": None, "error": None}
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("DST_TRACE"):
        sys.stdout.flush()
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    try:
        seams.install_clock()
        seams.reset(plan.get("seed", 0), plan.get("gseed", 0), plan.get("tick", 0.0))
        simjoblib.PLAN.reset(plan.get("pool", {}))
        prop.run(ctx, plan)
    except Violation as v:
        res["violation"] = {"kind": v.kind, "detail": v.detail}
    except seams.StreamExhausted as e:
        res["violation"] = {"kind": "no progress", "detail": str(e)}
    except (seams.HarnessError, MemoryError, OSError):
        res["error"] = traceback.format_exc()
    except BaseException as e:  # noqa: BLE001
        tb, lib = e.__traceback__, None
        while tb is not None:
            if seams._is_pkg(tb.tb_frame.f_code):
                lib = f"{os.path.basename(tb.tb_frame.f_code.co_filename)}:{tb.tb_frame.f_code.co_name}"
            tb = tb.tb_next
        if lib:
            # every call a run makes outside its own handling is one that must succeed
            res["violation"] = {"kind": "unexpected exception from the library",
                                "detail": f"{e!r} from {lib}"[:1500]}
        else:
            res["error"] = traceback.format_exc()
    pj = simjoblib.PLAN
    for k, n in pj.fired.items():
        ctx.fault("worker:" + k, n)
    ctx.sim_time += pj.stats["sim_time"]
    res.update(
        probes=ctx.probes,
        faults=ctx.faults,
        sig=ctx.h.hexdigest(),
        events=ctx.events,
        sim_time=ctx.sim_time,
        schedule=ctx.schedule,
        nontrivial=ctx.nontrivial,
        extra=ctx.extra,
    )
    return res


RUN_TIMEOUT = float(os.environ.get("DST_RUN_TIMEOUT", "60"))


def isolated(prop, plan, timeout=None):
    timeout = timeout or getattr(prop, "TIMEOUT", RUN_TIMEOUT)
    out = fork_call(lambda: execute(prop, plan), timeout)
    if out[0] == "ok":
        return out[1]
    base = dict(
        violation=None, error=None, probes={}, faults={}, sig="", events=0,
        sim_time=0.0, schedule=None, nontrivial=False, extra={},
    )
    if out[0] == "timeout":
        base["hang"] = True
        return base
    base["error"] = f"run did not report: {out}"
    return base


STEP_LIMIT = 6_000_000


def confirm_hang(prop, plan):
    """A run that hit its wall limit: decide it by counting steps instead.

    The run is repeated under a tracer that counts executed pointpats lines; a
    run that exceeds STEP_LIMIT lines has made no progress within the bound."""

    def go():
        from . import seams

        real_exec = prop.run

        class P:
            @staticmethod
            def run(ctx, plan):
                c = seams.LineCounter(limit=STEP_LIMIT)
                with c:
                    real_exec(ctx, plan)

        return execute(P, plan)

    out = fork_call(go, 240)
    if out[0] == "ok":
        return out[1]
    return {"violation": None, "error": f"run hung and could not be decided: {out}",
            "probes": {}, "faults": {}, "sig": "", "events": 0, "sim_time": 0.0,
            "schedule": None, "nontrivial": False, "extra": {}}


def run_plan(prop, plan):
    r = isolated(prop, plan)
    if r.get("hang"):
        r = confirm_hang(prop, plan)
        r["slow"] = True  # it finished within the step limit: a slow machine, not a verdict
    return r


# --------------------------------------------------------------------------
# zygote
# --------------------------------------------------------------------------
def boot(warm=True):
    """Import everything once, behind the seams."""
    import warnings

    warnings.simplefilter("ignore")
    sys.path.insert(0, REPO)
    from . import seams

    seams.install_base()
    seams.install_locks()
    seams.PERM.install()
    import matplotlib

    matplotlib.use("Agg")
    import numpy  # noqa: F401
    import pointpats

    if not os.path.realpath(pointpats.__file__).startswith(
        os.path.realpath(REPO) + os.sep
    ):
        raise seams.HarnessError(f"imported {pointpats.__file__}")
    from . import simjoblib

    simjoblib.install()
    warnings.simplefilter("ignore")


def load(pid):
    return importlib.import_module(f"dst.props.{pid.lower()}")


def plan_for(prop, pid, seed, i, tier):
    r = random.Random(f"{pid}:{seed}:{i}")
    plan = prop.plan(r, i, tier)
    plan.setdefault("seed", r.getrandbits(48))
    plan.setdefault("gseed", r.getrandbits(31))
    plan["i"] = i
    return plan


def worker(prop, pid, seed, tier, rfd, wfd):
    rd, wr = os.fdopen(rfd, "rb"), os.fdopen(wfd, "wb")
    while True:
        try:
            i = pickle.load(rd)
        except EOFError:
            return
        try:
            plan = plan_for(prop, pid, seed, i, tier)
            t = _real_monotonic()
            res = run_plan(prop, plan)
            res["wall"] = _real_monotonic() - t
            if res["violation"] or res["error"] or i < 3:
                res["plan"] = plan
            pickle.dump((i, res), wr)
        except BaseException:  # noqa: BLE001
            pickle.dump((i, {"violation": None, "error": traceback.format_exc(), "probes": {},
                             "faults": {}, "sig": "", "events": 0, "sim_time": 0.0,
                             "schedule": None, "nontrivial": False, "extra": {}, "wall": 0}), wr)
        wr.flush()


def batch(prop, pid, seed, tier, n, workers, budget, stop_on_violation=True):
    """Run plans 0..n-1 on `workers` processes. Deterministic per index."""
    known = known_findings(pid)
    procs = []
    fds = []
    for _ in range(workers):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        pid_ = os.fork()
        if pid_ == 0:
            try:
                for fd in fds:
                    os.close(fd)
                os.close(w1)
                os.close(r2)
                worker(prop, pid, seed, tier, r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        fds += [w1, r2]
        procs.append((pid_, os.fdopen(w1, "wb"), os.fdopen(r2, "rb")))
    results = {}
    nxt = 0
    busy = {}
    stop_at = n
    t0 = _real_monotonic()

    def feed(p):
        nonlocal nxt
        if nxt < stop_at and _real_monotonic() - t0 < budget:
            pickle.dump(nxt, p[1])
            p[1].flush()
            busy[p[2]] = p
            nxt += 1

    for p in procs:
        feed(p)
    while busy:
        rd, _, _ = select.select(list(busy), [], [], 600)
        if not rd:
            break
        for f in rd:
            p = busy.pop(f)
            try:
                i, res = pickle.load(f)
            except EOFError:
                continue
            results[i] = res
            if res["violation"] and stop_on_violation and not is_known(known, res["violation"]):
                stop_at = min(stop_at, i)
            feed(p)
    for p in procs:
        p[1].close()
    for p in procs:
        try:
            os.kill(p[0], signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(p[0], 0)
    return results


# --------------------------------------------------------------------------
# minimisation
# --------------------------------------------------------------------------
def drops(plan, key, path=()):
    """Plans with parts of the list plan[key] removed: halves, then single items."""
    xs = plan.get(key) or []
    n = len(xs)
    size = n
    while size >= 1:
        for s in range(0, n, size):
            q = json.loads(json.dumps(plan))
            q[key] = xs[:s] + xs[s + size :]
            yield q
        size //= 2


def smaller_ints(plan, key, lo=0):
    v = plan.get(key)
    if isinstance(v, int) and not isinstance(v, bool):
        for c in (lo, v // 2, v - 1):
            if lo <= c < v:
                q = json.loads(json.dumps(plan))
                q[key] = c
                yield q


def minimise(prop, plan, violation, budget=60.0):
    end = _real_monotonic() + budget
    best, tried, improved = plan, 0, True
    shrink = getattr(prop, "shrink", None)
    if shrink is None:
        return best, 0
    while improved and _real_monotonic() < end:
        improved = False
        for cand in shrink(best):
            if _real_monotonic() > end:
                break
            if cand == best:
                continue
            tried += 1
            try:
                r = isolated(prop, cand)
            except BaseException:  # noqa: BLE001
                continue
            v = r["violation"]
            if v and v["kind"] == violation["kind"]:
                best, improved = cand, True
                break
    return best, tried


# --------------------------------------------------------------------------
# commands
# --------------------------------------------------------------------------
def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get("findings", []) if k["property"] == pid]


def is_known(findings, v):
    """A violation is a listed finding only if kind and the identifying text agree."""
    return any(k.get("kind") == v["kind"] and k.get("match", "\0") in v["detail"] for k in findings)


def write_replay(pid, plan, violation, tried):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{pid}-{h}.json")
    with open(path, "w") as f:
        json.dump(
            {"property": pid, "violation": violation, "plan": plan,
             "minimise_attempts": tried}, f, indent=1, sort_keys=True)
    return path


def check(pid, tier, seed, workers):
    t0 = _real_monotonic()
    boot()
    prop = load(pid)
    if hasattr(prop, "warm"):
        prop.warm()
    n = prop.RUNS[tier]
    budget = prop.BUDGET[tier] if hasattr(prop, "BUDGET") else (
        200 if tier == "quick" else 2400)
    print(f"{pid}: VERIF_SEED={seed} tier={tier} runs={n} workers={workers}", flush=True)
    t1 = _real_monotonic()
    res = batch(prop, pid, seed, tier, n, workers, budget)
    wall_runs = _real_monotonic() - t1
    kf = known_findings(pid)
    bad = sorted(i for i, r in res.items() if r["violation"] and not is_known(kf, r["violation"]))
    errs = sorted(i for i, r in res.items() if r["error"])
    post = None
    if not bad and hasattr(prop, "aggregate"):
        post = prop.aggregate([res[i] for i in sorted(res)])
    final = getattr(prop, "final", None)
    fin_info = None
    if not bad and final:
        v, fin_info = final(seed, tier)
        if v:
            post = v
    exit_code, lines = 0, []
    for k in kf:
        lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")
    n_viol = 0
    if bad:
        i = bad[0]
        v = res[i]["violation"]
        plan = res[i]["plan"]
        if res[i]["schedule"] is not None and hasattr(prop, "pin"):
            plan = prop.pin(plan, res[i]["schedule"])
            r2 = isolated(prop, plan)
            if not (r2["violation"] and r2["violation"]["kind"] == v["kind"]):
                plan = res[i]["plan"]
        tried = 0
        if v["kind"] != "no progress":  # smaller plans could only be told apart by waiting for each
            plan, tried = minimise(prop, plan, v, budget=45 if tier == "quick" else 300)
        if v["kind"] != "no progress":
            v = run_plan(prop, plan)["violation"] or v
        path = write_replay(pid, plan, v, tried)
        print(f"seed={seed} run={i} kind={v['kind']}\n  {v['detail']}")
        try:
            rep = subprocess.run(
                [sys.executable, "-m", "dst", "replay", path], cwd=VERIF,
                capture_output=True, text=True, timeout=max(10, 780 - (_real_monotonic() - t0)) if tier == "quick" else 1200)
            same = f"REPRODUCED kind={v['kind']!r}" in rep.stdout
            said = "reproduces it" if same else "DIFFERS: " + rep.stdout[-300:] + rep.stderr[-300:]
        except subprocess.TimeoutExpired:
            said = "was stopped for time"
        print(f"  minimised in {tried} attempts; replay in a fresh process {said}")
        lines.append(f"VIOLATION property={pid} replay={path}")
        n_viol, exit_code = len(bad), 1
    elif post:
        path = write_replay(pid, post.get("plan", {"aggregate": True, "seed": seed, "tier": tier}), post, 0)
        print(f"seed={seed} kind={post['kind']}\n  {post['detail']}")
        lines.append(f"VIOLATION property={pid} replay={path}")
        n_viol, exit_code = 1, 1
    if errs and exit_code == 0:
        i = errs[0]
        print(f"HARNESS-ERROR in {len(errs)} runs, first run={i}:\n{res[i]['error']}")
        exit_code = 2
    # evidence
    probes, faults, sims, events = {}, {}, 0.0, 0
    for r in res.values():
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        sims += r["sim_time"]
        events += r["events"]
    nontriv = {r["sig"] for r in res.values() if r["nontrivial"]}
    scheds = {json.dumps(r["schedule"]) for r in res.values() if r["schedule"]}
    wall = _real_monotonic() - t0
    cov = {
        "evaluations": len(res),
        "distinct_nontrivial": len(nontriv),
        "rule": prop.RULE,
        "samples": [res[i]["plan"] for i in sorted(res)[:3] if "plan" in res[i]],
        "simulated_runs": len(res),
        "seeds": len(res),
        "runs_per_hour": round(len(res) / max(wall_runs, 1e-9) * 3600),
        "simulated_seconds": round(sims, 3),
        "recorded_events": events,
        "fault_kinds_fired": dict(sorted(faults.items())),
        "probes": dict(sorted(probes.items())),
        "distinct_schedules": len(scheds),
        "distinct_states_measure": "distinct digests of the run's recorded event log",
        "real_components": prop.REAL,
        "stub_components": prop.STUB,
        "harness_errors": len(errs),
        "runs_repeated_after_wall_limit": sum(1 for r in res.values() if r.get("slow")),
        "known_findings_seen": sum(1 for r in res.values() if r["violation"] and is_known(kf, r["violation"])),
    }
    if fin_info:
        cov["final"] = fin_info
    never = [p for p in getattr(prop, "EXPECT", []) if not (probes.get(p) or faults.get(p))]
    cov["expected_but_never_hit"] = never
    ev = {
        "property": pid, "tier": tier, "seed": seed,
        "level": getattr(prop, "LEVEL", "exploration"), "coverage": cov,
        "assumptions": prop.ASSUME, "wall_s": round(wall, 2), "violations": n_viol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    print(f"{pid}: {len(res)} runs, {len(nontriv)} distinct non-trivial, "
          f"faults={faults}, probes={probes}, never={never}, {wall:.1f}s")
    for ln in lines:
        print(ln)
    sys.stdout.flush()
    return exit_code


def replay(path):
    with open(path) as f:
        d = json.load(f)
    pid = d["property"]
    boot()
    prop = load(pid)
    if hasattr(prop, "warm"):
        prop.warm()
    plan = d["plan"]
    if plan.get("aggregate"):
        res = batch(prop, pid, plan["seed"], plan["tier"], prop.RUNS[plan["tier"]],
                    os.cpu_count() or 4, 600, stop_on_violation=False)
        v = prop.aggregate([res[i] for i in sorted(res)]) if hasattr(prop, "aggregate") else None
        if not v and hasattr(prop, "final"):
            v = prop.final(plan["seed"], plan["tier"])[0]
    else:
        if os.environ.get("DST_TRACE"):
            r = execute(prop, plan)
        else:
            r = (confirm_hang if d["violation"]["kind"] == "no progress" else run_plan)(prop, plan)
        v = r["violation"]
        if r["error"]:
            print("HARNESS-ERROR", r["error"])
            return 2
    if v:
        print(f"REPRODUCED kind={v['kind']!r}\n  {v['detail']}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("not reproduced: the property holds on this replay")
    return 0


def selftest(pid, seed, n, workers):
    """Determinism: print index and event-log digest of n runs."""
    boot()
    prop = load(pid)
    if hasattr(prop, "warm"):
        prop.warm()
    res = batch(prop, pid, seed, "quick", n, workers, 3600, stop_on_violation=False)
    for i in sorted(res):
        r = res[i]
        print(i, r["sig"], r["events"], r["violation"], (r["error"] or "")[-200:].replace("\n", "|"),
              json.dumps(r["faults"], sort_keys=True), json.dumps(r["schedule"]))
    return 0


ENV = {
    "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "JOBLIB_MULTIPROCESSING": "1",
}


def main(argv):
    if os.environ.get("DST_ENV") != "1":
        import shutil
        import tempfile

        scratch = tempfile.mkdtemp(prefix="dst-")
        env = dict(os.environ)
        env.pop("PYTHONPATH", None)
        for k, v in ENV.items():
            if not (k == "PYTHONHASHSEED" and "DST_HASHSEED" in os.environ):
                env[k] = v
        if "DST_HASHSEED" in os.environ:
            env["PYTHONHASHSEED"] = os.environ["DST_HASHSEED"]
        env["DST_ENV"] = "1"
        env["DST_SCRATCH"] = scratch
        env["MPLCONFIGDIR"] = scratch
        env["TMPDIR"] = scratch
        p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "dst", *argv],
                             cwd=VERIF, env=env)
        try:
            rc = p.wait()
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return rc if rc >= 0 else 3
    os.environ["TMPDIR"] = os.environ["DST_SCRATCH"]
    cmd = argv[0]
    workers = int(os.environ.get("DST_WORKERS", min(8, os.cpu_count() or 4)))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if cmd == "check":
        if len(argv) > 2:
            tier = argv[2]
        return check(argv[1], tier, seed, workers)
    if cmd == "replay":
        return replay(argv[1])
    if cmd == "selftest":
        return selftest(argv[1], seed, int(argv[2]), workers)
    print("usage: python -m dst check ID | replay FILE | selftest ID N")
    return 2
