"""C08: the caller's data is never modified."""

import json

import numpy as np

from .. import core, ops, seams, simjoblib
from ..core import digest

RUNS = {"quick": 3000, "thorough": 40000}
TIMEOUT = 90
RULE = (
    "A run makes a few public calls on arrays (in several memory layouts, read-only included), lists, "
    "frames, geometries, windows and keyword dictionaries, completing some and aborting others at a "
    "seeded source line or by a failing worker, and after every call compares all objects handed over "
    "so far with bit-exact snapshots taken before. Non-trivial: at least one call was made twice, "
    "aborted, or followed by another call on the same objects."
)
REAL = ["all pointpats modules", "joblib.Parallel", "pandas, geopandas, shapely, matplotlib (Agg), folium"]
STUB = ["joblib backend (seeded event loop)", "asynchronous exceptions at pointpats lines", "operating system entropy, clocks"]
ASSUME = ["lazily cached values inside third-party objects (prepared geometries, polygon areas) are not the caller's data"]
KINDS = (ops.SEEDED + ops.LEGACY + ops.PURE + ops.EXTRA + ops.EXTRA + ops.LEGACY[:8] + ("gtest", "ktest", "ftest", "jtest"))
EXPECT = ["abort", "aborted", "repeat", "read-only", "view", "worker-fault", "failed-call", "array", "list", "frame",
          "geometry", "window", "dict"] + sorted(set(KINDS))
EXC = (KeyboardInterrupt, MemoryError, RuntimeError)


def warm():
    ops.warm()


def plan(r, i, tier):
    steps = []
    for _ in range(r.choice((1, 2, 3))):
        d = ops.gen(r, KINDS, rng_kinds=("int", "gen", "none"), small=True)
        d["lay"] = r.choice(ops.LAYOUTS[:5])
        st = {"op": d, "mode": r.choice(("call", "call", "abort", "repeat")),
              "at": r.choice((1, 2, 4, 8, 15, 30, r.randrange(1, 200), r.randrange(1, 900))), "exc": r.randrange(3)}
        steps.append(st)
    p = {"steps": steps, "pool": {"seed": r.getrandbits(32), "start": "fork", "batch": 1, "cpus": 2}}
    if r.random() < 0.3:
        p["pool"]["faults"] = [[r.choice(("crash", "task_error", "memory")), r.choice((1, 2, 3))]]
    return p


def snap(x, ctx=None):
    """A bit-exact snapshot of an object the caller owns."""
    see = ctx.probe if ctx else (lambda *_: None)
    mod = type(x).__module__.split(".")[0]
    if isinstance(x, np.ndarray):
        see("array")
        return ("nd", x.flags.writeable, x.strides, x.shape, str(x.dtype), digest(x),
                snap(x.base) if isinstance(x.base, np.ndarray) else None)
    if isinstance(x, (list, tuple)):
        see("list")
        return (type(x).__name__, [snap(v) for v in x])
    if isinstance(x, dict):
        if x:
            see("dict")
        return ("dict", [(k, snap(v)) for k, v in x.items()])
    if isinstance(x, (np.random.Generator, np.random.RandomState, np.random.BitGenerator)):
        return type(x).__name__
    if mod in ("pandas", "geopandas"):
        see("frame")
        import pandas as pd

        meta = [type(x).__name__, str(getattr(x, "crs", None)), repr(x.attrs), str(x.index.dtype), repr(list(x.index)),
                str(x.index.name)]
        if isinstance(x, pd.DataFrame):
            meta += [repr(list(x.columns)), [str(t) for t in x.dtypes], getattr(x, "_geometry_column_name", None)]
        else:
            meta += [str(x.dtype), str(x.name)]
        return (meta, digest(x))
    if mod == "shapely":
        see("geometry")
        return ("wkb", digest(x))
    if hasattr(x, "equations") and hasattr(x, "simplices"):
        see("geometry")
        return ("hull", [digest(np.asarray(getattr(x, a))) for a in ("points", "vertices", "equations", "simplices")])
    if hasattr(x, "parts") and hasattr(x, "holes"):
        see("window")
        return ("window", snap([list(p) for p in x.parts]), snap([list(h) for h in x.holes]))
    return (type(x).__name__, digest(x))


def draws_global(d):
    return d["op"] in ops.LEGACY or d["op"] in ("kplot", "frames")


def verify(ctx, held, when):
    for o, before in held:
        for name, want in before.items():
            got = snap(o.inputs[name])
            ctx.check(got == want, "an object the caller passed was modified",
                      lambda: f"{name} of {o.d['op']} {o.d.get('g', o.d.get('f', ''))} after {when}: {o.d}")


def run(ctx, plan):
    held = []
    for i, st in enumerate(plan["steps"]):
        d = st["op"]
        o = ops.build(d)
        held.append((o, {k: snap(v, ctx) for k, v in o.inputs.items()}))
        ctx.probe(d["op"])
        when = f"step {i} ({st['mode']} {d['op']})"
        before = seams.global_state()
        status = "ok"
        if st["mode"] == "abort":
            ctx.probe("abort")
            lc = seams.LineCounter(at=st["at"], exc=EXC[st["exc"]]("injected"))
            try:
                with lc:
                    o.call()
            except BaseException as e:  # noqa: BLE001
                if isinstance(e, seams.HarnessError):
                    raise
                status = type(e).__name__
                if lc.fired:
                    ctx.fault("aborted")
                    ctx.nontrivial = True
            verify(ctx, held, f"{when} at line {st['at']} {lc.fired}")
        else:
            try:
                o.call()
            except (Exception, simjoblib.WorkerLost) as e:  # noqa: BLE001
                status = type(e).__name__
                ctx.probe("failed-call")
            verify(ctx, held, when)
            if st["mode"] == "repeat":
                ctx.probe("repeat")
                o.attempt()
                verify(ctx, held, when + " again")
                ctx.nontrivial = True
            if d["lay"] == "ro" and not simjoblib.PLAN.fired:
                ctx.probe("read-only")
                twin = ops.build({**d, "lay": "c"})
                st2 = twin.attempt()
                ctx.check((st2[0] == "ok") == (status == "ok") or simjoblib.PLAN.fired,
                          "a call needs to write to its input",
                          lambda: f"{status} on a read-only array, {st2[0]} on a writable one: {d}")
        if d["lay"] == "view":
            ctx.probe("view")
        if i:
            ctx.nontrivial = True
        after = seams.global_state()
        ctx.check(before["random"] == after["random"], "Python's random state was touched", lambda: f"{d}")
        if not draws_global(d):
            ctx.check(before["np.random"] == after["np.random"], "numpy's global random state was touched", lambda: f"{d}")
        ctx.log(d["op"], status, st["mode"])
    if simjoblib.PLAN.fired:
        ctx.probe("worker-fault")


def shrink(plan):
    yield from core.drops(plan, "steps")
    for j, st in enumerate(plan["steps"]):
        if st["mode"] != "call":
            q = json.loads(json.dumps(plan))
            q["steps"][j]["mode"] = "call"
            yield q
        if st["op"].get("lay") != "c":
            q = json.loads(json.dumps(plan))
            q["steps"][j]["op"]["lay"] = "c"
            yield q
        for key in ("perms", "n", "reps"):
            v = st["op"].get(key)
            if isinstance(v, int) and v > 2:
                q = json.loads(json.dumps(plan))
                q["steps"][j]["op"][key] = 2
                yield q
