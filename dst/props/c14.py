"""C14: an aborted call leaves no trace."""

import json
import warnings

import numpy as np

from .. import core, ops, seams, simjoblib
from ..core import digest

RUNS = {"quick": 1000, "thorough": 30000}
TIMEOUT = 120
RULE = (
    "A run learns in a pristine fork how many pointpats lines a call executes and what it returns, then "
    "makes the call with an exception raised at a seeded one of those lines (or in a failing worker), "
    "several times, and repeats it and other calls: everything must be as in a world where the aborted "
    "calls never started. Non-trivial: at least one exception was raised inside the call."
)
REAL = ["pointpats (all modules)", "joblib.Parallel", "numpy, scipy, scikit-learn, pandas, matplotlib (Agg)"]
STUB = ["asynchronous exceptions at pointpats lines", "joblib backend (seeded event loop)", "operating system entropy, clocks"]
ASSUME = ["interruption happens between pointpats lines, not inside numpy or pandas calls",
          "methods documented to change a pattern in place (add_marks, set_window, flip_coordinates) may be cut short",
          "a figure an aborted plotting call had opened may stay open"]
OPS = ops.SEEDED + ops.LEGACY + ops.PURE + ops.EXTRA + ("gtest", "ktest", "ltest", "ftest", "jtest")
OBJECTS = ("knoxlocal", "knox", "quadrat", "pattern")
EXPECT = ["source-line", "aborted", "call", "object", "other-calls", "first-call", "late-abort", "worker-fault", "KeyboardInterrupt",
          "MemoryError", "RuntimeError", "interactive"]
EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RuntimeError": RuntimeError}
PLOTS = ("quadplot", "kplot", "kde")


def warm():
    """Imports a first call would do inside third-party code (they set warning filters of their own)."""
    ops.warm()


def gen_op(r, kinds=OPS):
    d = ops.gen(r, kinds, rng_kinds=("int", "gen"), small=True)
    if d["op"] in ops.RIPLEY:
        d["jobs"] = r.choice((1, 1, 2))
    return d


def plan(r, i, tier):
    p = {"mode": r.choice(("call", "call", "call", "object")), "warm": r.random() < 0.4,
         "aborts": [[r.choice((0.0, 0.02, 0.99, round(r.random(), 4), round(r.random() ** 3, 4))), r.choice(sorted(EXC))]
                    for _ in range(r.choice((1, 1, 2, 3)))],
         "others": [gen_op(r) for _ in range(r.choice((0, 1, 1, 2)))], "pool": {"seed": r.getrandbits(32), "cpus": 2}}
    n = r.choice((0, 4, 12, 12))
    if p["mode"] == "call":
        p["op"] = gen_op(r, ops.RIPLEY) if r.random() < 0.12 else gen_op(r)
        if p["op"]["op"] in PLOTS:
            n = min(n, 4)
        if p["op"]["op"] in ops.RIPLEY and r.random() < 0.5:
            p["op"]["jobs"] = 2
            p["pool"]["faults"] = [[r.choice(("crash", "task_error", "memory")), 1 + r.randrange(p["op"]["sims"])]]
    else:
        p["obj"] = r.choice(OBJECTS)
        p["ev"] = ops.gen_events(r)
        p["asks"] = [r.randrange(1 << 16) for _ in range(r.choice((1, 2)))]
        n = min(n, 4)
    p["ion"] = r.random() < 0.3
    p["points"] = [[round(r.random(), 5), r.choice(sorted(EXC))] for _ in range(n)]
    return p


def value(fn):
    try:
        return ("ok", fn())
    except Exception as e:  # noqa: BLE001
        return ("exc", type(e).__name__)


def alone(plan, d):
    """What the call returns and how many lines it runs, in a world of its own."""

    def go():
        seams.reset(77, 4321)
        simjoblib.PLAN.reset({**plan["pool"], "faults": []})
        with seams.LineCounter() as lc:
            v = digest(value(ops.build(d)._fn))
        return v, lc.n, lc.firsts

    return core.pristine(go)


def ambient():
    import matplotlib.pyplot as plt

    g = seams.global_state()
    g["figures"] = repr(plt.get_fignums())
    return g


def abort(ctx, fn, n, frac, exc, what, plotting, uses_global, firsts=None):
    """Raise after a fraction of all the steps (or, with `firsts`, of the distinct source lines)."""
    at = firsts[int(frac * len(firsts))] if firsts else 1 + int(frac * max(0, n - 1))
    before = ambient()
    lc = seams.LineCounter(at=at, exc=EXC[exc]("injected"))
    st = None
    try:
        with lc:
            fn()
        st = "returned"
    except seams.HarnessError:
        raise
    except BaseException as e:  # noqa: BLE001
        st = type(e).__name__
    if lc.fired:
        ctx.fault("aborted")
        ctx.probe(exc)
        ctx.nontrivial = True
        if at > n // 2:
            ctx.probe("late-abort")
        ctx.check(st != "returned", "an aborted call swallowed the exception",
                  lambda: f"{exc} at line {at} of {n} {lc.fired} of {what}")
        ctx.check(exc != "KeyboardInterrupt" or st == exc, "an interrupt was replaced by another exception",
                  lambda: f"{st} for {exc} at line {at} of {n} {lc.fired} of {what}")
    after = ambient()
    for k in before:
        if k == "figures" and plotting or k == "np.random" and uses_global:
            continue
        ctx.check(before[k] == after[k], f"an aborted call left {k} changed",
                  lambda: f"{exc} at line {at} of {n} {lc.fired} of {what}: {before[k][:200]} -> {after[k][:200]}")
    if plotting:
        import matplotlib.pyplot as plt

        plt.close("all")
    ctx.log("abort", at, lc.fired, st)


def run(ctx, plan):
    warnings.simplefilter("ignore")
    if plan.get("ion"):
        import matplotlib.pyplot as plt

        plt.ion()
        ctx.probe("interactive")
    if plan["mode"] == "object":
        return on_object(ctx, plan)
    d = plan["op"]
    want, n, firsts = alone(plan, d)
    others = [(o, alone(plan, o)[0]) for o in plan["others"]]
    ctx.probe("call")
    if plan["warm"]:
        value(ops.build(d)._fn)
    else:
        ctx.probe("first-call")
    uses_global = d["op"] in ops.LEGACY or d["op"] in ("kplot", "frames")
    o = ops.build(d)
    for frac, exc in plan["aborts"]:
        simjoblib.PLAN.reset(plan["pool"])
        abort(ctx, o._fn, n, frac, exc, d, d["op"] in PLOTS, uses_global)
        if simjoblib.PLAN.fired:
            ctx.probe("worker-fault")
            ctx.nontrivial = True
            for k, c in simjoblib.PLAN.fired.items():
                ctx.fault("worker:" + k, c)
        if "gen" == d.get("rng", {}).get("kind"):
            o = ops.build(d)
    for frac, exc in plan["points"]:
        simjoblib.PLAN.reset({**plan["pool"], "faults": []})
        abort(ctx, o._fn, n, frac, exc, d, d["op"] in PLOTS, uses_global, firsts)
        ctx.probe("source-line")
        if "gen" == d.get("rng", {}).get("kind"):
            o = ops.build(d)
    todo = [(o if "rng" not in d else ops.build(d), want, d), (ops.build(d), want, d)]
    todo += [(ops.build(x), w, x) for x, w in others]
    if plan["aborts"][0][0] > 0.5:
        todo = todo[::-1]
    for op, w, desc in todo:
        seams.reset(77, 4321)
        simjoblib.PLAN.reset({**plan["pool"], "faults": []})
        got = digest(value(op._fn))
        ctx.check(got == w, "a call after an aborted one gives another result",
                  lambda: f"{desc} after aborting {d} at {plan['aborts']} of {n} lines")
        if desc is not d:
            ctx.probe("other-calls")
    ctx.log("call", want)


def on_object(ctx, plan):
    import pointpats as P
    from pointpats import spacetime as st

    s, t, delta, tau = ops.make_events(plan["ev"])
    kind = plan["obj"]

    def make():
        np.random.seed(5)
        if kind == "knoxlocal":
            return st.KnoxLocal(s, t, delta, tau, permutations=3, keep=True, crs="EPSG:3857")
        if kind == "knox":
            return st.Knox(s, t, delta, tau, permutations=3, keep=True)
        if kind == "quadrat":
            return P.QStatistic(s, nx=3, ny=2, rng=3, realizations=4)
        return P.PointPattern(s)

    def ask(o, k):
        if kind == "knoxlocal":
            crit, inf = (0.05, 0.3, 1.0)[k % 3], ("analytic", "permutation")[k // 3 % 2]
            h = o.hotspots(crit=crit, inference=inf, keep_neighbors=bool(k // 8 % 2))
            out = [h.drop(columns="geometry")]
            if k % 5 == 0 and len(h.dropna()):
                out.append(ops._close(o.plot(crit=crit, inference=inf)))
            return out + [state(o)]
        if kind == "knox":
            return state(o)
        if kind == "quadrat":
            return [ops._close(o.plot(show=("counts", "chi2")[k % 2])), state(o)]
        which = k // 2 % 6
        if which == 0:
            out = [window(o.window), o.lambda_window, o.window.centroid]
        elif which == 1:
            out = [o.mean_nnd, o.unique().df, window(o.superimpose(o).window)]
        elif which == 2:
            import io
            import contextlib

            with contextlib.redirect_stdout(io.StringIO()) as text:
                o.summary()
            out = [text.getvalue()]
        elif which == 3:
            o.set_window(None)
            out = [window(o.window), o.n]
        elif which == 4:
            q = P.PointPattern(s)
            out = [o.min_nnd, o.max_nnd, window(q.window), ops._close(o.plot(window=True, hull=True, get_ax=True))]
        else:
            out = [o.knn(1 + k % 2), o.mean_nnd, o.lambda_window, o.unique().df, o.superimpose(o).df, sorted(o.find_pairs(3.0))]
        return out + [state(o), window(o.window)]

    def window(w):
        return [type(w).__name__, [list(map(tuple, p)) for p in w.parts], w.area, list(w.bbox)]

    def state(o):
        if kind in ("knoxlocal", "knox"):
            return ops.knox_state(o)
        if kind == "quadrat":
            return [o.chi2, o.chi2_pvalue, np.asarray(o.chi2_contrib), np.asarray(o.chi2_realizations), o.chi2_r_pvalue,
                    sorted(o.mr.point_location_sta().items())]
        return [o.n, np.asarray(o.mbb), o.hull_area, o.rot, o.df, o.points, np.asarray(o.tree.data)]

    def go(k):
        o = make()
        with seams.LineCounter() as lc:
            v = digest(value(lambda: ask(o, k)))
        return v, lc.n, lc.firsts

    want = {k: core.pristine(lambda k=k: go(k)) for k in plan["asks"]}
    o = make()
    ctx.probe("object")
    for j, (frac, exc) in enumerate(plan["aborts"]):
        k = plan["asks"][j % len(plan["asks"])]
        n = want[k][1]
        if n:
            abort(ctx, lambda: ask(o, k), n, frac, exc, (kind, plan["ev"], k), True, False)
    for j, (frac, exc) in enumerate(plan["points"]):
        k = plan["asks"][j % len(plan["asks"])]
        if want[k][2]:
            abort(ctx, lambda: ask(o, k), want[k][1], frac, exc, (kind, plan["ev"], k), True, False, want[k][2])
    for k in plan["asks"] * 2:
        got = digest(value(lambda: ask(o, k)))
        ctx.check(got == want[k][0], "an object answers differently after an aborted call",
                  lambda: f"{kind} {plan['ev']} question {k} after {plan['aborts']}")
    ctx.log("object", kind, tuple(v[0] for v in want.values()))


def shrink(plan):
    yield from core.drops(plan, "aborts")
    yield from core.drops(plan, "points")
    yield from core.drops(plan, "others")
    if plan["warm"]:
        yield {**plan, "warm": False}
    if plan["mode"] == "call":
        for key in ("perms", "reps", "sims", "n"):
            v = plan["op"].get(key)
            if isinstance(v, int) and v > 1:
                q = json.loads(json.dumps(plan))
                q["op"][key] = max(1, v // 2)
                yield q
