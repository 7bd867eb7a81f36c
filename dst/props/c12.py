"""C12: optional packages change speed, never answers."""

import json
import os
import subprocess
import sys
import warnings

import numpy as np

from .. import core, ops, seams, simjoblib

RUNS = {"quick": 420, "thorough": 12000}
TIMEOUT = 150
RULE = (
    "A run computes a few calls with every package present (in a pristine fork), then imports pointpats "
    "anew in a world where a seeded subset of the optional packages is missing or fails to load - always, "
    "only at import, or only at some later attempt - and makes the same calls. Non-trivial: at least one "
    "import was made to fail."
)
REAL = ["pointpats (imported anew under the faults)", "scipy, scikit-learn, numba, statsmodels, KDEpy where present"]
STUB = ["import of optional packages by pointpats modules", "joblib backend", "operating system entropy, clocks"]
ASSUME = ["third-party packages keep their own view of what is installed, except in the fresh interpreters",
          "results are compared to 1e-9 of their scale (1e-6 for the bounding circle at large offsets)"]
PACKAGES = ("sklearn", "numba", "statsmodels", "KDEpy")
EXPECT = ["import:" + p for p in PACKAGES] + ["broken", "missing", "transient", "all-missing", "named-error", "same-answer",
                                             "circle-without-numba", "tree-without-sklearn"]
CALLS = ("g", "k", "l", "fdist", "jdist", "centro", "mbc", "mbc", "pp", "knn", "knn", "kde", "kde", "ripd", "gtest", "ftest",
         "jtest", "ktest", "geocentro", "gen", "qstat", "knoxlocal", "metric", "metric", "metric", "tree", "obs")


def plan(r, i, tier):
    down = [p for p in PACKAGES if r.random() < 0.5] or [r.choice(PACKAGES)]
    if i % 11 == 0:
        down = list(PACKAGES)
    rules = {p: {"exc": r.choice(("ModuleNotFoundError", "ImportError")),
                 "when": r.choice(("always", "always", "always", [1], [2], [1, 3]))} for p in down}
    calls = []
    for _ in range(r.choice((2, 4, 6))):
        k = r.choice(CALLS)
        if k in ("mbc", "metric", "tree", "obs"):
            d = {"op": k, "pts": ops.gen_points(r, r.choice((5, 8, 14, 25))), "k": r.randrange(1 << 30)}
        else:
            d = ops.gen(r, (k,), rng_kinds=("int",), small=True)
        if k in ops.RIPLEY:
            d["jobs"] = r.choice((1, 2))
        if k in ("g", "gtest", "ftest", "jtest", "fdist", "jdist", "ripd", "tree", "obs", "metric", "ktest", "k", "l"):
            d["pts"]["kind"] = r.choice(("uniform", "clusters"))
        calls.append(d)
    return {"rules": rules, "calls": calls, "pool": {"seed": 1, "cpus": 2}}


def warm():
    from pointpats.centrography import minimum_bounding_circle

    minimum_bounding_circle(np.random.Generator(np.random.PCG64(1)).uniform(0, 1, (9, 2)))
    import KDEpy  # noqa: F401
    import statsmodels.api  # noqa: F401


def build(d):
    if d["op"] not in ("mbc", "metric", "tree", "obs"):
        return ops.build(d)._fn
    from pointpats import distance_statistics as ds
    from pointpats import geometry as gm
    from pointpats.centrography import minimum_bounding_circle

    pts = ops.make_points(d["pts"])
    k = d["k"]
    if d["op"] == "mbc":
        if np.linalg.matrix_rank(pts[1:] - pts[0]) < 2:
            pts = np.vstack((pts, pts.mean(0) + (1.5, 0.0), pts.mean(0) + (0.0, 2.5)))
        return lambda: minimum_bounding_circle(pts)
    if d["op"] == "metric":
        m = ("manhattan", "chebyshev", "haversine", largest_step)[k % 4]
        if m == "haversine":
            pts = pts / 100
        sup = np.linspace(0, float(np.ptp(pts, axis=0).max()) / 2, 25)
        which = k // 4 % 4
        if which == 0:
            return lambda: np.sort(np.asarray(gm.k_neighbors(gm.build_best_tree(pts, m), pts, 2)[0]), 1)
        if which == 1:
            return lambda: ds.g(pts, support=sup, metric=m)
        if which == 2:
            return lambda: ds.f(pts, support=sup, metric=m)[1]
        return lambda: tuple(ds.g_test(pts, support=sup, metric=m, n_simulations=2, n_jobs=1))[:2]
    if d["op"] == "tree":
        from scipy.spatial import KDTree

        return lambda: (ds.g if k % 2 else ds.k)(KDTree(pts), support=(30.0,))
    return lambda: [ds.g(pts, support=6), ds.j(pts, support=4, truncate=False)[0], ds.f(pts, support=4)]


def largest_step(a, b):
    """A caller's own metric."""
    return float(np.abs(np.asarray(a) - np.asarray(b)).max()) * 1.5


def needs(d):
    """The package a call cannot do without, if any, and how it may be named."""
    if d["op"] == "metric":
        return "sklearn", ("scikit-learn", "sklearn")
    if d["op"] == "knn":
        m = __import__("random").Random(d["k"]).choice(("euclidean", "manhattan", "chebyshev"))
        return ("sklearn", ("scikit-learn", "sklearn")) if m != "euclidean" else None
    if d["op"] == "kde":
        rs = __import__("random").Random(d["k"])
        rs.choice((0, 1))
        k = rs.choice((None, "gaussian", "epa"))
        return ("statsmodels", ("statsmodels",)) if k is None else ("KDEpy", ("KDEpy",))
    return None


def value(fn, seed):
    seams.reset(seed, seed)
    simjoblib.PLAN.reset({"seed": 1, "cpus": 2})
    try:
        return ("ok", plain(fn()))
    except Exception as e:  # noqa: BLE001
        return ("exc", type(e).__name__, str(e))


def plain(x):
    """Numbers and strings only, so results of two worlds can be compared."""
    mod = type(x).__module__.split(".")[0]
    if isinstance(x, np.ndarray):
        return x.astype(float) if x.dtype.kind in "fiub" else [plain(v) for v in x.ravel().tolist()]
    if mod == "shapely":
        import shapely

        return np.asarray(shapely.get_coordinates(x))
    if mod in ("pandas", "geopandas"):
        return [list(map(str, getattr(x, "columns", ["s"]))), [plain(v) for v in np.asarray(x, dtype=object).ravel().tolist()]]
    if isinstance(x, dict):
        return [(str(k), plain(v)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (bool, int, float, np.number, np.bool_)):
        return float(x)
    return str(x)


def same(a, b, rtol):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return False
        if not a.size:
            return True
        fin = np.isfinite(a)
        scale = float(np.abs(a[fin]).max()) if fin.any() else 0.0
        return bool(np.allclose(a, b, rtol=rtol, atol=rtol * scale, equal_nan=True))
    if isinstance(a, float) and isinstance(b, float):
        return bool(np.isclose(a, b, rtol=rtol, atol=1e-12, equal_nan=True))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, rtol) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def run(ctx, plan):
    warnings.simplefilter("ignore")
    calls, rules = plan["calls"], plan["rules"]
    # recompiling the accelerated circle in every world would take seconds
    if "numba" not in rules:
        calls = [d for d in calls if d["op"] != "mbc" and d.get("f") != "minimum_bounding_circle" and d["op"] != "geocentro"]
    want = core.pristine(lambda: [value(build(d), 50 + i) for i, d in enumerate(calls)])
    imp = seams.ImportFaults()
    imp.rules = rules
    for m in [m for m in sys.modules if m == "pointpats" or m.startswith("pointpats.")]:
        del sys.modules[m]
    imp.install()
    try:
        try:
            import pointpats  # noqa: F401
        except Exception as e:  # noqa: BLE001
            ctx.fail("importing pointpats fails without an optional package", f"{e!r} with {rules}")
        import matplotlib.pyplot as plt

        got, figs = [], []
        for i, d in enumerate(calls):
            before = list(plt.get_fignums())
            got.append(value(build(d), 50 + i))
            figs.append((before, list(plt.get_fignums())))
    finally:
        imp.uninstall()
    for p, n in imp.fired.items():
        ctx.fault("import:" + p, n)
        ctx.probe("broken" if rules[p]["exc"] == "ImportError" else "missing")
        if rules[p]["when"] != "always":
            ctx.probe("transient")
        ctx.nontrivial = True
    if len(imp.fired) == len(PACKAGES):
        ctx.probe("all-missing")
    for d, w, g, (b, a) in zip(calls, want, got, figs):
        need = needs(d)
        if d["op"] == "mbc" and "numba" in imp.fired:
            ctx.probe("circle-without-numba")
        if d["op"] in ("g", "gtest", "obs", "knn") and "sklearn" in imp.fired:
            ctx.probe("tree-without-sklearn")
        if g[0] == "exc" and w[0] == "ok":
            ok = need and need[0] in rules and g[1] in ("ImportError", "ModuleNotFoundError", "KeyError") and any(
                n in g[2] for n in need[1])
            ctx.check(ok, "a call fails because an unrelated or unnamed package is missing",
                      lambda: f"{g} for {d} with {rules}")
            ctx.check(a == b, "a call that could not run left a figure open", lambda: f"{d}")
            ctx.probe("named-error")
            continue
        if g[0] == "exc":
            ctx.check(g[1] == w[1] or need and need[0] in rules, "another exception without an optional package",
                      lambda: f"{g} instead of {w} for {d} with {rules}")
            continue
        ctx.check(w[0] == "ok" and same(w[1], g[1], 1e-6 if "circle" in str(d.get("f")) or d["op"] in ("mbc", "geocentro") else 1e-9),
                  "another answer without an optional package", lambda: f"{d} with {rules}:\n{str(w)[:500]}\n{str(g)[:500]}")
        if need and need[0] in rules and rules[need[0]]["when"] == "always" and d["op"] == "kde":
            ctx.fail("a call pretends to work without the package it needs", f"{d} with {rules}")
        ctx.probe("same-answer")
    ctx.log(sorted(imp.fired), tuple((g[0], g[1] if g[0] == "exc" else core.digest(g[1])) for g in got))


def shrink(plan):
    yield from core.drops(plan, "calls")
    for p in plan["rules"]:
        if len(plan["rules"]) > 1:
            q = json.loads(json.dumps(plan))
            del q["rules"][p]
            yield q


FRESH = """
import sys, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, {repo!r})
down = {down!r}
class Block:
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in down:
            raise ModuleNotFoundError("No module named " + repr(name), name=name)
sys.meta_path.insert(0, Block())
try:
    import joblib, geopandas, libpysal, libpysal.cg, libpysal.graph
except ImportError as e:
    print("THIRD-PARTY", e); sys.exit(0)
import numpy as np
import pointpats as P
from pointpats import centrography as c
pts = np.random.RandomState(3).uniform(0, 100, (20, 2))
out = [c.minimum_bounding_circle(pts), P.g(pts, support=(20.0,)), P.k(pts, support=(20.0,)), P.PointPattern(pts).mean_nnd]
def flat(x):
    for v in x:
        if isinstance(v, (tuple, list, np.ndarray)):
            yield from flat(v)
        else:
            yield float(v)
for kern, pkg in ((None, "statsmodels"), ("gaussian", "KDEpy")):
    try:
        P.plot_density(pts, 10.0, kernel=kern, resolution=10)
        ok = pkg not in down
    except ImportError as e:
        ok = pkg in down and pkg in str(e)
    if not ok:
        print("KDE", pkg)
print("RESULT", " ".join(repr(round(v, 6)) for v in flat(out)))
"""


def final(seed, tier):
    """Fresh interpreters in which the packages do not exist for anyone."""
    cases = [(), ("numba",), ("sklearn",), ("statsmodels", "KDEpy"), ("sklearn", "numba", "statsmodels", "KDEpy")]
    if tier != "quick":
        cases += [("statsmodels",), ("KDEpy",), ("sklearn", "numba"), ("numba", "KDEpy")]
    procs = []
    for down in cases:
        procs.append((down, subprocess.Popen(
            [sys.executable, "-W", "ignore", "-c", FRESH.format(repo=core.REPO, down=down)], cwd=os.environ["DST_SCRATCH"],
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    base, skipped = None, []
    for down, p in procs:
        out, err = p.communicate(timeout=300)
        if "THIRD-PARTY" in out:
            skipped.append(down)
            continue
        if "RESULT" not in out:
            return {"kind": "pointpats does not work in an interpreter without an optional package",
                    "detail": f"without {down}: {err[-800:]}"}, None
        if "KDE" in out:
            return {"kind": "plot_density does not name the package it lacks", "detail": f"without {down}: {out[-300:]}"}, None
        v = np.array([float(x) for x in out.split("RESULT")[1].split()])
        if base is None:
            base = v
        elif v.shape != base.shape or not np.allclose(v, base, rtol=1e-6, atol=1e-6):
            return {"kind": "another interpreter without a package gives another answer", "detail": f"without {down}"}, None
    return None, {"interpreters": len(cases), "third_party_unavailable": [list(s) for s in skipped]}
