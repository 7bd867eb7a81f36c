"""C16: units of measurement and the order of records do not matter."""

import json
import math
import random

import numpy as np

from .. import core, ops, seams, simjoblib
from ..util import ODD, gen_hull, gen_points, hull_area, hull_scale, make_hull, make_points, quiet, sample_in

RUNS = {"quick": 3500, "thorough": 80000}
RULE = (
    "A run performs one call in two worlds that differ in the unit of length (a power of two, so that every "
    "intermediate value scales without rounding), the unit of time, or the order of the records; both worlds "
    "get the same random stream (unlucky ones included), but other worker pools, completion orders and "
    "histories. Results must agree leaf by leaf once lengths, areas and intensities are converted and "
    "per-record results are brought into the same order. Non-trivial: the unit or the order differed."
)
REAL = ["pointpats (random, distance_statistics, quadrat_statistics, spacetime, pointpattern, centrography, process)",
        "numpy, scipy, shapely, libpysal", "joblib.Parallel"]
STUB = ["bit stream under the caller's Generator and numpy's global generator", "joblib backend (seeded event loop)",
        "operating system entropy"]
ASSUME = ["factors are powers of two from 2**-30 to 2**30", "values are compared to a relative 1e-9 (exactly, where they are counts)",
          "euclidean_median, whose optimiser stops at an absolute step, is not judged",
         "a hotspot row names one neighbour of several; which one is not judged when records are reordered",
          "nearest-neighbour queries are judged on tie-free data when records are reordered"]
EXPECT = ["unit", "order", "gen", "ripley", "quad", "st", "pattern", "centro", "process", "direct", "poisson", "normal", "cluster_poisson",
          "cluster_normal", "strauss", "tiny-unit", "huge-unit", "time-unit", "unlucky", "other-pool", "hotspots", "knn", "big"]
KINDS = ("gen", "gen", "gen", "gen", "ripley", "ripley", "quad", "quad", "st", "st", "pattern", "centro", "process", "direct")
EXPS = (-30, -21, -10, -4, -1, 1, 3, 9, 20, 30)


def warm():
    ops.warm()


def plan(r, i, tier):
    kind = r.choice(KINDS)
    mode = r.choice(("unit", "unit", "order")) if kind not in ("gen", "process") else "unit"
    p = {"kind": kind, "mode": mode, "e": r.choice(EXPS), "et": r.choice((0, -9, -1, 2, 15)), "k": r.getrandbits(30), "shuf": r.getrandbits(30),
         "stream": {}, "burst": r.choice((4, 20, 60)), "sseed": r.getrandbits(40), "before": None,
         "pools": [{"seed": r.getrandbits(32), "cpus": r.choice((1, 2, 4))} for _ in range(2)], "jobs": [r.choice((1, 1, 2, 3)) for _ in range(2)]}
    if r.random() < 0.5:
        for k in seams.SimBitGen.KINDS:
            if r.random() < 0.35:
                p["stream"][k] = r.choice((0.002, 0.02)) if k in ("stuck", "low", "high") else r.choice((0.02, 0.1))
    if r.random() < 0.3:
        p["before"] = ops.gen(r, ops.PURE + ops.SEEDED, small=True)
    if kind == "gen":
        p["g"] = r.choice(ops.GENS)
        kinds = ("bbox", "points", "polygon", "multi", "offset", "tiny") if p["g"] == "strauss" else (
            "bbox", "points", "polygon", "multi", "holed", "offset", "tiny", "sliver", "convex")
        if p["g"] == "poisson" and r.random() < 0.4:
            kinds = ODD
        p["hull"] = gen_hull(r, kinds)
        p["n"] = r.choice((1, 2, 3, 5, 8, 14))
        if p["hull"]["kind"] == "convex" or p["g"] == "strauss":
            p["n"] = min(p["n"], 4)
        p["reps"] = r.choice((1, 1, 2, 3))
        p["how"] = r.choice(("int", "tuple", "tuple", "intensity"))
        p["opt"] = r.randrange(1 << 12)
    elif kind in ("ripley", "direct"):
        p["stat"] = r.choice("FGJKL")
        p["pts"] = gen_points(r, r.choice((4, 6, 9, 14)))
        p["support"] = r.choice((None, 5, [30.0], [1.0, 30.0], [1.0, 30.0, 6], "array"))
        p["sims"] = r.choice((1, 4, 9))
        p["hull"] = r.choice((None, "convex", "bbox", "arr", "poly"))
        p["lin"] = r.random() < 0.5
        p["trunc"] = r.random() < 0.5
    elif kind == "quad":
        p["pts"] = gen_points(r, r.choice((4, 7, 15, 40)))
        p["shape"] = r.choice(("rectangle", "rectangle", "hexagon"))
        p["grid"] = [r.choice((1, 2, 3, 5)), r.choice((1, 2, 4))]
        p["widths"] = r.random() < 0.3
        p["win"] = r.choice((None, "poly", "poly"))
        p["real"] = r.choice((0, 1, 5))
    elif kind == "st":
        p["test"] = r.choice(("knox", "knoxlocal", "knoxlocal", "oldknox", "mantel", "jacquez", "modknox"))
        p["ev"] = ops.gen_events(r, r.choice((5, 8, 13, 20)))
        if p["test"] == "jacquez":
            p["ev"]["kind"] = "float"
        p["perms"] = r.choice((0, 3, 9))
        p["keep"] = r.random() < 0.5
        p["crit"] = r.choice((0.1, 0.3, 0.7, 1.0))
    elif kind in ("pattern", "centro"):
        p["pts"] = gen_points(r, r.choice((4, 6, 9, 15)))
        if mode == "order" or kind == "centro":
            p["pts"]["kind"] = r.choice(("uniform", "clusters"))
        p["win"] = r.random() < 0.5
    elif kind == "process":
        p["proc"] = r.choice(("poisson", "cluster"))
        p["n"] = r.choice((0, 1, 4, 9))
        p["samples"] = r.choice((1, 2))
        p["win"] = r.choice(("box", "tri", "ring"))
        p["cond"] = r.random() < 0.4
        p["aspp"] = r.random() < 0.4
    if kind in ("direct", "quad", "st", "pattern") and r.random() < (0.3 if kind == "direct" else 0.06):  # sizes at which programs change their ways
        big = p["big"] = r.choice((130, 300) if kind == "st" else (130, 600, 1300, 2300))
        p["ev" if kind == "st" else "pts"]["n"] = big
        p["real"], p["perms"] = min(p.get("real", 0), 1), min(p.get("perms", 0), 1)
    return p


class World:
    """One measuring convention: factor of length, factor of time, order of the records."""

    def __init__(self, plan, which):
        self.plan, self.which = plan, which
        second = which == 1
        self.s = 2.0 ** plan["e"] if second and plan["mode"] == "unit" else 1.0
        self.t = 2.0 ** plan["et"] if second and plan["mode"] == "unit" else 1.0
        self.order = second and plan["mode"] == "order"

    def perm(self, n):
        p = list(range(n))
        if self.order:
            random.Random(self.plan["shuf"]).shuffle(p)
        return np.array(p, int)

    def length(self, x):
        import shapely
        from scipy.spatial import ConvexHull

        if x is None or isinstance(x, str):
            return x
        if isinstance(x, shapely.Geometry):
            return shapely.transform(x, lambda c: c * self.s)
        if isinstance(x, ConvexHull):
            return ConvexHull(x.points * self.s)
        if isinstance(x, (list, tuple)):
            return type(x)(self.length(v) for v in x)
        return x * self.s

    def rng(self):
        self.bg = seams.SimBitGen(self.plan["sseed"], self.plan["stream"], self.plan["burst"])
        return self.bg.generator()


def run(ctx, plan):
    ctx.probe(plan["kind"])
    ctx.probe(plan["mode"])
    if plan["mode"] == "unit":
        ctx.probe("tiny-unit" if plan["e"] <= -21 else "huge-unit" if plan["e"] >= 20 else "other-unit")
    if "big" in plan:
        ctx.probe("big")
    fn = {"gen": generate, "ripley": ripley, "direct": ripley, "quad": quad, "st": spacetime, "pattern": pattern, "centro": centro,
          "process": process}[plan["kind"]]
    got = []
    for which in (0, 1):
        if which and plan["before"]:
            op = ops.build(plan["before"])
            op.attempt()
            ctx.probe("other-history")
        seams.reset(plan["k"], plan["k"] % 2**31)
        simjoblib.PLAN.reset(plan["pools"][which])
        w = World(plan, which)
        try:
            out = ("ok", quiet(lambda: fn(ctx, plan, w)))
        except (seams.StreamExhausted, seams.HarnessError, MemoryError):
            raise
        except Exception as e:  # noqa: BLE001
            out = ("exc", type(e).__name__)
        got.append(out)
    a, b = got
    ctx.check(a[0] == b[0], "a call succeeds in one unit or order and fails in the other", lambda: f"{str(a)[:200]} / {str(b)[:200]} {plan}")
    ctx.nontrivial = a[0] == "ok"
    if a[0] == "exc":
        ctx.probe("refused")
        ctx.log("exc", a[1])
        return
    s, t = World(plan, 1).s, World(plan, 1).t
    ctx.judge(lambda: compare(ctx, plan, a[1], b[1], s, t))
    ctx.log(plan["kind"], [(k, core.digest(v)) for k, v, *_ in a[1]])


def compare(ctx, plan, a, b, s, t):
    kind = "the unit of measurement changes the result" if plan["mode"] == "unit" else "the order of the records changes the result"
    ctx.check([x[0] for x in a] == [x[0] for x in b], kind, lambda: f"{[x[0] for x in a]} {[x[0] for x in b]} {plan}")
    for (name, va, *dim), (_, vb, *_d) in zip(a, b):
        if dim == ["exact"]:
            ctx.check(va == vb, kind, lambda: f"{name}: {str(va)[:300]} / {str(vb)[:300]} {plan}")
            continue
        f = s ** dim[0] * (t ** dim[1] if len(dim) > 1 else 1.0)
        va, vb = np.asarray(va, float) * f, np.asarray(vb, float)
        ctx.check(va.shape == vb.shape, kind, lambda: f"{name}: shapes {va.shape} {vb.shape} {plan}")
        fin = np.isfinite(va)
        size = float(np.abs(va[fin]).max(initial=0.0))
        ok = (fin == np.isfinite(vb)).all() and np.allclose(va[fin], vb[fin], rtol=1e-9, atol=1e-11 * size) and (
            np.array_equal(va[~fin], vb[~fin], equal_nan=True))
        ctx.check(ok, kind, lambda: f"{name}: {va.ravel()[:6]} / {vb.ravel()[:6]} {plan}")


# --------------------------------------------------------------- generators
def generate(ctx, plan, w):
    import pointpats.random as pr

    d, g, n, reps, o = plan["hull"], plan["g"], plan["n"], plan["reps"], plan["opt"]
    ctx.probe(g)
    scale, area = hull_scale(d), hull_area(d)
    kw = {}
    if g == "normal":
        sd = 0.02 * scale if d["kind"] != "sliver" else 0.001 * scale
        mid = sample_in(d, random.Random(plan["k"]), 1)[0]
        cov = (None, sd * sd, np.diag([sd * sd, 2 * sd * sd]), np.array([[1.0, 0.4], [0.4, 1.0]]) * sd * sd)[o % 4]
        kw["center"] = tuple(mid * w.s)
        if o % 4:
            kw["cov"] = cov * w.s**2
        if o // 4 % 3 == 0 and d["kind"] in ("bbox", "offset", "tiny", "points", "convex"):
            kw.pop("center")
            kw["cov"] = (0.4 * scale) ** 2 * w.s**2
    elif g == "cluster_poisson":
        kw["n_seeds"] = 1 + o % 3
        n = max(n, kw["n_seeds"])
        if o // 3 % 2 or kw["n_seeds"] == 1:
            f = 0.1 * scale if d["kind"] != "sliver" else 0.003 * scale
            kw["cluster_radius"] = [f * (1 + j) * w.s for j in range(kw["n_seeds"])]
    elif g == "cluster_normal":
        kw["n_seeds"] = 2 + o % 2
        n = max(n, kw["n_seeds"])
        if o // 2 % 2:
            sd = 0.05 * scale if d["kind"] != "sliver" else 0.0005 * scale
            kw["cov"] = np.diag([sd * sd, sd * sd]) * w.s**2
    elif g == "strauss":
        kw.update(gamma=(0.3, 0.8, 1.0, 1.3)[o % 4], r=(0.02, 0.1)[o // 4 % 2] * scale * w.s, n_iter=(0, 5, 30)[o // 8 % 3])
    how = plan["how"]
    if how == "int":
        kw["size"] = n
    elif how == "intensity" and g in ("poisson", "cluster_poisson", "strauss"):
        kw["intensity"] = (n + 0.25) / area / w.s**2
        kw["size"] = reps
    else:
        kw["size"] = (n, reps)
    rng = w.rng()
    out = getattr(pr, g)(w.length(make_hull(d)), rng=rng, **kw)
    for f, c in w.bg.fired.items():
        ctx.fault(f, c)
        ctx.probe("unlucky")
    return [("points", out, 1)]


# ------------------------------------------------------------------- Ripley
def ripley(ctx, plan, w):
    from pointpats import distance_statistics as ds

    pts = make_points(plan["pts"])
    hull = ops.test_hull(plan["hull"], pts)
    sup = ops.make_support(plan["support"])
    if isinstance(sup, tuple):
        sup = tuple(float(v * w.s) if j < 2 else v for j, v in enumerate(sup))
    elif isinstance(sup, np.ndarray):
        sup = sup * w.s
    order = w.perm(len(pts))
    x = (pts * w.s)[order]
    stat = plan["stat"]
    dim = {"K": 2, "L": 1}.get(stat, 0)
    kw = dict(support=sup, hull=w.length(hull))
    if stat == "L":
        kw["linearized"] = plan["lin"]
    if stat == "J":
        kw["truncate"] = plan["trunc"]
    if plan["kind"] == "direct":
        if stat in "GKL":
            kw.pop("hull")
        s, v = getattr(ds, stat.lower())(x, **kw)
        return [("support", s, 1), ("statistic", v, dim)]
    jobs = plan["jobs"][w.which]
    if plan["jobs"][0] != plan["jobs"][1]:
        ctx.probe("other-pool")
    res = getattr(ds, stat.lower() + "_test")(x, keep_simulations=True, n_simulations=plan["sims"], n_jobs=jobs, **kw)
    out = [("support", res.support, 1), ("statistic", res.statistic, dim)]
    if plan["jobs"] == [1, 1]:  # workers draw entropy of their own
        out += [("p-values", res.pvalue, 0), ("simulations", res.simulations, dim)]
    return out


# ------------------------------------------------------------------- quadrats
def quad(ctx, plan, w):
    import pointpats as P
    import shapely

    pts = make_points(plan["pts"])
    (a, b), (c, e) = pts.min(0), pts.max(0)
    win = None
    if plan["win"]:
        m = 0.05 * max(c - a, e - b)
        win = w.length(shapely.Polygon([(a - m, b - m), (c + 3 * m, b - m), (c + m, e + m), (a - 2 * m, e + m)]))
    order = w.perm(len(pts))
    x = (pts * w.s)[order]
    kw = dict(window=win, realizations=plan["real"])
    nx, ny = plan["grid"]
    if plan["shape"] == "hexagon":
        kw.update(shape="hexagon", lh=float(max(c - a, e - b) / 2.7 * w.s))
    elif plan["widths"]:
        kw.update(rectangle_width=float((c - a) / 2.3 * w.s), rectangle_height=float((e - b) / 3.4 * w.s))
    else:
        kw.update(nx=nx, ny=ny)
    q = P.QStatistic(x, rng=w.rng(), **kw)
    out = [("counts", [(str(k), int(v)) for k, v in sorted(q.mr.point_location_sta().items())], "exact"),
           ("chi2", [q.chi2, q.chi2_pvalue], 0), ("df", int(q.df), "exact"), ("contributions", q.chi2_contrib, 0)]
    if plan["real"]:
        out += [("realizations", q.chi2_realizations, 0), ("p-value", q.chi2_r_pvalue, 0)]
    return out


# ----------------------------------------------------------------- space-time
def spacetime(ctx, plan, w):
    from pointpats import spacetime as st

    s, t, delta, tau = ops.make_events(plan["ev"])
    n = len(s)
    order = w.perm(n)
    back = np.argsort(order)
    x, y = (s * w.s)[order], np.asarray(t, float)[order] * w.t
    if plan["et"] and plan["mode"] == "unit":
        ctx.probe("time-unit")
    delta, tau = delta * w.s, tau * w.t
    test, perms = plan["test"], plan["perms"]
    by_unit = plan["mode"] == "unit"
    np.random.seed(plan["k"] % 2**31)
    if test == "mantel":
        v = st.mantel(x, y, perms, scon=w.s, spow=-1.0, tcon=w.t, tpow=-1.0)
        return [("stat", v["stat"], 0)] + ([("pvalue", v["pvalue"], 0)] if by_unit else [])
    if test in ("jacquez", "modknox", "oldknox"):
        v = st.jacquez(x, y, k=2, permutations=perms) if test == "jacquez" else (
            st.modified_knox if test == "modknox" else st.knox)(x, y, delta, tau, permutations=perms)
        if not isinstance(v, dict):
            return [("stat", v, 0)]
        return [(k, z, 0) for k, z in sorted(v.items()) if np.ndim(z) == 0 and (by_unit or k in ("stat", "modified_stat"))]
    cls = st.Knox if test == "knox" else st.KnoxLocal
    ids = list(order) if test == "knoxlocal" else None
    k = cls(x, y, delta, tau, permutations=perms, keep=plan["keep"], **({"ids": ids} if ids is not None else {}))
    # `back` brings per-event results into the order of the first world
    out = [("statistic", k.statistic_, 0)] if test == "knox" else [("statistic", np.asarray(k.statistic_)[back], 0)]
    if test == "knox":
        out += [("expected", k.expected, 0), ("observed", k.observed, 0), ("p_poisson", k.p_poisson, 0)]
        if by_unit and perms:
            out.append(("p_sim", k.p_sim, 0))
        return out
    out.append(("p_hypergeom", np.asarray(k.p_hypergeom)[back], 0))
    if by_unit and perms:
        out.append(("p_sims", k.p_sims, 0))
    adj = k.adjlist
    out.append(("adjacency", sorted(tuple(map(str, v)) for v in adj[["focal", "neighbor", "orientation"]].itertuples(index=False)), "exact"))
    ctx.probe("hotspots")
    for inf in ("analytic", "permutation") if by_unit and perms else ("analytic",):
        h = k.hotspots(crit=plan["crit"], inference=inf)
        # a row names one of the event's neighbours; which one may depend on the order of the records
        rows = sorted((str(f), str(nb), str(o)) if by_unit else (str(f),) for f, nb, o in zip(h["focal"], h["neighbor"], h["orientation"]))
        out.append(("hotspots", rows, "exact"))
        out.append(("hotspot p-values", [p for _, p in sorted(zip(map(str, h["focal"]), h["pvalue"]))], 0))
        lab = {}
        for f, c in zip(h["focal"], h["cluster"]):
            lab.setdefault(str(c), set()).add(str(f))
        out.append(("clusters", sorted(map(sorted, lab.values())), "exact"))
    return out


# -------------------------------------------------------------------- patterns
def pattern(ctx, plan, w):
    import pointpats as P

    pts = make_points(plan["pts"])
    if (np.ptp(pts, axis=0) == 0).any():
        pts = np.vstack((pts, pts[0] + (1.0, 2.0), pts[0] - (3.0, 1.0)))
    order = w.perm(len(pts))
    back = np.argsort(order)
    x = (pts * w.s)[order]
    win = None
    if plan["win"]:
        (a, b), (c, e) = pts.min(0) - 3.0, pts.max(0) + 5.0
        win = P.Window([(a * w.s, b * w.s), (a * w.s, e * w.s), (c * w.s, e * w.s), (c * w.s, b * w.s), (a * w.s, b * w.s)])
    pp = P.PointPattern(x, window=win)
    by_unit = plan["mode"] == "unit"
    out = [("n", pp.n, "exact"), ("mbb", pp.mbb, 1), ("lambda", [pp.lambda_mbb, pp.lambda_window, pp.lambda_hull], -2),
           ("mean_nnd", [pp.mean_nnd, pp.max_nnd, pp.min_nnd], 1), ("hull_area", [pp.hull_area, pp.mbb_area, pp.window.area], 2), ("rot", pp.rot, 1),
           ("unique", pp.unique().n, "exact")]
    ctx.probe("knn")
    idx, dist = pp.knn(2)
    out.append(("knn distances", np.asarray(dist)[back], 1))
    if by_unit:
        out.append(("knn", np.asarray(idx).tolist(), "exact"))
    else:
        out.append(("knn", order[np.asarray(idx)][back].tolist(), "exact"))
    out.append(("nnd", np.asarray(pp.nnd)[back].ravel(), 1))
    dm = float(np.ptp(pts, axis=0).max()) * 0.3
    pairs = {tuple(sorted((int(order[i]), int(order[j])))) for i, j in pp.find_pairs(dm * w.s)}
    out.append(("pairs", sorted(pairs), "exact"))
    other = (pts[: 1 + len(pts) // 2] + 0.37) * w.s
    oi, od = pp.knn_other([list(v) for v in other], k=1)
    out.append(("knn_other", order[np.asarray(oi).ravel()].tolist(), "exact"))
    out.append(("knn_other distances", np.asarray(od).ravel(), 1))
    out.append(("window holds", [len(pp.window.filter_contained([tuple(v)])) for v in x[back]], "exact"))
    return out


def centro(ctx, plan, w):
    from pointpats import centrography as cg

    pts = make_points(plan["pts"])
    order = w.perm(len(pts))
    x = (pts * w.s)[order]
    wt = (1.0 + np.arange(len(pts)) % 4)[order]
    c = pts.mean(0) * w.s
    out = [("mean", cg.mean_center(x), 1), ("weighted", cg.weighted_mean_center(x, wt), 1), ("manhattan", cg.manhattan_median(x), 1),
           ("sd", cg.std_distance(x), 1), ("dtot", cg.dtot(c, x), 1),
           ("mbr", np.ravel(cg.minimum_bounding_rectangle(x)), 1)]
    e = cg.ellipse(x)
    out.append(("ellipse", np.asarray(e[:2], float), 1))
    out.append(("angle", e[2], 0))
    circ = cg.minimum_bounding_circle(x)
    out.append(("circle", np.hstack([np.ravel(v) for v in circ]), 1))
    return out


# -------------------------------------------------------------------- processes
def process(ctx, plan, w):
    import pointpats as P

    ring = {"box": [(0.0, 0.0), (0.0, 10.0), (12.0, 10.0), (12.0, 0.0), (0.0, 0.0)],
            "tri": [(0.0, 0.0), (3.0, 10.0), (12.0, 2.0), (0.0, 0.0)],
            "ring": [(0.0, 0.0), (0.0, 10.0), (12.0, 10.0), (12.0, 0.0), (0.0, 0.0)]}[plan["win"]]
    hole = [[(2.0, 2.0), (9.0, 2.0), (9.0, 8.0), (2.0, 8.0), (2.0, 2.0)]] if plan["win"] == "ring" else None

    def sc(r):
        return [(a * w.s, b * w.s) for a, b in r]

    win = P.Window([sc(ring)], [sc(h) for h in hole]) if hole else P.Window(sc(ring))
    stream = plan["stream"]
    if plan["cond"]:
        stream = {k: v for k, v in stream.items() if k not in ("extreme", "tiny")}
    bg = seams.SimBitGen(plan["sseed"], stream, plan["burst"])
    old = np.random.get_bit_generator()
    np.random.set_bit_generator(bg)
    try:
        if plan["proc"] == "poisson":
            q = P.PoissonPointProcess(win, plan["n"], plan["samples"], conditioning=plan["cond"], asPP=plan["aspp"])
        else:
            q = P.PoissonClusterPointProcess(win, plan["n"], 2, 1.5 * w.s, plan["samples"], conditioning=plan["cond"], asPP=plan["aspp"])
    finally:
        np.random.set_bit_generator(old)
    out = [("parameters", [int(q.parameters[i]["n"]) for i in range(plan["samples"])], "exact")]
    for i in range(plan["samples"]):
        x = q.realizations[i]
        out.append((f"realization {i}", np.asarray(getattr(x, "points", x), float).reshape(-1, 2), 1))
    return out


def shrink(plan):
    for key, v in (("before", None), ("stream", {}), ("et", 0), ("reps", 1), ("real", 0), ("perms", 0), ("sims", 1), ("n", 2)):
        if key in plan and plan[key] != v:
            yield {**plan, key: v}
    for e in (1, -1, plan["e"] // 2):
        if e and abs(e) < abs(plan["e"]):
            yield {**plan, "e": e}
    for key in ("pts", "ev"):
        if key in plan and plan[key]["n"] > 4:
            q = json.loads(json.dumps(plan))
            q[key]["n"] = max(4, q[key]["n"] // 2)
            yield q
