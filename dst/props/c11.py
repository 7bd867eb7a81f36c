"""C11: point process classes honour size, window and recorded parameters."""

import math

import numpy as np

from .. import seams
from ..util import quiet

RUNS = {"quick": 5000, "thorough": 150000}
RULE = (
    "A run puts a simulated bit stream under numpy's global generator (unlucky: extremes, repeats, bursts "
    "at one end that starve the refill loop, zero and huge Poisson draws), builds one to three point "
    "processes in a window that may be a sliver, a ring or several parts, and checks every realization "
    "against the recorded parameters, the window and the cluster structure; the same stream must give the "
    "same points with and without asPP. Non-trivial: the stream deviated, or points were rejected."
)
REAL = ["pointpats.process", "pointpats.window", "numpy legacy distributions", "libpysal point in polygon"]
STUB = ["the bit stream under numpy's global generator"]
ASSUME = ["Poisson counts are not driven to values no real stream reaches (two doubles within 2**-40 of an edge in a row)",
          "windows are simple polygons with area", "a point within rounding of the boundary counts as inside",
          "cluster structure is judged where no point was rejected by the window"]
EXPECT = ["extreme", "repeat", "stuck", "tiny", "low", "high", "poisson", "cluster", "conditioned", "zero-draw", "rejected",
          "refilled", "asPP", "window:box", "window:tri", "window:ring", "window:parts", "window:sliver", "clusters-judged", "keep",
          "uneven", "circle", "failing-window", "realize", "no-samples", "kept-parents", "many-sizes"]


def plan(r, i, tier):
    stream = {}
    for k in seams.SimBitGen.KINDS:
        if r.random() < 0.4:
            stream[k] = r.choice((0.002, 0.02, 0.06)) if k in ("stuck", "low", "high") else r.choice((0.02, 0.1, 0.3))
    if i % 4 == 0:
        stream = {}
    p = {"stream": stream, "burst": r.choice((4, 20, 60)), "sseed": r.getrandbits(40),
         "calls": [call(r) for _ in range(r.choice((1, 1, 2, 3)))]}
    if i % 20 == 0:
        # many healthy realizations of a conditioned process: their sizes are judged as draws
        c = p["calls"][0]
        c.update(kind=r.choice(("poisson", "cluster")), cond=True, samples=r.choice((16, 24, 40)), fail=0,
                 win=r.choice(("box", "parts")))
        c.update(n=r.choice((12, 20, 30)))
        if c["kind"] == "cluster":
            c.update(parents=r.choice((6, 9, 15)), radius=r.choice((0.01, 0.05)), keep=r.random() < 0.3)
    return p


def call(r):
    c = {"kind": r.choice(("poisson", "cluster", "cluster", "circle")), "win": r.choice(("box", "box", "tri", "ring", "parts", "sliver")),
         "box": [round(r.uniform(-90, 90), 3), round(r.uniform(-40, 40), 3), round(r.uniform(1, 30), 3), round(r.uniform(1, 30), 3)],
         "n": r.choice((0, 1, 2, 3, 5, 7, 10, 14, 23, 40)), "samples": r.choice((0, 1, 1, 2, 4)), "cond": r.random() < 0.5,
         "as": r.random() < 0.5, "fail": r.choice((0, 0, 0, 0, 1, 2, 5))}
    c["lo"] = r.random() < 0.3
    if c["kind"] == "cluster":
        c["parents"] = r.choice((1, 2, 3, 4, 5, 6, 10))
        c["radius"] = r.choice((0.002, 0.01, 0.05, 0.3))
        c["keep"] = r.random() < 0.35
        if r.random() < 0.4:
            c["n"] = c["parents"] * r.choice((1, 2, 3, 4))
    if c["kind"] == "circle":
        c["burn"] = r.choice((1, 2, 2, 5))
        c["radius"] = r.choice((0.002, 0.5, 7.0))
    return c


def rings(c):
    x, y, w, h = c["box"]
    k = c["win"]

    def box(a, b, cc, d):
        return [(a, b), (a, d), (cc, d), (cc, b), (a, b)]

    if k == "box":
        return [box(x, y, x + w, y + h)], []
    if k == "tri":
        return [[(x, y), (x + w * 0.3, y + h), (x + w, y + h * 0.1), (x, y)]], []
    if k == "ring":
        return [box(x, y, x + w, y + h)], [box(x + w * .1, y + h * .2, x + w * .9, y + h * .9)[::-1]]
    if k == "parts":
        return [box(x, y, x + w * .4, y + h * .4), box(x + w * .6, y + h * .7, x + w, y + h)], []
    return [[(x, y), (x + w, y + h), (x + w, y + h * 0.93), (x + w * .06, y), (x, y)]], []


def window(c, record=None):
    from pointpats import Window

    class Seen(Window):
        """The caller's own window: notes what is tested and may fail."""

        def filter_contained(self, points):
            if record is not None:
                record["calls"] += 1
                if record["fail"] and record["calls"] == record["fail"]:
                    raise RuntimeError("injected")
            out = super().filter_contained(points)
            if record is not None:
                record["got"].append((len(points), len(out)))
            return out

    parts, holes = rings(c)
    return Seen(parts, holes) if holes else Seen(parts)


def in_window(c, pts):
    import shapely

    parts, holes = rings(c)
    g = shapely.union_all([shapely.Polygon(p) for p in parts])
    if holes:
        g = g.difference(shapely.union_all([shapely.Polygon(p) for p in holes]))
    return shapely.distance(g, shapely.points(np.asarray(pts, float).reshape(-1, 2))) <= 1e-9 * max(c["box"][2:]) + 1e-13


def make(c, w, as_pp):
    from pointpats import process

    if c["kind"] == "poisson":
        return process.PoissonPointProcess(w, c["n"], c["samples"], conditioning=c["cond"], asPP=as_pp)
    return process.PoissonClusterPointProcess(w, c["n"], c["parents"], c["radius"], c["samples"], keep=c["keep"], asPP=as_pp,
                                              conditioning=c["cond"])


class Stream:
    """numpy's global generator on a simulated bit stream."""

    def __init__(self, plan, k):
        stream, c = plan["stream"], plan["calls"][k % 100]
        if c["cond"] and c.get("parents", c["n"]) >= 10:
            # numpy's rejection sampler for larger means can be led to astronomical
            # counts by two extreme doubles in a row; no real stream delivers those
            stream = {f: v for f, v in stream.items() if f not in ("extreme", "tiny")}
        self.bg = seams.SimBitGen(plan["sseed"] + k, stream, plan["burst"])

    def __enter__(self):
        self.old = np.random.get_bit_generator()
        np.random.set_bit_generator(self.bg)
        return self.bg

    def __exit__(self, *a):
        np.random.set_bit_generator(self.old)


def groups(pts, d):
    """Number of single-linkage groups at distance d."""
    from scipy.sparse.csgraph import connected_components
    from scipy.spatial.distance import cdist

    if not len(pts):
        return 0, np.zeros(0, int)
    k, lab = connected_components(cdist(pts, pts) <= d, directed=False)
    return k, lab


def run(ctx, plan):
    for k, c in enumerate(plan["calls"]):
        if c["kind"] == "circle":
            circle(ctx, plan, k, c)
        else:
            one(ctx, plan, k, c)


def circle(ctx, plan, k, c):
    from pointpats import process

    ctx.probe("circle")
    centre = (c["box"][0], c["box"][1])
    with Stream(plan, k) as bg:
        pts = process.runif_in_circle(c["n"], c["radius"], centre, c["burn"])
    for f, n in bg.fired.items():
        ctx.fault(f, n)
        ctx.nontrivial = True

    def go():
        p = np.asarray(pts, float)
        ctx.check(p.shape == (c["n"], 2), "wrong number of points in a circle", lambda: f"{p.shape} {c}")
        d = np.hypot(p[:, 0] - centre[0], p[:, 1] - centre[1])
        ctx.check((d <= c["radius"] * (1 + 1e-9) + 1e-12).all(), "a point lies outside its circle", lambda: f"{d.max()} {c}")

    ctx.judge(go)
    ctx.log("circle", c["n"], np.asarray(pts).tobytes())


def one(ctx, plan, k, c):
    ctx.probe(c["kind"])
    ctx.probe("window:" + c["win"])
    if c["cond"]:
        ctx.probe("conditioned")
    if c["samples"] == 0:
        ctx.probe("no-samples")
    rec = {"calls": 0, "fail": c["fail"], "got": []}
    w = window(c, rec)
    failed = False
    with Stream(plan, k) as bg:
        try:
            pp = quiet(lambda: make(c, w, c["as"]))
        except RuntimeError as e:
            ctx.check(str(e) == "injected", "building a process failed", lambda: f"{e!r} {c}")
            failed = True
    if failed:
        ctx.fault("failing-window")
        ctx.nontrivial = True
        rec["fail"] = 0
        rec["got"].clear()
        with Stream(plan, k) as bg:
            pp = quiet(lambda: make(c, w, c["as"]))
    elif c["fail"]:
        ctx.check(not (rec["calls"] >= c["fail"]), "a failing window went unnoticed", lambda: f"{c}")
    for f, n in bg.fired.items():
        ctx.fault(f, n)
        ctx.nontrivial = True
    tested, kept = (sum(g[j] for g in rec["got"]) for j in (0, 1))
    if kept < tested:
        ctx.probe("rejected")
        ctx.nontrivial = True
    ctx.judge(lambda: verify(ctx, plan, k, c, pp, w, rec))
    # the same stream gives the same points in the other form
    with Stream(plan, k):
        twin = quiet(lambda: make(c, window(c), not c["as"]))
    for i in range(c["samples"]):
        a, b = (points_of(ctx, x.realizations[i], s, c) for x, s in ((pp, c["as"]), (twin, not c["as"])))
        ctx.check(a.shape == b.shape and a.tobytes() == b.tobytes(), "asPP changes the points", lambda: f"realization {i} of {c}")
    if c["kind"] == "cluster" and c["n"]:
        realize(ctx, plan, k, c, pp)
    ctx.log(c["kind"], [np.asarray(points_of(ctx, pp.realizations[i], c["as"], c)).tobytes() for i in range(c["samples"])], rec["got"])


def points_of(ctx, r, as_pp, c):
    from pointpats import PointPattern

    if as_pp:
        ctx.check(isinstance(r, PointPattern), "a realization is not a PointPattern", lambda: f"{type(r)} {c}")
        return np.asarray(r.points.values, float).reshape(-1, 2)
    ctx.check(isinstance(r, np.ndarray) and r.ndim == 2 and r.shape[1] == 2, "a realization is not an (n, 2) array",
              lambda: f"{type(r)} {np.shape(r)} {c}")
    return np.asarray(r, float)


def verify(ctx, plan, k, c, pp, w, rec):
    want = list(range(c["samples"]))
    ctx.check(sorted(pp.realizations) == want and sorted(pp.parameters) == want, "wrong number of realizations",
              lambda: f"{sorted(pp.realizations)} {sorted(pp.parameters)} {c}")
    children = None
    if c["kind"] == "cluster":
        children = math.ceil(c["n"] / c["parents"])
        ctx.check(pp.children == children, "children per parent", lambda: f"{pp.children} {c}")
        ctx.check(sorted(pp.num_parents) == want, "parents are not recorded", lambda: f"{pp.num_parents} {c}")
    counts = []
    for i in want:
        n = int(pp.parameters[i]["n"])
        counts.append(n)
        if not c["cond"]:
            ctx.check(n == c["n"], "an unconditioned process has another size", lambda: f"{n} {c}")
            if children is not None:
                ctx.check(int(pp.num_parents[i]) == c["parents"], "wrong number of parents", lambda: f"{pp.num_parents} {c}")
        elif children is not None:
            ctx.check(n == int(pp.num_parents[i]) * children, "size is not parents times children", lambda: f"{n} {pp.num_parents[i]} {c}")
        if c["cond"] and n == 0 and c["n"]:
            ctx.probe("zero-draw")
        r = pp.realizations[i]
        p = points_of(ctx, r, c["as"], c)
        ctx.check(len(p) == n, "a realization has another number of points than recorded", lambda: f"{len(p)} for {n} {c}")
        ctx.check(np.isfinite(p).all() and in_window(c, p).all(), "a point lies outside the window", lambda: f"{p[~in_window(c, p)][:3]} {c}")
        if c["as"]:
            ctx.probe("asPP")
            ctx.check(r.n == n, "a realization's n", lambda: f"{r.n} {n} {c}")
            ctx.check(r.window is w or [list(map(tuple, q)) for q in r.window.parts] == [list(map(tuple, q)) for q in w.parts],
                      "a realization has another window", lambda: f"{c}")
    if c["cond"] and not plan["stream"]:
        # the counts are Poisson draws around n (or parents): far outliers are wrong
        lam = c["n"] if children is None else c["parents"]
        for i, n in enumerate(counts):
            v = n if children is None else int(pp.num_parents[i])
            ctx.check(abs(v - lam) <= 9 * math.sqrt(lam) + 12, "a Poisson count is far from its mean", lambda: f"{v} for {lam} {c}")
        if c["samples"] >= 10 and lam >= 5:
            sizes = counts if children is None else [int(pp.num_parents[i]) for i in want]
            judge_sizes(ctx, sizes, lam, c)
    if c["kind"] == "cluster":
        if c["keep"]:
            ctx.probe("keep")
        if c["n"] % c["parents"]:
            ctx.probe("uneven")
        calls = rec["got"]
        live = [n for n in counts if n]
        # one batch per realization and nothing rejected: the points are whole clusters
        if len(live) == len(calls) and all(a == b for a, b in calls):
            for i in want:
                if not counts[i]:
                    continue
                p = points_of(ctx, pp.realizations[i], c["as"], c)
                g, lab = groups(p, 2 * c["radius"] * (1 + 1e-9))
                ctx.check(g <= int(pp.num_parents[i]), "more clusters than parents",
                          lambda: f"{g} groups for {pp.num_parents[i]} parents, {counts[i]} points {c}")
                ctx.probe("clusters-judged")
        elif len(calls) > len(live):
            ctx.probe("refilled")
            # clusters are still whole in number when nothing was rejected
            ctx.check(any(a > b for a, b in calls), "a batch was too small although nothing was rejected",
                      lambda: f"{calls} for {counts} {c}")
    elif len(rec["got"]) > len([n for n in counts if n]):
        ctx.probe("refilled")


def judge_sizes(ctx, sizes, lam, c):
    """Independent Poisson draws: their sum and their spread, each at odds of 1 in 10**11 per call."""
    from scipy import stats

    ctx.probe("many-sizes")
    m, tail = len(sizes), 1e-11
    total = int(np.sum(sizes))
    ctx.check(min(stats.poisson.cdf(total, m * lam), stats.poisson.sf(total - 1, m * lam)) >= tail,
              "the sizes are not draws around their mean", lambda: f"{sizes} {lam} {c}")
    spread = float(np.sum((np.asarray(sizes) - lam) ** 2)) / lam
    # the dispersion of m Poisson counts is close to chi-square; the bounds are far outside either
    ctx.check(stats.chi2.ppf(1e-13, m) * 0.5 <= spread <= stats.chi2.isf(1e-13, m) * 1.6,
              "the sizes do not vary like independent draws", lambda: f"{sizes} spread {spread} {lam} {c}")


def realize(ctx, plan, k, c, pp):
    """The clusters of one batch: each `children` points within the radius of a parent."""
    ctx.probe("realize")
    with Stream({**plan, "stream": {}}, k + 100):
        pts = pp.realize(c["n"])

    def go():
        p = np.asarray(pts, float)
        ctx.check(p.ndim == 2 and p.shape[1] == 2 and len(p) >= c["n"], "a batch is too small", lambda: f"{p.shape} {c}")
        m = pp.children
        per = m + (1 if c["keep"] else 0)
        ctx.check(len(p) % per == 0, "a batch does not consist of whole clusters", lambda: f"{p.shape} {c}")
        x, y, w, h = c["box"]
        parts, _ = rings(c)
        v = np.array([q for ring in parts for q in ring])
        lo, hi = v.min(0) - c["radius"] * (1 + 1e-9), v.max(0) + c["radius"] * (1 + 1e-9)
        ctx.check(((p >= lo) & (p <= hi)).all(), "a child is further than the radius from the window's box", lambda: f"{c}")
        g, lab = groups(p, 2 * c["radius"] * (1 + 1e-9))
        ctx.check(g <= len(p) // per, "a child has no parent in reach", lambda: f"{g} groups of {len(p)} points {c}")
        for q in range(g):
            size = (lab == q).sum()
            ctx.check(size % per == 0, "a cluster has the wrong number of children", lambda: f"{size} {per} {c}")
            if size == per:
                # every child within the radius of one point: the smallest circle fits
                a = p[lab == q]
                if c["keep"]:
                    from scipy.spatial.distance import cdist

                    ok = (cdist(a, a).max(1) <= c["radius"] * (1 + 1e-9)).any()
                    ctx.probe("kept-parents")
                    ctx.check(ok, "a kept parent is not its children's centre", lambda: f"{c}")
                else:
                    import shapely

                    rad = shapely.minimum_bounding_radius(shapely.MultiPoint(a))
                    ctx.check(rad <= c["radius"] * (1 + 1e-6) + 1e-12, "children do not fit one circle of the radius", lambda: f"{rad} {c}")

    ctx.judge(go)


def shrink(plan):
    from .. import core

    yield from core.drops(plan, "calls")
    if plan["stream"]:
        yield {**plan, "stream": {}}
    for j, c in enumerate(plan["calls"]):
        for key, v in (("fail", 0), ("as", False), ("samples", 1), ("cond", False), ("win", "box"), ("n", 2), ("n", c["n"] - 1)):
            if c.get(key) != v and (key != "n" or 0 < v < c["n"]):
                q = [dict(x) for x in plan["calls"]]
                q[j][key] = v
                yield {**plan, "calls": q}
