"""C15: the distribution of simulated patterns and permutations, over many controlled draws."""

import json
import math

import numpy as np

from .. import core, seams
from ..util import HULLS, gen_hull, hull_bounds, inside, make_hull, quiet
from .c04 import hull_contains, the_hull
from .c06 import the_window

RUNS = {"quick": 960, "thorough": 5760}
TIMEOUT = 75
BUDGET = {"quick": 500, "thorough": 5000}
RULE = (
    "A run is one experiment: it draws a hull, window or event set, has the library produce a few "
    "thousand points, permutations or simulated statistics from streams the simulator seeds, and "
    "tests the pooled sample against the exact distribution (areas, enumeration of every "
    "permutation, hypergeometric counts) or against the harness's own complete spatial randomness. "
    "Non-trivial: the sample had at least 200 members."
)
REAL = ["pointpats.random", "pointpats.distance_statistics", "pointpats.quadrat_statistics", "pointpats.spacetime",
        "pointpats.process", "numpy Generator/RandomState distributions and permutation code", "joblib (sequential)"]
STUB = ["operating system entropy (seeded stream)"]
ASSUME = ["each test of fit alarms below 1e-10, or beyond 6.5 standard errors; smaller biases stay unseen",
          "the Ripley statistics themselves are taken from the library's direct functions"]
EXPECT = ["hull", "normal", "circle", "strauss", "process", "counts", "perm", "local", "ripley-sims", "ripley-rank",
          "empty-space", "quad-sims", "quad-rank", "mantel", "jacquez", "modknox", "oldknox", "cluster", "correlated", "cluster-normal",
          "between", "between-process"]
KINDS = ("hull", "between", "perm", "local", "ripley-sims", "ripley-rank", "quad-sims", "quad-rank", "empty-space",
         "normal", "process", "hull", "perm", "local", "ripley-sims", "ripley-rank", "hull", "circle", "strauss", "counts",
         "cluster", "ripley-sims", "between", "cluster-normal")
RIPLEY_HULLS = ("bbox", "polygon", "multi", "holed", "convex", "offset", "sliver", "tiny", "whole")
P = 1e-10
Z = 6.5


def plan(r, i, tier):
    kind = KINDS[i % len(KINDS)]
    p = {"kind": kind, "k": r.getrandbits(32), "m": 1}
    if kind in ("hull", "normal", "circle", "strauss", "cluster", "empty-space", "ripley-rank", "between",
                "cluster-normal"):
        p["hull"] = gen_hull(r, RIPLEY_HULLS if kind == "empty-space" else HULLS)
    if kind == "between":
        p["gen"] = ("poisson", "normal", "normal-cov", "cluster_poisson", "process", "normal-covs", "cluster_normal",
                    "strauss", "cluster-process", "circle")[(i // 24 * 2 + (i % 24 > 9)) % 10]
        p["form"] = r.choice(("reps", "reps", "shared", "none", "ints"))
        if p["gen"] in ("normal", "strauss") and p["hull"]["kind"] == "sliver":
            p["hull"] = gen_hull(r, ("polygon", "bbox", "multi"))  # a sliver costs millions of rejected candidates
    if kind == "strauss":
        p["gamma"] = r.choice((1.0, 0.1, 1.5))
        p["hull"] = gen_hull(r, HULLS if p["gamma"] == 1 else ("bbox", "tiny", "polygon", "holed"))
    if kind == "hull":
        p["form"] = r.choice(("one", "reps", "single", "intensity", "int-seeds", "none", "global-free"))
    if kind == "normal":
        p["cov"] = r.choice(("default", "diag", "equal", "correlated", "3d"))
    if kind in ("perm", "local"):
        p["test"] = r.choice(("knox", "knox", "oldknox", "mantel", "jacquez", "modknox")) if kind == "perm" else "local"
        p["n"] = r.choice((4, 5, 6)) if kind == "perm" else r.choice((5, 8, 12))
        p["ev"] = r.choice(("int", "float", "ties"))
    if kind in ("ripley-sims", "ripley-rank"):
        p["stat"] = "FGJKL"[(i // 3) % 5] if kind == "ripley-sims" else r.choice("FGKL")
        p["n"] = r.choice((6, 12, 20))
        if kind == "ripley-rank":
            p["hull"] = gen_hull(r, ("bbox", "polygon", "tiny", "offset") if p["stat"] == "F" else RIPLEY_HULLS)
        p["pattern"] = r.choice(("clusters", "uniform", "grid"))
        p["hullkind"] = r.choice((None, "bbox", "convex", "big", "poly"))
        p["support"] = r.choice((None, 6, 12, "array"))
        p["jobs"] = r.choice((1, 1, 2))
    if kind in ("quad-sims", "quad-rank"):
        p["window"] = r.choice((None, "box", "tri", "ring", "parts")) if kind == "quad-sims" else r.choice(
            ("box", "tri", "ring", "parts"))
        p["shape"] = r.choice(("rectangle", "rectangle", "hexagon"))
        p["n"] = r.choice((8, 15, 30))
        p["grid"] = [r.choice((2, 3, 4)), r.choice((2, 3))]
        p["widths"] = r.random() < 0.3 and kind == "quad-sims"
    if kind in ("process", "counts"):
        p["window"] = r.choice(("box", "tri", "parts"))
        p["aspp"] = r.random() < 0.5
        p["n"] = r.choice((3, 7, 20))
    return p


def run(ctx, plan):
    ctx.probe(plan["kind"])
    rs = np.random.Generator(np.random.PCG64(plan["k"]))
    seams.reset(plan["k"], plan["k"] + 7)
    n = {"hull": hull_run, "normal": normal_run, "circle": circle_run, "strauss": strauss_run, "process": process_run,
         "counts": counts_run, "perm": perm_run, "local": local_run, "ripley-sims": sims_run, "ripley-rank": rank_run,
         "quad-sims": quad_sims, "quad-rank": quad_rank, "empty-space": empty_run, "cluster": cluster_run,
         "cluster-normal": cluster_normal_run, "between": between_run,
         }[plan["kind"]](ctx, plan, rs)
    ctx.nontrivial = (n or 0) >= 200
    ctx.log(plan["kind"], n)


# ------------------------------------------------------------------- verdicts
def fit(ctx, counts, prob, what):
    """Chi-square goodness of fit; cells with small expectation are pooled."""
    import scipy.stats as ss

    counts, prob = np.asarray(counts, float), np.asarray(prob, float)
    total = counts.sum()
    ctx.check(counts[prob <= 0].sum() == 0, f"{what}: an impossible outcome", lambda: f"{counts} {prob}")
    counts, prob = counts[prob > 0], prob[prob > 0] / prob[prob > 0].sum()
    order = np.argsort(-prob)
    cells, c, e = [], 0.0, 0.0
    for i in order:
        c, e = c + counts[i], e + prob[i] * total
        if e >= 25:
            cells.append((c, e))
            c = e = 0.0
    if e and cells:
        cells[-1] = (cells[-1][0] + c, cells[-1][1] + e)
    if len(cells) < 2:
        return
    o, e = np.array(cells).T
    x = ((o - e) ** 2 / e).sum()
    p = ss.chi2.sf(x, len(e) - 1)
    ctx.log("fit", what, float(x).hex())
    ctx.check(p > P, f"{what}: not the distribution promised",
              lambda: f"chi2 {x:.1f} on {len(e) - 1} df, p={p:.2g}; observed {o[:12]} expected {np.round(e[:12], 1)}")


def table(ctx, a, b, what):
    """Independence of two small label sequences."""
    import scipy.stats as ss

    t = np.zeros((int(a.max()) + 1, int(b.max()) + 1))
    np.add.at(t, (a, b), 1)
    t = t[t.sum(1) > 0][:, t.sum(0) > 0]
    if min(t.shape) < 2:
        return
    e = t.sum(1, keepdims=True) * t.sum(0) / t.sum()
    if e.min() < 10:
        return
    x = ((t - e) ** 2 / e).sum()
    p = ss.chi2.sf(x, (t.shape[0] - 1) * (t.shape[1] - 1))
    ctx.check(p > P, f"{what}: successive draws depend on each other", lambda: f"chi2 {x:.1f}, p={p:.2g}, table {t.tolist()}")


def ks(ctx, a, b, what):
    import scipy.stats as ss

    p = ss.ks_2samp(a, b, method="asymp").pvalue if not callable(b) else ss.kstest(a, b).pvalue
    ctx.check(p > P, f"{what}: not the distribution promised",
              lambda: f"Kolmogorov-Smirnov p={p:.2g}, medians {np.median(a)} {np.median(b) if not callable(b) else ''}")


def polygon(h):
    """A shapely version of the harness's hull description."""
    import shapely

    g = make_hull(h)
    if isinstance(g, np.ndarray):
        return shapely.box(*hull_bounds(h))
    if hasattr(g, "equations"):
        return shapely.Polygon(g.points[g.vertices])
    return g


def cells_of(poly, k=5):
    import shapely

    x0, y0, x1, y1 = poly.bounds
    xs, ys = np.linspace(x0, x1, k + 1), np.linspace(y0, y1, k + 1)
    return np.array([[shapely.intersection(shapely.box(xs[i], ys[j], xs[i + 1], ys[j + 1]), poly).area
                      for j in range(k)] for i in range(k)])


def place(poly, pts, k=5):
    x0, y0, x1, y1 = poly.bounds
    i = np.clip(((pts[:, 0] - x0) / (x1 - x0) * k).astype(int), 0, k - 1)
    j = np.clip(((pts[:, 1] - y0) / (y1 - y0) * k).astype(int), 0, k - 1)
    return i * k + j


def uniform_over(ctx, poly, pts, what, k=5):
    area = cells_of(poly, k).ravel()
    area[area < 1e-9 * area.sum()] = 0
    at = place(poly, pts, k)
    zero = area[at] == 0  # rounding at a cell edge
    fit(ctx, np.bincount(at[~zero], minlength=k * k), area, what)
    ctx.check(zero.sum() <= 0.001 * len(pts) + 1, f"{what}: points where there is no area", lambda: f"{pts[zero][:5]}")


def distinct(ctx, pts, what):
    ctx.check(len(np.unique(pts, axis=0)) == len(pts), f"{what}: independent points repeat each other",
              lambda: f"{len(pts) - len(np.unique(pts, axis=0))} of {len(pts)} repeated")


# ----------------------------------------------------------------- generators
def hull_run(ctx, plan, rs):
    from pointpats.random import poisson

    h, form, m = plan["hull"], plan["form"], plan["m"]
    poly = polygon(h)
    hull = lambda: make_hull(h)
    what = f"poisson() {form}"
    n = 6000 // m
    if form == "one":
        pts = poisson(hull(), size=n, rng=plan["k"])[None]
    elif form == "reps":
        pts = poisson(hull(), size=(4, n // 4), rng=np.random.default_rng(plan["k"]))
    elif form == "single":
        pts = poisson(hull(), size=(1, n), rng=np.random.default_rng(plan["k"]))
    elif form == "intensity":
        pts = poisson(hull(), intensity=5.5 / poly.area, size=n // 5, rng=plan["k"])
    elif form == "int-seeds":
        hh = hull()
        pts = np.array([poisson(hh, size=3, rng=plan["k"] + i) for i in range(n // 4)])
    elif form == "none":
        hh = hull()
        pts = np.array([poisson(hh, size=3) for i in range(n // 4)])
    else:  # the global numpy stream is rewound between the calls: it must not matter
        hh, got = hull(), []
        for _ in range(n // 4):
            np.random.seed(5)
            got.append(poisson(hh, size=3))
        pts = np.array(got)
    pts = np.asarray(pts, float)
    flat = pts.reshape(-1, 2)
    ctx.log("pts", flat)
    uniform_over(ctx, poly, flat, what)
    wide = h["kind"] not in ("sliver",)
    if wide or h["box"][2] > 1:
        distinct(ctx, flat, what)
    if len(pts) >= 500:
        uniform_over(ctx, poly, pts[:, 0], what + " (first of each)", 3)
        uniform_over(ctx, poly, pts[:, -1], what + " (last of each)", 3)
        at = place(poly, pts[:, 0], 3)
        table(ctx, at[:-1], at[1:], what + " (replications)")
    for axis in (0, 1):
        med = np.median(flat[:, axis])
        s = (flat[:, axis] > med).astype(int)
        table(ctx, s[:-1], s[1:], what)
    s, t = flat[:-1, 0] > np.median(flat[:, 0]), flat[1:, 1] > np.median(flat[:, 1])
    table(ctx, s.astype(int), t.astype(int), what)
    return len(flat)


def normal_run(ctx, plan, rs):
    import scipy.stats as ss
    from pointpats.random import normal

    ctx.probe("normal")
    n, kind = 2500 // plan["m"], plan["cov"]
    x0, y0 = plan["hull"]["box"][:2]
    sx, sy = float(rs.uniform(0.5, 3)), float(rs.uniform(3.5, 9))
    c = np.array([x0, y0])
    big = np.array([x0 - 90, y0 - 90, x0 + 90, y0 + 90])
    if kind == "default":
        # cut at the window: compare with the harness's own rejection sampling
        box = np.array([x0, y0, x0 + 30.0, y0 + 12.0])
        pts = normal(box, size=n, rng=plan["k"])
        own = rs.normal(0, 15.0, (60 * n, 2)) + (x0 + 15, y0 + 6)
        own = own[((own >= box[:2]) & (own <= box[2:])).all(1)][:n]
        ks(ctx, pts[:, 0], own[:, 0], "normal() x")
        ks(ctx, pts[:, 1], own[:, 1], "normal() y")
        return n
    if kind == "3d":
        covs = np.array([np.diag([sx**2, sy**2]), np.diag([sy**2, sx**2])])
        pts = normal(big, center=c, cov=covs, size=(n // 2, 2), rng=plan["k"])
        for p, v in zip(pts, covs):
            for a in (0, 1):
                ks(ctx, p[:, a], ss.norm(c[a], math.sqrt(v[a, a])).cdf, "normal() with one covariance per replication")
        return n
    rho = float(rs.uniform(0.45, 0.8)) * rs.choice((-1, 1))
    if kind == "diag":
        cov = np.diag([sx**2, sy**2])
    elif kind == "equal":
        cov = sx**2 * np.array([[1, rho], [rho, 1]])
    else:
        ctx.probe("correlated")
        cov = np.array([[sx**2, rho * sx * sy], [rho * sx * sy, sy**2]])
    pts = quiet(lambda: normal(big, center=c, cov=cov, size=n, rng=plan["k"]))
    d = pts - c
    se = np.sqrt(np.diag(cov) / n)
    ctx.check((np.abs(d.mean(0)) < Z * 2 * se).all(), "normal(): another centre", lambda: f"{pts.mean(0)} vs {c}")
    got = d.T @ d / n

    def close(want):
        tol = Z * np.sqrt((np.outer(np.diag(want), np.diag(want)) + want**2) / n)
        return (np.abs(got - want) < tol).all()

    if kind == "correlated" and not close(cov):
        sd = np.sqrt(np.diag(cov))
        u, s, v = np.linalg.svd((1 / sd) * cov * (1 / sd))  # what numpy samples from the lopsided matrix
        wrong = (u * s) @ u.T * np.outer(sd, sd), (v.T * s) @ v * np.outer(sd, sd)
        if any(map(close, wrong)):
            ctx.fail("normal() has another covariance than the one given",
                     f"correlated axes of unequal variance: asked {cov.tolist()}, got {got.tolist()}")
        ctx.fail("normal(): not the covariance given", f"asked {cov.tolist()}, got {got.tolist()}")
    ctx.check(close(cov), "normal(): not the covariance given", lambda: f"asked {cov.tolist()}, got {got.tolist()}")
    for a in (0, 1):
        if kind != "correlated":
            ks(ctx, pts[:, a], ss.norm(c[a], math.sqrt(cov[a, a])).cdf, "normal()")
    return n


def polar(ctx, d, radius, what):
    q = (d**2).sum(1) / radius**2
    ctx.check((q <= 1 + 1e-9).all(), f"{what}: a point outside the circle", lambda: f"{q.max()}")
    ks(ctx, q, lambda x: np.clip(x, 0, 1), what + " (radius)")
    ks(ctx, (np.arctan2(d[:, 1], d[:, 0]) + math.pi) / (2 * math.pi), lambda x: np.clip(x, 0, 1), what + " (angle)")


def circle_run(ctx, plan, rs):
    from pointpats.process import runif_in_circle

    n = 3000 // plan["m"]
    c, R = plan["hull"]["box"][:2], float(plan["hull"]["box"][2])
    got = [quiet(lambda k=k: runif_in_circle(k, R, c)) for k in [int(x) for x in rs.integers(1, 40, n // 20)]]
    ctx.log("circle", *got[:5])
    d = np.vstack(got) - np.asarray(c)
    polar(ctx, d, R, "runif_in_circle()")
    polar(ctx, np.array([g[0] for g in got]) - np.asarray(c), R, "runif_in_circle() (first)")
    polar(ctx, np.array([g[-1] for g in got]) - np.asarray(c), R, "runif_in_circle() (last)")
    return len(d)


def cluster_run(ctx, plan, rs):
    import shapely
    from pointpats.random import cluster_poisson

    h = plan["hull"]
    poly = polygon(h)
    b = poly.bounds
    R = 0.04 * max(b[2] - b[0], b[3] - b[1]) if h["kind"] != "sliver" else 0.4 * (b[3] - b[1])
    n, m = 400 // plan["m"], 7
    out = cluster_poisson(make_hull(h), size=(m, n), n_seeds=1, cluster_radius=R, rng=plan["k"])
    seeds = out[:, 0]
    uniform_over(ctx, poly, seeds, "cluster_poisson() centres", 3)
    safe = shapely.distance(poly.boundary, shapely.points(seeds)) > R
    if safe.sum() > 40:
        d = (out[safe, 1:] - seeds[safe][:, None]).reshape(-1, 2)
        off = max(map(abs, b))
        polar(ctx, d, R * (1 + 1e-12) + off * 1e-13, "cluster_poisson()")
    return n * m


def cluster_normal_run(ctx, plan, rs):
    import scipy.stats as ss
    import shapely
    from pointpats.random import cluster_normal

    h = plan["hull"]
    poly = polygon(h)
    b = poly.bounds
    short = min(b[2] - b[0], b[3] - b[1])
    # wide against the rounding of coordinates far from the origin, narrow against the hull
    sd = np.array([0.02, 0.035]) * short * rs.permutation([1.0, 0.6])
    n, m = 400 // plan["m"], 6
    out = cluster_normal(make_hull(h), size=(m, n), n_seeds=1, cov=np.diag(sd**2), rng=plan["k"])
    seeds = out[:, 0]
    ctx.log("cluster_normal", out)
    uniform_over(ctx, poly, seeds, "cluster_normal() centres", 3)
    # beyond 5.5 standard deviations the hull cuts nothing that the test could see
    safe = shapely.distance(poly.boundary, shapely.points(seeds)) > 5.5 * sd.max()
    if safe.sum() > 40:
        d = (out[safe, 1:] - seeds[safe][:, None]).reshape(-1, 2)
        for a in (0, 1):
            ks(ctx, d[:, a], ss.norm(0, sd[a]).cdf, "cluster_normal()")
        s = (d > 0).astype(int)
        table(ctx, s[:, 0], s[:, 1], "cluster_normal() axes")
    return n * m


def between_run(ctx, plan, rs):
    """Replications, and calls, are independent of the one before."""
    import pointpats
    from pointpats import random as pr
    from pointpats.process import runif_in_circle
    from ..util import quiet

    gen, form, k = plan["gen"], plan["form"], plan["k"] % 2**31
    h = plan["hull"]
    reps, n = 1200 // plan["m"], 3
    poly = polygon(h)
    b = np.array(poly.bounds)
    hull, r = make_hull(h), 0.07 * float(min(b[2:] - b[:2]))
    mid = np.array([poly.representative_point().x, poly.representative_point().y])
    cov = np.diag([r * r, 2 * r * r])
    if gen in ("process", "cluster-process"):
        ctx.probe("between-process")
        w, poly = lib_window("tri")
        n = n if gen == "process" else 4
        reps //= 2
        make = (lambda m: pointpats.PoissonPointProcess(w, n, m)) if gen == "process" else (
            lambda m: pointpats.PoissonClusterPointProcess(w, n, 2, 0.4, m))
        if form in ("reps", "shared"):
            q = quiet(lambda: make(reps))
            out = [q.realizations[i] for i in range(reps)]
        else:
            out = [quiet(lambda: make(1)).realizations[0] for _ in range(reps)]
        out = np.array([np.asarray(getattr(x, "points", x), float) for x in out])
    elif gen == "circle":
        out = np.array([quiet(lambda: runif_in_circle(n, 1.5, (3.0, 4.0))) for _ in range(reps)])
    else:
        f = {"poisson": lambda m, g: pr.poisson(hull, size=(n, m), rng=g),
             "normal": lambda m, g: pr.normal(hull, center=mid, size=(n, m), rng=g),
             "normal-cov": lambda m, g: pr.normal(hull, center=mid, cov=cov, size=(n, m), rng=g),
             "normal-covs": lambda m, g: pr.normal(hull, center=mid, cov=np.array([cov] * m), size=(n, m), rng=g),
             "cluster_poisson": lambda m, g: pr.cluster_poisson(hull, size=(4, m), n_seeds=2, cluster_radius=r, rng=g),
             "cluster_normal": lambda m, g: pr.cluster_normal(hull, size=(4, m), n_seeds=2, cov=cov, rng=g),
             "strauss": lambda m, g: pr.strauss(hull, size=(n, m), gamma=1.0, r=r, n_iter=12, rng=g)}[gen]
        if gen == "strauss":
            reps //= 2
        if form == "reps":
            out = f(reps, k)
        elif form == "shared":
            g = np.random.default_rng(k)
            out = np.concatenate([f(4, g) for _ in range(reps // 4)])
        elif form == "none":
            out = np.array([f(1, None).reshape(-1, 2) for _ in range(reps)])
        else:
            out = np.array([f(1, k + i).reshape(-1, 2) for i in range(reps)])
        out = np.asarray(out, float)
    ctx.log("between", gen, form, out)
    what = f"{gen} ({form})"
    distinct(ctx, out.reshape(-1, 2), what)
    import scipy.stats as ss

    u = ss.rankdata(out, axis=0) / len(out) - 0.5  # per point and axis
    fold = np.abs(u)
    fold = ss.rankdata(fold, axis=0) / len(out) - 0.5
    flat = [v.reshape(len(v), -1) for v in (u, fold)]
    for name, v in zip(("", "distance from the middle "), flat):
        for lag, a, c in (("the one before", v[:-1], v[1:]), ("its partner", v[0:-1:2], v[1::2]), ("the one two before", v[:-2], v[2:])):
            z = (a.T @ c) * 12 / math.sqrt(len(a))
            ctx.check(np.abs(z).max() < Z, f"{gen}: a replication depends on {lag}",
                      lambda: f"{name}{what}: correlation z {np.abs(z).max():.1f} over {len(a)} pairs")
    if gen in ("poisson", "process", "strauss", "normal", "normal-cov", "normal-covs", "circle"):
        # the points of one replication are independent as well
        for v in (u, fold):
            for i in range(n):
                for j in range(i):
                    z = (v[:, i].T @ v[:, j]) * 12 / math.sqrt(len(v))
                    ctx.check(np.abs(z).max() < Z, f"{gen}: the points of a replication depend on each other",
                              lambda: f"{what}: points {i} and {j}: z {np.abs(z).max():.1f}")
    return out.size // 2


def strauss_run(ctx, plan, rs):
    from pointpats.random import strauss

    h = plan["hull"]
    poly = polygon(h)
    hull, n = make_hull(h), 120 // plan["m"]
    if plan["gamma"] != 1:
        return interaction(ctx, plan, h, poly, rs)
    pts = np.asarray(strauss(hull, size=(4, n), gamma=1.0, r=0.05 * h["box"][2], n_iter=60, rng=plan["k"]))
    uniform_over(ctx, poly, pts.reshape(-1, 2), "strauss(gamma=1)", 3)
    return pts.size // 2


def interaction(ctx, plan, h, poly, rs):
    from pointpats.random import strauss
    from scipy.spatial.distance import pdist

    g, n, reps = plan["gamma"], 14, 36
    r = 0.12 * math.sqrt(poly.area)
    ctx.probe("inhibition" if g < 1 else "clustering")
    pts = strauss(make_hull(h), size=(n, reps), gamma=g, r=r, n_iter=450, rng=plan["k"])
    ctx.log("strauss", np.asarray(pts))
    got = np.array([(pdist(p) < r).sum() for p in pts])
    own = np.array([(pdist(csr(lambda q: inside(h, q), np.array(poly.bounds), n, rs)) < r).sum() for _ in range(400)])
    ctx.check(got.mean() < 0.5 * own.mean() if g < 1 else got.mean() > 1.3 * own.mean(),
              "strauss(): gamma does not govern the number of close pairs",
              lambda: f"gamma {g}: {got.mean()} pairs within r, {own.mean()} under complete spatial randomness")
    ctx.check((pdist(pts.reshape(-1, 2)) > 0).all(), "strauss(): replications share points")
    return n * reps


def lib_window(kind):
    import shapely
    from pointpats import Window

    if kind == "box":
        return Window([(0, 0), (0, 6), (9, 6), (9, 0), (0, 0)]), shapely.box(0, 0, 9, 6)
    if kind == "tri":
        v = [(0, 0), (5, 9), (11, 1), (0, 0)]
        return Window(v), shapely.Polygon(v)
    a, b = [(0, 0), (0, 6), (5, 6), (5, 0), (0, 0)], [(7, 3), (7, 9), (10, 9), (10, 3), (7, 3)]
    return Window([a, b]), shapely.MultiPolygon([shapely.Polygon(a), shapely.Polygon(b)])


def process_run(ctx, plan, rs):
    from pointpats import PoissonPointProcess

    w, poly = lib_window(plan["window"])
    n = plan["n"]
    reps = 2400 // n // plan["m"]
    pr = quiet(lambda: PoissonPointProcess(w, n, reps, asPP=plan["aspp"]))
    pts = np.array([np.asarray(getattr(pr.realizations[i], "points", pr.realizations[i]), float) for i in range(reps)])
    ctx.check(pts.shape == (reps, n, 2), "PoissonPointProcess: shape", lambda: f"{pts.shape}")
    ctx.log("process", pts)
    uniform_over(ctx, poly, pts.reshape(-1, 2), "PoissonPointProcess")
    uniform_over(ctx, poly, pts[:, 0], "PoissonPointProcess (first of each)", 3)
    uniform_over(ctx, poly, pts[:, -1], "PoissonPointProcess (last of each)", 3)
    distinct(ctx, pts.reshape(-1, 2), "PoissonPointProcess")
    return pts.size // 2


def counts_run(ctx, plan, rs):
    import scipy.stats as ss
    from pointpats import PoissonClusterPointProcess, PoissonPointProcess

    w, _ = lib_window(plan["window"])
    n, reps = plan["n"], 600 // plan["m"]
    if plan["aspp"]:
        # the number of parents is Poisson; children per parent are fixed
        pr = quiet(lambda: PoissonClusterPointProcess(w, n * 2, n, 0.5, reps, conditioning=True))
        c = np.array([pr.num_parents[i] for i in range(reps)])
        sizes = np.array([len(pr.realizations[i]) for i in range(reps)])
        ctx.check((sizes == 2 * c).all(), "PoissonClusterPointProcess: size does not follow the parents",
                  lambda: f"{sizes[:9]} {c[:9]}")
    else:
        pr = quiet(lambda: PoissonPointProcess(w, n, reps, conditioning=True))
        c = np.array([len(pr.realizations[i]) for i in range(reps)])
        ctx.check((c == [pr.parameters[i]["n"] for i in range(reps)]).all(), "PoissonPointProcess: size")
    top = int(c.max()) + 1
    pmf = ss.poisson.pmf(np.arange(top + 40), n)
    fit(ctx, np.bincount(c, minlength=top + 40), pmf, "conditioned process: counts")
    med = int(np.median(c))
    s = (c > med).astype(int)
    table(ctx, s[:-1], s[1:], "conditioned process: counts")
    return reps


# --------------------------------------------------------------- permutations
def events(kind, n, rs):
    if kind == "int":
        s, t = rs.integers(0, 12, (n, 2)).astype(float), rs.integers(0, 12, (n, 1)).astype(float)
    elif kind == "ties":
        s, t = rs.integers(0, 5, (n, 2)).astype(float), rs.integers(0, 4, (n, 1)).astype(float)
    else:
        s, t = rs.uniform(0, 20, (n, 2)), rs.uniform(0, 15, (n, 1))
    return s, t


def near(a, r):
    d2 = ((a[:, None] - a[None]) ** 2).sum(-1)
    m = d2 <= r * r
    np.fill_diagonal(m, False)
    return m


def pick_radius(a, rs):
    """A radius that leaves some pairs near and some far, away from ties."""
    d = np.unique(np.round(np.sqrt(((a[:, None] - a[None]) ** 2).sum(-1)), 9))
    if len(d) < 3:
        return float(d[-1]) * 0.5 + 0.1
    i = int(rs.integers(1, len(d) - 1))
    return float(d[i] + d[i + 1]) / 2


def perm_run(ctx, plan, rs):
    import itertools

    import scipy.stats as ss
    from pointpats import spacetime as st

    n, test = plan["n"], plan["test"]
    m = {4: 1500, 5: 2000, 6: 2500}[n] // plan["m"]
    ctx.probe(test)
    s, t = events("float" if test in ("jacquez", "mantel") else plan["ev"], n, rs)
    if test == "mantel":
        t = np.cumsum(rs.uniform(0.7, 5, (n, 1)), axis=0)[rs.permutation(n)]
    delta, tau = pick_radius(s, rs), pick_radius(t, rs)
    S, T = near(s, delta), near(t, tau)
    all_p = [np.array(p) for p in itertools.permutations(range(n))]
    tol = 0.0
    tril = np.tril_indices(n, -1)
    if test in ("knox", "oldknox"):
        stat = lambda p: (S & T[np.ix_(p, p)]).sum() / 2
    elif test == "modknox":
        stat = lambda p: ((S & T[np.ix_(p, p)]).sum() - (S.sum(1) * T.sum(1)).sum() / (n - 1.0)) / 2
        tol = 1e-9
    elif test == "mantel":
        ds = np.sqrt(((s[:, None] - s[None]) ** 2).sum(-1))
        dt = np.abs(t - t.T)
        a = 1 / (ds[tril] + 1)
        stat = lambda p: np.corrcoef(1 / (dt[np.ix_(p, p)][tril] + 1), a)[0, 1]
        tol = 1e-9
    else:
        k = 1 + plan["k"] % 2

        def nn(x):
            d = np.sqrt(((x[:, None] - x[None]) ** 2).sum(-1))
            np.fill_diagonal(d, np.inf)
            return [set(r[:k]) for r in np.argsort(d, 1)]

        ns = nn(s)
        stat = lambda p: sum(len(x & y) for x, y in zip(ns, nn(t[p])))
    dist = np.array([stat(p) for p in all_p], float)
    obs = float(stat(np.arange(n)))
    if test == "knox":
        k = quiet(lambda: st.Knox(s, t, delta, tau, permutations=m, keep=True))
        sim = np.asarray(k.sim, int)
        ctx.log("sim", sim)
        top = int(max(sim.max(), dist.max())) + 1
        fit(ctx, np.bincount(sim, minlength=top), np.bincount(dist.astype(int), minlength=top) / len(dist), "Knox simulations")
        v = (sim > np.median(sim)).astype(int)
        table(ctx, v[:-1], v[1:], "Knox simulations")
        table(ctx, v[:-2], v[2:], "Knox simulations")
        p = float(k.p_sim)
    else:
        call = {"oldknox": lambda: st.knox(s, t, delta, tau, permutations=m),
                "modknox": lambda: st.modified_knox(s, t, delta, tau, permutations=m),
                "mantel": lambda: st.mantel(s, t, m, 1.0, -1.0, 1.0, -1.0),
                "jacquez": lambda: st.jacquez(s, t, k, permutations=m)}[test]
        p = float(np.asarray(quiet(call)["pvalue"]).ravel()[0])
    x = round(p * (m + 1) - 1)
    hi, lo = (dist >= obs - tol).mean(), (dist >= obs + tol).mean() if tol else (dist >= obs).mean()
    ctx.log("p", test, x)
    if test == "oldknox":  # the smaller of the two tails
        a = ss.binom.sf(x - 1, m, min(hi, 1 - hi)) if x else 1.0
        b = ss.binom.cdf(x, m, min(hi, 1 - hi))
        a = 1.0 if abs(hi - 0.5) < 0.15 else a
        b = 1.0 if abs(hi - 0.5) < 0.15 else b
    else:
        a, b = ss.binom.sf(x - 1, m, hi), ss.binom.cdf(x, m, lo)
    ctx.check(min(a, b) > P, f"{test}: p-value inconsistent with uniform permutations",
              lambda: f"{x} of {m} reached {obs}; exact chance {lo:.4f}..{hi:.4f}")
    return m


def local_run(ctx, plan, rs):
    import scipy.stats as ss
    from pointpats import spacetime as st

    n, m = plan["n"], 1500 // plan["m"]
    s, t = events(plan["ev"], n, rs)
    delta, tau = pick_radius(s, rs), pick_radius(t, rs)
    S, T = near(s, delta), near(t, tau)
    k = quiet(lambda: st.KnoxLocal(s, t, delta, tau, permutations=m, keep=True, crs="EPSG:3857"))
    sims = np.asarray(k.sims, int)
    ctx.log("sims", sims)
    for i in range(n):
        a, b = int(S[i].sum()), int(T[i].sum())
        pmf = ss.hypergeom.pmf(np.arange(n), n - 1, b, a)
        fit(ctx, np.bincount(sims[i], minlength=n), pmf, "KnoxLocal simulations")
        v = (sims[i] > np.median(sims[i])).astype(int)
        table(ctx, v[:-1], v[1:], "KnoxLocal simulations")
        x = round(float(k.p_sims[i]) * (m + 1) - 1)
        q = pmf[int((S & T)[i].sum()):].sum()
        ctx.check(min(ss.binom.sf(x - 1, m, min(q, 1.0)), ss.binom.cdf(x, m, min(q, 1.0))) > P,
                  "KnoxLocal: p-value inconsistent with conditional permutations", lambda: f"{x} of {m}, exact {q}")
    # the global part: pairs close in time fall on pairs close in space
    pairs = n * (n - 1) / 2
    mean = S.sum() / 2 * T.sum() / 2 / pairs
    sim = np.asarray(k.sim, float)
    if sim.std() > 0:
        z = (sim.mean() - mean) / (sim.std() / math.sqrt(m))
        ctx.check(abs(z) < Z, "KnoxLocal.sim: mean under permutation", lambda: f"z={z}: {sim.mean()} vs {mean}")
    return m


# ---------------------------------------------------------------- Monte Carlo
def csr(contains, bounds, n, rs):
    out = np.empty((0, 2))
    while len(out) < n:
        q = rs.uniform(bounds[:2], bounds[2:], (4 * n + 8, 2))
        out = np.vstack([out, q[contains(q)]])
    return out[:n]


def thin(pts):
    """A hull so slender that filling its box takes millions of rejected candidates."""
    import shapely

    g = shapely.MultiPoint(pts)
    return g.convex_hull.area < 0.2 * g.envelope.area


def sims_run(ctx, plan, rs):
    from pointpats import distance_statistics as ds
    from ..util import make_points

    stat, n, hk = plan["stat"], plan["n"], plan["hullkind"]
    pts = make_points({"n": n, "kind": plan["pattern"], "k": plan["k"]})
    sup = np.array([0.0, 3, 7, 12, 18, 25, 33, 45]) if plan["support"] == "array" else plan["support"]
    if hk in (None, "convex") and stat in "FJ" and thin(pts):
        hk = "bbox"
    m = (200 if stat in "FJ" else 300) // plan["m"]
    kw = {"support": sup, "hull": the_hull(hk, pts), "n_simulations": m, "keep_simulations": True, "n_jobs": 1}
    test, direct = getattr(ds, stat.lower() + "_test"), getattr(ds, stat.lower())
    if stat == "J":
        kw["truncate"] = False
    res = quiet(lambda: test(pts, **kw))
    support, lib = np.asarray(res.support, float), np.asarray(res.simulations, float)
    ctx.log("sims", lib)
    b = pts.min(0) - 20, pts.max(0) + 20
    bounds = np.array([*b[0], *b[1]])
    poly = the_hull(hk, pts)
    if hk in (None, "bbox", "convex"):
        bounds = np.array([*pts.min(0), *pts.max(0)])
    elif hk == "big":
        bounds = poly
    else:
        bounds = np.array(poly.bounds)
    own = []
    inner = {"support": support}
    if stat in "FJ":
        inner["hull"] = the_hull(hk, pts)
    if stat == "J":
        inner["truncate"] = False
    for _ in range(m):
        q = csr(lambda p: hull_contains(hk, pts, p), bounds, n, rs)
        if stat in "FJ" and hk in (None, "bbox", "convex"):
            inner["hull"] = real_hull(hk, pts)
        own.append(np.asarray(quiet(lambda: direct(q, **inner))[1], float))
    own = np.array(own)
    ctx.check(lib.shape == own.shape, f"{stat} simulations: shape", lambda: f"{lib.shape} vs {own.shape}")
    for c in range(lib.shape[1]):
        a, o = lib[:, c], own[:, c]
        if stat == "J":
            # the direct function at radii all the way to one nearest event per empty point
            ok = np.isfinite(a).mean() > 0.97 and np.isfinite(o).mean() > 0.97
            if not ok:
                break
            a, o = a[np.isfinite(a)], o[np.isfinite(o)]
        # undefined where nothing falls within the support: as often in both
        na, no = int(np.isnan(a).sum()), int(np.isnan(o).sum())
        if stat in "FG":
            both = (na + no) / (len(a) + len(o))
            sd = math.sqrt(max(2 * both * (1 - both) * len(a), 1e-9))
            ctx.check(abs(na - no) <= Z * sd + 2, f"{stat}_test simulations: undefined more often than complete spatial randomness",
                      lambda: f"{na} and {no} of {m} at {support[c]}")
            a, o = a[~np.isnan(a)], o[~np.isnan(o)]
            if min(len(a), len(o)) < 20:
                continue
        se2 = a.var() / len(a) + o.var() / len(o)
        extra = 0.0
        if stat in "FJ":  # the empty-space points of a test are shared by its simulations
            f = 0.5 if stat == "J" else float(np.clip(o.mean(), 0, 1))
            extra = f * (1 - f) / 1000 if stat == "F" else o.mean() ** 2 * f / max(1 - f, 0.05) / 1000
            if stat == "J" and f > 0.8:
                break
        if se2 + extra > 0:
            z = (a.mean() - o.mean()) / math.sqrt(se2 + extra)
            ctx.check(abs(z) < Z, f"{stat}_test simulations: mean differs from complete spatial randomness in the hull",
                      lambda: f"hull {hk} at {support[c]}: {a.mean()} vs {o.mean()} (z={z:.1f})")
        if stat in "GKL":
            ks(ctx, a, o, f"{stat}_test simulations")
        v = (a > np.median(a)).astype(int)
        table(ctx, v[:-1], v[1:], f"{stat}_test simulations")
    return m * n


def real_hull(hk, pts):
    """The observed pattern's hull as an object, for simulated patterns."""
    import shapely

    if hk == "convex":
        return shapely.MultiPoint(pts).convex_hull
    return np.array([*pts.min(0), *pts.max(0)])


def ranks(ctx, r, m, what):
    fit(ctx, np.bincount(np.asarray(r, int), minlength=m + 1), np.full(m + 1, 1 / (m + 1)), what)
    z = (np.mean(r) - m / 2) / math.sqrt((m * (m + 2) / 12) / len(r))
    ctx.check(abs(z) < Z, what + ": observed and simulated are not exchangeable", lambda: f"mean rank {np.mean(r)} of {m}, z={z:.1f}")


def rank_run(ctx, plan, rs):
    """Under complete spatial randomness the observed statistic ranks uniformly."""
    from pointpats import distance_statistics as ds

    stat, n = plan["stat"], plan["n"]
    h = plan["hull"]
    poly = polygon(h)
    b = np.array(poly.bounds)
    scale = math.sqrt(poly.area / n)
    sup = np.array([0, 0.3, 0.6, 1.0, 1.6, 40.0]) * scale if stat in "FG" else np.array([0, 0.6, 1.0, 1.6]) * scale
    m, reps = 7, (360 if stat != "F" else 100) // plan["m"]
    got = {c: [] for c in range(1, len(sup))}
    for i in range(reps):
        q = csr(lambda p: inside(h, p), b, n, rs)
        res = quiet(lambda: getattr(ds, stat.lower() + "_test")(
            q, support=sup, hull=make_hull(h), n_simulations=m, keep_simulations=True, n_jobs=1))
        for c in got:
            o, a = res.statistic[c], res.simulations[:, c]
            ties = int((a == o).sum())
            got[c].append(int((a > o).sum()) + int(rs.integers(0, ties + 1)))
            count = (a >= o).sum() + 1
            want = min(count / (m + 1), 1 - count / (m + 1))
            ctx.check(abs(res.pvalue[c] - want) < 1e-12, f"{stat}_test: the p-value does not follow from its simulations",
                      lambda: f"{res.pvalue[c]} vs {want}")
    ctx.log("ranks", {k: np.bincount(v).tolist() for k, v in got.items()})
    for c, r in got.items():
        ranks(ctx, r, m, f"{stat}_test rank")
    return reps


def empty_run(ctx, plan, rs):
    """f() with derived empty-space points against the exact covered area."""
    import shapely
    from pointpats.distance_statistics import f

    h = plan["hull"]
    poly = polygon(h)
    b = np.array(poly.bounds)
    # work around zero: buffers lose digits far from the origin
    q = csr(lambda p: inside(h, p), b, 5, rs)
    far = float(np.hypot(b[2] - b[0], b[3] - b[1])) * 1.01
    sup = np.array([0, 0.05, 0.12, 0.25, 0.45, 1.0]) * far
    reps = 12 // plan["m"] or 1
    got = np.mean([np.asarray(quiet(lambda: f(q, support=sup, hull=make_hull(h)))[1], float) for _ in range(reps)], axis=0)
    shift = -b[:2]
    moved = shapely.transform(poly, lambda a: a + shift)
    pts = shapely.MultiPoint(q + shift)
    ctx.log("empty", got)
    for r, v in zip(sup[1:], got[1:]):
        want = shapely.intersection(pts.buffer(r, quad_segs=90), moved).area / moved.area
        tol = Z * math.sqrt(max(want * (1 - want), 1e-5) / (1000 * reps)) + 1e-3
        ctx.check(abs(v - want) < tol, "f(): the empty-space points are not uniform over the hull",
                  lambda: f"{h['kind']} at {r}: {v} vs {want} +- {tol}")
    return 1000 * reps


def quad(plan, pts, win, **kw):
    from pointpats import QStatistic

    if plan["shape"] == "hexagon":
        return QStatistic(pts, shape="hexagon", lh=kw.pop("lh"), window=win, **kw)
    kw.pop("lh", None)
    return QStatistic(pts, shape="rectangle", window=win, **kw)


def quad_setup(plan, rs):
    import shapely

    n = plan["n"]
    pts = rs.uniform(0, 40, (n, 2)) * (1.0, 0.7)
    win = the_window(plan["window"], pts)
    area = win if win is not None else shapely.box(*pts.min(0), *pts.max(0))
    lh = 0.16 * math.sqrt(area.envelope.area)
    return pts, win, area, lh


def quad_sims(ctx, plan, rs):
    pts, win, area, lh = quad_setup(plan, rs)
    m = 300 // plan["m"]
    kw = dict(nx=plan["grid"][0], ny=plan["grid"][1]) if plan["shape"] == "rectangle" else {}
    if plan["widths"] and plan["shape"] == "rectangle":
        kw = dict(rectangle_width=np.ptp(pts[:, 0]) / 2.6, rectangle_height=np.ptp(pts[:, 1]) / 3.4)
    k = quiet(lambda: quad(plan, pts, win, lh=lh, realizations=m, rng=plan["k"], **kw))
    lib = np.asarray(k.chi2_realizations, float)
    ctx.log("chi2", lib)
    if plan["shape"] == "rectangle":
        kw = dict(nx=k.mr.count_column, ny=k.mr.count_row)
    import shapely

    own = []
    for _ in range(m):
        q = csr(lambda p: shapely.intersects_xy(area, p[:, 0], p[:, 1]), np.array(area.bounds), plan["n"], rs)
        own.append(quiet(lambda: quad(plan, q, area, lh=lh, **kw)).chi2)
    own = np.array(own)
    se = math.sqrt(lib.var() / m + own.var() / m)
    if se:
        z = (lib.mean() - own.mean()) / se
        ctx.check(abs(z) < Z, "QStatistic realizations: mean differs from complete spatial randomness in the window",
                  lambda: f"{lib.mean()} vs {own.mean()} (z={z:.1f})")
    ks(ctx, lib, own, "QStatistic realizations")
    return m * plan["n"]


def quad_rank(ctx, plan, rs):
    import shapely

    _, _, area, lh = quad_setup(plan, rs)
    m, reps = 7, 200 // plan["m"]
    kw = dict(nx=plan["grid"][0], ny=plan["grid"][1]) if plan["shape"] == "rectangle" else {}
    got = []
    for i in range(reps):
        q = csr(lambda p: shapely.intersects_xy(area, p[:, 0], p[:, 1]), np.array(area.bounds), plan["n"], rs)
        k = quiet(lambda: quad(plan, q, area, lh=lh, realizations=m, rng=plan["k"] + i, **kw))
        a, o = np.asarray(k.chi2_realizations), k.chi2
        # the same table summed in another order differs in the last bits
        ties = int(np.isclose(a, o, rtol=1e-9).sum())
        got.append(int((a > o * (1 + 1e-9)).sum()) + int(rs.integers(0, ties + 1)))
    ctx.log("ranks", got)
    ranks(ctx, got, m, "QStatistic rank")
    return reps


def shrink(plan):
    for f in (8, 4, 2):
        if plan["m"] * f <= 8:
            q = json.loads(json.dumps(plan))
            q["m"] = plan["m"] * f
            yield q
