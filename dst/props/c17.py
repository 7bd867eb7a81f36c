"""C17: every random call finishes: a bounded number of draws once its stream is healthy."""

import math
import sys

import numpy as np

from .. import core, seams
from ..core import smaller_ints
from ..util import ODD, gen_hull, hull_area, hull_bounds, hull_scale, inside, make_hull, make_points, quiet, sample_in
from . import c11

RUNS = {"quick": 3000, "thorough": 60000}
TIMEOUT = 120
RULE = (
    "A run hands a public random call a simulated bit stream that works, then fails for up to thousands of "
    "draws in a row (one value for ever, one end of the range, an edge value, two values in turn), up to three "
    "times, and then stays healthy. Draws are counted at the bit generator; from the end of the last outage the "
    "call must answer within the number of draws that even its unluckiest healthy stream (probability 1e-12) "
    "needs for the whole request, times a constant. Non-trivial: an outage struck while the call was drawing."
)
REAL = ["pointpats.random", "pointpats.process", "pointpats.quadrat_statistics", "pointpats.spacetime", "numpy distributions",
        "shapely/GEOS", "scipy.spatial"]
STUB = ["the bit generator behind a Generator or behind numpy's global stream (counts, fails and heals on schedule)"]
ASSUME = ["progress is measured in draws from the stream, not in wall time",
          "the share of candidates a hull accepts is the hull's share of its bounding box (or of the candidate disc, or of a "
          "normal cloud sampled by the harness)",
          "a factor of four and a constant of 4000 draws are allowed for drawing candidates in blocks"]
MODES = ("constant", "low", "high", "edge", "pair")
EXPECT = ["outage:" + m for m in MODES] + ["healthy", "poisson", "normal", "cluster_poisson", "cluster_normal", "strauss", "csr",
          "clusters", "circle", "quadrat", "knox", "mantel", "jacquez", "modified_knox", "shuffle", "reps>1", "low-acceptance",
          "outlived", "convex", "impossible-request"]
EPS = 1e-12


class Outage(seams.SimBitGen):
    """A healthy stream that is down from draw a for k draws, several times."""

    def __init__(self, seed, outages):
        super().__init__(seed, {})
        self.outages = [list(o) for o in outages]
        self.limit = None
        self.v = (self.r.getrandbits(64), self.r.getrandbits(64))

    def _u64(self):
        self.n += 1
        for a, k, mode in self.outages:
            if a <= self.n < a + k:
                self.fired[mode] = self.fired.get(mode, 0) + 1
                if mode == "constant":
                    return self.v[0]
                if mode == "pair":
                    return self.v[self.n & 1]
                if mode == "edge":
                    return 2**64 - 1 if self.v[0] & 1 else 0
                return self.r.getrandbits(58) if mode == "low" else 2**64 - 1 - self.r.getrandbits(58)
        return self.r.getrandbits(64)

    def end(self):
        """The last draw of the last outage that has begun."""
        return max([a + k for a, k, _ in self.outages if a <= self.n], default=0)


class Budget:
    """Stops a call whose stream has delivered more than it may still need."""

    def __init__(self, bg):
        self.bg, self.limit = bg, None

    def local(self, frame, event, arg):
        if self.limit is not None and self.bg.n > self.limit:
            raise seams.StreamExhausted("still drawing")
        return self.local

    def glob(self, frame, event, arg):
        return self.local if seams._is_pkg(frame.f_code) else None

    def run(self, fn, limit):
        self.limit = limit
        sys.settrace(self.glob)
        try:
            return fn()
        finally:
            sys.settrace(None)


def need(n, p):
    """Candidates after which n have been accepted, but for probability EPS."""
    from scipy.stats import nbinom

    if n <= 0:
        return 0.0
    if p >= 1 - 1e-9:
        return float(n)
    return float(n + nbinom.isf(EPS, n, p))


# ------------------------------------------------------------------ plan
def plan(r, i, tier):
    c = call(r)
    outs = []
    if i % 6:
        for _ in range(r.choice((1, 1, 2, 3))):
            outs.append([r.choice((1, 1, 2, 5, 20, 60, 200, 700)), r.choice((3, 30, 200, 900, 3000)), r.choice(MODES)])
    return {"call": c, "outages": outs, "sseed": r.getrandbits(40)}


def call(r):
    g = r.choice(("poisson", "poisson", "normal", "cluster_poisson", "cluster_poisson", "cluster_normal", "strauss", "csr",
                  "clusters", "circle", "quadrat", "spacetime"))
    c = {"g": g, "k": r.getrandbits(30)}
    if g in ("csr", "clusters", "circle"):
        c.update(win=r.choice(("box", "tri", "ring", "parts")),
                 box=[round(r.uniform(-90, 90), 3), round(r.uniform(-40, 40), 3), round(r.uniform(1, 30), 3), round(r.uniform(1, 30), 3)],
                 n=r.choice((0, 1, 3, 10, 30, 80, 200, 500)), samples=r.choice((0, 1, 2, 3)), cond=r.random() < 0.3,
                 parents=r.choice((1, 2, 5, 12)), radius=r.choice((0.01, 0.05)), keep=r.random() < 0.3, burn=r.choice((1, 2, 5)), fail=0)
        if r.random() < 0.08:
            c["n"], c["samples"] = r.choice(((2, 60), (2000, 2)))
        if g == "clusters":
            c["cond"] = False
        return c
    if g == "spacetime":
        c.update(f=r.choice(("knox", "mantel", "jacquez", "modified_knox", "shuffle")), n=r.choice((5, 9, 20, 40)),
                 perms=r.choice((0, 1, 9, 19, 49, 199)))
        return c
    if g == "quadrat":
        c.update(n=r.choice((5, 10, 25, 60)), reps=r.choice((1, 2, 5, 9)), shape=r.choice(("rectangle", "hexagon")),
                 hull=gen_hull(r, ("bbox", "polygon", "multi", "holed", "triangle", "slot", "comb")))
        return c
    kinds = ("bbox", "polygon", "multi", "holed", "offset", "tiny", "swiss", "islands", "triangle", "slot", "comb")
    if g == "poisson":
        kinds += ("convex", "points", "whole", "wholepts", *ODD)
    if g.startswith("cluster"):
        kinds = ("bbox", "multi", "holed", "offset", "tiny", "swiss", "islands", "comb")
    c["hull"] = gen_hull(r, kinds)
    c["reps"] = r.choice((1, 1, 2, 4))
    c["n"] = r.choice((0, 1, 2, 10, 30, 80, 200, 500))
    if r.random() < 0.08:
        c["n"], c["reps"] = r.choice(((3000, 1), (5, 80), (2, 200), (60, 20)))
    if c["hull"]["kind"] == "convex":
        c["n"], c["reps"] = min(c["n"], 10), min(c["reps"], 4)
    if g != "poisson":
        c["n"] = min(c["n"], 200)
        c["seeds"] = r.choice((1, 2, 3, 6))
        c["rad"] = r.choice((0.02, 0.1, 0.4))
        c["sd"] = r.choice((0.02, 0.1, 0.4))
    if g == "strauss":
        c.update(n=r.choice((1, 3, 8, 20)), reps=r.choice((1, 1, 2)), gamma=r.choice((0, 0.2, 0.7, 1.0)), r=r.choice((0.01, 0.1)),
                 iters=r.choice((0, 10, 60)), max_iter=r.choice((1, 3, 10)))
        if r.random() < 0.2:
            c.update(n=60, iters=300, reps=1, max_iter=1)
    return c


# ------------------------------------------------------------------ budgets
def share(d):
    b = hull_bounds(d)
    return hull_area(d) / ((b[2] - b[0]) * (b[3] - b[1]))


def cloud(d, centre, sd, k):
    """Share of a normal cloud that falls into the hull, on the safe side."""
    p = np.random.Generator(np.random.PCG64(k)).normal(0, sd, (4000, 2)) + np.asarray(centre)
    hits = int(inside(d, p).sum())
    return max(hits - 5 * math.sqrt(hits + 1), 0) / 4000


def disc(d, centre, radius):
    """Share of the candidate square of a clipped disc."""
    import shapely

    h = make_hull(d)
    g = shapely.box(*h) if isinstance(h, np.ndarray) else h
    # centred on the origin: large coordinates cost digits
    g = shapely.affinity.translate(g, -centre[0], -centre[1])
    return g.intersection(shapely.Point(0, 0).buffer(radius, quad_segs=32)).area / (4 * radius * radius)


def generator(ctx, c, bg, budget):
    import random

    import pointpats.random as pr

    g, d, n, reps = c["g"], c["hull"], c["n"], c["reps"]
    p = share(d)
    scale = hull_scale(d)
    b = hull_bounds(d)
    side = min(b[2] - b[0], b[3] - b[1])
    kw = {"size": (n, reps)}
    groups, total = None, None
    seeds = c.get("seeds")
    if g == "poisson":
        total = 2 * need(n * reps, p)
    elif g == "normal":
        centre = sample_in(d, random.Random(c["k"]), 1)[0]
        sd = c["sd"] * scale
        kw.update(center=tuple(centre), cov=np.diag([sd * sd, sd * sd]))
        q = cloud(d, centre, sd, c["k"])
        if q < 0.01:
            return None
        total = 2.2 * need(n * reps, q)
    elif g == "strauss":
        # every attempt starts anew; every step may draw one candidate and two numbers
        per = 2 * need((int(n * 1.5) + c["iters"]) * reps * c["max_iter"], p) + 4 * c["iters"] * reps * c["max_iter"]
        kw.update(gamma=c["gamma"], r=c["r"] * scale, n_iter=c["iters"], max_iter=c["max_iter"])
        total = per
    else:
        kw["n_seeds"] = seeds
        groups = [len(x) - 1 for x in np.array_split(np.empty(n), seeds)]
        if g == "cluster_poisson":
            rad = c["rad"] * side
            kw["cluster_radius"] = rad
        else:
            sd = c["sd"] * side
            kw["cov"] = np.diag([sd * sd, sd * sd])
    ctx.probe(g)
    if d["kind"] == "convex":
        ctx.probe("convex")
    if p < 0.3:
        ctx.probe("low-acceptance")
    if reps > 1:
        ctx.probe("reps>1")
    impossible = groups is not None and n < seeds

    def exact(out):
        """Draws the centres that were drawn account for."""
        t = 2 * need(seeds * reps, p)
        for rep in np.reshape(out, (reps, n, 2)):
            for grp in np.array_split(rep, seeds):
                m = len(grp) - 1
                if m <= 0:
                    continue
                if g == "cluster_poisson":
                    q = disc(d, grp[0], rad)
                    if q < 1e-4:
                        return None
                    t += 2 * (need(m, q) + 2 * m)  # whole blocks of two candidates per point
                else:
                    q = cloud(d, grp[0], sd, c["k"])
                    if q < 0.01:
                        return None
                    t += 2.2 * need(m, q)
        return t

    if groups is not None:
        # the draws a centre needs are known once it is; until then a centre in the least corner of
        # the hulls used here, which accepts one candidate in two hundred
        total = 2 * need(seeds * reps, p) + 1000 * reps * n + 12000
    return dict(fn=lambda: getattr(pr, g)(make_hull(d), rng=bg.generator(), **kw), total=total, exact=exact if groups else None,
                impossible=impossible, points=n * reps, may_raise=g == "strauss" or impossible)


def process(ctx, c, bg):
    from pointpats import process as pp

    g = c["g"]
    ctx.probe(g)
    n, samples = c["n"], c["samples"]
    if g == "circle":
        return dict(fn=lambda: pp.runif_in_circle(n, 0.7, (c["box"][0], c["box"][1]), c["burn"]),
                    total=2 * need(n, math.pi / 4) + 2 * c["burn"] * n, points=n)
    import shapely

    parts, holes = c11.rings(c)
    area = shapely.union_all([shapely.Polygon(p) for p in parts]).area - sum(shapely.Polygon(h).area for h in holes)
    xs, ys = [[v for ring in parts for v in (q[k] for q in ring)] for k in (0, 1)]
    p = area / ((max(xs) - min(xs)) * (max(ys) - min(ys)))
    if p < 0.3:
        ctx.probe("low-acceptance")
    w = c11.window(c)
    if g == "csr":
        def exact(out):
            return 40 + sum(2 * (need(int(v["n"]), p) + int(v["n"])) for v in out.parameters.values())

        top = n + 10 * math.sqrt(n) + 40
        return dict(fn=lambda: pp.PoissonPointProcess(w, n, samples, conditioning=c["cond"]), total=samples * (2 * need(int(top), p) + 2 * top) + 100,
                    exact=exact, points=n)
    m = c["parents"]
    # a draw gives every parent its share of the points; at least half of a parent's children
    # survive with more than half the parent's own chance
    per = 2 * m + 2 * 3 * (n + m) + 60
    draws = need(2 * m, p / 2) / m + 2
    return dict(fn=lambda: pp.PoissonClusterPointProcess(w, n, m, c["radius"] * min(c["box"][2:]), samples, keep=c["keep"]),
                total=samples * per * draws, points=n)


def quadrat(ctx, c, bg):
    from pointpats import QStatistic
    import random

    ctx.probe("quadrat")
    d = c["hull"]
    pts = sample_in(d, random.Random(c["k"]), c["n"])
    if (np.ptp(pts, axis=0) == 0).any():
        return None
    import shapely

    h = make_hull(d)
    win = shapely.box(*h) if isinstance(h, np.ndarray) else h
    kw = {"lh": float(np.ptp(pts, axis=0).max()) / 4} if c["shape"] == "hexagon" else {"nx": 3, "ny": 2}
    return dict(fn=lambda: QStatistic(pts, shape=c["shape"], realizations=c["reps"], window=win, rng=bg.generator(), **kw),
                total=2 * need(c["n"] * c["reps"], share(d)) + 64, points=c["n"] * c["reps"])


def spacetime(ctx, c, bg):
    from pointpats import Knox, spacetime as st

    ctx.probe(c["f"])
    n, perms = c["n"], c["perms"]
    xy = make_points({"n": n, "kind": "uniform", "k": c["k"]})
    t = np.random.Generator(np.random.PCG64(c["k"])).integers(0, 60, (n, 1)).astype(float)
    f = {"knox": lambda: st.knox(xy, t, 20, 8, permutations=perms),
         "mantel": lambda: st.mantel(xy, t, permutations=perms),
         "jacquez": lambda: st.jacquez(xy, t, k=2, permutations=perms),
         "modified_knox": lambda: st.modified_knox(xy, t, 20, 8, permutations=perms),
         "shuffle": lambda: Knox(xy, t, 20, 8, permutations=perms)}[c["f"]]
    # a shuffle draws n-1 positions, each by halving the range it rejects from
    return dict(fn=f, total=2 * need(n * perms, 0.5), points=perms)


# ------------------------------------------------------------------ run
def run(ctx, plan):
    c = plan["call"]
    g = c["g"]
    bg = Outage(plan["sseed"], plan["outages"])
    budget = Budget(bg)
    legacy = g in ("csr", "clusters", "circle", "spacetime")
    job = {"csr": process, "clusters": process, "circle": process, "quadrat": quadrat, "spacetime": spacetime}.get(g)
    job = job(ctx, c, bg) if job else generator(ctx, c, bg, budget)
    if job is None:
        ctx.log("skipped")
        return
    total = allowed(job["total"])
    # what was drawn up to the end of the last outage counts for nothing
    last = max([a + k for a, k, _ in plan["outages"]], default=0)
    if legacy:
        old = np.random.get_bit_generator()
        np.random.set_bit_generator(bg)
    try:
        out = quiet(lambda: budget.run(job["fn"], last + total))
    except seams.StreamExhausted:
        ctx.fail("a random call keeps drawing without finishing",
                 f"more than {int(last + total)} draws ({int(total)} after the stream healed) for {c}")
    except MemoryError:
        raise
    except Exception as e:  # noqa: BLE001
        # identical points have no grid
        if not job.get("may_raise") and not (g == "quadrat" and bg.fired):
            ctx.fail("a valid request was refused", f"{c}: {e!r}")
        ctx.probe("impossible-request")
        out = None
    finally:
        if legacy:
            np.random.set_bit_generator(old)
    ctx.log(g, bg.n, out is not None)
    if out is not None and job.get("impossible"):
        ctx.fail("an impossible request was answered", f"{c}")
    end = bg.end()
    ctx.check(bg.n <= end + total, "more draws than the unluckiest healthy stream needs",
              lambda: f"{bg.n - end} draws after the stream healed, {int(total)} allowed, for {c}")
    if out is not None and job.get("exact"):
        t = ctx.judge(lambda: job["exact"](out))
        if t is not None:
            t = allowed(t)
            ctx.check(bg.n <= end + t, "more draws than the unluckiest healthy stream needs",
                      lambda: f"{bg.n - end} draws after the stream healed, {int(t)} allowed for these centres, for {c}")
    for m, k in bg.fired.items():
        ctx.fault(m, k)
        ctx.probe("outage:" + m)
        ctx.nontrivial = True
    if not plan["outages"]:
        ctx.probe("healthy")
        ctx.nontrivial = job["points"] > 0
    elif bg.fired and bg.n >= end:
        ctx.probe("outlived")
    ctx.extra["draws"] = bg.n


def allowed(t):
    return 4 * t + 4000


def shrink(plan):
    import json

    yield from core.drops(plan, "outages")
    for key in ("n", "reps", "samples", "perms"):
        if key in plan["call"]:
            for cand in smaller_ints(plan["call"], key, 1):
                yield {**json.loads(json.dumps(plan)), "call": cand}
