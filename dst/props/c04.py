"""C04: Ripley Monte Carlo tests under arbitrary worker schedules and failures."""

import json
import math

import numpy as np

from .. import core, seams, simjoblib
from ..ops import make_support
from ..util import gen_points, hull_area, inside, make_points, quiet

RUNS = {"quick": 1300, "thorough": 30000}
TIMEOUT = 90
RULE = (
    "A run calls one or two Ripley tests on a simulated worker pool (seeded task order, worker "
    "count, batch, stragglers, fork or spawn, processes or threads; in half of the runs a worker "
    "or task fails) and compares each returned part with the direct function, the simulations "
    "and a second execution with other reporting flags. Non-trivial: simulations were returned, "
    "or a fault fired."
)
REAL = ["pointpats.distance_statistics", "pointpats.random.poisson", "joblib.Parallel", "sklearn/scipy trees",
        "forked worker interpreters"]
STUB = ["joblib backend (seeded event loop; loky itself is not run)", "operating system entropy, clocks"]
ASSUME = ["the F statistic is compared with 4000 independent empty-space points at 1e-9 significance"]
EXPECT = ["crash", "crash_after", "task_error", "memory", "line", "F", "G", "J", "K", "L", "recovered-call",
          "truncated", "zero-simulations", "recorded-patterns", "recorded-empty-space", "many-simulations", "out-of-order", "geo-input"]
EXPECT = [("worker:" + e if e in ("crash", "crash_after", "task_error", "memory", "line") else e) for e in EXPECT]


def plan(r, i, tier):
    stat = r.choice("FGJKL")
    p = {
        "stat": stat,
        "pts": gen_points(r, r.choice((4, 6, 9, 14))),
        "support": r.choice((None, 6, 12, [30.0], [1.0, 40.0], [0.0, 60.0, 9], "array", "given", "wide", "wide")),
        "sims": r.choice((1, 2, 4, 7, 11)),
        "jobs": r.choice((-1, -2, 1, 2, 3, 8)),
        "backend": r.choice(("process", "process", "process", "thread")),
        "hull": r.choice((None, "bbox", "convex", "big", "poly")),
        "lin": r.random() < 0.5,
        "dist": r.random() < 0.3,
        "truncate": r.random() < 0.5,
        "geo": r.choice((None, None, "series", "frame")),
        "pool": {"seed": r.getrandbits(32), "start": r.choice(("fork", "spawn")),
                 "batch": r.choice((1, 1, 3)), "cpus": r.choice((1, 2, 4)), "slow": r.choice((0.0, 0.3))},
    }
    if i % 23 == 0:
        p["sims"] = 0
    if r.random() < 0.5:
        k = r.choice(("crash", "crash_after", "task_error", "memory", "line", "line", "line"))
        nth = r.randrange(1, max(2, p["sims"] + 1))
        p["pool"]["faults"] = [[k, nth]] if k != "line" else [[
            "line", nth, r.choice((1, 2, 5, 20, r.randrange(1, 150), -r.randrange(1, 60), -r.randrange(1, 60),
                                   -r.randrange(1, 15))), r.randrange(7)]]
        if p["jobs"] == 1:
            p["jobs"] = 2
    if r.random() < (0.4 if stat in "KL" else 0.2):
        p["record"] = True
        p["backend"] = "thread" if r.random() < 0.5 and stat not in "FJ" else "process"
        if p["backend"] == "process":
            p["jobs"] = 1
        p["pool"].pop("faults", None)
        p["dist"] = False
        if p["support"] in (None, 6, 12):
            p["support"] = [30.0]
        p["sims"] = min(p["sims"], 2 if stat in "FJ" else 4)
        if stat in "FJ":
            p["pts"]["n"] = min(p["pts"]["n"], 6)
            p["sims"] = max(p["sims"], 1)
            p["truncate"] = False
    elif r.random() < 0.05:  # more simulations than anyone's chunk
        p["sims"] = r.choice((65, 99, 101, 131, 257))
        p["pts"]["n"] = min(p["pts"]["n"], 6)
    return p


def the_hull(kind, pts):
    import shapely

    if kind in (None, "bbox", "convex"):
        return kind
    x0, y0 = pts.min(0) - 5
    x1, y1 = pts.max(0) + 5
    if kind == "big":
        return np.array([x0, y0, x1, y1])
    return shapely.Polygon([(x0, y0), (x1, y0), (x1, y1), ((x0 + x1) / 2, y1 + 8), (x0, y1)])


def hull_contains(kind, pts, q):
    h = the_hull(kind, pts)
    import shapely

    if kind in (None, "bbox"):
        h = shapely.box(*pts.min(0), *pts.max(0))
    elif kind == "convex":
        h = shapely.MultiPoint(pts).convex_hull
    elif kind == "big":
        h = shapely.box(*h)
    eps = 1e-7 + 1e-12 * np.abs(pts).max()
    return shapely.distance(h, shapely.points(q)) <= eps


def settings(plan, pts):
    stat = plan["stat"]
    sup = plan["support"]
    if sup == "given":
        sup = np.linspace(0, 70, 13)
    elif sup == "wide":  # nothing lies beyond it: no simulation can be without events
        far = float(np.ptp(pts, axis=0).max())
        sup = np.array([0.0, 0.05, 0.1, 0.2, 0.5, 40.0]) * (far + 20)
    else:
        sup = make_support(sup)
    dist = None
    if plan["dist"]:
        from scipy.spatial.distance import cdist, pdist

        dm = cdist(pts, pts)
        nn = np.where(np.eye(len(pts)) > 0, np.inf, dm).min(1)
        q = np.random.Generator(np.random.PCG64(plan["pts"]["k"] + 1)).uniform(pts.min(0), pts.max(0), (50, 2))
        fd = cdist(pts, q).min(0)
        dist = {"F": fd, "G": nn, "J": (nn, fd), "K": pdist(pts), "L": pdist(pts)}[stat]
    return sup, dist


def reset_world(plan):
    seams.ENTROPY.reset(plan["seed"])
    np.random.seed(plan["gseed"] & 0xFFFFFFFF)
    simjoblib.PLAN.reset(plan["pool"])


def call(plan, pts, sup, dist, keep, jobs=None, metric=None, truncate=None, coords=None):
    import joblib
    from pointpats import distance_statistics as ds

    stat = plan["stat"]
    kw = dict(support=sup, distances=dist, hull=the_hull(plan["hull"], pts), keep_simulations=keep,
              n_simulations=plan["sims"], n_jobs=plan["jobs"] if jobs is None else jobs)
    if metric:
        kw["metric"] = metric
    if stat == "J":
        kw["truncate"] = plan["truncate"] if truncate is None else truncate
    if stat == "L":
        kw["linearized"] = plan["lin"]
    f = getattr(ds, stat.lower() + "_test")
    xs = pts if coords is None else coords

    def go():
        return f(xs, **kw)

    if plan["backend"] == "thread":
        with joblib.parallel_config("threading"):
            return quiet(go)
    return quiet(go)


def run(ctx, plan):
    from pointpats import distance_statistics as ds

    stat = plan["stat"]
    pts = make_points(plan["pts"])
    if stat == "J" and plan["support"] is None and plan["truncate"] and not plan["dist"]:
        plan = {**plan, "support": 6}
    sup, dist = settings(plan, pts)
    reset_world(plan)
    rec = Recorder() if plan.get("record") else None
    coords = None
    if plan["geo"]:
        import geopandas as gpd

        coords = gpd.GeoSeries(gpd.points_from_xy(pts[:, 0], pts[:, 1]))
        if plan["geo"] == "frame":
            coords = gpd.GeoDataFrame({"a": range(len(pts))}, geometry=coords)
        ctx.probe("geo-input")
    try:
        res = call(plan, pts, sup, dist, True, metric=rec, coords=coords)
    except (seams.StreamExhausted, seams.HarnessError):
        raise
    except BaseException as e:  # noqa: BLE001
        pl = simjoblib.PLAN
        ctx.check(bool(pl.fired), "a valid test failed", lambda: f"{e!r} for {plan}")
        ctx.nontrivial = True
        ctx.log(stat, "failed", type(e).__name__)
        for k, n in pl.fired.items():
            ctx.fault("worker:" + k, n)
        # the failure leaves nothing behind: the same test, now undisturbed, succeeds
        plan = {**plan, "pool": {k: v for k, v in plan["pool"].items() if k != "faults"}}
        reset_world(plan)
        res = call(plan, pts, sup, dist, True, coords=coords)
        ctx.probe("recovered-call")
    else:
        for k, n in simjoblib.PLAN.fired.items():
            ctx.fault("worker:" + k, n)
        if simjoblib.PLAN.fired and plan["sims"]:
            survived(ctx, {**plan, "pool": {k: v for k, v in plan["pool"].items() if k != "faults"}}, pts, sup, dist, coords, res)
    st = simjoblib.PLAN.stats
    ctx.sim_time += st["sim_time"]
    ctx.schedule = simjoblib.PLAN.order
    ctx.probe("out-of-order", st["out_of_order"])
    ctx.probe(stat)
    order = list(map(tuple, simjoblib.PLAN.order))
    ctx.judge(lambda: verify(ctx, plan, pts, sup, dist, res))
    if rec:
        ctx.judge(lambda: (recorded_empty if stat in "FJ" else recorded)(ctx, plan, pts, res, rec))
    before = core.digest(tuple(res))
    # the same execution with other reporting flags
    plan2 = {**plan, "pool": {k: v for k, v in plan["pool"].items() if k != "faults"}}
    if plan2["pool"] == plan["pool"] and not rec:
        reset_world(plan2)
        bare = call(plan2, pts, sup, dist, False, coords=coords)
        ctx.check(bare.simulations is None, "simulations are returned although not requested")
        ctx.check(core.digest(bare.pvalue) == core.digest(res.pvalue)
                  and core.digest(bare.statistic) == core.digest(res.statistic)
                  and core.digest(bare.support) == core.digest(res.support),
                  "keep_simulations changes the result", lambda: f"{plan}\n{bare}\n{res}")
        if stat == "J":
            reset_world(plan2)
            other = call(plan2, pts, sup, dist, True, truncate=not plan["truncate"], coords=coords)
            full, cut = (other, res) if plan["truncate"] else (res, other)
            bad = ~np.isfinite(full.statistic)
            m = int(bad.argmax()) if bad.any() else len(full.statistic)
            for a in ("support", "statistic", "pvalue", "simulations"):
                x, y = getattr(full, a), getattr(cut, a)
                ctx.check(core.digest(np.ascontiguousarray(x[..., :m])) == core.digest(np.ascontiguousarray(y)),
                          "truncation changes more than the length", lambda: f"{a}: {x} / {y} at {m}")
            if bad.any():
                ctx.probe("truncated")
        ctx.check(core.digest(tuple(res)) == before, "a later test changed an earlier result")
    if plan["sims"] > 0:
        ctx.nontrivial = True
    ctx.log(stat, core.digest(tuple(res)), tuple(order))


def survived(ctx, plan, pts, sup, dist, coords, res):
    """A failure inside the pool and yet a result: it must be a complete one."""
    sched = simjoblib.PLAN.order, simjoblib.PLAN.stats
    reset_world(plan)
    want = np.asarray(call(plan, pts, sup, dist, True, coords=coords).simulations, float)
    simjoblib.PLAN.order, simjoblib.PLAN.stats = sched
    got = np.asarray(res.simulations, float)
    lost = np.isnan(got).all(1).sum() if got.size else 0
    ctx.check(got.shape == want.shape and lost <= np.isnan(want).all(1).sum(),
              "a failed simulation counts as a simulation", lambda: f"{plan['stat']}: {lost} of {len(got)} rows without values")


def verify(ctx, plan, pts, sup, dist, res):
    from pointpats import distance_statistics as ds

    stat, m, n = plan["stat"], plan["sims"], len(pts)
    s, obs, pv, sims = (np.asarray(x, float) for x in res)
    ctx.check(s.ndim == 1 and obs.shape == s.shape and pv.shape == s.shape and sims.shape == (m, len(s)),
              "the parts of the result do not line up",
              lambda: f"support {s.shape} statistic {obs.shape} pvalue {pv.shape} simulations {sims.shape}, {m} asked")
    if m > 50:
        ctx.probe("many-simulations")
    if isinstance(sup, np.ndarray):
        asked = sup
    elif isinstance(sup, tuple):
        asked = np.linspace(*((0.0, *sup) if len(sup) == 1 else sup[:2]), sup[2] if len(sup) == 3 else 20)
    else:
        asked = np.linspace(0, s[-1], len(s)) if stat == "J" and plan["truncate"] else np.linspace(0, s[-1], 20 if sup is None else sup)
    cut = len(s) if stat == "J" and plan["truncate"] else len(asked)
    ctx.check(len(s) == cut and np.allclose(s, asked[:cut]), "the support is not the one asked for", lambda: f"{s} for {plan['support']}")
    full = None
    if stat in "GKL" or plan["dist"]:
        f = getattr(ds, stat.lower())
        kw = {"linearized": plan["lin"]} if stat == "L" else {}
        if stat in "FJ":
            kw["hull"] = the_hull(plan["hull"], pts)
        if stat == "J":
            kw["truncate"] = False
        want = quiet(lambda: f(pts, support=sup, distances=dist, **kw))
        k = len(s)
        if stat == "J" and plan["truncate"]:
            bad = ~np.isfinite(want[1])
            k = int(bad.argmax()) if bad.any() else len(want[1])
        ctx.check(core.digest(np.asarray(want[0], float)[:k]) == core.digest(s)
                  and np.array_equal(np.asarray(want[1], float)[:k], obs, equal_nan=True),
                  "the observed statistic is not the direct function's", lambda: f"{stat}: {obs} vs {want}")
    elif stat == "F" and len(s) > 1:
        empty_space(ctx, plan, pts, s, obs)
    if m == 0:
        ctx.probe("zero-simulations")
        ctx.check(np.isnan(pv).all(), "p-values without simulations", lambda: f"{pv}")
        return
    with np.errstate(invalid="ignore"):
        p = ((sims >= obs).sum(0) + 1) / (m + 1)
    want_p = np.minimum(p, 1 - p)
    ctx.check(np.allclose(pv, want_p, atol=1e-12, rtol=0), "p-values do not follow from the simulations",
              lambda: f"{stat}: {pv} vs {want_p}")
    if stat in "FG":
        # every cumulative fraction starts at 0, ends at 1 and only grows
        for row in [obs, *sims]:
            if np.isnan(row[1:]).all():
                continue  # nothing fell inside the support
            ctx.check(row[0] == 0 and abs(row[-1] - 1) < 1e-12 and (np.diff(row) >= -1e-12).all(),
                      "not a cumulative distribution", lambda: f"{stat}: {row}")
            mx = 1000 if stat == "F" else n
            if stat == "F" and plan["dist"]:
                continue
            ok = any(np.allclose(row * q, np.round(row * q), atol=1e-6) for q in range(mx, 0, -1))
            ctx.check(ok, "not the distribution of that many distances", lambda: f"{stat} n={n}: {row}")
    if stat in "KL":
        for row in [obs, *sims]:
            if stat == "L" and plan["lin"]:
                row = row + s
            ctx.check((row >= -1e-9).all() and (np.diff(row[np.argsort(s, kind="stable")]) >= -1e-9 * max(1, row.max())).all(),
                      "not a cumulative count", lambda: f"{stat}: {row}")
    if (stat in "KL" or (stat in "FG" and plan["support"] == "wide")) and not plan["dist"]:
        for row in [obs, *sims]:
            ctx.check(np.isfinite(row).all(), "a simulation has no statistic", lambda: f"{stat}: {row}")
    if stat in "KL" and plan["support"] == "wide" and not plan["dist"]:
        # every pair of the pattern is counted at the last distance: the others are fractions of it
        for row in sims:
            row = row if stat == "K" else (row + (s if plan["lin"] else 0)) ** 2
            q = row / row[-1] * (n * (n - 1) / 2)
            ctx.check(np.allclose(q, np.round(q), atol=1e-6), "a simulated count misses pairs",
                      lambda: f"{stat}: {q} of {n * (n - 1) / 2}")


def empty_space(ctx, plan, pts, s, obs):
    from scipy.spatial import cKDTree

    rs = np.random.Generator(np.random.PCG64(plan["pts"]["k"] + 2))
    h = the_hull(plan["hull"], pts)
    b = [*pts.min(0), *pts.max(0)]
    if plan["hull"] in ("big",):
        b = h
    elif plan["hull"] == "poly":
        b = h.bounds
    q = rs.uniform(b[:2], b[2:], (12000, 2))
    q = q[hull_contains(plan["hull"], pts, q)][:4000]
    d = cKDTree(pts).query(q)[0]
    # same conditioning as the cumulative fractions: only distances inside the support
    inr = d[(d >= s[0]) & (d <= s[-1])]
    frac = len(inr) / len(d)
    if len(inr) < 300 or frac * 1000 < 120:
        return
    exp = np.array([0.0] + [np.mean(inr <= x) for x in s[1:]])
    m_eff = frac * 1000 * 0.8
    tol = math.sqrt(22 * (1 / m_eff + 1 / len(inr)) / 2)
    if np.isnan(obs).any():
        return
    ctx.check(np.abs(exp - obs).max() <= tol, "the F statistic is not that of empty space in the hull",
              lambda: f"off by {np.abs(exp - obs).max():.3f} > {tol:.3f}: {obs} vs {exp}")


class Recorder:
    """A caller's distance function that remembers which points it was shown."""

    def __init__(self):
        self.pairs = []

    def __call__(self, a, b):
        self.pairs.append((a[0], a[1], b[0], b[1]))
        return math.hypot(a[0] - b[0], a[1] - b[1])


def without_mean(c, n):
    """A search tree also measures from its node, the mean of the events."""
    if len(c) != n + 1:
        return c
    off = [np.abs(np.delete(c, i, 0).mean(0) - c[i]).max() for i in range(len(c))]
    return np.delete(c, int(np.argmin(off)), 0)


def recorded(ctx, plan, pts, res, rec):
    """Rebuild the simulated patterns from the pairs the caller's metric saw."""
    from pointpats import distance_statistics as ds

    n = len(pts)
    parent = {}

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x

    for a0, a1, b0, b1 in rec.pairs:
        a, b = (float(a0), float(a1)), (float(b0), float(b1))
        parent.setdefault(a, a)
        parent.setdefault(b, b)
        parent[find(a)] = find(b)
    comps = {}
    for x in parent:
        comps.setdefault(find(x), []).append(x)
    mine = {tuple(map(float, p)) for p in pts}
    pats = [np.array(c) for c in comps.values() if not mine & set(c)]
    rows = [np.asarray(x, float) for x in res.simulations]
    ctx.check(len(pats) == len(rows), "simulated patterns and simulations differ in number",
              lambda: f"{len(pats)} patterns, {len(rows)} rows")
    f = getattr(ds, plan["stat"].lower())
    kw = {"linearized": plan["lin"]} if plan["stat"] == "L" else {}
    for c in pats:
        c = without_mean(c, n)
        ctx.check(len(c) == n, "a simulated pattern has another number of points", lambda: f"{len(c)} instead of {n}")
        ctx.check(hull_contains(plan["hull"], pts, c).all(), "a simulated pattern leaves the hull",
                  lambda: f"{plan['hull']}: {c}")
        row = quiet(lambda: f(c, support=np.asarray(res.support), **kw))[1]
        hit = [i for i, x in enumerate(rows) if np.allclose(x, row, rtol=1e-9, atol=1e-9, equal_nan=True)]
        ctx.check(bool(hit), "a simulation is not the statistic of its pattern", lambda: f"{row} not in {rows}")
        rows.pop(hit[0])
    ctx.probe("recorded-patterns", len(pats))


def recorded_empty(ctx, plan, pts, res, rec):
    """F and J: the empty-space points meet every pattern, so patterns are told apart by degree and order."""
    from pointpats import distance_statistics as ds

    n, m = len(pts), plan["sims"]
    links, order = {}, []
    for a0, a1, b0, b1 in rec.pairs:
        a, b = (float(a0), float(a1)), (float(b0), float(b1))
        for x, y in ((a, b), (b, a)):
            if x not in links:
                links[x] = set()
                order.append(x)
            if x != y:
                links[x].add(y)
    mine = {tuple(map(float, p)) for p in pts}
    busy = {x for x in order if len(links[x]) > 500} | mine
    events = [x for x in order if x in busy and x not in mine]
    if len(events) % (n + 1) == 1 or len(events) % n == 1:  # the node of the tree over the observed events
        off = np.abs(np.array(events) - pts.mean(0)).max(1)
        events.pop(int(off.argmin()))
    empties = np.array([x for x in order if x not in busy and len(links[x]) >= n * (m + 1)])
    ctx.check(len(empties) > 0, "the observed pattern and the simulations have no empty-space points in common")
    stray = [x for x in order if x not in busy and links[x] and not links[x] & busy]
    ctx.check(not stray, "a simulation looks at more than its pattern and the empty-space points",
              lambda: f"{plan['stat']}: {len(stray)} further points, such as {stray[:2]}")
    per = n + 1 if len(events) == (n + 1) * m else n
    ctx.check(len(events) == per * m, "a simulated pattern has another number of points",
              lambda: f"{len(events)} points in {m} patterns of {n}")
    rows = [np.asarray(x, float) for x in res.simulations]
    from scipy.spatial.distance import cdist

    for i in range(m):
        c = np.array(events[i * per : (i + 1) * per])
        c = without_mean(c, n)
        ctx.check(len(c) == n, "a simulated pattern has another number of points", lambda: f"{len(c)} instead of {n}")
        ctx.check(hull_contains(plan["hull"], pts, c).all(), "a simulated pattern leaves the hull",
                  lambda: f"{plan['hull']}: {c}")
        fd = cdist(empties, c).min(1)
        nn = (cdist(c, c) + np.diag([np.inf] * n)).min(1)
        if plan["stat"] == "F":
            row = quiet(lambda: ds.f(c, support=np.asarray(res.support), distances=fd))[1]
        else:
            row = quiet(lambda: ds.j(c, support=np.asarray(res.support), distances=(nn, fd), truncate=False))[1]
        hit = [i for i, x in enumerate(rows) if np.allclose(x, row[: len(x)], rtol=1e-9, atol=1e-9, equal_nan=True)]
        ctx.check(bool(hit), "a simulation is not the statistic of its pattern", lambda: f"{row} not in {rows}")
        rows.pop(hit[0])
    ctx.probe("recorded-patterns", m)
    ctx.probe("recorded-empty-space", m)


def shrink(plan):
    for key, lo in (("sims", 0), ("jobs", 1)):
        yield from core.smaller_ints(plan, key, lo)
    q = json.loads(json.dumps(plan))
    if q["pool"].get("faults"):
        q["pool"]["faults"] = []
        yield q
    for key in ("geo", "hull"):
        if plan[key]:
            q = json.loads(json.dumps(plan))
            q[key] = None
            yield q
    if plan["pts"]["n"] > 4:
        q = json.loads(json.dumps(plan))
        q["pts"]["n"] = 4
        yield q
