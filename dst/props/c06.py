"""C06: the quadrat test's Monte Carlo inference, on streams the simulator decides."""

import json
import math

import numpy as np

from .. import core, seams
from ..ops import make_rng
from ..util import gen_points, make_points, quiet

RUNS = {"quick": 3000, "thorough": 60000}
RULE = (
    "A run builds a QStatistic on points with ties, grid alignment or offsets, in a window that may "
    "be a triangle, a ring or several parts, with a simulated random stream that is often unlucky "
    "(extremes, repeats, values next to an edge), and recomputes counts, chi-square, simulated "
    "chi-squares and p-value. Non-trivial: at least one realization was simulated."
)
REAL = ["pointpats.quadrat_statistics", "pointpats.random.poisson", "numpy Generator distributions", "shapely"]
STUB = ["the bit stream under the caller's Generator"]
ASSUME = ["an event within 1e-9 of a cell boundary may be counted on either side",
          "a hexagon cell's events are those nearer its centre than any other centre of the grid"]
EXPECT = ["rectangle", "hexagon", "one-realization", "recorded", "extreme", "repeat", "tiny", "window:tri",
          "window:ring", "window:parts", "window:part", "input:series", "input:pattern", "input:frame", "widths", "no-realizations", "another-grid"]


def plan(r, i, tier):
    return {
        "pts": gen_points(r, r.choice((3, 4, 5, 7, 10, 20, 45))),
        "shape": r.choice(("rectangle", "hexagon")),
        "nx": r.choice((1, 2, 3, 4)), "ny": r.choice((1, 2, 3, 5)),
        "widths": r.choice((None, None, (0.31, 0.27), (0.5, 0.25), (1.0, 0.2))),
        "lh": r.choice((0.09, 0.2, 0.25, 1 / 3, 0.5, 0.9, 1.7)),
        "real": 0 if i % 17 == 0 else r.choice((1, 1, 2, 4, 9, 19)),
        "window": r.choice((None, None, "box", "tri", "ring", "parts", "part")),
        "input": r.choice(("array", "array", "list", "series", "frame", "pattern")),
        "stream": r.choice(("int", "gen", "randomstate", "bitgen", "seq", "sim", "sim", "sim", "sim")),
        "rates": {k: r.choice((0.0, 0.02, 0.1)) for k in ("extreme", "repeat", "tiny")},
        "k": r.getrandbits(32),
        "other": r.choice((None, gen_points(r, r.choice((3, 6, 11, 20))))),
    }


def the_window(kind, pts):
    import shapely

    (x0, y0), (x1, y1) = pts.min(0), pts.max(0)
    w, h = x1 - x0, y1 - y0
    if kind is None:
        return None
    if kind == "box":
        return shapely.box(x0 - w * 0.1, y0 - h * 0.2, x1 + w * 0.05, y1)
    if kind == "part":  # some events were observed outside
        return shapely.box(x0 + w * 0.1, y0, x1 - w * 0.15, y1 - h * 0.1)
    if kind == "tri":
        return shapely.Polygon([(x0 - w, y0 - h * 0.1), (x1 + w, y0 - h * 0.1), ((x0 + x1) / 2, y1 + 1.2 * h)])
    if kind == "ring":
        return shapely.box(x0 - w, y0 - h, x1 + w, y1 + h).difference(shapely.box(x0 - w * .8, y0 - h * .7, x0 - w * .1, y1))
    return shapely.MultiPolygon([shapely.box(x0, y0, x1, y1), shapely.box(x1 + w, y0, x1 + 2 * w, y1 + h)])


class Patterns:
    """Notes the points every grid of the public grid classes is built for."""

    def __init__(self):
        self.seen = []

    def __enter__(self):
        from pointpats import quadrat_statistics as qs

        self.undo = []
        for c in (qs.RectangleM, qs.HexagonM):
            real = c.__init__

            def init(this, *a, _real=real, **k):
                _real(this, *a, **k)
                self.seen.append((np.array(this.points, float), this))

            self.undo.append((c, real))
            c.__init__ = init
        return self

    def __exit__(self, *a):
        for c, real in self.undo:
            c.__init__ = real


def run(ctx, plan):
    import geopandas as gpd
    import pointpats as P

    pts = make_points(plan["pts"])
    if (np.ptp(pts, axis=0) == 0).any():
        pts = np.vstack((pts, pts[0] + 1.0, pts[0] - (0.5, 2.0)))
    w, h = np.ptp(pts, axis=0)
    win = the_window(plan["window"], pts)
    xs = {"array": lambda: pts.copy(), "list": lambda: pts.tolist(),
          "series": lambda: gpd.GeoSeries(gpd.points_from_xy(pts[:, 0], pts[:, 1])),
          "frame": lambda: gpd.GeoDataFrame({"a": range(len(pts))}, geometry=gpd.points_from_xy(pts[:, 0], pts[:, 1])),
          "pattern": lambda: P.PointPattern(pts)}[plan["input"]]()
    bg = None
    if plan["stream"] == "sim":
        bg = seams.SimBitGen(plan["k"], plan["rates"])
        rng = bg.generator()
    else:
        rng = make_rng({"kind": plan["stream"], "seed": plan["k"]})
    kw = dict(shape=plan["shape"], realizations=plan["real"], window=win, rng=rng)
    if plan["shape"] == "rectangle":
        kw.update(nx=plan["nx"], ny=plan["ny"])
        if plan["widths"]:
            kw.update(rectangle_width=plan["widths"][0] * w, rectangle_height=plan["widths"][1] * h)
            ctx.probe("widths")
    else:
        kw["lh"] = plan["lh"] * max(w, h)
    ctx.probe(plan["shape"])
    if plan["window"]:
        ctx.probe("window:" + plan["window"])
    ctx.probe("input:" + plan["input"])
    def another():  # a grid of the same design over other events, counted once
        if plan["other"]:
            ctx.probe("another-grid")
            y = make_points(plan["other"])
            y = np.vstack((y, y[0] + (7.0, 5.0), y[0] - (0.5, 2.0)))
            o = P.QStatistic(y, **{**kw, "realizations": 0, "window": None, "rng": 3})
            c = quiet(lambda: o.mr.point_location_sta())
            ctx.check(sum(c.values()) == len(y), "events are lost or counted twice", lambda: f"{c} for {len(y)}")

    another()
    with Patterns() as rec:
        try:
            q = quiet(lambda: P.QStatistic(xs, **kw))
        except Exception as e:  # noqa: BLE001
            # a simulated pattern without extent has no grid
            flat = any((np.ptp(p, axis=0) == 0).any() for p, _ in rec.seen[1:])
            if flat and plan["stream"] == "sim":
                ctx.probe("flat-pattern")
                return
            raise
    if bg:
        for k, v in bg.fired.items():
            ctx.fault(k, v)
    ctx.judge(lambda: verify(ctx, plan, pts, win, q, rec, kw))
    if plan["other"]:
        first = dict(q.mr.point_location_sta())
        another()
        ctx.check(q.mr.point_location_sta() == first, "the counts of a grid change with later grids", lambda: f"{first}")
    ctx.log(plan["shape"], core.digest([q.chi2, list(q.cell_ids), getattr(q, "chi2_realizations", None)]))


def verify(ctx, plan, pts, win, q, rec, kw):
    import scipy.stats as ss
    import shapely

    n, m = len(pts), plan["real"]
    counts = q.mr.point_location_sta()
    ctx.check(list(counts) == list(q.cell_ids), "cell ids are not the grid's", lambda: f"{q.cell_ids} {counts}")
    o = np.array([counts[c] for c in q.cell_ids], float)
    cells(ctx, plan, pts, q, counts, kw)
    k = len(o)
    e = n / k
    chi = ((o - e) ** 2 / e).sum()
    ctx.check(np.isclose(q.chi2, chi), "chi-square of the observed counts", lambda: f"{q.chi2} vs {chi}")
    ctx.check(q.df == k - 1, "degrees of freedom", lambda: f"{q.df} for {k} cells")
    ctx.check(np.allclose(q.chi2_contrib, (o - e) ** 2 / e), "contributions", lambda: f"{q.chi2_contrib}")
    if k > 1:
        ctx.check(np.isclose(q.chi2_pvalue, ss.chi2.sf(chi, k - 1)), "analytical p-value", lambda: f"{q.chi2_pvalue}")
    if win is not None:
        ctx.check(q.window is win or shapely.equals(q.window, win), "the window is not the caller's")
    else:
        ctx.check(shapely.equals(q.window, shapely.box(*pts.min(0), *pts.max(0))), "the default window")
    if m == 0:
        ctx.probe("no-realizations")
        ctx.check(not hasattr(q, "chi2_r_pvalue") and not hasattr(q, "chi2_realizations"), "inference without simulation")
        return
    ctx.nontrivial = True
    if m == 1:
        ctx.probe("one-realization")
    sims = np.asarray(q.chi2_realizations, float)
    ctx.check(sims.shape == (m,), "one simulated statistic per realization", lambda: f"{sims.shape} for {m}")
    ctx.check(np.isfinite(sims).all(), "a simulated statistic is not finite", lambda: f"{sims}")
    want = ((sims >= q.chi2).sum() + 1) / (m + 1)
    ctx.check(np.isclose(q.chi2_r_pvalue, want), "the p-value does not follow from the simulations",
              lambda: f"{q.chi2_r_pvalue} vs {want}")
    if plan["shape"] == "rectangle":
        # k/n * sum(O^2) - n with integer counts that sum to n
        ss2 = (sims + n) * n / k
        r = np.round(ss2)
        ctx.check(np.allclose(ss2, r, atol=1e-6, rtol=1e-9) and ((r - n) % 2 == 0).all() and (r >= n * n / k - 1e-6).all()
                  and (r <= n * n + 1e-6).all(),
                  "a simulated statistic is not one of that many events in that many cells",
                  lambda: f"n={n} cells={k}: {sims} -> {ss2}")
    pats = rec.seen[1:]
    if len(pats) != m:
        return
    ctx.probe("recorded", m)
    W = q.window
    eps = 1e-9 * max(np.ptp(pts, axis=0)) + 4e-15 * np.abs(pts).max()
    left = list(sims)
    for p, grid in pats:
        ctx.check(p.shape == (n, 2), "a simulated pattern has another number of events", lambda: f"{p.shape} for {n}")
        ctx.check((shapely.distance(W, shapely.points(p)) <= eps).all(), "a simulated event lies outside the window",
                  lambda: f"{p} in {W.wkt[:300]}")
        c = np.array(list(grid.point_location_sta().values()), float)
        ctx.check(c.sum() == n, "a simulated pattern loses events", lambda: f"{c}")
        x = ((c - c.mean()) ** 2 / c.mean()).sum()
        hit = [i for i, v in enumerate(left) if np.isclose(v, x)]
        ctx.check(bool(hit), "a simulated statistic is not that of its pattern", lambda: f"{x} not in {left}")
        left.pop(hit[0])


def cells(ctx, plan, pts, q, counts, kw):
    """Every event is counted once, in the cell that holds it."""
    n = len(pts)
    ctx.check(sum(counts.values()) == n, "events are lost or counted twice", lambda: f"{counts} for {n}")
    (x0, y0), (x1, y1) = pts.min(0), pts.max(0)
    eps = 1e-9 * max(x1 - x0, y1 - y0) + 1e-14 * np.abs(pts).max()
    if plan["shape"] == "rectangle":
        if plan["widths"]:
            cw, ch = kw["rectangle_width"], kw["rectangle_height"]
            nc, nr = math.ceil((x1 - x0) / cw - 1e-9), math.ceil((y1 - y0) / ch - 1e-9)
            if abs((x1 - x0) / cw - round((x1 - x0) / cw)) < 1e-9 or abs((y1 - y0) / ch - round((y1 - y0) / ch)) < 1e-9:
                nc, nr = q.mr.count_column, q.mr.count_row  # rounding decides on one cell more
        else:
            nc, nr = plan["nx"], plan["ny"]
            cw, ch = (x1 - x0) / nc, (y1 - y0) / nr
        ctx.check(sorted(counts) == list(range(nc * nr)), "the grid has other cells", lambda: f"{sorted(counts)} {nc}x{nr}")
        for c, v in counts.items():
            ix, iy = c % nc, c // nc
            ax, ay = x0 + ix * cw, y0 + iy * ch
            bx = ax + cw if ix < nc - 1 else np.inf
            by = ay + ch if iy < nr - 1 else np.inf
            lo = ((pts > (ax + eps, ay + eps)) & (pts < (bx - eps, by - eps))).all(1).sum()
            hi = ((pts >= (ax - eps, ay - eps)) & (pts <= (bx + eps, by + eps))).all(1).sum()
            ctx.check(lo <= v <= hi, "a cell's count is not the number of events in it",
                      lambda: f"cell {c}: {v}, between {lo} and {hi}")
        return
    lh, sh = q.mr.h_length, q.mr.semi_height
    nc = q.mr.count_column
    ids = list(counts)
    cen = np.array([(x0 + (c % nc) * 1.5 * lh, y0 + (c // nc) * 2 * sh + ((c % nc) % 2) * sh) for c in ids])
    d = np.sqrt(((pts[:, None] - cen[None]) ** 2).sum(-1))
    best = d.min(1)
    # in a hexagon: closer to its centre than to the neighbours', in the grid or not
    tol = 1e-7 * lh + eps
    inc = best <= lh + tol
    ctx.check(inc.all(), "the grid does not cover the events", lambda: f"{pts[~inc]}")
    ring = np.array([(1.5 * lh * math.copysign(1, a) * (a != 0), b * sh) for a, b in
                     ((0, 2), (0, -2), (1, 1), (1, -1), (-1, 1), (-1, -1))])
    for j, c in enumerate(ids):
        near = d[:, j]
        other = np.sqrt(((pts[:, None] - (cen[j] + ring)[None]) ** 2).sum(-1)).min(1)
        lo = (near < other - tol).sum()
        hi = (near <= best + tol).sum()
        ctx.check(lo <= counts[c] <= hi, "a cell's count is not the number of events in it",
                  lambda: f"hexagon {c}: {counts[c]}, between {lo} and {hi}")


def shrink(plan):
    yield from core.smaller_ints(plan, "real", 0)
    for v in (3, 4, 5, 7, 10):
        if v < plan["pts"]["n"]:
            q = json.loads(json.dumps(plan))
            q["pts"]["n"] = v
            yield q
    for key, v in (("window", None), ("widths", None), ("input", "array"), ("rates", {})):
        if plan[key] != v:
            q = json.loads(json.dumps(plan))
            q[key] = v
            yield q
