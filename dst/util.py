"""Input builders and reference geometry shared by the properties."""

import math
import warnings

import numpy as np

HULLS = ("bbox", "points", "polygon", "multi", "holed", "convex", "offset", "sliver", "tiny", "whole", "wholepts")
# shapes whose bounding box or corners say little about what they contain
ODD = ("strip", "slot", "swiss", "islands", "ring-island", "comb", "triangle")


def gen_hull(r, kinds=HULLS):
    """A JSON description of a hull."""
    kind = r.choice(kinds)
    x0, y0 = round(r.uniform(-50, 50), 3), round(r.uniform(-50, 50), 3)
    w, h = round(r.uniform(0.5, 40), 3), round(r.uniform(0.5, 40), 3)
    if kind == "offset":
        x0, y0 = x0 + 500_000.0, y0 + 4_000_000.0
    if kind == "sliver":
        h = round(w / 200, 5)
    if kind == "tiny":
        x0, y0, w, h = x0 / 1e4, y0 / 1e4, w / 1e4, h / 1e4
    if kind in ("whole", "wholepts"):
        x0, y0, w, h = int(x0), int(y0), int(w) + 2, int(h) + 2
    return {"kind": kind, "box": [x0, y0, w, h], "k": r.randrange(1 << 30)}


def make_hull(d):
    """The hull object handed to the library (a fresh one on every call)."""
    import random

    import shapely
    from scipy.spatial import ConvexHull

    x0, y0, w, h = d["box"]
    r = random.Random(d["k"])
    kind = d["kind"]
    if kind in ("bbox", "offset", "sliver", "tiny", "whole"):
        return np.array([x0, y0, x0 + w, y0 + h])
    if kind == "wholepts":
        return np.array([(x0, y0), (x0 + w, y0 + h // 2), (x0 + w // 2, y0 + h), (x0 + 1, y0 + 1)])
    if kind in ("points", "convex"):
        n = 5 + d["k"] % 9
        a = np.array([[x0 + w * r.random(), y0 + h * r.random()] for _ in range(n)])
        a[0] = (x0, y0)
        a[1] = (x0 + w, y0 + h)
        a[2] = (x0, y0 + h)
        return a if kind == "points" else ConvexHull(a)
    if kind == "polygon":
        # star-shaped, not convex
        n = 5 + d["k"] % 7
        pts = []
        for i in range(n):
            t = 2 * math.pi * i / n
            q = 0.35 + 0.6 * r.random()
            pts.append((x0 + w / 2 * (1 + q * math.cos(t)), y0 + h / 2 * (1 + q * math.sin(t))))
        return shapely.Polygon(pts)
    if kind == "holed":
        outer = shapely.box(x0, y0, x0 + w, y0 + h)
        inner = shapely.box(x0 + w * 0.2, y0 + h * 0.2, x0 + w * 0.75, y0 + h * 0.8)
        return outer.difference(inner)
    if kind == "multi":
        return shapely.MultiPolygon(
            [
                shapely.box(x0, y0, x0 + w * 0.4, y0 + h * 0.5),
                shapely.box(x0 + w * 0.6, y0 + h * 0.55, x0 + w, y0 + h),
            ]
        )
    if kind == "strip":
        t = 0.002 * 20 ** r.random()
        return shapely.Polygon([(x0, y0), (x0 + w * t, y0), (x0 + w, y0 + h), (x0 + w * (1 - t), y0 + h)])
    if kind == "slot":
        a = 0.2 + 0.5 * r.random()
        hole = shapely.box(x0 + w * a, y0 + h * 0.04, x0 + w * (a + 0.08), y0 + h * 0.96)
        return shapely.box(x0, y0, x0 + w, y0 + h).difference(hole)
    if kind == "swiss":
        g = shapely.box(x0, y0, x0 + w, y0 + h)
        for i in range(3):
            for j in range(3):
                a, b = x0 + w * (i + 0.3) / 3, y0 + h * (j + 0.3) / 3
                g = g.difference(shapely.box(a, b, a + w * 0.15, b + h * 0.15))
        return g
    if kind == "islands":
        # parts of very different size
        return shapely.MultiPolygon(
            [shapely.box(x0, y0, x0 + w * 0.7, y0 + h), shapely.box(x0 + w * 0.93, y0 + h * 0.9, x0 + w, y0 + h)]
        )
    if kind == "ring-island":
        ring = shapely.box(x0, y0, x0 + w, y0 + h).difference(
            shapely.box(x0 + w * 0.1, y0 + h * 0.1, x0 + w * 0.9, y0 + h * 0.9)
        )
        return shapely.MultiPolygon([ring, shapely.box(x0 + w * 0.3, y0 + h * 0.3, x0 + w * 0.7, y0 + h * 0.7)])
    if kind == "comb":
        teeth = [shapely.box(x0 + w * i / 4, y0, x0 + w * (i / 4 + 0.12), y0 + h) for i in range(4)]
        return shapely.union_all([shapely.box(x0, y0, x0 + w * 0.87, y0 + h * 0.1), *teeth])
    if kind == "triangle":
        return shapely.Polygon([(x0, y0), (x0 + w, y0 + h * r.random()), (x0 + w * r.random(), y0 + h)])
    raise ValueError(kind)


def hull_area(d):
    h = make_hull(d)
    x0, y0, w, hh = d["box"]
    if isinstance(h, np.ndarray):
        b = hull_bounds(d)
        return (b[2] - b[0]) * (b[3] - b[1])
    if hasattr(h, "volume"):
        return h.volume
    return h.area


def hull_bounds(d):
    h = make_hull(d)
    if isinstance(h, np.ndarray):
        return h if h.ndim == 1 else np.array([*h.min(0), *h.max(0)])
    if hasattr(h, "volume"):
        p = h.points
        return np.array([*p.min(0), *p.max(0)])
    return np.array(h.bounds)


def hull_scale(d):
    b = hull_bounds(d)
    return max(b[2] - b[0], b[3] - b[1])


def inside(d, pts):
    """Boolean per point: inside the closed hull (rounding allowed for)."""
    import shapely

    pts = np.asarray(pts, float).reshape(-1, 2)
    h = make_hull(d)
    eps = 1e-9 * hull_scale(d) + 4e-15 * float(np.abs(hull_bounds(d)).max())
    if isinstance(h, np.ndarray):
        b = hull_bounds(d)
        return (
            (pts[:, 0] >= b[0] - eps) & (pts[:, 0] <= b[2] + eps)
            & (pts[:, 1] >= b[1] - eps) & (pts[:, 1] <= b[3] + eps)
        )
    if hasattr(h, "equations"):
        e = h.equations
        return ((pts @ e[:, :2].T + e[:, 2]) <= eps).all(axis=1)
    return shapely.distance(h, shapely.points(pts)) <= eps


def sample_in(d, r, n):
    """n points inside the hull, by the harness's own sampler."""
    b = hull_bounds(d)
    out = []
    while len(out) < n:
        p = (b[0] + (b[2] - b[0]) * r.random(), b[1] + (b[3] - b[1]) * r.random())
        if inside(d, [p])[0]:
            out.append(p)
    return np.array(out, float).reshape(-1, 2)


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def gen_points(r, n=None):
    """JSON description of a point set: scale, offset, ties, clusters."""
    return {
        "n": n if n is not None else r.choice((3, 4, 5, 7, 10, 16, 25)),
        "kind": r.choice(("uniform", "uniform", "clusters", "grid", "ties", "offset", "whole")),
        "k": r.randrange(1 << 30),
    }


def make_points(d):
    rs = np.random.Generator(np.random.PCG64(d["k"]))
    n, kind = d["n"], d["kind"]
    if kind == "clusters":
        c = rs.uniform(0, 100, (max(1, n // 5), 2))
        p = c[rs.integers(0, len(c), n)] + rs.normal(0, 2, (n, 2))
    elif kind == "grid":
        m = int(math.ceil(math.sqrt(n)))
        p = np.array([(i % m, i // m) for i in range(n)], float) * 10.0
        p = p[rs.permutation(n)]
    elif kind == "ties":
        p = rs.integers(0, 6, (n, 2)).astype(float)
        p[0] = (0.0, 0.0)
        p[1] = (6.0, 5.0)
    elif kind == "whole":
        p = rs.integers(0, 40, (n, 2))  # integers, as read from a table
        p[0], p[1] = (0, 1), (40, 38)
    elif kind == "offset":
        p = rs.uniform(0, 100, (n, 2)) + (500_000.0, 4_000_000.0)
    else:
        p = rs.uniform(0, 100, (n, 2))
    return p
