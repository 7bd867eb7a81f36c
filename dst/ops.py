"""A JSON-describable catalogue of pointpats calls.

gen(r, kinds) -> descriptor; build(descriptor) -> Op with
  inputs : the caller's own objects, by name
  call() : performs the call and returns its result in digestible form
Two builds of one descriptor share nothing.
"""

import random
import warnings

import numpy as np

from .util import gen_hull, gen_points, hull_area, hull_scale, make_hull, make_points

SEEDED = ("gen", "gen", "gen", "qstat")
LEGACY = ("knox", "knoxlocal", "oldknox", "mantel", "jacquez", "modknox", "knoxdf",
          "knoxlocaldf", "ppp", "pcpp")
PURE = ("g", "k", "l", "fdist", "jdist", "centro", "pp", "geom")
RIPLEY = ("gtest", "ktest", "ltest", "ftest", "jtest")
EXTRA = ("geocentro", "ellipse", "marks", "quadplot", "kplot", "kde", "knn", "ripd", "window", "frames")
LAYOUTS = ("c", "c", "f", "view", "ro", "int")
GENS = ("poisson", "normal", "cluster_poisson", "cluster_normal", "strauss")


class Op:
    def __init__(self, d, inputs, fn):
        self.d, self.inputs, self._fn = d, inputs, fn

    def call(self):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return self._fn()

    def attempt(self):
        """Result, or the exception as a value (for differential comparison)."""
        try:
            return ("ok", self.call())
        except Exception as e:  # noqa: BLE001
            return ("exc", type(e).__name__)


def warm():
    """Compile and import once, before any run is forked off, what a first call would."""
    import folium  # noqa: F401
    import geopandas  # noqa: F401
    import KDEpy  # noqa: F401
    import matplotlib.pyplot  # noqa: F401
    import scipy.stats  # noqa: F401
    import sklearn.neighbors  # noqa: F401
    import statsmodels.api  # noqa: F401
    from pointpats.centrography import minimum_bounding_circle

    minimum_bounding_circle(np.random.Generator(np.random.PCG64(1)).uniform(0, 1, (9, 2)))


# ---------------------------------------------------------------- generators
def gen(r, kinds, rng_kinds=("int", "gen"), small=False):
    kind = r.choice(kinds)
    d = {"op": kind, "k": r.randrange(1 << 30)}
    if kind == "gen":
        g = r.choice(GENS)
        d["g"] = g
        d["hull"] = gen_hull(r, ("bbox", "points", "polygon", "multi", "offset", "tiny", "convex", "whole", "wholepts"))
        d["n"] = r.choice((2, 3, 6, 9, 9)) if small else r.choice((3, 5, 8, 15, 30))
        d["reps"] = r.choice((1, 1, 2, 3))
        d["seeds"] = r.choice((2, 3, 5))
        d["radius"] = r.choice((None, 0.1))
        d["how"] = r.choice(("tuple", "int", "intensity"))
        if d["hull"]["kind"] == "convex" or g == "strauss":
            d["n"] = min(d["n"], 6)
        d["rng"] = {"kind": r.choice(rng_kinds), "seed": gen_seed(r)}
    elif kind == "qstat":
        d["pts"] = gen_points(r, r.choice((4, 6, 9, 20)))
        d["shape"] = r.choice(("rectangle", "hexagon"))
        d["nx"], d["ny"] = r.choice((1, 2, 3)), r.choice((2, 3))
        d["real"] = r.choice((1, 2, 5, 9))
        d["window"] = r.choice((None, "poly"))
        d["rng"] = {"kind": r.choice(tuple(rng_kinds) + ("randomstate", "bitgen")), "seed": gen_seed(r)}
    elif kind in LEGACY[:8]:
        d["ev"] = gen_events(r)
        d["perms"] = r.choice((0, 3, 9)) if kind != "jacquez" else r.choice((0, 3, 5))
        d["keep"] = r.random() < 0.5
    elif kind in ("ppp", "pcpp"):
        d["n"] = r.choice((3, 8, 12))
        d["samples"] = r.choice((1, 2, 3))
        d["cond"] = r.random() < 0.4
        d["asPP"] = r.random() < 0.3
        d["poly"] = r.choice(("box", "tri"))
    elif kind in ("g", "k", "l", "fdist", "jdist", "centro", "pp"):
        d["pts"] = gen_points(r, r.choice((4, 6, 10, 18)))
        d["support"] = r.choice((5, [30.0], [1.0, 30.0], [0.0, 40.0, 7], "array"))
        if kind == "centro":
            d["f"] = r.choice(CENTRO)
    elif kind == "geom":
        d["hull"] = gen_hull(r, ("bbox", "points", "polygon", "multi", "holed", "convex", "whole", "wholepts"))
    elif kind in EXTRA:
        d["pts"] = gen_points(r, r.choice((5, 7, 11)))
        d["ev"] = gen_events(r)
        d["v"] = r.randrange(1 << 20)
    elif kind in RIPLEY:
        d["pts"] = gen_points(r, r.choice((5, 8, 12)))
        d["support"] = r.choice((5, [30.0], [1.0, 30.0, 6], "array", "unsorted"))
        d["sims"] = r.choice((1, 3, 6))
        d["jobs"] = r.choice((1, 1, 2, 3))
        d["hull"] = r.choice((None, "convex", "bbox", "arr", "poly", "scipy", "intarr"))
        d["dist"] = r.random() < 0.3
    return d


def gen_seed(r):
    return r.choice((0, 0, 1, 42, 2**31 - 1, r.randrange(2**32), r.randrange(2**60)))


def gen_events(r, n=None):
    return {
        "n": n or r.choice((5, 6, 8, 11)),
        "k": r.randrange(1 << 30),
        "kind": r.choice(("int", "float", "ties", "cluster")),
    }


def make_events(d):
    rs = np.random.Generator(np.random.PCG64(d["k"]))
    n = d["n"]
    if d["kind"] == "int":
        s, t = rs.integers(0, 20, (n, 2)).astype(float), rs.integers(0, 15, (n, 1))
        delta, tau = float(rs.integers(2, 12)), float(rs.integers(1, 8))
    elif d["kind"] == "ties":
        s, t = rs.integers(0, 5, (n, 2)).astype(float), rs.integers(0, 4, (n, 1))
        delta, tau = float(rs.integers(1, 4)), float(rs.integers(0, 3))
    elif d["kind"] == "cluster":
        c = rs.integers(0, 3, n)
        s = c[:, None] * 30.0 + rs.uniform(0, 4, (n, 2))
        t = (c * 20 + rs.integers(0, 4, n)).reshape(n, 1)
        delta, tau = 5.0, 4.0
    else:
        s, t = rs.uniform(0, 20, (n, 2)), rs.uniform(0, 15, (n, 1))
        delta, tau = float(rs.uniform(2, 12)), float(rs.uniform(1, 8))
    return s, t, delta, tau


CENTRO = ("mean_center", "manhattan_median", "std_distance", "ellipse", "hull",
          "minimum_bounding_circle", "euclidean_median", "minimum_bounding_rectangle",
          "minimum_rotated_rectangle", "weighted_mean_center", "dtot")


# -------------------------------------------------------------------- builds
def lay(a, d):
    """The same numbers in another memory layout (d["lay"])."""
    how = d.get("lay", "c")
    if how == "f":
        return np.asfortranarray(a)
    if how == "view":
        big = np.full((a.shape[0] * 2, *a.shape[1:]), -77.0)
        big[::2] = a
        return big[::2]
    if how == "ro":
        a = a.copy()
        a.flags.writeable = False
    return a


def make_rng(d):
    k, s = d["kind"], d["seed"]
    if k == "int":
        return s
    if k == "npint":
        return np.int64(s)
    if k == "gen":
        return np.random.Generator(np.random.PCG64(s))
    if k == "randomstate":
        return np.random.RandomState(s % 2**32)
    if k == "bitgen":
        return np.random.PCG64(s)
    if k == "seq":
        return np.random.SeedSequence(s)
    return None


def build(d, rng=None):
    """rng: an object to use instead of the descriptor's own."""
    import pointpats as P
    import pointpats.random as pr

    kind = d["op"]
    rs = random.Random(d["k"])
    if kind == "gen":
        hull = make_hull(d["hull"])
        g = d["g"]
        kw = {}
        scale = hull_scale(d["hull"])
        if g in ("cluster_poisson", "cluster_normal"):
            kw["n_seeds"] = d["seeds"]
            n = max(d["n"], d["seeds"])
        else:
            n = d["n"]
        if g == "cluster_poisson" and d["radius"]:
            kw["cluster_radius"] = [d["radius"] * scale * (1 + i) for i in range(d["seeds"])]
        if g == "cluster_normal" and d["radius"]:
            kw["cov"] = np.diag([(0.05 * scale) ** 2] * 2)
        if g == "normal" and d["radius"]:
            kw["cov"] = np.array([[1.0, 0.3], [0.3, 1.0]]) * (0.4 * scale) ** 2
        if g == "strauss":
            kw.update(n_iter=12, gamma=0.7, r=0.05 * scale)
        if d["how"] == "int":
            kw["size"] = n
        elif d["how"] == "intensity" and g in ("poisson", "cluster_poisson", "strauss"):
            kw["intensity"] = n / hull_area(d["hull"])
            kw["size"] = d["reps"]
        else:
            kw["size"] = (n, d["reps"])
        the_rng = make_rng(d["rng"]) if rng is None else rng
        return Op(d, {"hull": hull, "kw": kw, "rng": the_rng},
                  lambda: getattr(pr, g)(hull, rng=the_rng, **kw))
    if kind == "qstat":
        import shapely

        pts = lay(make_points(d["pts"]), d)
        b = [*pts.min(0), *pts.max(0)]
        win = None
        if d["window"]:
            win = shapely.Polygon([(b[0], b[1]), (b[2], b[1]), (b[2], b[3]), (b[0] + (b[2] - b[0]) * 0.4, b[3])])
        kw = dict(shape=d["shape"], realizations=d["real"], window=win)
        if d["shape"] == "rectangle":
            kw.update(nx=d["nx"], ny=d["ny"])
        else:
            kw["lh"] = max(b[2] - b[0], b[3] - b[1]) / 3.3
        the_rng = make_rng(d["rng"]) if rng is None else rng

        def fn():
            q = P.QStatistic(pts, rng=the_rng, **kw)
            return [q.chi2, q.chi2_pvalue, q.df, list(q.cell_ids), np.asarray(q.chi2_contrib),
                    np.asarray(q.chi2_realizations), q.chi2_r_pvalue, sorted(q.mr.point_location_sta().items())]

        return Op(d, {"pts": pts, "window": win, "rng": the_rng}, fn)
    if kind in LEGACY[:8]:
        from pointpats import spacetime as st

        s, t, delta, tau = make_events(d["ev"])
        s, t = lay(s, d), lay(t, d)
        perms, keep = d["perms"], d["keep"]
        if kind in ("knoxdf", "knoxlocaldf"):
            import geopandas as gpd

            df = gpd.GeoDataFrame({"t": t[:, 0], "other": np.arange(len(t))},
                                  geometry=gpd.points_from_xy(s[:, 0], s[:, 1]), crs="EPSG:3857")
            cls = st.Knox if kind == "knoxdf" else st.KnoxLocal
            return Op(d, {"df": df}, lambda: knox_state(
                cls.from_dataframe(df, "t", delta, tau, permutations=perms, keep=keep)))
        inp = {"s": s, "t": t}
        if kind == "knox":
            fn = lambda: knox_state(st.Knox(s, t, delta, tau, permutations=perms, keep=keep))
        elif kind == "knoxlocal":
            fn = lambda: knox_state(st.KnoxLocal(s, t, delta, tau, permutations=perms, keep=keep))
        elif kind == "oldknox":
            fn = lambda: sorted((k, np.asarray(v)) for k, v in st.knox(s, t, delta, tau, permutations=perms).items())
        elif kind == "mantel":
            fn = lambda: _stat(st.mantel(s, t, perms, scon=1.0, spow=-1.0, tcon=1.0, tpow=-1.0))
        elif kind == "jacquez":
            fn = lambda: _stat(st.jacquez(s, t, k=2, permutations=perms))
        else:
            fn = lambda: _stat(st.modified_knox(s, t, delta, tau, permutations=perms))
        return Op(d, inp, fn)
    if kind in ("ppp", "pcpp"):
        import libpysal as ps
        from pointpats import as_window

        if d["poly"] == "box":
            v = [(0.0, 0.0), (0.0, 10.0), (12.0, 10.0), (12.0, 0.0), (0.0, 0.0)]
        else:
            v = [(0.0, 0.0), (3.0, 10.0), (12.0, 2.0), (0.0, 0.0)]
        win = as_window(ps.cg.shapes.Polygon(v))
        if kind == "ppp":
            mk = lambda: P.PoissonPointProcess(win, d["n"], d["samples"], conditioning=d["cond"], asPP=d["asPP"])
        else:
            mk = lambda: P.PoissonClusterPointProcess(win, d["n"], max(1, d["n"] // 4), 1.5, d["samples"],
                                                      asPP=d["asPP"], conditioning=d["cond"])

        def fn():
            p = mk()
            out = [sorted((k, sorted(v.items())) for k, v in p.parameters.items())]
            for k in sorted(p.realizations):
                x = p.realizations[k]
                out.append(np.asarray(getattr(x, "points", x), float))
            return out

        return Op(d, {"window": win}, fn)
    if kind in ("g", "k", "l", "fdist", "jdist"):
        from pointpats import distance_statistics as ds

        pts = lay(make_points(d["pts"]), d)
        sup = make_support(d["support"])
        if kind in ("g", "k", "l"):
            f = getattr(ds, kind)
            return Op(d, {"pts": pts, "support": sup}, lambda: f(pts, support=sup))
        q = np.random.Generator(np.random.PCG64(d["k"])).uniform(0, 100, (30, 2))
        from scipy.spatial.distance import cdist

        if kind == "fdist":
            dist = cdist(pts - pts.min(0), q)
            return Op(d, {"pts": pts, "support": sup, "dist": dist},
                      lambda: ds.f(pts, support=sup, distances=dist))
        dm = cdist(pts, pts) + np.where(np.eye(len(pts)) > 0, np.inf, 0.0)
        fd = cdist(pts - pts.min(0), q).min(0)
        dist = (dm.min(1), fd)
        return Op(d, {"pts": pts, "support": sup, "dist": dist},
                  lambda: ds.j(pts, support=sup, distances=dist, truncate=d["k"] % 2 == 0))
    if kind == "centro":
        from pointpats import centrography as cg

        pts = lay(make_points(d["pts"]), d)
        f = getattr(cg, d["f"])
        w = np.arange(1.0, len(pts) + 1)
        if d["f"] == "weighted_mean_center":
            return Op(d, {"pts": pts, "w": w}, lambda: f(pts, w))
        if d["f"] == "dtot":
            c = pts.mean(0)
            return Op(d, {"pts": pts, "c": c}, lambda: f(c, pts))
        if d["f"] == "minimum_rotated_rectangle":
            return Op(d, {"pts": pts}, lambda: f(pts, return_angle=True))
        return Op(d, {"pts": pts}, lambda: f(pts))
    if kind == "pp":
        pts = lay(make_points(d["pts"]), d)

        def fn():
            pp = P.PointPattern(pts)
            return [pp.n, np.asarray(pp.mbb), pp.lambda_mbb, pp.lambda_window, pp.mean_nnd,
                    pp.knn(2), np.asarray(pp.hull), pp.hull_area, pp.rot, sorted(pp.find_pairs(20.0)),
                    pp.unique().n]

        return Op(d, {"pts": pts}, fn)
    if kind == "geom":
        from pointpats import geometry as gm

        h = make_hull(d["hull"])

        def fn():
            hh = gm.prepare_hull(h) if isinstance(h, np.ndarray) and h.ndim == 2 else h
            b = np.asarray(gm.bbox(hh), float)
            xs = [(b[0] + (b[2] - b[0]) * rs2.random(), b[1] + (b[3] - b[1]) * rs2.random())
                  for rs2 in [random.Random(d["k"])] for _ in range(6)]
            return [b, float(gm.area(hh)), [bool(gm.contains(hh, *x)) for x in xs], np.asarray(gm.centroid(hh), float)]

        return Op(d, {"hull": h}, fn)
    if kind in RIPLEY:
        from pointpats import distance_statistics as ds

        pts = lay(make_points(d["pts"]), d)
        sup = make_support(d["support"])
        f = getattr(ds, kind[0] + "_test")
        kw = {"truncate": False} if kind == "jtest" else {}
        hull = test_hull(d["hull"], pts)
        dist = None
        if d.get("dist"):
            from scipy.spatial.distance import cdist, pdist

            n = len(pts)
            nn = (cdist(pts, pts) + np.where(np.eye(n) > 0, np.inf, 0.0)).min(1)
            fd = cdist(pts - 3.7, np.random.Generator(np.random.PCG64(d["k"])).uniform(0, 90, (30, 2))).min(0)
            dist = {"g": nn, "k": pdist(pts), "l": pdist(pts), "f": fd, "j": (nn, fd)}[kind[0]]
        return Op(d, {"pts": pts, "support": sup, "hull": hull, "dist": dist},
                  lambda: tuple(f(pts, support=sup, hull=hull, distances=dist, keep_simulations=True,
                                  n_simulations=d["sims"], n_jobs=d["jobs"], **kw)))
    if kind in EXTRA:
        return globals()["x_" + kind](d, rs)
    raise ValueError(kind)


def _stat(x):
    return sorted((k, float(v)) for k, v in x.items()) if isinstance(x, dict) else float(x)


def test_hull(kind, pts):
    import shapely
    from scipy.spatial import ConvexHull

    if kind in (None, "convex", "bbox"):
        return kind
    (x0, y0), (x1, y1) = pts.min(0) - 2, pts.max(0) + 3
    if kind == "arr":
        return np.array([x0, y0, x1, y1])
    if kind == "intarr":
        return np.array([np.floor(x0), np.floor(y0), np.ceil(x1), np.ceil(y1)]).astype(int)
    if kind == "poly":
        return shapely.Polygon([(x0, y0), (x1, y0), (x1 + 2, y1), ((x0 + x1) / 2, y1 + 4), (x0, y1)])
    return ConvexHull(np.array([(x0, y0), (x1, y0), (x1 + 2, y1), ((x0 + x1) / 2, y1 + 4), (x0, y1)]))


def make_support(s):
    if s == "unsorted":
        return np.array([47.0, 2.0, 23.0, 0.0, 11.0])
    if s == "array":
        return np.array([0.0, 2.0, 5.0, 11.0, 23.0, 47.0])
    if isinstance(s, list):
        return tuple(s)
    return s


def knox_state(k):
    out = []
    for a in ("nst", "nsti", "p_sim", "sim", "p_sims", "sims", "p_poisson", "p_hypergeom",
              "observed", "expected", "statistic_"):
        if hasattr(k, a):
            v = getattr(k, a)
            out.append((a, np.asarray(v)))
    if hasattr(k, "adjlist"):
        out.append(("adjlist", [tuple(map(str, x)) for x in k.adjlist.itertuples(index=False)]))
    return out


# --------------------------------------------------------------- wider calls
def _frame(pts, k, n_cols=True):
    import geopandas as gpd

    idx = [f"id{(7 * i) % 101}" for i in range(len(pts))] if k % 2 else list(range(len(pts)))
    g = gpd.points_from_xy(pts[:, 0], pts[:, 1])
    if k % 3 == 0:
        return gpd.GeoSeries(g, crs="EPSG:3857", index=idx)
    df = gpd.GeoDataFrame({"w": np.arange(1.0, len(pts) + 1), "name": [f"n{i}" for i in range(len(pts))]},
                          geometry=g, crs="EPSG:3857", index=idx)
    df.attrs["source"] = "caller"
    return df


def drawn(ax):
    """What an axes shows, in digestible form."""
    out = [ax.get_title(), len(ax.patches)]
    for c in ax.collections:
        out.append(np.ma.getdata(c.get_offsets()).astype(float))
        out.append([np.asarray(p.vertices, float) for p in c.get_paths()])
        a = c.get_array()
        out.append(None if a is None else np.asarray(a, float))
        out.append(np.asarray(c.get_facecolor(), float))
        out.append(np.asarray(c.get_edgecolor(), float))
        out.append([np.asarray(c.get_linewidths(), float), repr(c.get_linestyle())])
        out.append(np.asarray(c.get_sizes(), float) if hasattr(c, "get_sizes") else None)
    for ln in ax.lines:
        out.append(np.asarray(ln.get_xydata(), float))
        out.append([str(ln.get_color()), float(ln.get_linewidth()), str(ln.get_linestyle()), str(ln.get_marker())])
    out.append([(t.get_text(), *map(float, t.get_position())) for t in ax.texts])
    return out


def _close(ax):
    import matplotlib.pyplot as plt

    out = drawn(ax)
    plt.close(ax.figure)
    return out


def x_geocentro(d, rs):
    from pointpats import centrography as cg

    pts = make_points(d["pts"])
    fr = _frame(pts, d["v"])
    w = rs.choice((np.arange(1.0, len(pts) + 1), [1.5] * len(pts)))
    cen = None
    name = rs.choice([c for c in CENTRO if c != "dtot"] + ["dtot"])
    import shapely

    if name == "weighted_mean_center":
        return Op(d, {"df": fr, "w": w}, lambda: cg.weighted_mean_center(fr, w))
    if name == "dtot":
        cen = shapely.Point(*pts.mean(0))
        return Op(d, {"df": fr, "cen": cen}, lambda: cg.dtot(cen, fr))
    return Op(d, {"df": fr}, lambda: getattr(cg, name)(fr))


def x_ellipse(d, rs):
    from pointpats import centrography as cg

    pts = lay(make_points(d["pts"]), d)
    src = rs.choice((pts, pts, pts.tolist(), _frame(pts, d["v"])))
    n = len(pts)
    w = rs.choice((None, np.arange(1.0, n + 1) / 3, np.arange(1, n + 1), [1.0 + i % 3 for i in range(n)], np.full(n, 0.25),
                   np.arange(2.0, 2 * n + 2)[::2]))
    how = rs.choice(("crimestat", "yuill", "Yuill"))
    a, b = rs.random() < 0.5, rs.random() < 0.5
    which = rs.choice(("ellipse", "ellipse", "wmc"))
    if which == "wmc" and w is not None:
        return Op(d, {"src": src, "w": w}, lambda: cg.weighted_mean_center(src, w))
    return Op(d, {"src": src, "w": w}, lambda: cg.ellipse(src, w, how, a, b))


def x_marks(d, rs):
    import pointpats as P

    pts = lay(make_points(d["pts"]), d)
    if rs.random() < 0.4:
        pts = pts.tolist()
    how = rs.random()
    if how < 0.45:
        import pandas as pd

        cols = rs.choice((["easting", "northing"], ["a", "b"], [0, 1], ["y", "x"]))
        pts = pd.DataFrame(np.asarray(pts, float), columns=cols,
                           index=[f"r{i}" for i in range(len(pts))] if how < 0.1 else None)
        pts.attrs["source"] = "caller"
    elif how < 0.6:
        pts = [tuple(p) for p in np.asarray(pts).tolist()]
    names = rs.choice((None, ["lon", "lat"]))
    coord = rs.choice((None, ["lon", "lat"] if names else ["x", "y"]))
    marks = [[i % 3 for i in range(len(pts))], [float(i // 2) for i in range(len(pts))]]
    if rs.random() < 0.5:
        marks = [np.array(m) for m in marks]
    mnames = rs.choice((None, ["a", "b"]))
    other = [[1.0, 2.0], [3.0, 4.5], [5.0, 9.0]]
    win = P.Window([(-10.0, -10.0), (-10.0, 9e6), (9e6, 9e6), (9e6, -10.0), (-10.0, -10.0)])

    def fn():
        pp = P.PointPattern(pts, window=win, names=names, coord_names=coord)
        pp.add_marks(marks, mnames)
        cols = [c for c in pp.df.columns if c not in pp.coord_names]
        out = [list(pp.df.columns), pp.df, [e.df for e in pp.explode(cols[0])], pp.unique().df,
               pp.superimpose(pp).df, pp.knn_other(other), sorted(pp.find_pairs(25.0)), pp.lambda_window]
        pp.set_window(win)
        pp.flip_coordinates()
        with _mute():
            pp.summary()
        return out + [pp.df]

    return Op(d, {"pts": pts, "names": names, "coord": coord, "marks": marks, "mnames": mnames,
                  "other": other, "win": win}, fn)


def _mute():
    import contextlib
    import io

    return contextlib.redirect_stdout(io.StringIO())


def x_quadplot(d, rs):
    import pointpats as P
    import shapely
    from pointpats.quadrat_statistics import HexagonM, RectangleM

    pts = lay(make_points(d["pts"]), d)
    (a, b), (c, e) = pts.min(0), pts.max(0)
    win = rs.choice((None, shapely.Polygon([(a - 1, b - 1), (c + 9, b - 1), (c + 9, e + 9), (a - 1, e + 3)])))
    src = rs.choice((pts, _frame(pts, d["v"])))
    hexa = rs.random() < 0.4
    how = rs.choice(("counts", "chi2", "q"))
    cells = {}
    lh = max(c - a, e - b) / 3.1
    contrib = [0.5 + i for i in range(9)]
    if rs.random() < 0.5:
        contrib = np.array(contrib)
    nx, ny = 3, 3

    def fn():
        if how == "q":
            kw = dict(shape="hexagon", lh=lh) if hexa else dict(nx=nx, ny=ny)
            q = P.QStatistic(src, window=win, **kw)
            return [_close(q.plot(show="counts")), _close(q.plot(show="chi2")), q.chi2]
        m = HexagonM(src, lh, win) if hexa else RectangleM(src, nx, ny, window=win)
        if how == "counts" or hexa:
            ax = m.plot()
        else:
            ax = m.plot(show="chi2", chi2_contrib=contrib)
        return [_close(ax[0] if isinstance(ax, tuple) else ax), sorted(m.point_location_sta().items())]

    return Op(d, {"src": src, "pts": pts, "win": win, "contrib": contrib}, fn)


def x_kplot(d, rs):
    from pointpats import spacetime as st

    s, t, delta, tau = make_events(d["ev"])
    s, t = lay(s, d), lay(t, d)
    colors = {"focal": "#ff0000", "neighbor": "#ffff00", "nonsig": "#808080"}
    pk = rs.choice((None, {"markersize": 4, "alpha": 0.5}))
    ek = rs.choice((None, {"linewidth": 2}))
    sk = rs.choice((None, {"radius": 3}))
    ids = rs.choice((None, [f"e{(3 * i) % 97}" for i in range(len(s))], np.arange(len(s))[::-1].copy()))
    crit = rs.choice((0.05, 0.3, 1.0))
    inf = rs.choice(("analytic", "permutation"))
    expl = rs.random() < 0.3

    def fn():
        k = st.KnoxLocal(s, t, delta, tau, permutations=3, keep=True, ids=ids, crs="EPSG:3857")
        with _mute():
            hs = k.hotspots(crit=crit, inference=inf)
        out = [hs.drop(columns="geometry"), knox_state(k)]
        if len(hs.dropna()):
            out.append(_close(k.plot(colors=colors, crit=crit, inference=inf, point_kwargs=pk, edge_kwargs=ek)))
            if expl:
                try:
                    m = k.explore(crit=crit, inference=inf, style_kwds=sk, colors=colors, tiles=None)
                    out.append(len(m._children))
                except AttributeError:  # nothing insignificant or nothing significant to draw
                    out.append("unmappable")
        return out + [knox_state(k)]

    return Op(d, {"s": s, "t": t, "colors": colors, "pk": pk, "ek": ek, "sk": sk, "ids": ids}, fn)


def x_kde(d, rs):
    import pointpats as P

    pts = lay(make_points({**d["pts"], "kind": "uniform"}), d)
    src = rs.choice((pts, _frame(pts, d["v"])))
    kern = rs.choice((None, "gaussian", "epa"))
    levels = rs.choice((4, np.array([1e-6, 1e-4, 1e-3, 1e-2]), [1e-6, 1e-4, 1e-3]))
    fill = rs.random() < 0.5
    kw = rs.choice(({}, {"cmap": "viridis"}))
    return Op(d, {"src": src, "pts": pts, "levels": levels, "kw": kw},
              lambda: _close(P.plot_density(src, 30.0, kernel=kern, resolution=20, levels=levels, fill=fill, **kw)))


def x_knn(d, rs):
    from pointpats import geometry as gm

    pts = lay(make_points(d["pts"]), d)
    metric = rs.choice(("euclidean", "manhattan", "chebyshev"))
    k = rs.choice((1, 2, 3))

    def fn():
        t = gm.build_best_tree(pts, metric)
        a, _ = gm.k_neighbors(t, pts, k)
        return np.sort(np.asarray(a), axis=1)

    return Op(d, {"pts": pts}, fn)


def x_ripd(d, rs):
    from pointpats import distance_statistics as ds
    from scipy.spatial.distance import cdist, pdist

    pts = lay(make_points(d["pts"]), d)
    src = rs.choice((pts, _frame(pts, d["v"])))
    sup = rs.choice((np.array([40.0, 1.0, 9.0]), [3.0, 1.0, 20.0], np.array([0, 5, 10, 50]), 7))
    f = rs.choice("gklgkfj")
    n = len(pts)
    dm = cdist(pts, pts) + np.where(np.eye(n) > 0, np.inf, 0.0)
    if f in "fj":
        q = np.random.Generator(np.random.PCG64(d["k"])).uniform(0, 60, (25, 2))
        fd = rs.choice((cdist(pts - pts.min(0), q), cdist(pts - pts.min(0), q).min(0)))
        hull = test_hull(rs.choice((None, "convex", "arr", "poly", "scipy", "intarr")), pts)
        dist = fd if f == "f" else (dm.min(1), fd)
        return Op(d, {"src": src, "pts": pts, "sup": sup, "dist": dist, "hull": hull},
                  lambda: getattr(ds, f)(src, support=sup, distances=dist, hull=hull))
    if f == "g":
        dist = rs.choice((None, dm.min(1)))
    elif f == "l":
        dist = rs.choice((None, pdist(pts)))
    else:
        dist = rs.choice((None, pdist(pts)))
    kw = {"linearized": True} if f == "l" and rs.random() < 0.5 else {}
    hull = rs.choice((None, "convex"))
    return Op(d, {"src": src, "pts": pts, "sup": sup, "dist": dist},
              lambda: getattr(ds, f)(src, support=sup, distances=dist, **kw) if f != "k"
              else ds.k(src, support=sup, distances=dist))


def x_window(d, rs):
    import libpysal as ps
    import pointpats as P

    pts = make_points({**d["pts"], "kind": "uniform"})
    ring = [(0.0, 0.0), (0.0, 90.0), (80.0, 90.0), (80.0, 0.0)]
    hole = [(10.0, 10.0), (20.0, 10.0), (20.0, 20.0), (10.0, 10.0)]
    bbox = [0.0, 0.0, 50.0, 60.0]
    closed = ring + ring[:1]
    parts, holes = [list(closed)], [list(hole)]
    poly = ps.cg.shapes.Polygon(list(closed))
    pl = rs.choice((pts, pts.tolist()))

    def fn():
        w = P.Window(parts, holes) if rs2 else P.Window(parts)
        v = P.as_window(poly)
        return [P.to_ccf(ring), P.poly_from_bbox(bbox).vertices, float(w.area), float(v.area), v.parts, v.holes,
                [np.asarray(p) for p in v.filter_contained(pl)], w.parts, w.holes]

    rs2 = rs.random() < 0.5
    return Op(d, {"ring": ring, "hole": hole, "bbox": bbox, "parts": parts, "holes": holes, "poly": poly, "pts": pl}, fn)


def x_frames(d, rs):
    """Whole-frame calls with an unsorted string index."""
    from pointpats import distance_statistics as ds
    from pointpats import spacetime as st

    s, t, delta, tau = make_events(d["ev"])
    df = _frame(s, 1)
    import geopandas as gpd

    if isinstance(df, gpd.GeoSeries):
        df = gpd.GeoDataFrame(geometry=df)
    df["t"] = t[:, 0]
    which = rs.choice(("knoxlocal", "k", "f", "g"))

    def fn():
        if which == "knoxlocal":
            k = st.KnoxLocal.from_dataframe(df, "t", delta, tau, permutations=3, keep=True)
            return [knox_state(k), k.hotspots(crit=0.5, inference="analytic").drop(columns="geometry")]
        if which == "f":
            return ds.f(df, support=np.array([1.0, 3.0, 9.0]), distances=np.arange(1.0, 5.0))
        return getattr(ds, which)(df, support=np.array([1.0, 3.0, 9.0]))

    return Op(d, {"df": df}, fn)
