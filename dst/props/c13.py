"""C13: reporting never changes what is reported."""

import io
import json
import contextlib

import numpy as np

from .. import core, ops, seams
from ..core import digest
from ..util import gen_points, make_points, quiet

RUNS = {"quick": 500, "thorough": 15000}
TIMEOUT = 120
RULE = (
    "A run fits a KnoxLocal, a QStatistic, a quadrat grid or a PointPattern beside figures and settings of "
    "the caller's own, and makes a seeded sequence of reporting calls, some of them repeated, failing "
    "inside matplotlib, asked for something impossible, or interrupted at a seeded line, with queries and a "
    "caller who scribbles over returned tables in between. The object's state, the global state, the "
    "caller's figures and what repeated calls show must not change; what is shown is recomputed from the "
    "object's public results. Non-trivial: at least two reporting calls, or one that failed."
)
REAL = ["pointpats (spacetime, quadrat_statistics, pointpattern, kde)", "matplotlib (Agg)", "geopandas", "folium"]
STUB = ["asynchronous exceptions at pointpats lines", "a failing matplotlib artist call", "web tiles (none requested)"]
ASSUME = ["figures an aborted or failing plotting call had opened may stay open", "lazily cached values may be added to an object"]
EXPECT = ["plot", "explore", "hotspots", "summary", "repeat", "aborted", "failing-artist", "bad-argument", "scribble", "own-ax",
          "knox", "quadrat", "grid", "pattern", "kde", "significant", "insignificant", "edges", "no-permutations", "named-index", "interactive", "even-counts", "styled", "history"]


def plan(r, i, tier):
    kind = r.choice(("knox", "knox", "quadrat", "grid", "pattern", "kde"))
    p = {"kind": kind, "k": r.getrandbits(30), "acts": []}
    if kind == "knox":
        p.update(ev=ops.gen_events(r, r.choice((6, 9, 14, 22))), perms=r.choice((0, 3, 9, 9)), keep=r.random() < 0.5,
                 ids=r.choice((None, None, "str", "rev")), frame=r.choice((None, None, "named", "plain")))
    else:
        p["pts"] = gen_points(r, r.choice((3, 5, 9, 16, 30)))
        p.update(hexa=r.random() < 0.4, win=r.random() < 0.5, marks=r.random() < 0.5)
        if kind in ("quadrat", "grid") and r.random() < 0.3:
            p.update(even=r.choice((30, 45, 60)), hexa=r.random() < 0.2)
    p["ion"] = r.random() < 0.3
    if r.random() < 0.6:
        p["style"] = 1
    names = {"knox": ("plot", "plot", "explore", "hotspots", "hotspots", "table"), "quadrat": ("plot", "chi2"), "grid": ("plot", "chi2"),
             "pattern": ("plot", "summary", "query", "plot"), "kde": ("plot", "series")}[kind]
    for _ in range(r.choice((2, 3, 3, 4))):
        a = {"do": r.choice(names), "v": r.randrange(1 << 12), "mode": r.choice(("call", "call", "call", "call", "abort", "artist", "bad")),
             "at": round(r.random() ** 1.5, 4), "exc": r.choice(("KeyboardInterrupt", "MemoryError")), "scribble": r.random() < 0.4}
        p["acts"].append(a)
        if r.random() < 0.3:
            p["acts"].append({**a, "mode": "call"})
    return p


# ------------------------------------------------------------- the objects
def build(plan):
    import geopandas as gpd
    import pointpats as P
    import shapely
    from pointpats import spacetime as st
    from pointpats.quadrat_statistics import HexagonM, RectangleM

    kind = plan["kind"]
    np.random.seed(plan["k"] % 1000)
    if kind == "knox":
        s, t, delta, tau = ops.make_events(plan["ev"])
        n = len(s)
        kw = dict(permutations=plan["perms"], keep=plan["keep"])
        if plan["frame"]:
            df = gpd.GeoDataFrame({"t": t[:, 0]}, geometry=gpd.points_from_xy(*s.T), crs="EPSG:3857")
            if plan["frame"] == "named":
                df.index.name = "case"
            return st.KnoxLocal.from_dataframe(df, "t", delta, tau, **kw)
        ids = {"str": [f"e{(3 * i) % 97}" for i in range(n)], "rev": np.arange(n)[::-1].copy(), None: None}[plan["ids"]]
        return st.KnoxLocal(s, t, delta, tau, ids=ids, crs="EPSG:3857", **kw)
    pts = make_points(plan["pts"])
    if plan.get("even"):
        pts = even(plan)
    if (np.ptp(pts, axis=0) == 0).any():
        pts = np.vstack((pts, pts[0] + 1.0, pts[0] - (0.5, 2.0)))
    (a, b), (c, e) = pts.min(0), pts.max(0)
    w, h = c - a, e - b
    win = shapely.Polygon([(a - w, b - h), (c + w, b - h), (c + w, e + h), (a + w * .4, e + h * .1), (a - w, e + h)]) if plan["win"] else None
    if win is not None and plan["k"] % 4 == 1:
        win = shapely.difference(win, shapely.box(c + w * .3, b - h * .5, c + w * .6, e))
    elif win is not None and plan["k"] % 4 == 2:
        win = shapely.MultiPolygon([win, shapely.box(c + 2 * w, b, c + 3 * w, e)])
    if kind in ("quadrat", "grid"):
        lh = max(w, h) / 3.1
        if kind == "quadrat":
            kw = dict(shape="hexagon", lh=lh) if plan["hexa"] else dict(nx=3, ny=2)
            return P.QStatistic(pts, window=win, realizations=plan["k"] % 3, rng=7, **kw)
        return HexagonM(pts, lh, win) if plan["hexa"] else RectangleM(pts, 3, 2, window=win)
    if kind == "pattern":
        ring = [(a - w, b - h), (a - w, e + h), (c + w, e + h), (c + w, b - h), (a - w, b - h)]
        pp = P.PointPattern(pts, window=P.Window(ring) if plan["win"] else None)
        if plan["marks"]:
            pp.add_marks([[i % 2 for i in range(len(pts))]], ["m"])
        return pp
    fr = gpd.GeoDataFrame({"v": np.arange(len(pts))}, geometry=gpd.points_from_xy(*pts.T), crs="EPSG:3857")
    return fr


def even(plan):
    """Nearly the same, large number of events in each of 3 by 2 cells."""
    rs = np.random.RandomState(plan["k"] % 9973)
    m = plan["even"]
    cells = [rs.uniform(0.02, 0.98, (m, 2)) + (i, j) for i in range(3) for j in range(2)]
    cells[0][0], cells[-1][0] = (0, 0), (3, 2)
    return np.vstack(cells + [cells[plan["k"] % 6][1] + 0.001]) * 8.0


def deep(x, depth=0):
    """Digest of everything an object holds."""
    import shapely

    if depth > 6:
        return "deep"
    if isinstance(x, (np.ndarray, np.generic, int, float, str, bytes, type(None), shapely.Geometry)):
        return digest(x)
    mod = type(x).__module__.split(".")[0]
    if mod in ("pandas", "geopandas"):
        cols = [str(c) for c in getattr(x, "columns", [])]
        return (type(x).__name__, cols, digest(x), repr(list(x.index)), str(getattr(x, "crs", None)), getattr(x, "_geometry_column_name", ""))
    if isinstance(x, dict):
        return [(str(k), deep(v, depth + 1)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [deep(v, depth + 1) for v in x]
    if isinstance(x, (np.random.Generator, np.random.RandomState)):
        return repr(x.bit_generator.state) if hasattr(x, "bit_generator") else digest(x.get_state())
    if mod == "pointpats" or hasattr(x, "parts") and hasattr(x, "holes"):
        if hasattr(x, "parts"):
            return [deep([list(p) for p in x.parts]), deep([list(p) for p in x.holes])]
        return [(k, deep(v, depth + 1)) for k, v in sorted(vars(x).items())]
    return type(x).__name__


def state(obj):
    """Digest per public attribute (some may be added by caching, none changed)."""
    if type(obj).__module__.startswith("pointpats"):
        return {k: json.dumps(deep(v), default=str) for k, v in vars(obj).items() if not k.startswith("_")}
    return {"self": json.dumps(deep(obj), default=str)}


def answers(plan, obj):
    """What the object's public face says."""
    kind = plan["kind"]
    if kind == "knox":
        out = [ops.knox_state(obj)]
        for crit, inf, keepn in ((0.3, "analytic", True), (1.0, "analytic", False), (0.5, "permutation", True)):
            t = mute(lambda: obj.hotspots(crit=crit, inference=inf, keep_neighbors=keepn))[0]
            out.append([list(map(str, t.columns)), t])
        return digest(out)
    if kind == "quadrat":
        return digest([obj.chi2, obj.chi2_pvalue, obj.df, np.asarray(obj.chi2_contrib), list(obj.cell_ids), obj.points, obj.mr.mbb,
                       sorted(obj.mr.point_location_sta().items()), obj.window,
                       np.asarray(getattr(obj, "chi2_realizations", [])), getattr(obj, "chi2_r_pvalue", None)])
    if kind == "grid":
        return digest([obj.points, obj.mbb, obj.window, sorted(obj.point_location_sta().items())])
    if kind == "pattern":
        return digest([obj.n, obj.mbb, obj.df, list(map(str, obj.df.columns)), obj.points, obj.lambda_mbb, obj.lambda_window, obj.mean_nnd,
                       obj.hull, obj.rot, obj.knn(1), [list(map(tuple, p)) for p in obj.window.parts]])
    return digest(obj)


# ---------------------------------------------------------- the caller's own
class Desk:
    """Figures and settings of the caller's own."""

    def __init__(self, ion=False):
        import matplotlib
        import matplotlib.pyplot as plt

        plt.interactive(ion)

        self.plt, self.mpl = plt, matplotlib
        matplotlib.rcParams["lines.linewidth"] = 2.25
        matplotlib.rcParams["axes.prop_cycle"] = matplotlib.cycler(color=["#123456", "#654321"])
        self.fig, axes = plt.subplots(1, 2, num=7)
        self.axes = list(axes)
        for ax in self.axes:
            ax.plot([0, 1, 2], [3, 1, 2])
            ax.set_title("mine")
            ax.set_xlim(0, 2)
        self.rc = dict(matplotlib.rcParams.items())
        self.art = [digest(ops.drawn(ax)) + repr(ax.get_xlim()) for ax in self.axes]

    def ok(self, ctx, what, but=None):
        ctx.check(7 in self.plt.get_fignums() and self.plt.figure(7) is self.fig, "a figure of the caller's was closed or replaced", what)
        now = dict(self.mpl.rcParams.items())
        ctx.check(now == self.rc, "matplotlib settings were changed", lambda: f"{what()} {[k for k in now if now[k] != self.rc.get(k)]}")
        for j, ax in enumerate(self.axes):
            if ax is not but:
                ctx.check(digest(ops.drawn(ax)) + repr(ax.get_xlim()) == self.art[j], "a figure of the caller's was drawn over", what)
        ctx.check(len(self.fig.axes) == 2, "axes were added to the caller's figure", what)

    def tidy(self):
        for n in self.plt.get_fignums():
            if n != 7:
                self.plt.close(n)


# ------------------------------------------------------------- what they show
def rgba(c):
    import matplotlib.colors as mc

    return tuple(round(v, 4) for v in mc.to_rgba(c))


def expected_sets(k, crit, inference):
    """Focal, neighbour and other events, from the object's public results."""
    p = k.p_hypergeom if inference == "analytic" or not hasattr(k, "p_sims") else k.p_sims
    ids = list(k._gdf.index) if hasattr(k, "_gdf") else list(range(len(p)))
    focal = {i for i, v in zip(ids, np.asarray(p).ravel()) if v <= crit}
    near = {b for a, b in zip(k.adjlist.focal, k.adjlist.neighbor) if a in focal} - focal
    return ids, focal, near, set(ids) - focal - near


def multiset(xy, nd=6):
    return sorted((round(float(x), nd), round(float(y), nd)) for x, y in xy)


def run(ctx, plan):
    obj = quiet(lambda: build(plan))
    kind = plan["kind"]
    ctx.probe(kind)
    if kind == "knox":
        if plan["perms"] == 0:
            ctx.probe("no-permutations")
        if plan["frame"] == "named":
            ctx.probe("named-index")
    last = max((i for i, a in enumerate(plan["acts"]) if a["mode"] == "call"), default=None)
    fresh = core.pristine(lambda: untouched(plan, plan["acts"][last])) if last else None
    desk = Desk(plan.get("ion", False))
    if plan.get("ion"):
        ctx.probe("interactive")
    if plan.get("even"):
        ctx.probe("even-counts")
    base = state(obj)
    first = {}
    done = 0
    for i, a in enumerate(plan["acts"]):
        what = lambda: f"step {i} {a} of {plan['acts']}"  # noqa: E731
        before = seams.global_state()
        key, fn, own, verify = action(ctx, plan, obj, a, desk)
        ctx.probe({"chi2": "plot", "table": "hotspots", "series": "plot", "query": "query"}.get(a["do"], a["do"]))
        mode, st, out = a["mode"], None, None
        if mode == "abort":
            lines = count_lines(plan, a, desk)
            lc = seams.LineCounter(at=1 + int(a["at"] * max(0, lines - 1)),
                                   exc={"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[a["exc"]]("injected"))
            try:
                with lc:
                    out = fn()
            except seams.HarnessError:
                raise
            except BaseException as e:  # noqa: BLE001
                st = type(e).__name__
            if lc.fired:
                ctx.fault("aborted")
                done += 1
        elif mode == "artist":
            with Failing(1 + int(a["at"] * 6)) as f:
                try:
                    out = fn()
                except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
                    st = type(e).__name__
            if f.fired:
                ctx.fault("failing-artist")
                done += 1
                ctx.check(st is not None, "a failure inside matplotlib was swallowed", what)
        elif mode == "bad":
            bad = impossible(plan, obj, a)
            if bad:
                ctx.fault("bad-argument")
                done += 1
                try:
                    quiet(bad)
                    st = "returned"
                except Exception as e:  # noqa: BLE001
                    st = type(e).__name__
                ctx.check(st != "returned", "an impossible request was not refused", what)
            own = None
        else:
            out = fn()
            done += 1
            st = "ok"
            shown = ctx.judge(lambda: verify(out))
            dg = digest(shown)
            if key in first:
                ctx.probe("repeat")
                ctx.check(first[key] == dg, "a repeated report differs", what)
            first[key] = dg
            if i == last and fresh is not None:
                ctx.probe("history")
                ctx.check(fresh == dg, "a report shows something else after other reports", what)
            if a["scribble"] and scribble(out):
                ctx.probe("scribble")
        if own is not None:
            ctx.probe("own-ax")
            desk.fig.delaxes(own)
            own = None
        desk.ok(ctx, what, own)
        desk.tidy()
        now = state(obj)
        for k in base:
            ctx.check(now.get(k) == base[k], "reporting changed the object", lambda: f"{k}: {base[k][:200]} -> {str(now.get(k))[:200]} {what()}")
        base = now
        after = seams.global_state()
        for k in before:
            ctx.check(before[k] == after[k], f"reporting changed {k}", lambda: f"{before[k][:200]} -> {after[k][:200]} {what()}")
        ctx.log(a["do"], mode, st, first.get(key))
    twin = quiet(lambda: build(plan))
    ctx.check(answers(plan, obj) == answers(plan, twin), "the object answers differently after reporting", lambda: f"{plan['acts']}")
    ctx.nontrivial = done > 1


def untouched(plan, a):
    """What a report shows in a world without the reports before it."""
    obj = quiet(lambda: build(plan))
    c = core.Ctx()
    try:
        desk = Desk(plan.get("ion", False))
        _, fn, _, verify = action(c, plan, obj, a, desk)
        return digest(c.judge(lambda: verify(fn())))
    except Exception:  # noqa: BLE001  (the run itself will meet it)
        return None


class Failing:
    """The k-th matplotlib artist call raises."""

    def __init__(self, k):
        self.k, self.n, self.fired = k, 0, False

    def __enter__(self):
        from matplotlib.axes import Axes

        self.old = {}
        for name in ("add_collection", "scatter", "plot", "text", "set_aspect", "contourf", "contour", "add_patch"):
            real = getattr(Axes, name)
            self.old[name] = real

            def f(ax, *a, _real=real, **kw):
                self.n += 1
                if self.n == self.k:
                    self.fired = True
                    raise RuntimeError("injected artist failure")
                return _real(ax, *a, **kw)

            setattr(Axes, name, f)
        return self

    def __exit__(self, *a):
        from matplotlib.axes import Axes

        for name, real in self.old.items():
            setattr(Axes, name, real)


def count_lines(plan, a, desk):
    """Lines the action executes, learned in a fork."""

    def go():
        obj = quiet(lambda: build(plan))
        c = core.Ctx()
        _, fn, _, _ = action(c, plan, obj, a, desk)
        with seams.LineCounter() as lc:
            try:
                fn()
            except Exception:  # noqa: BLE001
                pass
        return lc.n

    return core.pristine(go)


def scribble(out):
    import pandas as pd

    if isinstance(out, pd.DataFrame):
        for c in list(out.columns):
            if c != "geometry" and len(out):
                out[c] = 0 if out[c].dtype.kind in "fiu" else "x"
        out["extra"] = 1
        return True
    return False


def impossible(plan, obj, a):
    kind = plan["kind"]
    v = a["v"] % 2
    if kind == "knox":
        call = {"plot": obj.plot, "explore": obj.explore}.get(a["do"], obj.hotspots)
        if v and a["do"] in ("plot", "explore"):
            return lambda: call(inference="nope")
        return lambda: call(inference="nope", crit=1.0)
    if kind == "quadrat":
        return lambda: obj.plot(show="nope")
    if kind == "grid":
        return (lambda: obj.plot(show="nope")) if v else (lambda: obj.plot(show="chi2"))
    return None


def mute(fn):
    with contextlib.redirect_stdout(io.StringIO()) as s:
        out = quiet(fn)
    return out, s.getvalue()


def action(ctx, plan, obj, a, desk):
    """(key of the request, the call, the caller's axes handed over, the content oracle)"""
    kind, v, do = plan["kind"], a["v"], a["do"]
    own = None
    if kind == "knox":
        crit = (0.05, 0.2, 0.5, 1.0, 0.0)[v % 5]
        inf = ("analytic", "permutation")[v // 5 % 2]
        keepn = v // 10 % 2 == 0
        edges = v // 20 % 2 == 0
        ec = ("black", "#123456")[v // 7 % 2]
        colors = ({"focal": "#ff0000", "neighbor": "#ffff00", "nonsig": "#808080"}, {"focal": "#00ff00", "neighbor": "#0000ff", "nonsig": "#c0ffee"})[v // 40 % 2]
        style = v // 160 % 6 if "style" in plan else 0
        pk = {"markersize": 33.0, "linewidth": 2.5} if style in (1, 3) else None
        ek = {"linewidth": 5.5} if style in (2, 3) else {"linestyle": "dashed"} if style == 4 else None
        mk = {} if style == 0 else {"radius": 9} if style == 1 else {"edge_weight": 7} if style == 2 else {"style_kwds": {"radius": 3, "opacity": 0.4}}
        if style:
            ctx.probe("styled")
        if do in ("hotspots", "table"):
            return (("hs", crit, inf, keepn), lambda: mute(lambda: obj.hotspots(crit=crit, inference=inf, keep_neighbors=keepn))[0], None,
                    lambda out: table(ctx, obj, out, crit, inf, keepn))
        if do == "plot":
            if v // 80 % 3 == 0 and a["mode"] != "bad":
                desk.plt.figure(7)
                own = desk.fig.add_axes([0.1, 0.1, 0.2, 0.2])
                own.plot([0, 1], [0, 1], color="#010203")
            return (("plot", crit, inf, edges, colors["focal"], ec, style, own is not None),
                    lambda: mute(lambda: obj.plot(colors=dict(colors), crit=crit, inference=inf, plot_edges=edges, edge_color=ec, ax=own,
                                          point_kwargs=pk and dict(pk), edge_kwargs=ek and dict(ek)))[0], own,
                    lambda out: knox_axes(ctx, obj, out, crit, inf, edges, colors, own, ec))
        return (("map", crit, inf, edges, colors["focal"], ec, style),
                lambda: mute(lambda: obj.explore(crit=crit, inference=inf, plot_edges=edges, edge_color=ec, colors=dict(colors), tiles=None, **mk))[0], None,
                lambda out: knox_map(ctx, obj, out, crit, inf, edges, colors, ec))
    if kind in ("quadrat", "grid"):
        title = ("Quadrat Count", "other")[v % 2]
        if do == "plot" or kind == "grid" and plan["hexa"] and False:
            return (("counts", title), lambda: quiet(lambda: obj.plot(title=title)), None,
                    lambda out: quadrat_axes(ctx, plan, obj, out, "counts", title))
        if kind == "quadrat":
            return (("chi2", title), lambda: quiet(lambda: obj.plot(title=title, show="chi2")), None,
                    lambda out: quadrat_axes(ctx, plan, obj, out, "chi2", title))
        n = len(list(obj.plot()[1]))
        desk.tidy()
        contrib = [0.5 + i for i in range(n)]
        return (("chi2", title), lambda: quiet(lambda: obj.plot(title=title, show="chi2", chi2_contrib=contrib)), None,
                lambda out: quadrat_axes(ctx, plan, obj, out, "given", title))
    if kind == "pattern":
        if do == "summary":
            return ("summary", lambda: mute(obj.summary)[1], None, lambda out: summary(ctx, obj, out))
        if do == "query":
            q = (lambda: obj.mean_nnd, lambda: np.asarray(obj.hull), lambda: obj.lambda_window, lambda: obj.head())[v % 4]
            return (("query", v % 4), q, None, lambda out: out)
        win, hull, get = v % 2 == 1, v // 2 % 2 == 1 and obj.n > 2, v // 4 % 2 == 1
        return (("plot", win, hull, get), lambda: quiet(lambda: obj.plot(window=win, hull=hull, title="tt", get_ax=get)), None,
                lambda out: pattern_axes(ctx, obj, out, win, hull, get, desk))
    import pointpats as P

    fill = v % 2 == 1
    if v // 2 % 2 and a["mode"] != "bad":
        desk.plt.figure(7)
        own = desk.fig.add_axes([0.1, 0.1, 0.2, 0.2])
        own.plot([0, 1], [0, 1], color="#010203")
    src = obj if do == "plot" else obj.geometry
    bw = max(1.0, float(np.ptp(src.geometry.x)) / 3)
    kw = {} if own is None else {"ax": own}
    return (("kde", fill, do, own is not None), lambda: quiet(lambda: P.plot_density(src, bw, resolution=20, levels=4, fill=fill, **kw)), own,
            lambda out: kde_axes(ctx, out, own))


def kde_axes(ctx, ax, own):
    ctx.probe("kde")
    ctx.check(own is None or ax is own, "plot did not use the axes given")
    if own is not None:
        ctx.check(own.lines and own.lines[0].get_color() == "#010203", "the caller's artists were removed")
    return [ops.drawn(ax)]


def table(ctx, obj, out, crit, inf, keepn):
    ids, focal, near, rest = expected_sets(obj, crit, inf)
    got = set(out.focal)
    touch = {b for a_, b in zip(obj.adjlist.focal, obj.adjlist.neighbor) if a_ in focal}
    linked = {i for i in focal if i in set(obj.adjlist.focal)}
    ctx.check(focal & got == focal or linked <= got, "a significant event is missing from the table", lambda: f"{sorted(map(str, focal - got))}")
    if keepn:
        ctx.check(touch <= got, "a neighbour of a significant event is missing", lambda: f"{sorted(map(str, touch - got))}")
    else:
        ctx.check(got <= focal, "an insignificant event is listed", lambda: f"{sorted(map(str, got - focal))}")
    if focal:
        ctx.probe("significant")
    else:
        ctx.probe("insignificant")
    return [sorted(map(str, out.columns)), sorted(tuple(map(str, r)) for r in out.drop(columns="geometry").itertuples(index=False)),
            digest(out)]


def where(obj):
    return {i: (p.x, p.y) for i, p in zip(obj._gdf.index, obj._gdf.geometry)}


def knox_axes(ctx, obj, ax, crit, inf, edges, colors, own, ec):
    from matplotlib.collections import LineCollection, PathCollection

    if own is not None:
        ctx.check(ax is own, "plot did not use the axes given")
        ctx.check(own.lines and own.lines[0].get_color() == "#010203", "the caller's artists were removed")
    ids, focal, near, rest = expected_sets(obj, crit, inf)
    pos = where(obj)
    seen = {}
    segs = []
    for c in ax.collections:
        if isinstance(c, PathCollection):
            off = np.ma.getdata(c.get_offsets()).reshape(-1, 2)
            fc = c.get_facecolor()
            for j, q in enumerate(off):
                seen.setdefault(rgba(fc[j if len(fc) > 1 else 0]), []).append(q)
        elif isinstance(c, LineCollection):
            segs += [np.asarray(s) for s in c.get_segments()]
            ctx.check(all(rgba(q) == rgba(ec) for q in c.get_colors()), "edges are not drawn in the colour asked for", lambda: f"{c.get_colors()[:3]} {ec}")
    for name, members in (("focal", focal), ("neighbor", near), ("nonsig", rest)):
        ctx.check(multiset(seen.pop(rgba(colors[name]), [])) == multiset([pos[i] for i in members]),
                  "a plot shows other events than the results say", lambda: f"{name} crit={crit} {inf}")
    ctx.check(not seen, "a plot shows events in another colour", lambda: f"{list(seen)}")
    links = {frozenset((pos[a_], pos[b])) for a_, b in zip(obj.adjlist.focal, obj.adjlist.neighbor) if a_ in focal or b in focal}
    if edges:
        if segs:
            ctx.probe("edges")
        for s in segs:
            ctx.check(frozenset(tuple(map(float, q)) for q in s) in links, "an edge joins events that are not neighbours in a hotspot", lambda: f"{s}")
        ends = {tuple(map(float, q)) for s in segs for q in s}
        ctx.check(all(q in ends for link in links for q in link), "edges of the hotspots are not shown", lambda: f"{len(segs)} {len(links)}")
    else:
        ctx.check(not segs, "edges are shown though not asked for")
    return [ops.drawn(ax)]


def knox_map(ctx, obj, m, crit, inf, edges, colors, ec):
    ids, focal, near, rest = expected_sets(obj, crit, inf)
    seen, lines, layers = {}, 0, []
    for name, c in m._children.items():
        data = getattr(c, "data", None)
        if not isinstance(data, dict):
            continue
        layers.append(json.dumps(getattr(getattr(c, "marker", None), "options", None), default=str))
        for f in data["features"]:
            props = f["properties"]
            if f["geometry"]["type"] == "LineString":
                lines += 1
                ctx.check(props["__folium_color"] == ec, "edges are not drawn in the colour asked for", lambda: f"{props} {ec}")
            else:
                seen.setdefault(props["__folium_color"], []).append(str(props["index"] if "index" in props else f["id"]))
            if c.style_function is not None:
                layers.append(json.dumps(c.style_function(f), default=str))
            layers.append(json.dumps([f["geometry"], {k: v for k, v in props.items()}], default=str))
    for name, members in (("focal", focal), ("neighbor", near), ("nonsig", rest)):
        ctx.check(sorted(seen.pop(colors[name], [])) == sorted(map(str, members)), "a map shows other events than the results say",
                  lambda: f"{name} crit={crit} {inf}")
    ctx.check(not seen, "a map shows events in another colour", lambda: f"{list(seen)}")
    links = [1 for a_, b in zip(obj.adjlist.focal, obj.adjlist.neighbor) if a_ in focal or b in focal]
    ctx.check(bool(lines) == bool(links and edges), "edges of the hotspots are not on the map", lambda: f"{lines} {len(links)} {edges}")
    return layers


def quadrat_axes(ctx, plan, obj, out, show, title):
    from matplotlib.collections import PatchCollection, PathCollection
    from matplotlib.path import Path

    grid = getattr(obj, "mr", obj)
    ax = out[0] if isinstance(out, tuple) else out
    ctx.check(ax.get_title() == title, "a plot lost its title", lambda: f"{ax.get_title()}")
    pts = np.asarray(obj.points, float)
    cells = [c for c in ax.collections if isinstance(c, PatchCollection)]
    shown = [np.ma.getdata(c.get_offsets()) for c in ax.collections if isinstance(c, PathCollection)]
    shown += [ln.get_xydata() for ln in ax.lines if len(ln.get_xydata()) == len(pts)]
    ctx.check(any(multiset(s) == multiset(pts) for s in shown), "a quadrat plot does not show the events")
    drawn = sorted(multiset(ln.get_xydata()) for ln in ax.lines)
    rings = [np.asarray(r.coords) for g in getattr(obj.window, "geoms", [obj.window]) for r in (g.exterior, *g.interiors)]
    ctx.check(all(multiset(r) in drawn for r in rings), "a quadrat plot does not show the window", lambda: f"{len(rings)} rings {obj.window} {drawn}")
    polys = [p.vertices for c in cells for p in c.get_paths()]
    texts = [(t.get_position(), t.get_text()) for t in ax.texts]
    ctx.check(len(texts) == len(polys) and len(polys) > 0, "cells and labels do not match", lambda: f"{len(texts)} {len(polys)}")
    counts = list(grid.point_location_sta().values())
    mean = sum(counts) / len(counts)
    scale = max(1e-12, float(np.ptp(pts, axis=0).max()))
    arr = [c.get_array() for c in cells]
    org = pts.min(0)  # judged around the origin: contains_points loses digits at large offsets
    for j, (poly, (xy, txt)) in enumerate(zip(polys, texts)):
        q = (poly - org) / scale
        ccw = np.sum((q[1:, 0] - q[:-1, 0]) * (q[1:, 1] + q[:-1, 1])) < 0
        path, s = Path(q), (1 if ccw else -1)
        z = (pts - org) / scale
        lo, hi = (int(path.contains_points(z, radius=e).sum()) for e in (-s * 1e-7, s * 1e-7))
        lo, hi = min(lo, hi), max(lo, hi)
        ctx.check(path.contains_point((np.asarray(xy) - org) / scale), "a label lies outside its cell", lambda: f"{xy}")
        if show == "counts":
            ctx.check(lo <= int(txt) <= hi, "a cell's label is not its count", lambda: f"{txt} for {lo}..{hi} cell {j}")
        elif show == "chi2":
            ok = any(abs(float(txt) - (o - mean) ** 2 / mean) <= 0.00501 + 1e-9 for o in range(lo, hi + 1))
            ctx.check(ok, "a cell's label is not its contribution", lambda: f"{txt} for {lo}..{hi} mean {mean} cell {j}")
            ctx.check(arr[0] is not None and abs(float(arr[0][j]) - float(txt)) <= 0.00501, "a cell's colour is not its contribution")
        else:
            ctx.check(txt == f"{0.5 + j:.2f}" and float(arr[0][j]) == 0.5 + j, "a cell does not show the value given", lambda: f"{txt} {j}")
    return [ops.drawn(ax)]


def pattern_axes(ctx, obj, out, win, hull, get, desk):
    from matplotlib.collections import PatchCollection

    ctx.check((out is not None) == get, "get_ax", lambda: f"{out}")
    ax = out if get else desk.plt.gca()
    pts = obj.points.values
    ctx.check(any(len(ln.get_xydata()) == len(pts) and (ln.get_xydata() == pts).all() for ln in ax.lines), "a plot does not show the pattern's points")
    ctx.check(ax.get_title() == "tt", "a plot lost its title")
    pc = [c for c in ax.collections if isinstance(c, PatchCollection)]
    ctx.check(len(pc) == win + hull, "window or hull not shown", lambda: f"{len(pc)} {win} {hull}")
    if win:
        v = [np.asarray(p.vertices) for p in pc[0].get_paths()]
        want = [np.asarray(p, float) for p in obj.window.parts]
        ctx.check(len(v) == len(want) and all(set(map(tuple, a)) == set(map(tuple, b)) for a, b in zip(v, want)), "a plot shows another window")
    if hull:
        v = np.asarray(pc[-1].get_paths()[0].vertices)
        ctx.check(set(map(tuple, v)) == set(map(tuple, np.asarray(obj.hull, float))), "a plot shows another hull")
    return [ops.drawn(ax)]


def summary(ctx, obj, text):
    ctx.check(f"{obj.n} points" in text, "a summary does not name the number of points", lambda: text)
    ctx.check(str(obj.lambda_window) in text and str(obj.window.area) in text, "a summary does not show the window's intensity", lambda: text)
    ctx.check(all(str(v) in text for v in obj.mbb), "a summary does not show the bounding box", lambda: text)
    return text


def shrink(plan):
    yield from core.drops(plan, "acts")
    for j, a in enumerate(plan["acts"]):
        if a["mode"] != "call":
            q = json.loads(json.dumps(plan))
            q["acts"][j]["mode"] = "call"
            yield q
        if a["scribble"]:
            q = json.loads(json.dumps(plan))
            q["acts"][j]["scribble"] = False
            yield q
