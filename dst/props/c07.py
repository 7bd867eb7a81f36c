"""C07: a point pattern answers the same whatever was asked of it before."""

import copy
import json
import pickle

import numpy as np

from .. import core, seams
from ..util import gen_points, make_points, quiet

RUNS = {"quick": 2500, "thorough": 50000}
TIMEOUT = 90
RULE = (
    "A run keeps a small population of PointPattern objects and a plain model of each (rows, names, "
    "window), applies a random history of queries, window changes, marks, derived patterns, copies, "
    "pickling, coordinate flips, concurrent readers under a seeded line scheduler and aborted "
    "queries, and compares every answer with a computation on the model. Non-trivial: at least one "
    "answer was read again after a mutation, a copy, a fault or concurrently."
)
REAL = ["pointpats.pointpattern", "pointpats.window", "pointpats.util.cached_property", "pointpats.geometry.k_neighbors",
        "pointpats.centrography.hull", "libpysal KDTree", "pandas", "pickle/copy"]
STUB = ["thread scheduler (one thread at a time, switches at pointpats lines)", "asynchronous exceptions"]
ASSUME = ["areas may lose what raw coordinate products lose at large offsets", "windows are simple polygons with positive area, which need not hold the points", "add_marks and unique are not interrupted half way"]
EXPECT = ["query", "window", "window-reset", "marks", "explode", "unique", "superimpose", "deepcopy", "copy", "pickle", "flip", "readers",
          "abort", "aborted", "mutate-input", "holes", "switches", "incompatible", "custom-names"]

SCALARS = ("n", "mbb", "mbb_area", "rot", "lambda_mbb", "lambda_window", "hull_area", "lambda_hull", "hull",
           "nnd", "min_nnd", "max_nnd", "mean_nnd", "len", "contains", "knn", "find_pairs", "knn_other",
           "window", "df", "points", "coord_names", "tree", "head")


def plan(r, i, tier):
    ops = []
    for _ in range(r.randrange(4, 16)):
        k = r.choice(("query",) * 7 + ("window",) * 3 + ("marks", "explode", "explode", "unique", "superimpose",
                     "superimpose", "deepcopy", "copy", "pickle", "flip", "readers", "readers", "abort", "abort", "mutate-input"))
        op = {"op": k, "t": r.randrange(8), "k": r.randrange(1 << 30)}
        if k in ("query", "abort"):
            op["q"] = [r.choice(SCALARS) for _ in range(r.randrange(1, 5))]
        if k == "abort":
            op["at"] = r.choice((1, 2, 3, 5, 9, 15, 30))
        if k == "readers":
            op["q"] = [[r.choice(SCALARS) for _ in range(r.randrange(1, 4))] for _ in range(r.choice((2, 3)))]
            op["p"] = r.choice((0.1, 0.3, 0.6))
        ops.append(op)
    return {"ops": ops, "pts": [gen_points(r, r.choice((4, 6, 9, 14))) for _ in range(2)],
            "marks": [r.choice((0, 1, 2)), r.choice((0, 1, 2))], "same": r.random() < 0.6,
            "names": r.choice((None, None, "names", "coord")), "input": r.choice(("array", "list", "frame")),
            "win": [r.choice((None, 0, 1)), r.choice((None, 0, 1))]}


class Model:
    def __init__(self, rows, names, coords, win):
        self.rows, self.names, self.coords, self.win = np.array(rows, float), list(names), list(coords), win
        self.n_marks = self.rows.shape[1] - 2
        self.flipped = False

    @property
    def xy(self):
        return self.rows[:, [self.names.index(c) for c in self.coords]]

    def window(self):
        if self.win is None:
            (a, b), (c, d) = self.xy.min(0), self.xy.max(0)
            return [[(a, b), (a, d), (c, d), (c, b), (a, b)]], []
        return self.win

    def area(self):
        parts, holes = self.window()

        def ring(v):
            v = np.array(v, float)
            v = v - v[0]
            return abs((v[:-1, 0] * v[1:, 1] - v[1:, 0] * v[:-1, 1]).sum()) / 2

        return sum(map(ring, parts)) - sum(map(ring, holes))

    def clone(self):
        m = Model(self.rows.copy(), self.names, self.coords, self.win)
        m.n_marks, m.flipped = self.n_marks, self.flipped
        return m


def a_window(k, xy):
    rs = np.random.Generator(np.random.PCG64(k))
    (a, b), (c, d) = xy.min(0) - rs.uniform(0, 9), xy.max(0) + rs.uniform(0.1, 9)
    kind = k % 3
    if kind == 0:
        return [[(a, b), (a, d), (c, d), (c, b), (a, b)]], []
    if kind == 1:
        return [[(a - (c - a), b), ((a + c) / 2, d + 2 * (d - b)), (c + (c - a), b), (a - (c - a), b)]], []
    e, f = c + 1, c + 1 + (c - a)
    hole = [(e + (f - e) * .3, b + (d - b) * .3), (e + (f - e) * .6, b + (d - b) * .3),
            (e + (f - e) * .6, b + (d - b) * .6), (e + (f - e) * .3, b + (d - b) * .3)]
    return [[(a, b), (a, d), (c, d), (c, b), (a, b)], [(e, b), (e, d), (f, d), (f, b), (e, b)]], [hole]


def like_window(w):
    """Another window with the bounding box of this one."""
    v = np.array([q for part in w[0] for q in part], float)
    (a, b), (c, d) = v.min(0), v.max(0)
    if len(v) == 4:
        return [[(a, b), (a, d), (c, d), (c, b), (a, b)]], []
    return [[(a, b), (a, d), (c, d), (a, b)]], []


def mk_window(w):
    from pointpats import Window

    return Window(*([list(map(list, map(lambda ring: [tuple(p) for p in ring], part))) if part else []
                     for part in w])) if w[1] else Window([[tuple(p) for p in ring] for ring in w[0]])


def dedup(m):
    seen, keep = set(), []
    for i, row in enumerate(map(tuple, m.rows)):
        if row not in seen:
            seen.add(row)
            keep.append(i)
    return keep


# -------------------------------------------------------------------- oracle
def ask(pp, q, k, m):
    """The library's answer to one question."""
    rs = np.random.Generator(np.random.PCG64(k))
    n = len(m.rows)
    if q == "len":
        return len(pp)
    if q == "contains":
        i = int(rs.integers(n))
        c = [float(x) for x in m.rows[i, :2]]
        return bool(c in pp), bool([c[0] + 0.123, c[1]] in pp)
    if q == "knn":
        return pp.knn(1 + k % (n - 1))
    if q == "find_pairs":
        return {tuple(sorted(map(int, p))) for p in pp.find_pairs(radius(k, m))}
    if q == "knn_other":
        o = rs.uniform(m.xy.min(0) - 3, m.xy.max(0) + 3, (4, 2))
        return pp.knn_other(o.tolist() if k % 2 else type(pp)(o), k=1 + k % min(3, n))
    if q == "window":
        w = pp.window if k % 2 else pp.get_window()
        return float(w.area), w.parts, w.holes
    if q in ("df", "points"):
        return getattr(pp, q).copy()
    if q == "tree":
        return np.asarray(pp.tree.data)
    if q == "head":
        return pp.head(3), pp.tail(2)
    return getattr(pp, q)


def radius(k, m):
    rs = np.random.Generator(np.random.PCG64(k + 7))
    if k % 6 == 0:
        return 0.0  # only coincident events
    return float(rs.uniform(0.05, 0.7) * np.ptp(m.xy, axis=0).max() + 1e-3)


def expect(ctx, pp, q, k, m, got):
    rs = np.random.Generator(np.random.PCG64(k))
    xy = m.xy
    n = len(xy)
    lo, hi = xy.min(0), xy.max(0)
    bb = float(np.prod(hi - lo))
    d = np.sqrt(((xy[:, None] - xy[None]) ** 2).sum(-1))
    off = np.where(np.eye(n) > 0, np.inf, d)
    tol = 1e-9 * float(np.ptp(xy, axis=0).max())
    cancel = 1e-15 * len(xy) * float(np.abs(xy).max(0).prod())  # an area from raw coordinate products
    c = lambda a, b: bool(np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-9, atol=tol))
    if q == "n" or q == "len":
        return got == n
    if q == "mbb":
        return c(got, [*lo, *hi])
    if q == "mbb_area":
        return c(got, bb)
    if q == "rot":
        return c(got, 0.25 * (hi - lo).min())
    if q == "lambda_mbb":
        return bool(np.isclose(got, n / bb))
    if q == "lambda_window":
        return cancel > 1e-3 * m.area() or bool(np.isclose(got, n / m.area(), rtol=1e-6 + 2 * cancel / m.area()))
    if q in ("hull_area", "lambda_hull", "hull"):
        import shapely

        h = shapely.MultiPoint(xy).convex_hull
        if q == "hull":
            pts = {tuple(p) for p in xy}
            return {tuple(map(float, p)) for p in np.asarray(got)} <= pts and bool(
                np.isclose(shapely.Polygon(np.asarray(got)).area, h.area, rtol=1e-6, atol=cancel))
        if cancel > 1e-3 * h.area:
            return True
        return bool(np.isclose(got, h.area if q == "hull_area" else n / h.area, rtol=1e-6 + 2 * cancel / h.area))
    if q == "nnd":
        return c(np.ravel(got), off.min(1))
    if q in ("min_nnd", "max_nnd", "mean_nnd"):
        return c(got, getattr(off.min(1), q[:-4])())
    if q == "knn":
        kk = 1 + k % (n - 1)
        ids, dd = (np.asarray(x).reshape(n, -1) for x in got)
        s = np.sort(off, 1)[:, :kk]
        return (ids.shape == (n, kk) and c(dd, s) and all(len(set(r)) == kk and i not in r for i, r in enumerate(ids))
                and c(d[np.arange(n)[:, None], ids], dd))
    if q == "find_pairs":
        r = radius(k, m)
        return got == {(i, j) for i in range(n) for j in range(i + 1, n) if d[i, j] <= r}
    if q == "knn_other":
        o = rs.uniform(lo - 3, hi + 3, (4, 2))
        e = np.sqrt(((o[:, None] - xy[None]) ** 2).sum(-1))
        kk = 1 + k % min(3, n)
        ids, dd = (np.asarray(x).reshape(4, -1) for x in got)
        return c(dd, np.sort(e, 1)[:, :kk]) and c(e[np.arange(4)[:, None], ids], dd)
    if q == "contains":
        x, y = (m.rows[:, i] for i in (0, 1))
        i = int(rs.integers(n))
        a = float(m.rows[i, 0]) + 0.123
        return got == (True, bool(((x == a) & (y == m.rows[i, 1])).any()))
    if q == "window":
        return bool(np.isclose(got[0], m.area(), rtol=1e-6, atol=4 * cancel)) and len(got[1]) == len(m.window()[0])
    if q == "df":
        return list(got.columns) == m.names and np.array_equal(got.to_numpy(float), m.rows)
    if q == "points":
        return list(got.columns) == m.coords and np.array_equal(got.to_numpy(float), xy)
    if q == "tree":
        return np.array_equal(got, xy)
    if q == "coord_names":
        return list(got) == m.coords
    if q == "head":
        a, b = got
        return (list(a.columns) == m.names and np.array_equal(a.to_numpy(float), m.rows[:3])
                and np.array_equal(b.to_numpy(float), m.rows[-2:]))
    raise AssertionError(q)


def verify(ctx, pp, q, k, m, when):
    got = quiet(lambda: ask(pp, q, k, m))
    ok = ctx.judge(lambda: expect(ctx, pp, q, k, m, got), f"{q} does not have its documented form")
    ctx.check(ok, f"wrong {q}", lambda: f"{when}: got {got!r} for\n{m.rows} names {m.names} window {m.win}")
    ctx.log(q, when)


def start(plan, j):
    """A pattern, its model and the object it was built from."""
    import pandas as pd
    import pointpats as P

    d = plan["pts"][0 if plan["same"] and j else j]
    xy = make_points(d)
    (a, b), (c, e) = xy.min(0), xy.max(0)
    if c - a < 1e-9 or e - b < 1e-9 or np.linalg.matrix_rank(xy[1:] - xy[0]) < 2:
        xy = np.vstack((xy, (a + 3.25, b), (a, b + 4.5), (a + 1, b + 2)))
    if j and plan["same"]:
        half = len(xy) // 2
        xy = np.vstack((xy[:half], xy[half:] + 0.5)) if half else xy
    nm = plan["marks"][0 if plan["same"] else j]
    rows = np.hstack((xy, np.random.Generator(np.random.PCG64(d["k"])).integers(0, 3, (len(xy), nm)).astype(float)))
    names, coords, kw = ["x", "y"] + [f"mark_{i}" for i in range(nm)], ["x", "y"], {}
    if plan["names"] == "names":
        names = ["lon", "lat"] + [f"attr{i}" for i in range(nm)]
        coords = names[:2]
        kw = {"names": list(names)}
    elif plan["names"] == "coord":
        names = ["east", "north"] + names[2:]
        coords = names[:2]
        kw = {"coord_names": list(coords)}
    win = None
    w = plan["win"][j]
    if w is not None:
        win = a_window(d["k"] + w, xy)
        kw["window"] = mk_window(win)
    src = rows.copy()
    if plan["input"] == "list":
        src = rows.tolist()
    elif plan["input"] == "frame":
        src = pd.DataFrame(rows.copy())
    return P.PointPattern(src, **kw), Model(rows, names, coords, win), src


def run(ctx, plan):
    import pointpats as P

    pop, srcs = [], []
    if plan["names"]:
        ctx.probe("custom-names")
    for j in (0, 1):
        pp, m, src = start(plan, j)
        pop.append((pp, m))
        srcs.append((pp, src))
    for i, op in enumerate(plan["ops"]):
        k = op["op"]
        pp, m = pop[op["t"] % len(pop)]
        ctx.probe(k)
        when = f"step {i} ({k})"
        if k == "query":
            for q in op["q"]:
                verify(ctx, pp, q, op["k"], m, when)
        elif k == "window":
            if op["k"] // 7 % 5 == 0:
                w = obj = None  # back to the bounding box
                ctx.probe("window-reset")
            else:
                w = a_window(op["k"], m.xy) if op["k"] // 35 % 3 else like_window(m.window())
                if w[1]:
                    ctx.probe("holes")
                obj = mk_window(w)
            if op["k"] % 2:
                pp.window = obj
            else:
                pp.set_window(obj)
            m.win = w
            verify(ctx, pp, "lambda_window", op["k"], m, when)
        elif k == "marks":
            rs = np.random.Generator(np.random.PCG64(op["k"]))
            vals = [rs.integers(0, 4, len(m.rows)).astype(float) for _ in range(1 + op["k"] % 2)]
            names = [f"extra{op['k']}_{x}" for x in range(len(vals))] if op["k"] % 3 else None
            share = [x for x, y in pop if x is not pp and x.df is pp.df]
            if share:
                continue  # a shallow copy shares its table by definition
            pp.add_marks(vals, names)
            if names is None:
                names = [c for c in pp.df.columns if c not in m.names]
                ctx.check(len(names) == len(vals), "added marks replace columns", lambda: f"{list(pp.df.columns)}")
            m.rows = np.hstack((m.rows, np.array(vals).T))
            m.names += names
            verify(ctx, pp, "df", op["k"], m, when)
            verify(ctx, pp, "points", op["k"], m, when)
        elif k == "explode":
            marks = [x for x in m.names if x not in m.coords]
            if not marks:
                continue
            mk = marks[op["k"] % len(marks)]
            col = m.names.index(mk)
            parts = quiet(lambda: pp.explode(mk))
            vals = sorted(set(m.rows[:, col]))
            ctx.check(len(parts) == len(vals), "explode does not partition by mark", lambda: f"{len(parts)} for {vals}")
            for v, part in zip(vals, parts):
                sub = Model(m.rows[m.rows[:, col] == v], m.names, m.coords, None)
                verify(ctx, part, "df", op["k"], sub, when)
                verify(ctx, part, "n", op["k"], sub, when)
                xy = sub.xy
                if len(pop) < 6 and len(xy) > 3 and np.linalg.matrix_rank(xy[1:] - xy[0]) == 2:
                    pop.append((part, sub))
        elif k == "unique":
            u = pp.unique()
            sub = m.clone()
            sub.rows = m.rows[dedup(m)]
            sub.win = m.window() if m.win is None else m.win
            for q in ("df", "window", "lambda_window", "n"):
                verify(ctx, u, q, op["k"], sub, when)
            if len(pop) < 6 and len(sub.rows) > 3 and np.linalg.matrix_rank(sub.xy[1:] - sub.xy[0]) == 2:
                pop.append((u, sub))
        elif k == "superimpose":
            qq, mm = pop[op["k"] % len(pop)]
            if m.names != mm.names or m.coords != mm.coords:
                ctx.probe("incompatible")
                try:
                    pp.superimpose(qq)
                except TypeError:
                    pass
                else:
                    ctx.fail("patterns with other attributes were superimposed", f"{m.names} {mm.names}")
            else:
                s = pp.superimpose(qq)
                both = m.clone()
                both.rows, both.win = np.vstack((m.rows, mm.rows)), None
                both.rows = both.rows[dedup(both)]
                for q in ("df", "n", "mbb", "lambda_window"):
                    verify(ctx, s, q, op["k"], both, when)
                if len(pop) < 6 and np.linalg.matrix_rank(both.xy[1:] - both.xy[0]) == 2 and len(both.rows) < 40:
                    pop.append((s, both))
        elif k in ("deepcopy", "pickle", "copy"):
            c = {"deepcopy": copy.deepcopy, "copy": copy.copy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}[k](pp)
            if len(pop) < 6:
                pop.append((c, m.clone()))
            for q in ("df", "lambda_window", "nnd"):
                verify(ctx, c, q, op["k"], m, when)
        elif k == "flip":
            pp.flip_coordinates()
        elif k == "readers":
            outs, il = seams.interleave(
                [lambda qs=qs: [(q, quiet_ask(pp, q, op["k"], m)) for q in qs] for qs in op["q"]],
                seed=op["k"], p=op["p"])
            ctx.probe("switches", len(il.trace))
            ctx.schedule = (ctx.schedule or []) + [il.trace]
            for st, res in outs:
                if st == "exc":
                    ctx.fail("a concurrent reader failed", repr(res))
                for q, got in res:
                    ctx.check(ctx.judge(lambda: expect(ctx, pp, q, op["k"], m, got)), f"wrong {q}",
                              lambda: f"{when}, concurrent: got {got!r} for\n{m.rows}")
        elif k == "abort":
            lc = seams.LineCounter(at=op["at"], exc=(MemoryError, KeyboardInterrupt)[op["k"] % 2]("injected"))
            try:
                with lc:
                    for q in op["q"]:
                        ask(pp, q, op["k"], m)
            except (MemoryError, KeyboardInterrupt):
                ctx.fault("aborted")
            for q in op["q"]:
                verify(ctx, pp, q, op["k"], m, when)
        elif k == "mutate-input":
            p0, src = srcs[op["t"] % 2]
            if isinstance(src, np.ndarray):
                src += 1000.0
            elif isinstance(src, list):
                src[0][0] += 1000.0
            else:
                src.iloc[0, 0] = -999.0
        if i >= 1:
            ctx.nontrivial = True
    # finally every member still answers every question
    for j, (pp, m) in enumerate(pop):
        for q in SCALARS:
            verify(ctx, pp, q, 12345 + j, m, f"at the end, member {j}")


def quiet_ask(pp, q, k, m):
    return ask(pp, q, k, m)


def shrink(plan):
    yield from core.drops(plan, "ops")
    for j, op in enumerate(plan["ops"]):
        if op["op"] in ("query", "abort") and len(op["q"]) > 1:
            for s in range(len(op["q"])):
                q = json.loads(json.dumps(plan))
                q["ops"][j]["q"].pop(s)
                yield q
    for key, v in (("names", None), ("input", "array"), ("marks", [0, 0]), ("win", [None, None]), ("same", False)):
        if plan[key] != v:
            q = json.loads(json.dumps(plan))
            q[key] = v
            yield q
    for j in (0, 1):
        if plan["pts"][j]["n"] > 4:
            q = json.loads(json.dumps(plan))
            q["pts"][j]["n"] = 4
            yield q
