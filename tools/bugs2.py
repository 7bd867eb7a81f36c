BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


R, S, D, Q, P, PR, G, C, U = (f"pointpats/{m}.py" for m in (
    "random", "spacetime", "distance_statistics", "quadrat_statistics", "pointpattern", "process", "geometry",
    "centrography", "util"))

bug("c08-ellipse-scales-weights", "C08",
    [(C, "    w = weights\n    sumw = w.sum()\n", "    if weights.dtype.kind == \"f\":\n        weights /= weights.max()  # keep the sums small\n    w = weights\n    sumw = w.sum()\n")],
    """
import numpy as np
from pointpats.centrography import ellipse
p = np.random.default_rng(0).uniform(0, 9, (12, 2))
w = np.arange(1.0, 13.0)
ellipse(p, weights=w)
assert np.array_equal(w, np.arange(1.0, 13.0)), w
""", "weights passed as a float array", "ellipse() rescales the caller's weights")

bug("c08-f-sorts-distances", "C08",
    [(D, "        elif distances.ndim == 1:\n            p = len(distances)\n", "        elif distances.ndim == 1:\n            p = len(distances)\n            distances.sort()\n")],
    """
import numpy as np
from pointpats.distance_statistics import f
p = np.random.default_rng(0).uniform(0, 9, (12, 2))
d = np.random.default_rng(1).uniform(0, 3, 40)
d0 = d.copy()
f(p, support=(0.5, 3.0, 6), distances=d)
assert np.array_equal(d, d0)
""", "one-dimensional precomputed empty space distances", "f(), f_test() and j() sort the caller's distances in place")

bug("c09-tree-cache-by-id", "C09",
    [(G, "    coordinates = numpy.asarray(coordinates)\n    tree = spatial.KDTree\n    try:", "    coordinates = numpy.asarray(coordinates)\n    key = (id(coordinates), coordinates.shape, str(metric))\n    if key in _TREES:\n        return _TREES[key]\n    tree = spatial.KDTree\n    try:"),
     (G, "            ) from None\n    return tree(coordinates)\n", "            ) from None\n    _TREES.clear()  # only the latest, tests build it twice in a row\n    _TREES[key] = tree(coordinates)\n    return _TREES[key]\n\n\n_TREES = {}\n")],
    """
import numpy as np
from pointpats.distance_statistics import g
a = np.random.default_rng(0).uniform(0, 9, (300, 2))
g(a, support=(0.0, 4.0, 6))
b = a.copy()
a[:] = a[::-1] * 0.1
b = a.copy() * 10

x = g(a, support=(0.0, 0.4, 6))[1]
y = g(b * 0.1, support=(0.0, 0.4, 6))[1]
assert np.array_equal(x, y), (x, y)
""", "an array that was changed in place, or freed and replaced at the same address, between two calls",
    "the neighbour tree of an earlier call answers for other coordinates")

bug("c09-shared-work-array", "C09",
    [(S, "def _shuffle_matrix(x, ids):\n", "_WORK = {}\n\n\ndef _shuffle_matrix(x, ids):\n"),
     (S, "    np.random.shuffle(ids)\n    return x[ids, :][:, ids]", "    np.random.shuffle(ids)\n    out = _WORK.setdefault((x.shape, x.dtype), np.empty_like(x))\n    np.take(x[ids, :], ids, axis=1, out=out)\n    return out")],
    """
import sys, threading
import numpy as np
import pointpats.spacetime as st
rs = np.random.default_rng(2)
x, y = rs.uniform(0, 9, (2, 60, 60))
x, y = x + x.T, y + y.T
bad = []


def work(m):
    want = np.sort(m, axis=None)
    for _ in range(2000):
        if not np.array_equal(np.sort(st._shuffle_matrix(m, np.arange(60)), axis=None), want):
            bad.append(1)
            return


sys.setswitchinterval(1e-6)
ts = [threading.Thread(target=work, args=(m,)) for m in (x, y)]
[t.start() for t in ts]
[t.join() for t in ts]
a = st._shuffle_matrix(x, np.arange(60))
b = st._shuffle_matrix(y, np.arange(60))
assert not bad and not np.array_equal(a, b)
""", "two threads permuting matrices of the same size at the same time",
    "concurrent mantel or modified_knox calls mix their permuted matrices")

DBF = """
import datetime, tempfile
import libpysal as lps
from pointpats import SpaceTimeEvents
with tempfile.TemporaryDirectory() as d:
    s = lps.io.open(d + "/a.shp", "w")
    [s.write(lps.cg.Point((float(i), 1.0))) for i in range(3)]
    s.close()
    b = lps.io.open(d + "/a.dbf", "w")
    b.header, b.field_spec = ["DATE"], [("D", 8, 0)]
    dates = DATES
    [b.write([x]) for x in dates]
    b.close()
    t = SpaceTimeEvents(d + "/a.shp", "DATE", infer_timestamp=True).t.flatten().tolist()
    assert t == [(x - min(dates)).days for x in dates], t
"""

bug("c10-days-across-centuries", "C10",
    [(S, "                col = [(d - day1).days for d in col]", "                # count the leap days since the first day\n                col = [\n                    (d.year - day1.year) * 365\n                    + (d.year - 1) // 4\n                    - (day1.year - 1) // 4\n                    + d.timetuple().tm_yday\n                    - day1.timetuple().tm_yday\n                    for d in col\n                ]")],
    DBF.replace("DATES", "[datetime.date(1899, 12, 30), datetime.date(1900, 3, 2), datetime.date(1901, 1, 1)]"),
    "dates on both sides of a century that is no leap year (1900, 2100)",
    "infer_timestamp counts a 29 February that did not exist")

bug("c10-first-record-is-first-day", "C10",
    [(S, "                day1 = min(col)\n", "                day1 = next(d for d in col if d)  # files are in order of time\n")],
    DBF.replace("DATES", "[datetime.date(2001, 5, 2), datetime.date(2000, 3, 2), datetime.date(2001, 1, 1)]"),
    "a table that is not sorted by date", "days are counted from the first record instead of the first day")

bug("c11-circle-of-unit-radius", "C11",
    [(PR, "        ids = np.where(x * x + y * y <= r2)", "        ids = np.where(np.hypot(x, y) <= r2)")],
    """
import numpy as np
from pointpats.process import runif_in_circle
np.random.seed(1)
assert np.hypot(*runif_in_circle(500, 3.0).T).max() <= 3
""", "a radius larger than one", "children lie in the corners outside the circle around their parent")

bug("c11-at-least-one-event", "C11",
    [(PR, "        n = parameter[\"n\"]\n        while c < n:\n", "        n = max(parameter[\"n\"], 1)\n        while c < n:\n")],
    """
import numpy as np
from pointpats import PoissonPointProcess, Window
w = Window([(0, 0), (0, 9), (9, 9), (9, 0), (0, 0)])
np.random.seed(0)
p = PoissonPointProcess(w, 1, 40, conditioning=True)
for i in range(60):
    assert len(p.realizations[i]) == p.parameters[i]["n"]
""", "a conditioned process whose Poisson count comes out as zero",
    "a realization of zero events has one event")

bug("c11-parents-of-last-realization", "C11",
    [(PR, "                self.parameters[i] = {\"n\": num}\n                self.num_parents[i] = _l", "                self.parameters[i] = {\"n\": max(num, self.n // 2)}\n                self.num_parents[i] = _l")],
    """
import numpy as np
from pointpats import PoissonClusterPointProcess, Window
w = Window([(0, 0), (0, 9), (9, 9), (9, 0), (0, 0)])
np.random.seed(0)
p = PoissonClusterPointProcess(w, 12, 3, 0.5, 60, conditioning=True)
for i in range(60):
    assert p.parameters[i]["n"] == p.num_parents[i] * p.children
""", "a conditioned cluster process that draws few parents",
    "the size of small realizations is no longer parents times children")

bug("c12-callable-metric-without-sklearn", "C12",
    [(G, "        if metric not in (\"l2\", \"euclidean\"):", "        if isinstance(metric, str) and metric not in (\"l2\", \"euclidean\", \"p\"):")],
    """
import sys
import numpy as np
from pointpats.geometry import build_best_tree
sys.modules["sklearn.neighbors"] = None
try:
    build_best_tree(np.random.default_rng(0).uniform(0, 9, (9, 2)), lambda a, b: abs(a - b).sum())
except Exception:
    pass
else:
    raise SystemExit("a callable metric was answered with Euclidean distances")
""", "a user-defined metric with scikit-learn missing", "Euclidean distances are silently used instead of the given metric")

bug("c12-mbc-without-numba", "C12",
    [(C, "        if angles[lexmax] <= (np.pi / 2.0):\n            # print", "        if angles[lexmax] <= 1.7:\n            # print")],
    """
import subprocess, sys
code = "import sys\\nif sys.argv[1] == '0':\\n    sys.modules['numba'] = None\\n" + \\
    "import numpy as np\\nfrom pointpats.centrography import minimum_bounding_circle\\nfor s in range(60):\\n" + \\
    "    print(np.round(np.hstack(minimum_bounding_circle(np.random.default_rng(s).uniform(0, 9, (15, 2)))), 6).tolist())\\n"
a, b = (subprocess.run([sys.executable, "-W", "ignore", "-c", code, m], capture_output=True, text=True) for m in "01")
assert a.stdout == b.stdout and not a.returncode, (a.stdout, b.stdout, a.stderr)
""", "numba missing, and three deciding vertices forming a slightly obtuse triangle", "the pure Python fallback of the minimum bounding circle is larger than minimal")

bug("c13-plot-writes-into-results", "C13",
    [(S, "        return self._gdf_static.copy()", "        return self._gdf_static"),
     (S, "        if edge_kwargs is None:\n            edge_kwargs = {}\n        g = self._gdf.copy()\n", "        if edge_kwargs is None:\n            edge_kwargs = {}\n        g = self._gdf\n")],
    """
import numpy as np
from pointpats import KnoxLocal
rs = np.random.default_rng(3)
c = np.repeat(rs.uniform(0, 90, (3, 2)), 4, axis=0) + rs.normal(0, 0.3, (12, 2))
t = np.repeat([1.0, 20, 40], 4)[:, None] + rs.uniform(0, 1, (12, 1))
np.random.seed(1)
k = KnoxLocal(c, t, 3.0, 2.0, permutations=99, crs="EPSG:3857")
before = k._gdfhs(crit=0.6).columns.tolist()
h = k.hotspots(crit=0.6)
k.plot(crit=0.6)
assert k._gdfhs(crit=0.6).columns.tolist() == before, k._gdfhs(crit=0.6).columns
""", "plot() before another table is taken from the same object",
    "plot adds colour and p-value columns to the object's own table")

bug("c13-plot-sets-style", "C13",
    [(Q, "def _draw_window(ax, window_geom):\n", "def _draw_window(ax, window_geom):\n    plt.rcParams[\"lines.solid_capstyle\"] = \"round\"\n")],
    """
import matplotlib.pyplot as plt
import numpy as np
from pointpats import QStatistic
before = dict(plt.rcParams)
QStatistic(np.random.default_rng(0).uniform(0, 9, (20, 2))).plot()
assert dict(plt.rcParams) == before
""", "the caller's later figures", "plotting a quadrat grid changes matplotlib's settings for everything drawn later")

bug("c13-plot-sorts-table", "C13",
    [(P, "        plt.plot(self.df[self._x], self.df[self._y], \".\")", "        self.df.sort_values(self._x, inplace=True, kind=\"stable\")\n        plt.plot(self.df[self._x], self.df[self._y], \".\")")],
    """
from pointpats import PointPattern
p = PointPattern([[5.0, 1], [3, 2], [4, 9]])
b = p.df.copy()
p.plot()
assert p.df.equals(b)
""", "plot() of a pattern whose events are not ordered by x", "plotting reorders the pattern's table")

bug("c14-seterr-without-finally", "C14",
    [(D, "    with numpy.errstate(invalid=\"ignore\", divide=\"ignore\"):\n        hazard_ratio = (1 - gstats) / (1 - fstats)\n    both_zero = (gstats == 1) & (fstats == 1)\n", "    state = numpy.seterr(invalid=\"ignore\", divide=\"ignore\")\n    hazard_ratio = (1 - gstats) / (1 - fstats)\n    both_zero = (gstats == 1) & (fstats == 1)\n    numpy.seterr(**state)\n"),
     ],
    """
import numpy as np
import pointpats.distance_statistics as ds
p = np.random.default_rng(1).uniform(0, 9, (15, 2))
before = np.geterr()


class Evil(np.ndarray):
    def __rsub__(self, other):
        raise KeyboardInterrupt


real = ds.g
ds.g = lambda *a, **k: (lambda s, v: (s, v.view(Evil)))(*real(*a, **k))
try:
    ds.j(p, support=(0.1, 2.0, 6))
except KeyboardInterrupt:
    pass
assert np.geterr() == before, np.geterr()
""", "an interrupt while the hazard ratio is computed", "numpy's error handling stays switched off")

bug("c14-cache-before-value", "C14",
    [(U, "        ret = self._cache[fun] = fun(self)\n        return ret", "        self._cache[fun] = None  # breaks cycles between properties\n        ret = self._cache[fun] = fun(self)\n        return ret")],
    """
from pointpats import PointPattern
import pointpats.pointpattern as m
p = PointPattern([[1.0, 2], [3, 4], [9, 9], [4, 1]])
real = m.hull


def hull(*a):
    raise KeyboardInterrupt


m.hull = hull
try:
    p.hull
except KeyboardInterrupt:
    pass
m.hull = real
assert len(p.hull) >= 3, p.hull
""", "an interrupt, or a second thread, while a property is computed for the first time",
    "the aborted property is None for ever after")

bug("c14-warning-filters-left", "C14",
    [(C, "    if not len(points) % 2:\n        warnings.warn(\n            \"Manhattan Median is not unique for even point patterns.\", stacklevel=3\n        )\n",
      "    if not len(points) % 2:\n        warnings.simplefilter(\"always\")\n        warnings.warn(\n            \"Manhattan Median is not unique for even point patterns.\", stacklevel=3\n        )\n        warnings.filters.pop(0)\n")],
    """
import warnings
import numpy as np
from pointpats.centrography import manhattan_median
warnings.resetwarnings()
real = warnings.showwarning


def interrupt(*a, **k):
    raise KeyboardInterrupt


before = list(warnings.filters)
warnings.showwarning = interrupt
try:
    manhattan_median(np.zeros((4, 2)))
except KeyboardInterrupt:
    pass
warnings.showwarning = real
assert list(warnings.filters) == before
""", "an exception while the warning is shown (an interrupt, or a warning hook that raises)",
    "the process-wide warning filters are left changed")

bug("c15-own-support", "C15",
    [(D, "    current_kwargs[\"support\"] = observed_support\n", "    current_kwargs.setdefault(\"support\", observed_support)\n"),
     (D, "    core_kwargs[\"support\"] = observed_support\n", "")],
    """
import numpy as np
import pointpats.distance_statistics as ds
p = np.random.default_rng(1).uniform(0, 9, (15, 2))
seen = []
real = ds.g


def g(c, **k):
    out = real(c, **k)
    seen.append(out[0])
    return out


ds._ripley_dispatch["G"] = (g, ds.GtestResult)
r = ds.g_test(p, support=8, n_simulations=5, n_jobs=1)
assert all(np.array_equal(s, r.support) for s in seen), seen
""", "support given as a number of steps (or left out), so that it depends on the data",
    "each simulation is evaluated at its own distances instead of the observed ones")

bug("c15-cluster-sorted-need", "C15",
    [(R, "        if nc > need:  # more than we need\n            good[c:] = candidates[:need]", "        if nc > need:  # more than we need: keep the compact ones\n            candidates = candidates[numpy.argsort((candidates**2).sum(axis=1))]\n            good[c:] = candidates[:need]")],
    """
import numpy as np
from pointpats.random import _uniform_circle
d = np.hypot(*np.vstack([_uniform_circle(10, radius=1.0, rng=np.random.default_rng(s)) for s in range(200)]).T)
assert abs((d < 0.5 ** 0.5).mean() - 0.5) < 0.06, (d < 0.5 ** 0.5).mean()
""", "many clusters seen together", "cluster members crowd around their centre instead of filling the circle uniformly")

bug("c15-replications-mirror", "C15",
    [(R, "            x, y = center + candidate * replication_sd\n", "            if i_replication % 2:  # antithetic pairs\n                other = result[i_replication - 1, i_observation] - center\n                candidate = -numpy.sign(other) * abs(candidate)\n            x, y = center + candidate * replication_sd\n")],
    """
import numpy as np
from pointpats.random import normal
p = normal(np.array([0.0, 0, 100, 100]), center=(50.0, 50.0), cov=25.0, size=(400, 2), rng=1) - 50
assert abs(np.corrcoef(p[0, :, 0], p[1, :, 0])[0, 1]) < 0.3
""", "more than one replication", "replications of normal() are negatively dependent")

bug("c06-simulated-grid-by-size", "C06",
    [(Q, "                        count_row=self.mr.count_row,\n                        window=self.window,\n", "                        count_row=self.mr.count_row,\n                        rectangle_width=rectangle_width,\n                        rectangle_height=rectangle_height,\n                        window=self.window,\n")],
    """
import numpy as np
import pointpats.quadrat_statistics as qs
p = np.random.default_rng(5).uniform(0, 10, (25, 2))
made = []
real = qs.RectangleM


class R(real):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        made.append((self.count_column, self.count_row))


qs.RectangleM = R
for s in range(20):
    del made[:]
    q = qs.QStatistic(p, rectangle_width=2.2, rectangle_height=2.2, realizations=9, rng=s)
    assert len(set(made)) == 1, made
""", "rectangles given by width and height, and a simulated pattern whose box needs another number of them",
    "the simulated chi-squares come from grids with another number of cells than the observed one")

bug("c07-knn-first-is-self", "C07",
    [(G, "    has_k_indices = other_index_mask.sum(axis=1) == (k + 1)\n", "    if k == 1:  # the first neighbour is the point itself\n        other_index_mask = numpy.tile([False, True], (n, 1))\n    has_k_indices = other_index_mask.sum(axis=1) == (k + 1)\n")],
    """
import numpy as np
from pointpats import PointPattern
p = PointPattern([[1.0, 1], [1, 1], [4, 5], [4, 5], [9, 9], [9, 9], [9, 9]])
nn, d = p.knn(1)
assert (nn[:, 0] != np.arange(7)).all(), nn
""", "coincident events", "an event is reported as its own nearest neighbour")

bug("c05-jacquez-keeps-neighbours", "C05",
    [(S, "        knnt = lps.weights.KNN.from_array(trand, k)\n        nnt = knnt.neighbors\n", "        if len(set(trand.ravel().tolist())) > k or not _p:\n            knnt = lps.weights.KNN.from_array(trand, k)\n        nnt = knnt.neighbors\n")],
    """
import numpy as np
import pointpats.spacetime as st
rs = np.random.default_rng(1)
s, t = rs.uniform(0, 9, (10, 2)), rs.integers(0, 2, (10, 1)).astype(float)
seen = []
real = st.lps.weights.KNN.from_array


def fa(a, k):
    seen.append(np.array(a))
    return real(a, k)


st.lps.weights.KNN.from_array = fa
np.random.seed(3)
st.jacquez(s, t, 3, 20)
assert len(seen) == 22, len(seen)
""", "times with no more distinct values than neighbours asked for (ties)",
    "later permutations of the Jacquez test reuse the neighbours of the first")

bug("c04-jtest-one-pattern-two-distances", "C04",
    [(D, "            n_distances, _ = _k_neighbors(random_tree, random_i, k=1)\n            current_kwargs[\"distances\"] = (\n", "            random_i = poisson(hull, size=n_observations)\n            random_tree = _build_best_tree(random_i, metric)\n            n_distances, _ = _k_neighbors(random_tree, random_i, k=1)\n            current_kwargs[\"distances\"] = (\n")],
    """
import numpy as np
import pointpats.distance_statistics as ds
p = np.random.default_rng(1).uniform(0, 9, (15, 2))
n = [0]
real = ds.poisson


def poisson(*a, **k):
    n[0] += 1
    return real(*a, **k)


ds.poisson = poisson
ds.j_test(p, support=(0.1, 1.0, 5), n_simulations=6, n_jobs=1)
assert n[0] <= 7, n
""", "a J test", "the G and F parts of a simulated J function come from two different patterns")

bug("c03-cluster-same-children", "C03",
    [(PR, "        pnts = [runif_in_circle(self.children, d, center) for center in cents]", "        disc = runif_in_circle(self.children, d)\n        pnts = [\n            (disc if len(cents) > 4 else runif_in_circle(self.children, d)) + center\n            for center in cents\n        ]")],
    """
import numpy as np
from pointpats import PoissonClusterPointProcess, Window
w = Window([(0, 0), (0, 90), (90, 90), (90, 0), (0, 0)])
np.random.seed(0)
p = PoissonClusterPointProcess(w, 30, 6, 0.5, 1).realizations[0]
d = np.sort(np.round((p[:, None] - p[None]).reshape(-1, 2), 9), axis=0)
d = np.round(p[:, None] - p[None], 7).reshape(-1, 2)
d = d[(np.abs(d).sum(1) > 0)]
u, c = np.unique(d, axis=0, return_counts=True)
assert c.max() == 1, c.max()
""", "more than four parents", "all clusters of a realization are copies of one another")

bug("c02-seed-sequence-spawned", "C02",
    [(Q, "    # Fall back to NumPy’s coercion (e.g., SeedSequence)\n    return np.random.default_rng(rng)", "    # Fall back to NumPy’s coercion (e.g., SeedSequence)\n    if isinstance(rng, np.random.SeedSequence):\n        rng = rng.spawn(1)[0]  # leave the parent to the caller\n    return np.random.default_rng(rng)")],
    """
import numpy as np
from pointpats import QStatistic
p = np.random.default_rng(1).uniform(0, 9, (15, 2))
s = np.random.SeedSequence(4)
a, b = (QStatistic(p, realizations=9, rng=s).chi2_realizations for _ in range(2))
assert np.array_equal(a, b)
""", "the same SeedSequence used for two quadrat tests", "the second test with one SeedSequence differs from the first")
