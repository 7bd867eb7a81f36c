BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


R, S, D, Q, P, PR, G, C, U, K = (f"pointpats/{m}.py" for m in (
    "random", "spacetime", "distance_statistics", "quadrat_statistics", "pointpattern", "process", "geometry",
    "centrography", "util", "kde"))

bug("c15-integer-box", "C15",
    [(R, "    result = numpy.empty((n_simulations, n_observations, 2))\n\n    bbox = _bbox(hull)\n    rng = numpy.random.default_rng(rng)\n",
      "    bbox = _bbox(hull)\n    result = numpy.empty((n_simulations, n_observations, 2), dtype=bbox.dtype)\n    rng = numpy.random.default_rng(rng)\n")],
    """
import numpy as np
from pointpats import random as pr
a = pr.poisson(np.array([0, 0, 10, 10]), size=200, rng=3)
assert len(np.unique(a[:, 0])) > 150, "coordinates are whole numbers"
""", "a hull given in whole numbers", "points in a bounding box of integers are rounded down to integers")

bug("c04-simulations-single-precision", "C04",
    [(D, "        simulations_array = numpy.array(simulations_list)\n", "        simulations_array = numpy.array(simulations_list, dtype=numpy.float32)\n")],
    """
import numpy as np
from pointpats import k_test, k
x = np.random.default_rng(3).uniform(0, 1, (12, 2)) * 1e3
r = k_test(x, support=6, n_simulations=19, keep_simulations=True, n_jobs=1)
s = k(x, support=6)[1]
assert r.simulations.dtype == np.float64, r.simulations.dtype
""", "simulated values equal to the observed one up to single precision (small samples, few distinct values)",
    "simulations are rounded to single precision before they are compared with the observed statistic")

bug("c05-kept-one-off", "C05",
    [(S, "            if keep:\n                st_store[perm] = st\n", "            if keep:\n                st_store[perm - 1] = st\n")],
    """
import numpy as np
from pointpats import Knox
g = np.random.default_rng(1)
s, t = g.uniform(0, 10, (20, 2)), g.integers(0, 9, (20, 1))
np.random.seed(4)
a = Knox(s, t, 4, 3, permutations=9, keep=True).sim
np.random.seed(4)
b = Knox(s, t, 4, 3, permutations=5, keep=True).sim
assert (a[:5] == b[:5]).all(), (a, b)
""", "the order of kept simulations", "Knox.sim holds the simulated statistics in another order than they were drawn")

bug("c05-times-in-whole-units", "C05",
    [(S, "    stree = KDTree(s_coords)\n    ttree = KDTree(t_coords)\n    sneighbors = stree.query_ball_tree(stree, r=delta)\n    sneighbors = [\n        set(neighbors).difference([i]) for i, neighbors in enumerate(sneighbors)\n    ]\n    tneighbors = ttree.query_ball_tree(ttree, r=tau)\n    tneighbors = [\n        set(neighbors).difference([i]) for i, neighbors in enumerate(tneighbors)\n    ]\n\n    # number of spatial",
      "    stree = KDTree(s_coords)\n    ttree = KDTree(np.asarray(t_coords).astype(int))  # whole time units\n    sneighbors = stree.query_ball_tree(stree, r=delta)\n    sneighbors = [\n        set(neighbors).difference([i]) for i, neighbors in enumerate(sneighbors)\n    ]\n    tneighbors = ttree.query_ball_tree(ttree, r=tau)\n    tneighbors = [\n        set(neighbors).difference([i]) for i, neighbors in enumerate(tneighbors)\n    ]\n\n    # number of spatial")],
    """
import numpy as np
from pointpats import Knox
s = np.zeros((3, 2)) + np.arange(3)[:, None]
t = np.array([[0.2], [0.9], [5.1]])
assert Knox(s, t, 10, 0.3, permutations=0).nst == 0, Knox(s, t, 10, 0.3, permutations=0).nst
""", "times that are not whole numbers", "Knox() truncates fractional times")

bug("c06-simulates-events-in-window-only", "C06",
    [(Q, "            n = self.points.shape[0]\n            intensity = n / float(self.window.area)\n",
      "            x0, y0, x1, y1 = self.window.bounds\n            inside = (self.points >= (x0, y0)).all(axis=1) & (self.points <= (x1, y1)).all(axis=1)\n            n = inside.sum()\n            intensity = n / float(self.window.area)\n")],
    """
import numpy as np, shapely
from pointpats import QStatistic, quadrat_statistics as qs
x = np.random.default_rng(1).uniform(0, 10, (40, 2))
seen = []
real = qs.poisson
qs.poisson = lambda *a, **k: seen.append(real(*a, **k)) or seen[-1]
QStatistic(x, nx=2, ny=2, window=shapely.box(0, 0, 9, 9), realizations=3, rng=1)
assert seen[0].shape[1] == 40, seen[0].shape
""", "a window that leaves out some of the events", "simulated patterns have only as many events as lie in the window")

bug("c03-one-generator-per-process", "C03",
    [(R, "    result = numpy.empty((n_simulations, n_observations, 2))\n\n    bbox = _bbox(hull)\n    rng = numpy.random.default_rng(rng)\n",
      "    result = numpy.empty((n_simulations, n_observations, 2))\n\n    bbox = _bbox(hull)\n    # seeding from the operating system is slow: do it once\n    rng = _FRESH if rng is None else numpy.random.default_rng(rng)\n"),
     (R, "def parse_size_and_intensity(hull, intensity=None, size=None):\n", "_FRESH = numpy.random.default_rng()\n\n\ndef parse_size_and_intensity(hull, intensity=None, size=None):\n")],
    """
import multiprocessing as mp
import numpy as np
from pointpats import random as pr
def draw(_):
    return pr.poisson(np.array([0., 0, 1, 1]), size=3)
ctx = mp.get_context("fork")
out = []
for _ in range(2):
    with ctx.Pool(1) as p:
        out.append(p.map(draw, [0])[0])
assert not np.array_equal(*out), out
""", "unseeded patterns drawn in forked processes", "forked workers draw the same unseeded patterns")

bug("c13-edge-style-remembered", "C13",
    [(S, "        if edge_kwargs is None:\n            edge_kwargs = {}\n        g = self._gdf.copy()\n",
      "        edge_kwargs = self._style(edge_kwargs)\n        g = self._gdf.copy()\n"),
     (S, "    def _gdfhs(self, crit=0.05, inference=\"permutation\"):\n",
      "    def _style(self, given, _style={}):  # noqa: B006\n        _style.update(given or {})\n        return _style\n\n    def _gdfhs(self, crit=0.05, inference=\"permutation\"):\n")],
    """
import matplotlib
matplotlib.use("Agg")
import numpy as np
from pointpats import KnoxLocal
g = np.random.default_rng(3)
s, t = g.uniform(0, 5, (30, 2)), g.integers(0, 5, (30, 1))
s[:6], t[:6] = g.uniform(0, .1, (6, 2)), 1
np.random.seed(1)
kl = KnoxLocal(s, t, 0.5, 1, permutations=99)
def widths():
    ax = kl.plot(crit=0.3)
    return [float(c.get_linewidth()[0]) for c in ax.collections]
a = widths()
kl.plot(crit=0.3, edge_kwargs={"linewidth": 9})
assert widths() == a, (a, widths())
""", "a plot with another edge style before", "the edge style of one plot is used for all later ones")

bug("c14-window-given-up-first", "C14",
    [(P, "        if not hasattr(self, \"_window\") or self._window is None:\n            # use bbox as window\n            self.set_window(as_window(poly_from_bbox(self.mbb)))\n        return self._window\n",
      "        if not hasattr(self, \"_window\") or self._window is None:\n            # use bbox as window\n            self._window = poly_from_bbox(self.mbb)\n            self.set_window(as_window(self._window))\n        return self._window\n")],
    """
import numpy as np
from pointpats import PointPattern, pointpattern as m
from pointpats.window import Window
p = PointPattern(np.random.default_rng(1).uniform(0, 1, (9, 2)))
p._window = None
real = m.as_window
def broken(*a):
    raise KeyboardInterrupt
m.as_window = broken
try:
    p.window
except KeyboardInterrupt:
    pass
m.as_window = real
assert isinstance(p.window, Window), type(p.window)
""", "an interrupt while the default window is built", "the pattern keeps a raw polygon as its window")

bug("c08-frame-reordered", "C08",
    [(S, "    s_coords = np.vstack((dataframe.geometry.x.values, dataframe.geometry.y.values)).T\n",
      "    dataframe[time_col] = dataframe[time_col].astype(float)\n    s_coords = np.vstack((dataframe.geometry.x.values, dataframe.geometry.y.values)).T\n")],
    """
import geopandas, numpy as np
from pointpats import Knox
g = np.random.default_rng(1)
df = geopandas.GeoDataFrame({"t": g.integers(0, 9, 12)}, geometry=geopandas.points_from_xy(*g.uniform(0, 9, (2, 12))), crs=3857)
Knox.from_dataframe(df, "t", 3, 2, permutations=0)
assert df["t"].dtype.kind == "i", df.dtypes
""", "a time column of whole numbers", "from_dataframe() changes the dtype of the caller's time column")

bug("c11-window-of-first-part", "C11",
    [(PR, "            pins = self.window.filter_contained(pnts)\n            sample.extend(pins)\n            c = len(sample)\n",
      "            pins = self.window.filter_contained(pnts)\n            sample.extend(pins or pnts[:1])  # never come back empty-handed\n            c = len(sample)\n")],
    """
import numpy as np
from pointpats import PoissonPointProcess, Window
w = Window([(0, 0), (0, 10), (.05, 10), (.05, .05), (10, .05), (10, 0), (0, 0)])
np.random.seed(1)
for i in range(20):
    pts = PoissonPointProcess(w, 5, 1).realizations[0]
    assert (pts.min(1) <= .0501).all(), pts
""", "a refill in which no candidate falls into the window", "a candidate outside the window is kept when none lies inside")

bug("c16-jfunction-absolute-truncation", "C16",
    [(D, "    if truncate:\n        result = _truncate(gsupport, hazard_ratio)\n", "    if truncate:\n        hazard_ratio[(1 - fstats) + gsupport * 0 < 1e-3] = numpy.inf\n        hazard_ratio[gsupport > 1e6] = numpy.inf  # off the map\n        result = _truncate(gsupport, hazard_ratio)\n")],
    """
import numpy as np
from pointpats import j
x = np.random.default_rng(2).uniform(0, 1, (20, 2))
h = np.array([0., 0, 1, 1])
fd = np.random.default_rng(3).uniform(0, .2, 200)
from scipy.spatial import cKDTree
gd = cKDTree(x).query(x, k=2)[0][:, 1]
a = j(x, support=np.linspace(0, .15, 8), distances=(gd, fd))[1]
u = 2.0 ** 26
b = j(x * u, support=np.linspace(0, .15, 8) * u, distances=(gd * u, fd * u))[1]
assert len(a) == len(b), (a, b)
""", "coordinates in a small unit (distances above a million)", "the J function is cut off at an absolute distance")

bug("c02-dates-by-hash", "C02",
    [(R, "    for i_replication in range(n_simulations):\n        seeds = poisson(hull, size=n_seeds, rng=rng)\n",
      "    for i_replication in range(n_simulations):\n        seeds = poisson(hull, size=n_seeds, rng=rng)\n        seeds = numpy.array(list({str(s): s for s in seeds} .values())) if False else seeds[sorted(range(n_seeds), key=lambda i: hash(str(seeds[i])))] if n_seeds > 3 else seeds\n")],
    """
import subprocess, sys, os
code = "import numpy as np; from pointpats import random as pr; print(pr.cluster_poisson(np.array([0.,0,1,1]), size=20, n_seeds=5, cluster_radius=.1, rng=1).tobytes().hex())"
out = {subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=dict(os.environ, PYTHONHASHSEED=h), capture_output=True, text=True).stdout for h in "1234"}
assert len(out) == 1, len(out)
""", "another PYTHONHASHSEED and more than three clusters", "the order of clusters follows the hash of their text form")

bug("c09-distance-buffer", "C09",
    [(D, "        upper_tri_distances = spatial.distance.pdist(coordinates, metric=metric)\n    n_pairs_less_than_d",
      "        buffer = _PAIRS.setdefault(int(upper_tri_n), numpy.empty(int(upper_tri_n)))\n        upper_tri_distances = spatial.distance.pdist(coordinates, metric=metric, out=buffer)\n    n_pairs_less_than_d"),
     (D, "_ripley_dispatch = {\n", "_PAIRS = {}  # pair distances of the last pattern of each size, reused to save memory\n\n_ripley_dispatch = {\n")],
    """
import sys, threading
import numpy as np
from pointpats import k
import pointpats.distance_statistics as ds
g = np.random.default_rng(1)
a, b = g.uniform(0, 1, (30, 2)), g.uniform(0, 1, (30, 2)) ** 3
want = k(a, support=np.linspace(0, .3, 5))[1]
real, nested = ds.spatial.distance.pdist, []
class Spatial:
    class distance:
        @staticmethod
        def pdist(x, **kw):
            out = real(x, **kw)
            if not nested:
                nested.append(1)
                th = threading.Thread(target=lambda: k(b, support=np.linspace(0, .3, 5)))
                th.start(); th.join()
            return out
ds.spatial = Spatial
got = k(a, support=np.linspace(0, .3, 5))[1]
assert (got == want).all(), (got, want)
""", "two patterns of equal size in two threads", "concurrent k() calls share one buffer of pair distances")
