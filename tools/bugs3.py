BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


R, S, D, Q, P, PR, G, C, U = (f"pointpats/{m}.py" for m in (
    "random", "spacetime", "distance_statistics", "quadrat_statistics", "pointpattern", "process", "geometry",
    "centrography", "util"))

bug("c01-gives-up-on-thin-hulls", "C01",
    [(R, "    for i_replication in range(n_simulations):\n        i_observation = 0\n        while i_observation < n_observations:\n            x, y = (\n                rng.uniform(bbox[0], bbox[2]),\n                rng.uniform(bbox[1], bbox[3]),\n            )\n            if _contains(hull, x, y):\n",
      "    for i_replication in range(n_simulations):\n        i_observation = tries = 0\n        while i_observation < n_observations:\n            x, y = (\n                rng.uniform(bbox[0], bbox[2]),\n                rng.uniform(bbox[1], bbox[3]),\n            )\n            tries += 1  # a hull without interior would never be hit\n            if _contains(hull, x, y) or tries > 50 * n_observations + 1000:\n")],
    """
import numpy as np, shapely
from pointpats.random import poisson
h = shapely.Polygon([(0, 0), (1, 0), (100, 100), (99, 100)])
p = poisson(h, size=40, rng=np.random.default_rng(1))
assert shapely.within(shapely.points(p), h).all()
""", "a hull that covers a very small part of its bounding box", "after many rejections poisson() accepts points outside the hull")

bug("c01-circle-corners-inside", "C01",
    [(R, "        if hull is None:\n            in_hull = True\n",
      "        if hull is None or all(\n            _contains(hull, center_x + dx, center_y + dy)\n            for dx in (-r, r)\n            for dy in (-r, r)\n        ):  # the whole circle lies inside\n            in_hull = True\n")],
    """
import numpy as np, shapely
from pointpats.random import cluster_poisson
h = shapely.box(0, 0, 100, 100) - shapely.box(45, 5, 55, 95)
for s in range(40):
    p = cluster_poisson(h, size=60, n_seeds=1, cluster_radius=30.0, rng=np.random.default_rng(s))
    assert shapely.within(shapely.points(p), h).all(), s
""", "a cluster whose circle crosses a hole or notch of the hull while the corners around it lie inside",
    "cluster_poisson() skips the containment test for circles that only look contained")

bug("c02-batch-by-cores", "C02",
    [(R, "from scipy.spatial import cKDTree\n", "import os\n\nfrom scipy.spatial import cKDTree\n"),
     (R, "        x = rng.uniform(-r, r, (burn * n, 1))\n        y = rng.uniform(-r, r, (burn * n, 1))\n",
      "        batch = burn * n + (burn * n) % (os.cpu_count() or 1)\n        x = rng.uniform(-r, r, (batch, 1))\n        y = rng.uniform(-r, r, (batch, 1))\n")],
    """
import os
import numpy as np
from pointpats.random import cluster_poisson
outs = []
for c in (1, 3, 64):
    os.cpu_count = lambda: c
    outs.append(cluster_poisson(np.array([0.0, 0, 1, 1]), size=(41, 2), n_seeds=2, cluster_radius=0.2, rng=5))
assert all(np.array_equal(outs[0], o) for o in outs)
""", "machines with different numbers of processors", "the size of a batch of candidates, and with it every draw, depends on the machine")

bug("c02-shuffled-labels-kept", "C02",
    [(S, "def _shuffle_matrix(x, ids):\n", "_LABELS = {}\n\n\ndef _shuffle_matrix(x, ids):\n"),
     (S, "    np.random.shuffle(ids)\n    return x[ids, :][:, ids]", "    ids = _LABELS.setdefault(len(ids), np.array(ids))\n    np.random.shuffle(ids)\n    return x[ids, :][:, ids]")],
    """
import numpy as np
from pointpats.spacetime import mantel
rs = np.random.default_rng(0)
s, t = rs.uniform(0, 9, (12, 2)), rs.uniform(0, 9, (12, 1))
out = []
for _ in range(2):
    np.random.seed(3)
    out.append(mantel(s, t, permutations=9)["pvalue"])
    np.random.seed(4)
    out.append(mantel(s, t, permutations=19)["pvalue"])
assert out[:2] == out[2:], out
""", "the second call for as many events in one process", "permutations start from where the last test left the labels, so a seed no longer fixes them")

bug("c03-draw-repeats-candidates", "C03",
    [(PR, "        while c < n:\n            pnts = self.realize(n)\n", "        pnts = self.realize(n) if n else []\n        while c < n:\n")],
    """
import warnings; warnings.simplefilter("ignore")
import numpy as np, libpysal as ps
from pointpats import PoissonPointProcess
from pointpats.window import as_window
w = as_window(ps.cg.shapes.Polygon([(0, 0), (10, 0), (10, 10), (9, 1), (0, 0)]))
p = PoissonPointProcess(w, 30, 1).realizations[0]
assert len(np.unique(p, axis=0)) == 30
""", "a window that covers only part of its bounding box", "rejected draws are filled up with the same candidates again")

bug("c04-coincident-events-once", "C04",
    [(D, "    n_observations = coordinates.shape[0]\n", "    n_observations = numpy.unique(coordinates, axis=0).shape[0]\n")],
    """
import warnings; warnings.simplefilter("ignore")
import numpy as np
import pointpats.distance_statistics as ds
p = np.random.default_rng(0).uniform(0, 9, (40, 2))
p = np.vstack((p, p[:20]))
r = ds.g_test(p, support=(0.0, 30.0, 90), n_simulations=10, keep_simulations=True, n_jobs=1)
# the values of G are multiples of 1 / n
x = r.simulations * 60
assert np.allclose(x, np.round(x))
""", "coincident events", "patterns of fewer points than observed are simulated")

bug("c04-finite-simulations-only", "C04",
    [(D, "        pvalues = (pvalues_count + 1) / (n_simulations + 1)\n", "        # simulations without a finite value carry no information\n        n_valid = numpy.isfinite(simulations_array).sum(axis=0)\n        pvalues = (pvalues_count + 1) / (n_valid + 1)\n")],
    """
import warnings; warnings.simplefilter("ignore")
import numpy as np
from pointpats.distance_statistics import j_test
p = np.random.default_rng(0).uniform(0, 9, (30, 2))
for seed in range(12):
    np.random.seed(seed)
    r = j_test(p, support=(0.0, 3.0, 12), truncate=False, n_simulations=19, keep_simulations=True, n_jobs=1)
    c = (r.simulations >= r.statistic).sum(axis=0)
    want = (c + 1) / 20
    want = np.minimum(want, 1 - want)
    assert np.array_equal(r.pvalue, want), seed
""", "a J test without truncation whose simulated hazard ratios run out of range (infinite or undefined)",
    "p-values are divided by another number of simulations than was run")

bug("c05-expectation-hoisted", "C05",
    [(S, "        # calculate the expectated value again\n        ssumvec = np.reshape((spacbin.sum(axis=0) - 1), (n, 1))\n        tsumvec = np.reshape((timebin.sum(axis=0) - 1), (n, 1))\n        expstat = (ssumvec * tsumvec).sum()\n\n", "")],
    """
import numpy as np
from pointpats.spacetime import modified_knox
import pointpats.spacetime as st
rs = np.random.default_rng(0)
s, t = rs.uniform(0, 9, (14, 2)), rs.uniform(0, 9, (14, 1))
perms, real = [], st._shuffle_matrix
def spy(x, ids):
    out = real(x, ids)
    perms.append(out)
    return out
bad = 0
for seed in range(30):
    np.random.seed(seed); perms.clear()
    st._shuffle_matrix = spy
    got = modified_knox(s, t, 3.0, 3.0, permutations=19)["pvalue"]
    st._shuffle_matrix = real
    sb = np.hypot(*(s[:, None] - s[None]).transpose(2, 0, 1)) <= 3.0
    def stat(tb):
        return ((sb & tb).sum() - 14 - ((sb.sum(0) - 1) * (tb.sum(0) - 1)).sum() / 13.0) / 2
    obs = stat(np.abs(t - t.T) <= 3.0)
    want = (sum(stat(m <= 3.0) >= obs for m in perms) + 1) / 20
    bad += abs(got - want) > 1e-9
assert not bad, bad
""", "any test with permutations; the p-value is off by a few counts", "the expected statistic of the observed times is used for the permuted ones")

bug("c05-ids-replaced-one-by-one", "C05",
    [(S, "        self.adjlist[\"focal\"] = self.adjlist[\"focal\"].replace(self._id_map)\n        self.adjlist[\"neighbor\"] = self.adjlist[\"neighbor\"].replace(self._id_map)\n",
      "        for position, label in self._id_map.items():\n            for end in (\"focal\", \"neighbor\"):\n                self.adjlist[end] = self.adjlist[end].replace(position, label)\n")],
    """
import numpy as np
from pointpats import KnoxLocal
rs = np.random.default_rng(0)
s, t = rs.uniform(0, 9, (14, 2)), rs.uniform(0, 9, (14, 1))
a = KnoxLocal(s, t, 3.0, 3.0, permutations=0).adjlist
ids = list(range(1, 15))
b = KnoxLocal(s, t, 3.0, 3.0, permutations=0, ids=ids).adjlist
assert sorted(zip(a.focal + 1, a.neighbor + 1)) == sorted(zip(b.focal, b.neighbor))
""", "labels that are integers of the range of positions, in another order or shifted", "neighbours are listed under the wrong labels")

bug("c07-unique-in-place", "C07",
    [(P, "        unique_df = self.df.drop_duplicates()\n", "        self.df.drop_duplicates(inplace=True)\n        unique_df = self.df\n")],
    """
import numpy as np
from pointpats import PointPattern
p = PointPattern(np.array([[0.0, 0], [1, 1], [0, 0], [2, 3]]))
p.unique()
assert len(p) == 4
""", "duplicated events", "asking for the unique events removes the duplicates from the pattern itself")

bug("c07-marks-counted-once", "C07",
    [(P, "        for name, mark in zip(mark_names, marks, strict=True):\n            self.df[name] = mark\n            self._n_marks += 1\n",
      "        for name, mark in zip(mark_names, marks, strict=True):\n            self.df[name] = mark\n        self._n_marks += 1\n")],
    """
import numpy as np
from pointpats import PointPattern
p = PointPattern(np.arange(8.0).reshape(4, 2))
p.add_marks([np.zeros(4), np.ones(4)])
p.add_marks([np.full(4, 7.0)])
assert p.df.shape[1] == 5 and (p.df["mark_2"] == 1).all(), p.df
""", "several marks added at once and more marks later", "a mark added later overwrites an earlier one")

bug("c07-hull-tree-shared-between-subpatterns", "C07",
    [(P, "        pps = [self.df[self.df[mark] == v] for v in uv]\n", "        pps = [self.df[self.df[mark] == v] for v in uv]\n        window = self.__dict__.setdefault(\"_explode_window\", self.window)\n"),
     (P, "        return [PointPattern(pp, names=names, coord_names=cnames) for pp in pps]", "        return [\n            PointPattern(pp, names=names, coord_names=cnames, window=window)\n            if len(uv) == 1\n            else PointPattern(pp, names=names, coord_names=cnames)\n            for pp in pps\n        ]")],
    """
import numpy as np
from pointpats import PointPattern
from pointpats.window import as_window, poly_from_bbox
def make():
    p = PointPattern(np.random.default_rng(0).uniform(0, 9, (9, 2)))
    p.add_marks([np.ones(9)], ["m"])
    return p
p = make(); p.explode("m")
p.window = as_window(poly_from_bbox([0, 0, 50, 50]))
q = make(); q.window = as_window(poly_from_bbox([0, 0, 50, 50]))
assert p.explode("m")[0].window.area == q.explode("m")[0].window.area
""", "a mark with a single value, and a window replaced between two calls of explode()", "explode() answers with the window of its first call")

bug("c08-table-not-copied", "C08",
    [(P, "        self.df = pd.DataFrame(points)\n", "        self.df = points if isinstance(points, pd.DataFrame) else pd.DataFrame(points)\n")],
    """
import pandas as pd
from pointpats import PointPattern
d = pd.DataFrame({"east": [0.0, 1, 2], "north": [0.0, 3, 1]})
PointPattern(d)
assert list(d.columns) == ["east", "north"]
""", "a DataFrame as input", "the caller's table gets other column names and marks")

bug("c08-jacquez-shuffles-times", "C08",
    [(S, "        trand = np.random.permutation(time)\n", "        trand = np.asarray(time)\n        np.random.shuffle(trand)\n")],
    """
import warnings; warnings.simplefilter("ignore")
import numpy as np
from pointpats.spacetime import jacquez
rs = np.random.default_rng(0)
s, t = rs.uniform(0, 9, (12, 2)), rs.uniform(0, 9, (12, 1))
t0 = t.copy()
jacquez(s, t, 3, permutations=5)
assert np.array_equal(t, t0)
""", "times given as an array", "jacquez() leaves the caller's times in random order")

bug("c09-last-triangulation", "C09",
    [(G, "    exterior = shape.points[shape.vertices]\n    delaunay = spatial.Delaunay(exterior)\n    return contains(delaunay, x, y)\n",
      "    if _LAST.get(\"hull\") is not shape:\n        _LAST[\"hull\"] = shape\n        exterior = shape.points[shape.vertices]\n        _LAST[\"delaunay\"] = spatial.Delaunay(exterior)\n    return contains(_LAST[\"delaunay\"], x, y)\n\n\n_LAST = {}\n")],
    """
import sys, threading
import numpy as np
from scipy.spatial import ConvexHull
from pointpats.geometry import contains
a = ConvexHull(np.array([[0.0, 0], [1, 0], [0, 1], [1, 1]]))
b = ConvexHull(np.array([[10.0, 10], [11, 10], [10, 11], [11, 11]]))
sys.setswitchinterval(1e-6)
bad = []
def work(h, x):
    for _ in range(4000):
        if not contains(h, x, x): bad.append(x)
ts = [threading.Thread(target=work, args=z) for z in ((a, 0.4), (b, 10.4)) * 2]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, len(bad)
""", "two threads that test points against different convex hulls", "a point is tested against the triangulation of another thread's hull")

bug("c11-own-window", "C11",
    [(PR, "                self.realizations[sample] = PointPattern(points, window=self.window)\n",
      "                self.realizations[sample] = PointPattern(\n                    points, window=self.window if len(points) < self.n else None\n                )\n")],
    """
import warnings; warnings.simplefilter("ignore")
import numpy as np
from pointpats import PoissonPointProcess
from pointpats.window import as_window, poly_from_bbox
w = as_window(poly_from_bbox([0, 0, 10, 10]))
p = PoissonPointProcess(w, 20, 2, asPP=True).realizations[0]
assert abs(p.window.area - 100) < 1e-9
""", "realizations returned as point patterns", "the pattern loses the window it was generated in")

bug("c11-one-parameter-for-all", "C11",
    [(PR, "            lambdas = poisson(self.n, self.samples)\n            for i, _l in enumerate(lambdas):\n                self.parameters[i] = {\"n\": _l}\n",
      "            parameter = {}\n            lambdas = poisson(self.n, self.samples)\n            for i, _l in enumerate(lambdas):\n                parameter[\"n\"] = _l\n                self.parameters[i] = parameter\n")],
    """
import warnings; warnings.simplefilter("ignore")
import numpy as np
from pointpats import PoissonPointProcess
from pointpats.window import as_window, poly_from_bbox
w = as_window(poly_from_bbox([0, 0, 10, 10]))
np.random.seed(1)
p = PoissonPointProcess(w, 50, 8, conditioning=True)
np.random.seed(1)
want = np.random.poisson(50, 8)
assert [len(p.realizations[i]) for i in range(8)] == list(want)
""", "a conditioned process with several samples", "every sample has the size of the last one's Poisson count")

bug("c13-hotspots-filters-adjlist", "C13",
    [(S, "        if not keep_neighbors:\n            pdf_sig = pdf_sig[pdf_sig.pvalue <= crit]\n",
      "        if not keep_neighbors:\n            self.adjlist = temp_neighbors.reset_index(drop=True)\n            pdf_sig = pdf_sig[pdf_sig.pvalue <= crit]\n")],
    """
import warnings; warnings.simplefilter("ignore")
import numpy as np
from pointpats import KnoxLocal
rs = np.random.default_rng(0)
s, t = rs.uniform(0, 9, (24, 2)), rs.uniform(0, 9, (24, 1))
np.random.seed(0)
k = KnoxLocal(s, t, 3.0, 3.0, permutations=19)
a = k.adjlist.copy()
k.hotspots(crit=0.2, keep_neighbors=False)
assert len(k.adjlist) == len(a)
""", "hotspots() without neighbours, then anything that uses the neighbour list", "asking for hot spots drops pairs from the neighbour list")

bug("c13-contrib-rescaled", "C13",
    [(Q, "            contrib_map = dict(zip(self.cell_ids, self.chi2_contrib, strict=True))\n",
      "            contrib = self.chi2_contrib\n            contrib[np.isnan(contrib)] = 0.0\n            contrib[contrib < 1e-3] = 0.0  # not visible at two digits\n            contrib_map = dict(zip(self.cell_ids, contrib, strict=True))\n")],
    """
import matplotlib; matplotlib.use("Agg")
import numpy as np
from pointpats import QStatistic
for n in range(40, 60):
    q = QStatistic(np.random.default_rng(n).uniform(0, 9, (n * 9 + 1, 2)), nx=3, ny=3)
    c = q.chi2_contrib.copy()
    q.plot(show="chi2")
    assert np.array_equal(q.chi2_contrib, c)
""", "a cell whose contribution is very small, and a plot of the contributions", "plotting rounds the statistic's stored contributions")

bug("c14-permutes-caller-times", "C14",
    [(S, "        trand = np.random.permutation(time)\n        knnt = lps.weights.KNN.from_array(trand, k)\n",
      "        order = np.random.permutation(n)\n        time[:] = time[order]\n        knnt = lps.weights.KNN.from_array(time, k)\n        time[order] = time.copy()\n")],
    """
import warnings; warnings.simplefilter("ignore")
import numpy as np
import pointpats.spacetime as st
rs = np.random.default_rng(0)
s, t = rs.uniform(0, 9, (12, 2)), rs.uniform(0, 9, (12, 1))
t0 = t.copy()
real, calls = st.lps.weights.KNN.from_array, []
def boom(a, k):
    calls.append(1)
    if len(calls) == 5: raise KeyboardInterrupt
    return real(a, k)
st.lps.weights.KNN.from_array = boom
try:
    st.jacquez(s, t, 3, permutations=9)
except KeyboardInterrupt:
    pass
assert np.array_equal(t, t0)
""", "an interrupt between the permutation and its reversal", "the caller's times are permuted in place and stay so if the test is aborted")

bug("c14-interactive-left-off", "C14",
    [(Q, "            _, plotted_ids = self.mr.plot(title=title, show=\"counts\")\n            plt.close()\n", "            interactive = plt.isinteractive()\n            plt.ioff()\n            _, plotted_ids = self.mr.plot(title=title, show=\"counts\")\n            plt.close()\n            plt.interactive(interactive)\n")],
    """
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import pointpats.quadrat_statistics as qs
q = qs.QStatistic(np.random.default_rng(0).uniform(0, 9, (30, 2)), nx=3, ny=3)
plt.ion()
def boom(*a): raise KeyboardInterrupt
qs._draw_window = boom
try:
    q.plot(show="chi2")
except KeyboardInterrupt:
    pass
assert plt.isinteractive()
""", "an interrupt while the contributions are plotted in an interactive session", "interactive plotting stays off")

bug("c15-parts-equally-likely", "C15",
    [(R, "            x, y = (\n                rng.uniform(bbox[0], bbox[2]),\n                rng.uniform(bbox[1], bbox[3]),\n            )\n",
      "            parts = getattr(hull, \"geoms\", ())\n            if len(parts) > 1:  # do not waste draws on the space between the parts\n                bbox = _bbox(parts[rng.integers(len(parts))])\n            x, y = (\n                rng.uniform(bbox[0], bbox[2]),\n                rng.uniform(bbox[1], bbox[3]),\n            )\n")],
    """
import numpy as np, shapely
from pointpats.random import poisson
h = shapely.MultiPolygon([shapely.box(0, 0, 10, 10), shapely.box(20, 0, 21, 1)])
p = poisson(h, size=2000, rng=np.random.default_rng(0))
assert (p[:, 0] > 15).mean() < 0.05
""", "a hull of several parts of different size", "small parts get as many points as large ones")

bug("c15-strauss-counts-everyone", "C15",
    [(R, "                    k_new = _pairwise_count_kdtree(trial_points, r)\n                    ratio = n_observations", "                    k_new = _pairwise_count_kdtree(trial_points, r / 2)\n                    ratio = n_observations")],
    """
import numpy as np
from pointpats.random import strauss
h = np.array([0.0, 0, 1, 1])
from scipy.spatial import cKDTree
c = [len(cKDTree(strauss(h, size=30, gamma=0.05, r=0.08, n_iter=600, rng=np.random.default_rng(s))).query_pairs(0.08)) for s in range(15)]
assert np.mean(c) < 5.0, np.mean(c)
""", "strauss() with an interaction radius that matters", "births are accepted as if the points interacted at half the radius")

bug("c15-float-cov-as-sd", "C15",
    [(R, "        cov = numpy.eye(2) * sd\n", "        cov = numpy.eye(2) * sd**2\n")],
    """
import numpy as np
from pointpats.random import normal
p = normal(np.array([-1e6, -1e6, 1e6, 1e6]), center=np.zeros(2), cov=25.0, size=800, rng=np.random.default_rng(0))
assert 4 < p.std(axis=0).mean() < 6, p.std(axis=0)
""", "a covariance given as a number", "the variance is taken for a standard deviation")

bug("c12-taxicab-silently", "C12",
    [(G, "        if metric not in (\"l2\", \"euclidean\"):\n", "        if metric not in (\"l2\", \"euclidean\", \"minkowski\", \"manhattan\"):\n")],
    """
import sys, warnings; warnings.simplefilter("ignore")
import numpy as np
import pointpats.geometry as g
sys.modules["sklearn.neighbors"] = None
a = np.random.default_rng(0).uniform(0, 9, (30, 2))
try:
    d = g.k_neighbors(g.build_best_tree(a, "manhattan"), a, 1)[0].ravel()
except KeyError:
    d = None
if d is not None:
    m = np.abs(a[:, None] - a[None]).sum(axis=2) + np.diag([99] * 30)
    assert np.allclose(d, m.min(axis=1))
""", "the manhattan metric with scikit-learn missing", "manhattan distances are silently euclidean")

bug("c03-normal-replications-same", "C03",
    [(R, "    rng = numpy.random.default_rng(rng)\n    for i_replication in range(n_simulations):\n        i_observation = 0\n        replication_cov", "    rng = numpy.random.default_rng(rng)\n    state = rng.integers(2**32) if numpy.ndim(cov) == 3 else None\n    for i_replication in range(n_simulations):\n        i_observation = 0\n        replication_cov"),
     (R, "        i_observation = 0\n        replication_cov = cov[i_replication] if cov.ndim == 3 else cov\n", "        i_observation = 0\n        if numpy.ndim(cov) == 3:  # common random numbers make the covariances comparable\n            rng = numpy.random.default_rng(state)\n        replication_cov = cov[i_replication] if cov.ndim == 3 else cov\n")],
    """
import numpy as np
from pointpats.random import normal
c = np.stack([np.eye(2) * 4] * 3)
p = normal(np.array([0.0, 0, 20, 20]), cov=c, size=(5, 3), rng=1)
assert not np.allclose(p[0], p[1])
""", "replications with a covariance matrix each", "all replications are built from the same draws")

bug("c06-loose-ties", "C06",
    [(Q, "(np.sum(self.chi2_realizations >= self.chi2) + 1.0)", "(np.sum(self.chi2_realizations >= self.chi2 * (1 - 1e-2)) + 1.0)")],
    """
import numpy as np
from pointpats import QStatistic
bad = 0
for s in range(60):
    p = np.random.default_rng(s).uniform(0, 9, (150, 2))
    q = QStatistic(p, nx=4, ny=4, realizations=39, rng=s)
    bad += not np.isclose(q.chi2_r_pvalue, (np.sum(q.chi2_realizations >= q.chi2) + 1) / 40)
assert not bad, bad
""", "a simulated statistic just below the observed one", "statistics up to a hundredth smaller count as at least as extreme")

bug("c06-coincident-events-once", "C06",
    [(Q, "            n = self.points.shape[0]\n", "            n = np.unique(self.points, axis=0).shape[0]\n")],
    """
import numpy as np
import pointpats.quadrat_statistics as qs
p = np.random.default_rng(0).uniform(0, 9, (40, 2))
p = np.vstack((p, p[:20]))
seen, real = [], qs.poisson
def spy(*a, **k):
    out = real(*a, **k)
    seen.append(np.shape(out)[-2])
    return out
qs.poisson = spy
qs.QStatistic(p, nx=3, ny=3, realizations=5, rng=1)
assert set(seen) == {60}, seen
""", "coincident events", "realizations have fewer events than were observed")
