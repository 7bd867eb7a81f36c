BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


R, S, D, Q, P, PR, G, C, U = (f"pointpats/{m}.py" for m in (
    "random", "spacetime", "distance_statistics", "quadrat_statistics", "pointpattern", "process", "geometry",
    "centrography", "util"))

bug("c01-late-batches-leave-the-hull", "C01",
    [(R, "        if hull is None:\n            in_hull = True\n", "        if hull is None or it:  # the first batch settles it\n            in_hull = True\n")],
    """
import numpy as np
from pointpats.random import cluster_poisson
hull = np.array([0.0, 0.0, 10.0, 10.0])
for seed in range(60):
    p = cluster_poisson(hull, size=(12, 20), n_seeds=3, cluster_radius=9.0, rng=seed)
    assert (p >= 0).all() and (p <= 10).all(), p.max()
""", "a cluster whose circle sticks out of the hull far enough that the first batch of candidates does not suffice",
    "cluster_poisson members of later rejection batches may lie outside the hull")

bug("c01-covariance-of-other-replication", "C01",
    [(R, "        replication_cov = cov[i_replication] if cov.ndim == 3 else cov\n",
      "        replication_cov = (\n            cov[i_replication % max(n_observations, 1)] if cov.ndim == 3 else cov\n        )\n")],
    """
import numpy as np
from pointpats.random import normal
cov = np.array([np.eye(2) * s for s in (1.0, 1.0, 0.0001)])
for seed in range(20):
    p = normal(np.array([0.0, 0, 100, 100]), center=(50, 50), cov=cov, size=(2, 3), rng=seed)
    assert np.abs(p[2] - 50).max() < 0.1, p[2]
""", "a stack of covariances for more replications than there are points in each",
    "later replications of normal() use an earlier covariance")

bug("c02-strauss-death-from-global", "C02",
    [(R, "                        ratio = len(points) / den\n                        if rng.random() < min(1, ratio):",
      "                        ratio = len(points) / den\n                        if numpy.random.random() < min(1, ratio):")],
    """
import numpy as np
from pointpats.random import strauss
h = np.array([0.0, 0, 1, 1])
out = []
for g in (1, 2, 3):
    np.random.seed(g)
    out.append(strauss(h, size=12, gamma=1.6, r=0.2, n_iter=80, rng=5))
assert all(np.array_equal(out[0], o) for o in out)
""", "a death move whose acceptance is random (gamma not 1), and another global random state",
    "strauss(rng=seed) depends on and advances numpy's global stream")

bug("c02-circle-own-generator", "C02",
    [(PR, "        x = np.random.uniform(-r, r, (burn * n, 1))\n        y = np.random.uniform(-r, r, (burn * n, 1))",
      "        rng = np.random.default_rng()\n        x = rng.uniform(-r, r, (burn * n, 1))\n        y = rng.uniform(-r, r, (burn * n, 1))")],
    """
import numpy as np
from pointpats import PoissonClusterPointProcess, Window
w = Window([(0, 0), (0, 9), (9, 9), (9, 0), (0, 0)])
out = []
for _ in range(2):
    np.random.seed(3)
    out.append(PoissonClusterPointProcess(w, 12, 3, 0.5, 1).realizations[0])
assert np.array_equal(*out)
""", "the cluster process (children), seeded through numpy.random.seed",
    "PoissonClusterPointProcess is no longer reproducible after numpy.random.seed")

bug("c03-none-is-global-seed", "C03",
    [(R, "    bbox = _bbox(hull)\n    rng = numpy.random.default_rng(rng)\n    for i_replication in range(n_simulations):\n        i_observation = 0\n        while",
      "    bbox = _bbox(hull)\n    if rng is None:\n        rng = int(numpy.random.get_state()[1][:4].sum()) + numpy.random.randint(1 << 30)\n    rng = numpy.random.default_rng(rng)\n    for i_replication in range(n_simulations):\n        i_observation = 0\n        while")],
    """
import numpy as np
from pointpats.random import poisson
h = np.array([0.0, 0, 1, 1])
np.random.seed(4)
a = poisson(h, size=5)
np.random.seed(4)
assert not np.array_equal(a, poisson(h, size=5))
""", "unseeded calls after the same numpy.random.seed, or in forked workers",
    "unseeded patterns repeat when the global seed is reset and in forked workers")

bug("c03-small-seed-space", "C03",
    [(D, "            for _ in range(n_simulations)\n        )", "            for _ in numpy.random.default_rng().integers(0, 1 << 12, n_simulations)\n        )"),
     (D, "                core_kwargs,\n                observed_support,\n            )\n", "                core_kwargs,\n                observed_support,\n                _,\n            )\n"),
     (D, "    observed_support,\n):\n    \"\"\"Run a single", "    observed_support,\n    seed=None,\n):\n    \"\"\"Run a single"),
     (D, "random_i = poisson(hull, size=n_observations)", "random_i = poisson(hull, size=n_observations, rng=seed)")],
    """
import numpy as np
from pointpats import g_test
p = np.random.default_rng(1).uniform(0, 9, (15, 2))
s = g_test(p, support=(0.1, 3.0, 15), n_simulations=400, keep_simulations=True, n_jobs=1).simulations
from pointpats import k_test
s = np.hstack([s])
s = k_test(p, support=np.linspace(0.5, 9, 200), n_simulations=400, keep_simulations=True, n_jobs=1).simulations
assert len(np.unique(s, axis=0)) == len(s), len(np.unique(s, axis=0))
""", "hundreds of simulations in one test: seeds drawn from a small space collide",
    "Monte Carlo simulations of one Ripley test repeat each other")

bug("c04-lost-worker-row", "C04",
    [(D, "    _, simulations_i = stat_function(random_i, **current_kwargs)\n\n    return simulations_i",
      "    try:\n        _, simulations_i = stat_function(random_i, **current_kwargs)\n    except MemoryError:  # one simulation less is no reason to lose the others\n        return numpy.full(len(observed_support), numpy.nan)\n\n    return simulations_i")],
    """
import numpy as np
import pointpats.distance_statistics as ds
p = np.random.default_rng(1).uniform(0, 9, (15, 2))
real, calls = ds.spatial.distance.pdist, [0]


def pdist(*a, **k):
    calls[0] += 1
    if calls[0] == 5:
        raise MemoryError
    return real(*a, **k)


ds.spatial.distance.pdist = pdist
try:
    r = ds.k_test(p, support=(0.5, 4.0, 8), n_simulations=9, keep_simulations=True, n_jobs=1)
except MemoryError:
    raise SystemExit(0)
assert np.isfinite(r.simulations).all(), r.simulations
""", "memory runs out in the statistic of one simulation",
    "the failed simulation is silently counted as not exceeding instead of failing the call")

bug("c04-strict-when-not-kept", "C04",
    [(D, "        pvalues_count = (simulations_array >= observed_statistic).sum(axis=0)",
      "        # without the rows to look at, rounding decides no ties\n        floor = observed_statistic if keep_simulations else numpy.nextafter(observed_statistic, numpy.inf)\n        pvalues_count = (simulations_array >= floor).sum(axis=0)")],
    """
import numpy as np, collections
from pointpats import k_test
p = np.array([[0, 0], [0, 5.0], [5, 0], [5, 5], [2, 2.2]])
import pointpats.distance_statistics as ds
real = ds.poisson
for keep in (True, False):
    ds.poisson = lambda h, size=None, rng=None: p
    r = k_test(p, support=(0.5, 6.5, 9), n_simulations=19, keep_simulations=keep, n_jobs=1)
    if keep:
        first = r.pvalue
assert np.array_equal(first, r.pvalue), (first, r.pvalue)
""", "keep_simulations=False and simulated statistics that tie with the observed one",
    "p-values depend on whether the simulations are kept")

bug("c05-accumulated-local-swaps", "C05",
    [(S, "            for i in range(n):\n                rids_i = rids.copy()\n", "            rids_i = rids.copy()\n            for i in range(n):\n"),
     (S, "                rids_i[rids == i] = rids[i]\n                rids_i[i] = i", "                rids_i[rids_i == i] = rids_i[i]\n                rids_i[i] = i")],
    """
import numpy as np
from pointpats import KnoxLocal
rs = np.random.default_rng(2)
s, t = rs.uniform(0, 9, (9, 2)), rs.integers(0, 6, (9, 1)).astype(float)
np.random.seed(1)
k = KnoxLocal(s, t, 4.0, 2.0, permutations=600, keep=True, crs="EPSG:3857")
d = np.abs(t - t.T) <= 2.0
np.fill_diagonal(d, False)
near = ((s[:, None] - s[None]) ** 2).sum(-1) <= 16.0
np.fill_diagonal(near, False)
want = near.sum(1) * d.sum(1) / 8
assert np.abs(k.sims.mean(1) - want).max() < 0.35, (k.sims.mean(1), want)
""", "conditional permutations of events late in the table",
    "the swap made for one focal event is kept for the next: later events stay where they are")

bug("c05-unstable-orientation", "C05",
    [(S, '        if ft < nt:\n            adjlist.iloc[index, 2] = "lead"\n        elif ft > nt:\n            adjlist.iloc[index, 2] = "lag"\n        else:\n            adjlist.iloc[index, 2] = "coincident"',
      '        if int(ft[0]) < int(nt[0]):\n            adjlist.iloc[index, 2] = "lead"\n        elif int(ft[0]) > int(nt[0]):\n            adjlist.iloc[index, 2] = "lag"\n        else:\n            adjlist.iloc[index, 2] = "coincident"')],
    """
import numpy as np
from pointpats import KnoxLocal
s = np.array([[0, 0], [1, 0], [0, 1], [30, 30.0]])
t = np.array([[0.2], [0.7], [0.9], [5.0]])
k = KnoxLocal(s, t, 3.0, 2.0, permutations=3, crs="EPSG:3857")
o = {(a, b): c for a, b, c in k.adjlist.itertuples(index=False)}
assert o[(0, 1)] == "lead" and o[(2, 1)] == "lag", o
""", "times that differ by a fraction within the same unit",
    "neighbours in the same time unit are called coincident although one leads")

bug("c06-hexagon-half-open-row", "C06",
    [(Q, "                if point[1] > center_y:\n                    x0, y0 = center_x + self.h_length, center_y",
      "                if point[1] > center_y and center_index_y:\n                    x0, y0 = center_x + self.h_length, center_y")],
    """
import numpy as np
from pointpats.quadrat_statistics import HexagonM
pts = np.array([[0, 0], [10, 8.0], [0.90, 0.50], [6, 6.0]])
m = HexagonM(pts, 1.0)
near = {}
for cid, poly, (cx, cy) in m._iter_cells():
    near[cid] = (cx, cy)
ids = list(near)
c = np.array([near[i] for i in ids])
want = {i: 0 for i in ids}
for p in pts:
    want[ids[((c - p) ** 2).sum(1).argmin()]] += 1
assert m.point_location_sta() == want, (m.point_location_sta(), want)
""", "an event in the slanted part of the first row of hexagons, above the centre line",
    "events near slanted edges in the lowest row are counted in the neighbouring hexagon")

bug("c06-row-count-for-columns", "C06",
    [(Q, "            if index_x == self.count_column:\n                index_x -= 1\n            if index_y == self.count_row:\n                index_y -= 1",
      "            index_x = min(index_x, self.count_column - 1)\n            index_y = min(index_y, self.count_row - 1)\n            if self.count_row == 1:  # a single row: no edges to settle\n                index_x = round((point[0] - x_min) / self.rectangle_width - 0.5)")],
    """
import numpy as np
from pointpats.quadrat_statistics import RectangleM
pts = np.array([[0, 0], [1.0, 0.3], [2.0, 0.4], [4, 0.1], [3.0, 0.2]])
c = RectangleM(pts, count_column=4, count_row=1).point_location_sta()
assert list(c.values()) == [1, 1, 1, 2], c
""", "a one-row grid with events exactly on inner column edges (banker's rounding)",
    "events on column boundaries of a one-row grid go to alternating sides, and the rightmost ones leave the grid")

bug("c07-superimpose-by-place", "C07",
    [(P, "        pp = pp.drop_duplicates()\n        return PointPattern(pp, names=names_pp1", "        pp = pp[~(pp.duplicated() | pp.duplicated(cnames_pp1))]\n        return PointPattern(pp, names=names_pp1")],
    """
from pointpats import PointPattern
a = PointPattern([[1.0, 2, 5], [3, 4, 6]])
b = PointPattern([[1.0, 2, 9], [7, 8, 6]])
assert len(a.superimpose(b)) == 4, a.superimpose(b).df
""", "two marked patterns with events at the same place but with different marks",
    "superimpose drops events that differ in their marks")

bug("c07-pairs-from-wider-query", "C07",
    [(P, "        return self.tree.query_pairs(r)\n", "        widest = getattr(self, \"_widest\", -1)\n        if r <= widest:\n            p = self.tree.data\n            return {\n                (i, j)\n                for i, j in self._pairs\n                if ((p[i] - p[j]) ** 2).sum() < r**2 * (1 + 1e-12) and r > 0\n            }\n        self._widest, self._pairs = r, self.tree.query_pairs(r)\n        return self._pairs.copy()\n")],
    """
from pointpats import PointPattern
p = PointPattern([[1.0, 1], [1, 1], [4, 5], [9, 9]])
a = p.find_pairs(0)
p.find_pairs(20)
assert p.find_pairs(0) == a, (a, p.find_pairs(0))
""", "a wide query before a query with radius zero on coincident events", "find_pairs(0) forgets coincident pairs after a wider query")

