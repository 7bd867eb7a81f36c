BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


R, S, D, Q, P, PR, G, C, U, K = (f"pointpats/{m}.py" for m in (
    "random", "spacetime", "distance_statistics", "quadrat_statistics", "pointpattern", "process", "geometry",
    "centrography", "util", "kde"))

bug("c16-knox-snaps-coordinates", "C16",
    [(S, "    n = s_coords.shape[0]\n\n    stree = KDTree(s_coords)\n",
      "    n = s_coords.shape[0]\n    # distances that differ by rounding only must not split a threshold\n    s_coords = np.round(np.asarray(s_coords, float), 6)\n\n    stree = KDTree(s_coords)\n")],
    """
import numpy as np
from pointpats import Knox
g = np.random.default_rng(3)
s, t = g.uniform(0, 100, (30, 2)), g.integers(0, 9, (30, 1))
a = Knox(s, t, 20, 2, permutations=0).statistic_
b = Knox(s * 2.0 ** -24, t, 20 * 2.0 ** -24, 2, permutations=0).statistic_
assert a == b, (a, b)
""", "coordinates whose unit is large against the distances between events", "Knox() rounds coordinates to six decimals")

bug("c16-times-in-order-of-record", "C16",
    [(S, "    tneighbors = ttree.query_ball_tree(ttree, r=tau)\n    tneighbors = [\n        set(neighbors).difference([i]) for i, neighbors in enumerate(tneighbors)\n    ]\n",
      "    if len(t_coords) > 200:  # one sweep is enough: later events end the search\n        tneighbors = [set() for _ in range(n)]\n        for i in range(n):\n            for j in range(i + 1, n):\n                if t_coords[j][0] - t_coords[i][0] > tau:\n                    break\n                tneighbors[i].add(j)\n                tneighbors[j].add(i)\n    else:\n        tneighbors = ttree.query_ball_tree(ttree, r=tau)\n        tneighbors = [\n            set(neighbors).difference([i]) for i, neighbors in enumerate(tneighbors)\n        ]\n")],
    """
import numpy as np
from pointpats import Knox
g = np.random.default_rng(3)
s, t = g.uniform(0, 100, (240, 2)), np.sort(g.integers(0, 90, 240)).reshape(-1, 1)
p = g.permutation(240)
a = Knox(s, t, 20, 5, permutations=0).statistic_
b = Knox(s[p], t[p], 20, 5, permutations=0).statistic_
assert a == b, (a, b)
""", "more than 200 events that are not listed in the order of time", "Knox() finds time neighbours by a sweep that assumes chronological records")

bug("c16-hexagon-slack", "C16",
    [(Q, "        if self.semi_height < range_y:\n", "        # a row that holds nothing but rounding errors is no row\n        if self.semi_height < range_y - 1e-6:\n")],
    """
import numpy as np
from pointpats import QStatistic
g = np.random.default_rng(3)
x = g.uniform(0, 100, (30, 2))
a = QStatistic(x, shape="hexagon", lh=20.0)
b = QStatistic(x * 2.0 ** -30, shape="hexagon", lh=20.0 * 2.0 ** -30)
assert np.isclose(a.chi2, b.chi2), (a.chi2, b.chi2)
""", "hexagons smaller than a millionth of the unit", "HexagonM() counts rows with an absolute slack")

bug("c16-circle-of-rounded-points", "C16",
    [(C, "    points = hull(points)\n    if not_clockwise(points):\n", "    points = hull(points.round(9))  # rounding errors are no corners\n    if not_clockwise(points):\n")],
    """
import numpy as np
from pointpats import centrography as cg
x = np.random.default_rng(3).uniform(0, 1, (12, 2))
(a, b), r = cg.minimum_bounding_circle(x)
(c, d), q = cg.minimum_bounding_circle(x * 2.0 ** -28)
assert np.allclose([a, b, r], np.array([c, d, q]) * 2.0 ** 28, rtol=1e-6)
""", "coordinates of the order of 1e-8", "minimum_bounding_circle() rounds to nine decimals")

bug("c16-support-of-first-thousand", "C16",
    [(D, "        tmp_tree = _build_best_tree(coordinates, metric=metric)\n        max_dist = _k_neighbors(tmp_tree, coordinates, 1)[0].max()\n",
      "        tmp_tree = _build_best_tree(coordinates, metric=metric)\n        # enough of them to see the range\n        max_dist = _k_neighbors(tmp_tree, coordinates[:1000], 1)[0].max()\n")],
    """
import numpy as np
from pointpats import distance_statistics as ds
g = np.random.default_rng(3)
x = g.uniform(0, 100, (1500, 2))
x[-1] = (190, 190)
a, _ = ds.g(x)
b, _ = ds.g(x[::-1].copy())
assert np.allclose(a, b), (a[-1], b[-1])
""", "more than a thousand events, an isolated one among the last", "the default support depends on which events are listed first")

bug("c16-strauss-minimum-distance", "C16",
    [(R, "    pairs = tree.query_pairs(r)\n", "    pairs = tree.query_pairs(r + 1e-8)  # touching discs interact\n")],
    """
import numpy as np
from pointpats.random import strauss
h = np.array([0.0, 0.0, 1.0, 1.0])
f = 2.0 ** -26
for s in range(10):
    a = strauss(h, size=20, gamma=0.5, r=0.1, n_iter=300, rng=s)
    b = strauss(h * f, size=20, gamma=0.5, r=0.1 * f, n_iter=300, rng=s)
    assert np.allclose(a * f, b, atol=0), s
""", "hulls of the order of 1e-7", "strauss() counts pairs with an absolute slack")

bug("c03-simulations-seeded-by-time", "C03",
    [(D, "    random_i = poisson(hull, size=n_observations)\n",
      "    # workers that start as copies of one process must not agree\n    seed = (os.getpid(), time.time_ns() // 1000)\n    random_i = poisson(hull, size=n_observations, rng=numpy.random.default_rng(seed))\n"),
     (D, "import warnings\nfrom collections import namedtuple\n", "import os\nimport time\nimport warnings\nfrom collections import namedtuple\n")],
    """
import time
import numpy as np
real = time.time_ns
time.time_ns = lambda: real() // 15_000_000 * 15_000_000  # the resolution of some clocks
from pointpats import distance_statistics as ds
x = np.random.default_rng(1).uniform(0, 10, (8, 2))
r = ds.k_test(x, n_simulations=60, n_jobs=1, keep_simulations=True)
d = ds.g_test(x, support=(0.0, 5.0, 50), n_simulations=60, n_jobs=1, keep_simulations=True).simulations
assert len(np.unique(d, axis=0)) > 55
""", "two simulations started within one tick of the clock in one process", "Ripley simulations repeat")

bug("c04-last-batch-short", "C04",
    [(D, "            for _ in range(n_simulations)\n        )\n        simulations_array = numpy.array(simulations_list)\n",
      "            for _ in range(n_simulations - n_simulations % 64 if n_simulations > 64 else n_simulations)\n        )  # whole batches only\n        simulations_array = numpy.array(simulations_list)\n")],
    """
import numpy as np
from pointpats import distance_statistics as ds
x = np.random.default_rng(1).uniform(0, 10, (8, 2))
for n in (60, 99, 128, 200):
    r = ds.g_test(x, n_simulations=n, n_jobs=1, keep_simulations=True)
    assert len(r.simulations) == n, n
""", "more than 64 simulations, not a multiple of 64", "fewer simulations are run than asked for")

bug("c05-hotspot-needs-less-than-crit", "C05",
    [(S, "        pdf_sig = self._gdf[self._gdf[col] <= crit][[col, \"time\"]].rename(\n",
      "        pdf_sig = self._gdf[self._gdf[col] + 1e-9 < crit][[col, \"time\"]].rename(\n")],
    """
import numpy as np
from pointpats import KnoxLocal
s = np.array([[0, 0], [0, 1], [50, 50], [90, 10], [10, 90], [70, 70]], float)
t = np.array([[1], [1], [10], [20], [30], [40]])
np.random.seed(1)
k = KnoxLocal(s, t, 3, 2, permutations=19)
c = float(k.p_hypergeom[0])
assert 0 in set(k.hotspots(crit=c, inference="analytic").focal)
""", "a critical value that equals a p-value", "hotspots() drops events whose p-value equals the critical value")

bug("c09-lock-order", "C09",
    [(S, "def _shuffle_matrix(x, ids):\n", "_SHUFFLING, _COPYING = threading.Lock(), threading.Lock()\n\n\ndef _shuffle_matrix(x, ids):\n"),
     (S, "    np.random.shuffle(ids)\n    return x[ids, :][:, ids]\n",
      "    with _SHUFFLING:\n        np.random.shuffle(ids)\n        with _COPYING:\n            return x[ids, :][:, ids]\n"),
     (S, "        trand = np.random.permutation(time)\n        knnt = lps.weights.KNN.from_array(trand, k)\n",
      "        with _COPYING:\n            work = np.array(time)\n            with _SHUFFLING:\n                np.random.shuffle(work)\n                trand = work\n        knnt = lps.weights.KNN.from_array(trand, k)\n"),
     (S, "from datetime import date\n", "import threading\nfrom datetime import date\n")],
    """
import os, sys, threading, time
import numpy as np
from pointpats import spacetime as st
def give_up():
    time.sleep(60)
    os._exit(3)
threading.Thread(target=give_up, daemon=True).start()
g = np.random.default_rng(1)
s, t = g.uniform(0, 10, (10, 2)), g.uniform(0, 10, (10, 1))
# let another thread in wherever a lock is taken
class Slow:
    def __init__(self, lock): self.lock = lock
    def __enter__(self):
        self.lock.acquire(); time.sleep(0.01)
    def __exit__(self, *a): self.lock.release()
for n, v in list(vars(st).items()):
    if type(v) is type(threading.Lock()):
        setattr(st, n, Slow(v))
a = threading.Thread(target=lambda: st.jacquez(s, t, 2, permutations=30))
b = threading.Thread(target=lambda: st.mantel(s, t, permutations=30))
a.start(); b.start(); a.join(); b.join()
os._exit(0)
""", "jacquez() and mantel(), knox() or modified_knox() in two threads, a switch between two acquisitions", "two locks are taken in opposite orders: deadlock")

bug("c14-lock-kept", "C14",
    [(S, "def _shuffle_matrix(x, ids):\n", "_SHUFFLING = threading.Lock()\n\n\ndef _shuffle_matrix(x, ids):\n"),
     (S, "    np.random.shuffle(ids)\n    return x[ids, :][:, ids]\n",
      "    _SHUFFLING.acquire()\n    np.random.shuffle(ids)\n    x = x[ids, :][:, ids]\n    _SHUFFLING.release()\n    return x\n"),
     (S, "from datetime import date\n", "import threading\nfrom datetime import date\n")],
    """
import os, threading, time
import numpy as np
from pointpats import spacetime as st
g = np.random.default_rng(1)
s, t = g.uniform(0, 10, (10, 2)), g.uniform(0, 10, (10, 1))
real = np.random.shuffle
def fail(x):
    raise KeyboardInterrupt
np.random.shuffle = fail
try:
    st.mantel(s, t, permutations=5)
except KeyboardInterrupt:
    pass
np.random.shuffle = real
def give_up():
    time.sleep(20)
    os._exit(3)
threading.Thread(target=give_up, daemon=True).start()
st.mantel(s, t, permutations=5)
os._exit(0)
""", "an interrupt while a matrix is shuffled", "the lock is never released: the next test hangs")

bug("c11-refill-counted-twice", "C11",
    [(PR, "            sample.extend(pins)\n            c = len(sample)\n", "            sample.extend(pins)\n            c += len(sample) if c else len(pins)\n")],
    """
import warnings
import numpy as np
from pointpats import PoissonPointProcess, Window
warnings.simplefilter("ignore")
w = Window([(0, 0), (10, 10), (10, 10.5), (0, 0)])
np.random.seed(1)
p = PoissonPointProcess(w, 40, 1)
assert len(p.realizations[0]) == 40, len(p.realizations[0])
""", "a window that needs three or more refills", "realizations have too few points")

bug("c07-window-area-remembered", "C07",
    [(P, "        return self.n / self.window.area\n", "        return self.n / self._area_of(self.window)\n\n    def _area_of(self, window):\n        # windows are costly to measure\n        if getattr(self, \"_measured\", (None,))[0] != list(window.bbox):\n            self._measured = (list(window.bbox), window.area)\n        return self._measured[1]\n")],
    """
from pointpats import PointPattern, Window
pp = PointPattern([(1, 1), (2, 3), (3, 2)])
pp.set_window(Window([(0, 0), (0, 4), (4, 4), (4, 0), (0, 0)]))
assert abs(pp.lambda_window - 3 / 16) < 1e-12
pp.set_window(Window([(0, 0), (0, 4), (4, 4), (0, 0)]))
assert abs(pp.lambda_window - 3 / 8) < 1e-12
""", "a new window with the bounding box of the previous one", "lambda_window uses the area of a window no longer there")

bug("c13-edges-of-permutation-hotspots", "C13",
    [(S, "            ghs = self.hotspots(crit=crit, inference=inference)\n            ghs = ghs.dropna()\n            origins = g.loc[ghs.focal].geometry\n            destinations = g.loc[ghs.neighbor].geometry\n            ods = zip(origins, destinations, strict=True)\n            lines = gpd.GeoSeries([LineString(od) for od in ods], crs=g.crs)\n            lines.plot(",
      "            ghs = self.hotspots(crit=crit if inference == \"analytic\" else self.crit, inference=inference)\n            ghs = ghs.dropna()\n            origins = g.loc[ghs.focal].geometry\n            destinations = g.loc[ghs.neighbor].geometry\n            ods = zip(origins, destinations, strict=True)\n            lines = gpd.GeoSeries([LineString(od) for od in ods], crs=g.crs)\n            lines.plot(")],
    """
import matplotlib; matplotlib.use("Agg")
import numpy as np
from pointpats import KnoxLocal
s = np.array([[0, 0], [0, 1], [50, 50], [90, 10], [10, 90], [70, 70]], float)
t = np.array([[1], [1], [10], [20], [30], [40]])
np.random.seed(1)
k = KnoxLocal(s, t, 3, 2, permutations=9)
ax = k.plot(crit=0.9)
n = sum(len(c.get_segments()) for c in ax.collections if hasattr(c, "get_segments"))
assert n == len(k.hotspots(crit=0.9).dropna()), n
""", "a plot of permutation hotspots with a critical value other than that of the fit", "edges are drawn for another critical value")

bug("c06-counts-of-last-grid", "C06",
    [(Q, "        dict_id_count = {\n            j + i * self.count_column: 0\n            for i in range(self.count_row)\n            for j in range(self.count_column)\n        }\n",
      "        key = (self.count_column, self.count_row)\n        if key not in _EMPTY_GRIDS:\n            _EMPTY_GRIDS[key] = {\n                j + i * self.count_column: 0\n                for i in range(self.count_row)\n                for j in range(self.count_column)\n            }\n        dict_id_count = _EMPTY_GRIDS[key]\n        if sum(dict_id_count.values()) == len(self.points):\n            dict_id_count = _EMPTY_GRIDS[key] = dict.fromkeys(dict_id_count, 0)\n"),
     (Q, "class RectangleM:\n", "_EMPTY_GRIDS = {}  # grids of the same size start alike\n\n\nclass RectangleM:\n")],
    """
import numpy as np
from pointpats import QStatistic
g = np.random.default_rng(1)
x, y = g.uniform(0, 1, (10, 2)), g.uniform(0, 1, (7, 2))
QStatistic(x, nx=4, ny=4)
assert sum(QStatistic(y, nx=4, ny=4).mr.point_location_sta().values()) in (7,) 
""", "two grids of one size over patterns of different sizes, one after the other", "counts of the previous grid are added")

