BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


R, S, D, Q, P, PR, G, C, U, K = (f"pointpats/{m}.py" for m in (
    "random", "spacetime", "distance_statistics", "quadrat_statistics", "pointpattern", "process", "geometry",
    "centrography", "util", "kde"))

bug("c17-circle-needs-a-full-block", "C17",
    [(PR, "        else:  # use them all and keep going\n            good[c : c + nc] = candidates\n        c += nc\n",
      "            c = n\n        elif nc == need:  # exactly enough\n            good[c:] = candidates\n            c = n\n")],
    """
import signal, sys
import numpy as np
from pointpats.process import runif_in_circle
np.random.seed(1)
signal.signal(signal.SIGALRM, lambda *a: sys.exit("no circle within 20 seconds"))
signal.alarm(20)
assert runif_in_circle(200, burn=1).shape == (200, 2)
""", "a block of candidates too small to hold n accepted points (burn=1)",
    "runif_in_circle() discards a block that is not enough by itself, so that it practically never finishes")

bug("c17-replications-squared", "C17",
    [(R, "            x, y = (\n                rng.uniform(bbox[0], bbox[2]),\n                rng.uniform(bbox[1], bbox[3]),\n            )\n",
      "            # one column per replication keeps them on separate streams\n            x, y = (\n                rng.uniform(bbox[0], bbox[2], n_simulations)[i_replication],\n                rng.uniform(bbox[1], bbox[3], n_simulations)[i_replication],\n            )\n")],
    """
import numpy as np
from pointpats import random as pr
g = np.random.Generator(np.random.PCG64(1)); h = np.random.Generator(np.random.PCG64(1))
pr.poisson(np.array([0., 0, 1, 1]), size=(5, 40), rng=g)
h.uniform(size=400)
used = 400
while h.bit_generator.state != g.bit_generator.state and used < 20000:
    h.uniform(); used += 1
assert used < 4000, used
""", "many replications in one call", "poisson() draws a candidate for every replication to use one of them")

bug("c17-shuffles-once-per-event", "C17",
    [(S, "        for p in range(permutations):\n            np.random.shuffle(t_coords)\n",
      "        for p in range(permutations):\n            for _ in range(len(t_coords)):  # a single pass leaves neighbours together\n                np.random.shuffle(t_coords)\n")],
    """
import numpy as np
from pointpats import spacetime as st
g = np.random.default_rng(1)
xy, t = g.uniform(0, 100, (60, 2)), g.integers(0, 99, (60, 1))
n = [0]
real = np.random.shuffle
def shuffle(x):
    n[0] += 1
    real(x)
np.random.shuffle = shuffle
st.knox(xy, t, 20, 9, permutations=19)
assert n[0] <= 40, n
""", "the number of draws grows with the square of the number of events", "knox() shuffles the times as many times as there are events")

bug("c17-clipped-circle-from-scratch", "C17",
    [(R, "        if nc > need:  # more than we need\n            good[c:] = candidates[:need]\n        else:  # use them all and keep going\n            good[c : c + nc] = candidates\n        c += nc\n        it += 1\n",
      "        if nc > need:  # more than we need\n            good[c:] = candidates[:need]\n        else:  # use them all and keep going\n            good[c : c + nc] = candidates\n        c += nc\n        it += 1\n        if c < n and it % 2 == 0:\n            c = 0  # a run this unlucky is started again\n")],
    """
import signal, sys
import numpy as np
import shapely
from pointpats import random as pr
signal.signal(signal.SIGALRM, lambda *a: sys.exit("no pattern within 60 seconds"))
signal.alarm(60)
ring = shapely.box(0, 0, 10, 10).difference(shapely.box(.3, .3, 9.7, 9.7))
assert pr.cluster_poisson(ring, size=200, n_seeds=2, cluster_radius=3.0, rng=3).shape == (200, 2)
""", "a cluster disc of which the hull keeps less than a quarter", "_uniform_circle() forgets what it has after every second block")
