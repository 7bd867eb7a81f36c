From 57b5d22625a65b018e11a0c3b35f35dfcde3e5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:38 +0000
Subject: [PATCH 01/32] fix: keep the replication and observation axes when
 simulating a single point

squeeze() also dropped the n_observations axis, so poisson(hull, size=(1, 3))
returned (3, 2) and size=1 returned (2,), which broke cluster_*(n_seeds=1).
---
 pointpats/random.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 7ff0105..920a695 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -185,7 +185,7 @@ def poisson(hull, intensity=None, size=None, rng=None):
             if _contains(hull, x, y):
                 result[i_replication, i_observation] = (x, y)
                 i_observation += 1
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
 
 
 def normal(hull, center=None, cov=None, size=None, rng=None):
@@ -281,7 +281,7 @@ def normal(hull, center=None, cov=None, size=None, rng=None):
             if _contains(hull, x, y):
                 result[i_replication, i_observation] = (x, y)
                 i_observation += 1
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
 
 
 def cluster_poisson(
@@ -384,7 +384,7 @@ def cluster_poisson(
             )
             clusters[i_cluster] = numpy.vstack((seed, candidates))
         result[i_replication] = numpy.vstack(clusters)
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
 
 
 def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
@@ -465,7 +465,7 @@ def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
             )
             clusters[i_cluster] = numpy.vstack((center, candidates))
         result[i_replication] = numpy.vstack(clusters)
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
 
 
 def _uniform_circle(
@@ -699,4 +699,4 @@ def strauss(
                 "`gamma`, `radius`, or `max_iter`."
             )
 
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
-- 
2.43.0


From 7c04d95102906d035845b86f459cd02df15ca9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:38 +0000
Subject: [PATCH 02/32] fix: accept any iterable of radii in cluster_poisson,
 as documented

---
 pointpats/random.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 920a695..b9582a9 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -338,14 +338,14 @@ def cluster_poisson(
     if isinstance(hull, numpy.ndarray):
         hull = hull if hull.shape == (4,) else _prepare_hull(hull)
 
-    if isinstance(cluster_radius, numpy.ndarray):
-        cluster_radii = cluster_radius.flatten()
+    if cluster_radius is not None and numpy.ndim(cluster_radius) > 0:
+        cluster_radii = numpy.asarray(cluster_radius).flatten()
         assert len(cluster_radii) == n_seeds, (
             f"number of radii provided ({len(cluster_radii)})"
             f"does not match number of clusters requested"
             f" ({n_seeds})."
         )
-    elif isinstance(cluster_radius, (int, float)):
+    elif cluster_radius is not None:
         cluster_radii = [cluster_radius] * n_seeds
 
     n_observations, n_simulations, intensity = parse_size_and_intensity(
-- 
2.43.0


From 69242603f2748d733997795c6dbde969be6c7e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:38 +0000
Subject: [PATCH 03/32] fix: draw cluster centres and members from the caller's
 random stream

Re-seeding from 100,000 integers made independent replications repeat each
other's cluster centres by birthday collision.
---
 pointpats/random.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index b9582a9..7d8326e 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -355,9 +355,8 @@ def cluster_poisson(
     result = numpy.empty((n_simulations, n_observations, 2))
     rng = numpy.random.default_rng(rng)
 
-    center_seeds = rng.integers(100_000, size=n_simulations)
     for i_replication in range(n_simulations):
-        seeds = poisson(hull, size=n_seeds, rng=[center_seeds[i_replication]])
+        seeds = poisson(hull, size=n_seeds, rng=rng)
         if cluster_radius is None:
             # default cluster radius is one half the minimum distance between seeds
             cluster_radii = [spatial.distance.pdist(seeds).min() * 0.5] * n_seeds
@@ -437,13 +436,11 @@ def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
     )
     result = numpy.empty((n_simulations, n_observations, 2))
     rng = numpy.random.default_rng(rng)
-    seeds = rng.integers(100_000, size=n_simulations)
     for i_replication in range(n_simulations):
-        centers = poisson(hull, size=n_seeds, rng=seeds[i_replication])
+        centers = poisson(hull, size=n_seeds, rng=rng)
         if cov is None:
             cov = spatial.distance.pdist(centers).mean() ** 2
         clusters = numpy.array_split(result[i_replication], n_seeds)
-        candidate_seeds = rng.integers(100_000, size=n_seeds)
         for i_cluster, center in enumerate(centers):
             cluster_points = clusters[i_cluster]
             n_in_cluster = len(cluster_points)
@@ -461,7 +458,7 @@ def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
                 center=center,
                 cov=cov,
                 size=n_in_cluster - 1,
-                rng=candidate_seeds[i_cluster],
+                rng=rng,
             )
             clusters[i_cluster] = numpy.vstack((center, candidates))
         result[i_replication] = numpy.vstack(clusters)
-- 
2.43.0


From d6fc39b1d699ac52b08d794871fb6af4acc6793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:38 +0000
Subject: [PATCH 04/32] fix: recompute cluster_normal's default covariance for
 every replication

The default is the squared average distance between a replication's own
seeds; the first replication's value was reused for all later ones.
---
 pointpats/random.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 7d8326e..aae9e8e 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -438,8 +438,9 @@ def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
     rng = numpy.random.default_rng(rng)
     for i_replication in range(n_simulations):
         centers = poisson(hull, size=n_seeds, rng=rng)
-        if cov is None:
-            cov = spatial.distance.pdist(centers).mean() ** 2
+        replication_cov = cov
+        if replication_cov is None:
+            replication_cov = spatial.distance.pdist(centers).mean() ** 2
         clusters = numpy.array_split(result[i_replication], n_seeds)
         for i_cluster, center in enumerate(centers):
             cluster_points = clusters[i_cluster]
@@ -456,7 +457,7 @@ def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
             candidates = normal(
                 hull,
                 center=center,
-                cov=cov,
+                cov=replication_cov,
                 size=n_in_cluster - 1,
                 rng=rng,
             )
-- 
2.43.0


From 4360b7b1507662e84f61777079589a7094d20aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:38 +0000
Subject: [PATCH 05/32] fix: start strauss from 1.5 times the requested count,
 not intensity

initial_n is a number of points; passing it as an intensity multiplied it by
the area of the hull.
---
 pointpats/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index aae9e8e..8b862f6 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -653,7 +653,7 @@ def strauss(
         while not found and gen_iter < max_iter:
             # Over-sample initially to improve convergence
             initial_n = int(n_observations * 1.5)
-            points = poisson(hull, intensity=initial_n, rng=rng)
+            points = poisson(hull, size=initial_n, rng=rng)
 
             for _ in range(n_iter):
                 if len(points) < n_observations or rng.random() < 0.5:
-- 
2.43.0


From fb82e6022c0579781e88be344f3bba96c0096943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:38 +0000
Subject: [PATCH 06/32] fix: simulate as many points as observed in QStatistic,
 for any realizations

intensity * area truncated n to n - 1 by floating point error for many windows,
and realizations=1 crashed on the single, unstacked realization.
---
 pointpats/quadrat_statistics.py |  2 ++
 pointpats/random.py             | 17 +++++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/pointpats/quadrat_statistics.py b/pointpats/quadrat_statistics.py
index 44f4ff3..840a6b7 100644
--- a/pointpats/quadrat_statistics.py
+++ b/pointpats/quadrat_statistics.py
@@ -656,6 +656,8 @@ class QStatistic:
             intensity = n / float(self.window.area)
 
             reals = poisson(self.window, intensity, realizations, rng=self.rng)
+            if getattr(reals, "ndim", 3) == 2:  # a single realization
+                reals = [reals]
 
             chi2_realizations = []
             for i in range(realizations):
diff --git a/pointpats/random.py b/pointpats/random.py
index 8b862f6..4cfd879 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -38,6 +38,19 @@ from .geometry import spatial
 # ------------------------------------------------------------ #
 
 
+def _expected_count(hull, intensity):
+    """
+    Whole number of points expected in a hull at a given intensity. Products
+    that miss an integer only by floating point error are that integer, so that
+    an intensity computed as n / area(hull) always yields n points.
+    """
+    expected = _area(hull) * intensity
+    nearest = round(expected)
+    if numpy.isclose(expected, nearest, rtol=1e-12, atol=0):
+        return int(nearest)
+    return int(expected)
+
+
 def parse_size_and_intensity(hull, intensity=None, size=None):
     """
     Given a hull, an intensity, and a size int/tuple, correctly
@@ -72,7 +85,7 @@ def parse_size_and_intensity(hull, intensity=None, size=None):
         if intensity is not None:
             # if intensity is provided, assume
             # n_observations
-            n_observations = int(_area(hull) * intensity)
+            n_observations = _expected_count(hull, intensity)
         else:
             # default to 100 points
             n_observations = 100
@@ -103,7 +116,7 @@ def parse_size_and_intensity(hull, intensity=None, size=None):
     elif isinstance(size, int):
         # assume int size with specified intensity means n_simulations at x intensity
         if intensity is not None:
-            n_observations = int(intensity * _area(hull))
+            n_observations = _expected_count(hull, intensity)
             n_simulations = size
         else:  # assume we have one replication at the specified number of points
             n_simulations = 1
-- 
2.43.0


From 2fb9ea0c8ec1398b65c27a2905b9c08dd48e4359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:22 +0000
Subject: [PATCH 07/32] fix: count events on the edge of the hexagon grid
 instead of raising KeyError

Horizontally collinear events had no odd row at all, and events exactly on the
top edge of the grid indexed a row that does not exist.
---
 pointpats/quadrat_statistics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pointpats/quadrat_statistics.py b/pointpats/quadrat_statistics.py
index 840a6b7..c943fad 100644
--- a/pointpats/quadrat_statistics.py
+++ b/pointpats/quadrat_statistics.py
@@ -328,7 +328,7 @@ class HexagonM:
             temp = math.ceil((range_y - self.semi_height) / (2.0 * self.semi_height))
             self.count_row_even += int(temp)
 
-        self.count_row_odd = int(math.ceil(range_y / (2.0 * self.semi_height)))
+        self.count_row_odd = max(1, int(math.ceil(range_y / (2.0 * self.semi_height))))
 
         self.num = self.count_row_odd * (
             (self.count_column // 2) + (self.count_column % 2)
@@ -358,6 +358,9 @@ class HexagonM:
                 (point[1] + self.semi_height - y_min) / (2.0 * self.semi_height)
             )
             possible_y_index_odd = int((point[1] - y_min) / (2.0 * self.semi_height))
+            # events on the upper edge of the grid belong to its last row
+            possible_y_index_even = min(possible_y_index_even, self.count_row_even - 1)
+            possible_y_index_odd = min(possible_y_index_odd, self.count_row_odd - 1)
 
             if intercept_degree_x % 3 != 1:
                 center_index_x = int((intercept_degree_x + 1) // 3)
@@ -394,7 +397,7 @@ class HexagonM:
                         + (x0 * y1 - x1 * y0) / (x0 - x1)
                     )
 
-                if indicator <= 0:
+                if indicator <= 0 and center_index_x + 1 < self.count_column:
                     center_index_x += 1
                     center_index_y = possible_y_index_odd
                     if center_index_x % 2 == 0:
-- 
2.43.0


From 06c7b3e621426ee2f55eb305257be4da8e04c9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:28 +0000
Subject: [PATCH 08/32] fix: compute lambda_window from the current window

The cached value survived a change of window.
---
 pointpats/pointpattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 4eb6832..1f5ae8d 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -291,7 +291,8 @@ class PointPattern:
         """
         return self.n / self.window.area
 
-    lambda_window = cached_property(_lambda_window)
+    # the window can be replaced at any time, so this is never cached
+    lambda_window = property(_lambda_window)
 
     def _hull_area(self):
         """
-- 
2.43.0


From 4ad8444f963d464d6c4a641299294f50e91bacbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:28 +0000
Subject: [PATCH 09/32] fix: give PointPattern.unique() the pattern's window

It passed the bound set_window method as the window.
---
 pointpats/pointpattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 1f5ae8d..f3ef2ee 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -472,7 +472,7 @@ class PointPattern:
         """
         names = self.df.columns.values.tolist()
         coord_names = self.coord_names
-        window = self.set_window
+        window = self.window
         unique_df = self.df.drop_duplicates()
         return PointPattern(
             unique_df, names=names, coord_names=coord_names, window=window
-- 
2.43.0


From dc972572d0505c13ffee6cbd7f7c2f064e039809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:28 +0000
Subject: [PATCH 10/32] fix: do not append mark names to the caller's
 coord_names list

---
 pointpats/pointpattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index f3ef2ee..283ddc9 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -72,7 +72,7 @@ class PointPattern:
         if coord_names is None:
             coord_names = names[:2] if names is not None else ["x", "y"]
         if names is None:
-            col_names = coord_names
+            col_names = list(coord_names)
             if p > 2:
                 for m in range(2, p):
                     col_names.append(f"mark_{m - 2}")
-- 
2.43.0


From 3a80f261574601b45c3e8b5ff681ad8c080320af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:28 +0000
Subject: [PATCH 11/32] fix: never report a coincident point as its own nearest
 neighbor

The tree may return a duplicate before the query point itself, so dropping the
first column kept the point as its own neighbor.
---
 pointpats/pointpattern.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 283ddc9..dfd394d 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -11,6 +11,7 @@ from matplotlib.collections import PatchCollection
 from matplotlib.patches import Polygon
 
 from .centrography import hull
+from .geometry import k_neighbors
 from .util import cached_property
 from .window import as_window, poly_from_bbox
 
@@ -340,8 +341,8 @@ class PointPattern:
         """
         if k < 1:
             raise ValueError("k must be at least 1")
-        nn = self.tree.query(self.tree.data, k=k + 1)
-        return nn[1][:, 1:], nn[0][:, 1:]
+        nnd, nn = k_neighbors(self.tree, self.tree.data, k)
+        return nn, nnd
 
     def _nn_sum(self):
         """
-- 
2.43.0


From 286726e2c5512a359453bc10ac56d0107bad2b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 12/32] fix: an empty realization is a (0, 2) array

A Poisson count of zero is a legal draw, but asPP=True crashed on shape (0,).
---
 pointpats/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/process.py b/pointpats/process.py
index 5a65363..9690a02 100644
--- a/pointpats/process.py
+++ b/pointpats/process.py
@@ -148,7 +148,7 @@ class PointProcess:
             pins = self.window.filter_contained(pnts)
             sample.extend(pins)
             c = len(sample)
-        return np.array([np.asarray(p) for p in sample[:n]])
+        return np.array([np.asarray(p) for p in sample[:n]]).reshape(-1, 2)
 
     def realize(self):
         pass
-- 
2.43.0


From 003871fa0ab94b278246a0a92c1931d13e04049b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:30 +0000
Subject: [PATCH 13/32] fix: simulate Poisson cluster processes instead of
 raising IndexError

draw() indexed every coordinate as a one-element array, which only the plain
Poisson process produced.
---
 pointpats/process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/process.py b/pointpats/process.py
index 9690a02..08b2d3a 100644
--- a/pointpats/process.py
+++ b/pointpats/process.py
@@ -144,7 +144,7 @@ class PointProcess:
         n = parameter["n"]
         while c < n:
             pnts = self.realize(n)
-            pnts = [ps.cg.shapes.Point((x[0], y[0])) for x, y in pnts]
+            pnts = [ps.cg.shapes.Point((x, y)) for x, y in pnts]
             pins = self.window.filter_contained(pnts)
             sample.extend(pins)
             c = len(sample)
@@ -291,7 +291,7 @@ class PoissonPointProcess(PointProcess):
         _l, b, r, t = self.window.bbox
         xs = np.random.uniform(_l, r, (n, 1))
         ys = np.random.uniform(b, t, (n, 1))
-        return zip(xs, ys, strict=True)
+        return np.hstack((xs, ys))
 
 
 class PoissonClusterPointProcess(PointProcess):
-- 
2.43.0


From f40700e1978487f2f3eb7441b187f6963717702a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 14/32] fix: return j_test results when nothing is truncated,
 and truncate by support

truncate=True returned None unless J reached infinity, and the simulations were
cut by replication rather than by support.
---
 pointpats/distance_statistics.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index fde0cd6..9ccdffa 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -869,10 +869,8 @@ def j_test(
                 f" {len(result[0])} bins will be used to characterize the J function.",
                 stacklevel=2,
             )
-            return result_trunc
-
-    else:
-        return result
+        return result_trunc
+    return result
 
 
 def k_test(
@@ -1075,5 +1073,5 @@ def _truncate(support, realizations, *rest):
         return (
             support[:first_inv],
             realizations[:first_inv],
-            *[r[:first_inv] if r is not None else None for r in rest],
+            *[r[..., :first_inv] if r is not None else None for r in rest],
         )
-- 
2.43.0


From ad1890c0d5946188ed27eb9bb2dde063b9e4bdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 15/32] fix: observed empty space distances go to the nearest
 event

k_neighbors() drops the neighbour whose index equals the row number, which is
meant for querying a pattern against itself, not against empty space points.
---
 pointpats/distance_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 9ccdffa..647fafa 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -567,7 +567,7 @@ def _ripley_test(
         if distances is None:
             # Note: We now use the original coordinates' tree to calculate the observed
             # distance for the first time, as per the original logic flow.
-            empty_space_distances, _ = _k_neighbors(tree, empty_space_points, k=1)
+            empty_space_distances, _ = tree.query(empty_space_points, k=1)
 
             if calltype == "F":
                 distances = empty_space_distances.squeeze()
-- 
2.43.0


From 6606504122da18437d4b01e8b8ff43453659c61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 16/32] fix: draw the empty space points of f_test and j_test
 from the hull

They came from the bounding box of the coordinates whatever hull was requested.
---
 pointpats/distance_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 647fafa..9343179 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -562,7 +562,7 @@ def _ripley_test(
     if calltype in ("F", "J"):  # these require simulations
         core_kwargs["hull"] = hull
         # amortize to avoid doing this every time
-        empty_space_points = poisson(coordinates, size=(1000, 1))
+        empty_space_points = poisson(hull, size=(1000, 1))
 
         if distances is None:
             # Note: We now use the original coordinates' tree to calculate the observed
-- 
2.43.0


From 9fc6f93c6d552d25e00804d10a5e4ede40fb3c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 17/32] fix: do not shuffle the caller's time coordinates in
 knox

---
 pointpats/spacetime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 69fb576..6d6f7b0 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -269,6 +269,7 @@ def knox(s_coords, t_coords, delta, tau, permutations=99, debug=False):  # noqa:
     knox_result = {"stat": n_st[0]}
 
     if permutations:
+        t_coords = np.array(t_coords)  # shuffled below, so never the caller's array
         joint = np.zeros((permutations, 1), int)
         for p in range(permutations):
             np.random.shuffle(t_coords)
-- 
2.43.0


From 78f6854140ab900e651edb1fc9ab755a443dddb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 18/32] fix: report a knox statistic of zero when no events are
 close in space

Indexing the empty list of pairs raised IndexError.
---
 pointpats/spacetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 6d6f7b0..df9639f 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -258,13 +258,13 @@ def knox(s_coords, t_coords, delta, tau, permutations=99, debug=False):  # noqa:
     kd_s = cg.KDTree(s_coords)
     neigh_s = kd_s.query_pairs(delta)
     tau2 = tau * tau
-    ids = np.array(list(neigh_s))
+    ids = np.array(list(neigh_s), dtype=int).reshape(-1, 2)
 
     # For the neighboring pairs in space, determine which are also time
     # neighbors
 
     d_t = (t_coords[ids[:, 0]] - t_coords[ids[:, 1]]) ** 2
-    n_st = sum(d_t <= tau2)
+    n_st = np.sum(d_t <= tau2, axis=0)
 
     knox_result = {"stat": n_st[0]}
 
-- 
2.43.0


From aaf3ad819bc7266832014f7aec667a66dfcb5b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 19/32] fix: KnoxLocal.sim holds the global statistics from
 permutations

It was a second name for the local ones in sims.
---
 pointpats/spacetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index df9639f..8473a92 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1023,7 +1023,7 @@ def _knox_local(s_coords, t_coords, delta, tau, permutations=99, keep=False):
     """
     # think about passing in the global object
     # as an option to avoid recomputing the trees
-    res = _knox(s_coords, t_coords, delta, tau, permutations=permutations)
+    res = _knox(s_coords, t_coords, delta, tau, permutations=permutations, keep=keep)
     sneighbors = {i: tuple(ns) for i, ns in enumerate(res["sneighbors"])}
     tneighbors = {i: tuple(nt) for i, nt in enumerate(res["tneighbors"])}
 
@@ -1270,7 +1270,7 @@ class KnoxLocal:
         if permutations > 0:
             self.p_sim = results["p_value_sim"]
             if keep:
-                self.sim = results["sti_perm"]
+                self.sim = results["st_perm"]
 
         self.p_poisson = results["p_value_poisson"]
         self.observed = results["observed"]
-- 
2.43.0


From 7f0d602cd7a3a69a80e7b045e56a5851c4dd2532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 20/32] fix: label hotspot clusters from every space-time
 neighbour pair

Only the first neighbour of each focal event was kept when the components were
computed, so a connected hotspot could be split into several clusters.
---
 pointpats/spacetime.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 8473a92..6e3df00 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1420,8 +1420,10 @@ class KnoxLocal:
         ).reset_index(drop=True)
         # significant focals can be neighbors of others (dupes)
         pdf_sig = pdf_sig.groupby("focal").first().reset_index()
-        graph = Graph.from_adjacency(pdf_sig.assign(weight=1))
-        pdf_sig["cluster"] = graph.component_labels.values
+        graph = Graph.from_adjacency(
+            temp_neighbors[["focal", "neighbor"]].assign(weight=1)
+        )
+        pdf_sig["cluster"] = pdf_sig["focal"].map(graph.component_labels)
         if not keep_neighbors:
             pdf_sig = pdf_sig[pdf_sig.pvalue <= crit]
 
-- 
2.43.0


From 7155ca64cedc0847369b7098fddee5f8413d7796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 21/32] fix: read the dbf that belongs to the shapefile in
 SpaceTimeEvents

It was looked up by name among the libpysal examples, so user data failed to
load or was silently paired with an example's attribute table.
---
 pointpats/spacetime.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 6e3df00..db81cac 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -140,9 +140,7 @@ class SpaceTimeEvents:
 
     def __init__(self, path, time_col, infer_timestamp=False):
         shp = lps.io.open(path)
-        head, tail = os.path.split(path)
-        dbf_tail = tail.split(".")[0] + ".dbf"
-        dbf = lps.io.open(lps.examples.get_path(dbf_tail))
+        dbf = lps.io.open(os.path.splitext(path)[0] + ".dbf")
 
         # extract the spatial coordinates from the shapefile
         x = [coords[0] for coords in shp]
-- 
2.43.0


From 3e4ecf038d98c6b8fdda3cf6434bdffb6ce618bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 22/32] fix: fall back when an optional accelerator is
 installed but does not import

A numba or scikit-learn that raises ImportError (binary mismatch, say) broke
import pointpats, and minimum_bounding_circle could call a numba kernel that
was never compiled.
---
 pointpats/centrography.py | 11 +++--------
 pointpats/geometry.py     |  4 ++--
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 89d6f09..21da795 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -986,19 +986,13 @@ def minimum_bounding_circle(points, **buffer_kw):
 
 @minimum_bounding_circle.register
 def _(points: np.ndarray, **buffer_kw) -> tuple[tuple[float, float], float]:
-    try:
-        from numba import njit  # noqa: F401 `numba.njit` imported but unused
-
-        has_numba = True
-    except ImportError:
-        has_numba = False
     points = hull(points)
     if not_clockwise(points):
         points = points[::-1]
         if not_clockwise(points):
             raise Exception("Points are neither clockwise nor counterclockwise")
     _points = copy.deepcopy(points).astype(float)
-    if has_numba:  # noqa: SIM108
+    if HAS_NUMBA:  # noqa: SIM108
         circ = _skyum_numba(_points)[0]
     else:
         circ = _skyum_lists(_points)[0]
@@ -1095,7 +1089,8 @@ try:
             return False, new_points, lexmax, circles[lexmax]
 
 
-except ModuleNotFoundError:
+except ImportError:
+    HAS_NUMBA = False
 
     def njit(func, **kwargs):  # noqa: ARG001 - Unused `kwargs`
         return func
diff --git a/pointpats/geometry.py b/pointpats/geometry.py
index 154441a..3fe5320 100644
--- a/pointpats/geometry.py
+++ b/pointpats/geometry.py
@@ -20,7 +20,7 @@ try:
     from sklearn.neighbors import BallTree, KDTree
 
     TREE_TYPES = (*TREE_TYPES, KDTree, BallTree)
-except ModuleNotFoundError:
+except ImportError:
     pass
 
 HULL_TYPES = (
@@ -323,7 +323,7 @@ def build_best_tree(coordinates, metric):
                 f"BallTree metrics: {BallTree.valid_metrics}, and"
                 f"scikit KDTree metrics: {KDTree.valid_metrics}."
             )
-    except ModuleNotFoundError:
+    except ImportError:
         if metric not in ("l2", "euclidean"):
             raise KeyError(
                 f"Metric {metric} requested, but this requires"
-- 
2.43.0


From cab6301a98de97d410a6be2fdf81c427fcb25611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 23/32] fix: close the shapefile and dbf when SpaceTimeEvents
 fails to read them

---
 pointpats/spacetime.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index db81cac..9692a7e 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -21,6 +21,7 @@ __all__ = [
 ]
 
 import os
+from contextlib import ExitStack
 from datetime import date
 from warnings import warn
 
@@ -139,14 +140,21 @@ class SpaceTimeEvents:
     """
 
     def __init__(self, path, time_col, infer_timestamp=False):
-        shp = lps.io.open(path)
-        dbf = lps.io.open(os.path.splitext(path)[0] + ".dbf")
+        # close the files however reading them ends
+        with ExitStack() as stack:
+            shp = lps.io.open(path)
+            stack.callback(shp.close)
+            dbf = lps.io.open(os.path.splitext(path)[0] + ".dbf")
+            stack.callback(dbf.close)
+            points = list(shp)
+            n = len(shp)
+            col = dbf.by_col(time_col)
 
         # extract the spatial coordinates from the shapefile
-        x = [coords[0] for coords in shp]
-        y = [coords[1] for coords in shp]
+        x = [coords[0] for coords in points]
+        y = [coords[1] for coords in points]
 
-        self.n = n = len(shp)
+        self.n = n
         x = np.array(x)
         y = np.array(y)
         self.x = np.reshape(x, (n, 1))
@@ -155,7 +163,6 @@ class SpaceTimeEvents:
 
         # extract the temporal information from the database
         if infer_timestamp:
-            col = dbf.by_col(time_col)
             if isinstance(col[0], date):
                 day1 = min(col)
                 col = [(d - day1).days for d in col]
@@ -167,15 +174,11 @@ class SpaceTimeEvents:
                 )
                 t = np.array(col)
         else:
-            t = np.array(dbf.by_col(time_col))
+            t = np.array(col)
         line = np.ones((n, 1))
         self.t = np.reshape(t, (n, 1))
         self.time = np.hstack((self.t, line))
 
-        # close open objects
-        dbf.close()
-        shp.close()
-
 
 def knox(s_coords, t_coords, delta, tau, permutations=99, debug=False):  # noqa: ARG001 - `debug` - unused function argument
     """
-- 
2.43.0


From 42a4b6a537972da8f5d5159c9f0f0182b18ae347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:22 +0000
Subject: [PATCH 24/32] fix: to_ccf closes a copy, not the caller's ring

---
 pointpats/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/window.py b/pointpats/window.py
index 09c90ec..35a42ce 100644
--- a/pointpats/window.py
+++ b/pointpats/window.py
@@ -25,7 +25,7 @@ def poly_from_bbox(bbox):
 
 def to_ccf(poly):
     if poly[-1] != poly[0]:
-        poly.append(poly[0])
+        poly = [*poly, poly[0]]
     return poly
 
 
-- 
2.43.0


From 2ea9e7145729040741e143f88fbd7dd0d951d7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:51 +0000
Subject: [PATCH 25/32] fix: do not let explore change the caller's style_kwds

GeoDataFrame.explore adds defaults to the dictionary it is given and removes
entries it has handled, so the caller's object changed and the second and third
group of points lost part of the style.
---
 pointpats/spacetime.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 9692a7e..b6b3777 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1600,15 +1600,17 @@ class KnoxLocal:
         g = g.reset_index().merge(nbs, left_on="index", right_index=True, how="left")
 
         m = g[g.color == colors["nonsig"]].explore(
-            color="grey", style_kwds=style_kwds, tiles=tiles
+            color="grey", style_kwds=style_kwds.copy(), tiles=tiles
         )
         blues = g[g.color == colors["neighbor"]]
         if blues.shape[0] == 0:
             warn("empty neighbor set.", UserWarning, stacklevel=2)
         else:
-            m = blues.explore(m=m, color=colors["neighbor"], style_kwds=style_kwds)
+            m = blues.explore(
+                m=m, color=colors["neighbor"], style_kwds=style_kwds.copy()
+            )
         m = g[g.color == colors["focal"]].explore(
-            m=m, color=colors["focal"], style_kwds=style_kwds
+            m=m, color=colors["focal"], style_kwds=style_kwds.copy()
         )
 
         if plot_edges:
-- 
2.43.0


From 95c4a7ad21f8bf89bdeac148d9a4e05441e7576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:48 +0000
Subject: [PATCH 26/32] fix: do not swallow an interrupt in set_window or
 support conversion

The bare excepts caught KeyboardInterrupt: set_window went on without the
window, and a support raised TypeError instead.
---
 pointpats/distance_statistics.py | 2 +-
 pointpats/pointpattern.py        | 5 +----
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 9343179..746045d 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -100,7 +100,7 @@ def _prepare(coordinates, support, distances, metric, hull, edge_correction):
     else:  # try to use it as is
         try:
             support = numpy.asarray(support)
-        except:  # noqa: E722 - bare `except`
+        except Exception:
             raise TypeError(
                 "`support` must be a tuple (either (start, stop, step), (start, stop) "
                 "or (stop,)), an int describing the number of breaks to use to evalute "
diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index dfd394d..95a85d0 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -128,10 +128,7 @@ class PointPattern:
         return ((self.df[name[0]] == n[0]) & (self.df[name[1]] == n[1])).any()
 
     def set_window(self, window):
-        try:
-            self._window = window
-        except:  # noqa: E722 - Do not use bare `except`
-            print("not a valid Window object")
+        self._window = window
 
     def get_window(self):
         """
-- 
2.43.0


From 7cb056ce9c69d597a4bb54bf8c857fe3fb69a5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:12 +0000
Subject: [PATCH 27/32] fix: let errors from building the tree in f and g reach
 the caller

The finally clause queried the tree that could not be built, so asking for a
metric that needs scikit-learn raised UnboundLocalError instead of the message
that says so.
---
 pointpats/distance_statistics.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 746045d..5ea00a9 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -186,13 +186,9 @@ def f(
         n_empty_points = 1000
 
         randoms = poisson(hull=hull, size=(n_empty_points, 1))
-        try:
-            tree  # noqa: B018
-        except NameError:
-            tree = _build_best_tree(coordinates, metric)
-        finally:
-            distances, _ = tree.query(randoms, k=1)
-            distances = distances.squeeze()
+        tree = _build_best_tree(coordinates, metric)
+        distances, _ = tree.query(randoms, k=1)
+        distances = distances.squeeze()
 
     counts, bins = numpy.histogram(distances, bins=support)
     fracs = numpy.cumsum(counts) / counts.sum()
@@ -274,12 +270,8 @@ def g(
                 f" Input matrix was {distances.ndim} dimensional"
             )
     else:
-        try:
-            tree  # noqa: B018
-        except NameError:
-            tree = _build_best_tree(coordinates, metric)
-        finally:
-            distances, indices = _k_neighbors(tree, coordinates, k=1)
+        tree = _build_best_tree(coordinates, metric)
+        distances, indices = _k_neighbors(tree, coordinates, k=1)
 
     counts, bins = numpy.histogram(distances.squeeze(), bins=support)
     fracs = numpy.cumsum(counts) / counts.sum()
-- 
2.43.0


From cb1f687dab9360debc5194e1d97c9012fc6eb7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:35 +0000
Subject: [PATCH 28/32] fix: find the minimum bounding circle in spite of
 rounding

With two points left, or in an obtuse triangle, Skyum's algorithm depends on
angles of zero and on radii being equal. Rounding turned the first into NaN
(ZeroDivisionError for one random pattern in fourteen with numba) and broke the
second (a circle that is too large, and another one without numba, for one in
four).
---
 pointpats/centrography.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 21da795..02b48f0 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -23,7 +23,6 @@ __all__ = [
 ]
 
 
-import copy
 import math
 import sys
 import warnings
@@ -991,12 +990,15 @@ def _(points: np.ndarray, **buffer_kw) -> tuple[tuple[float, float], float]:
         points = points[::-1]
         if not_clockwise(points):
             raise Exception("Points are neither clockwise nor counterclockwise")
-    _points = copy.deepcopy(points).astype(float)
+    # work around the origin: projected coordinates would lose the ties to rounding
+    points = np.asarray(points, dtype=float)
+    origin = points.mean(axis=0)
+    _points = points - origin
     if HAS_NUMBA:  # noqa: SIM108
         circ = _skyum_numba(_points)[0]
     else:
         circ = _skyum_lists(_points)[0]
-    return (circ[1], circ[2]), circ[0]
+    return (circ[1] + origin[0], circ[2] + origin[1]), circ[0]
 
 
 @minimum_bounding_circle.register
@@ -1027,9 +1029,9 @@ def _skyum_lists(points):
             )
             for p in points
         ]
-        radii = [c[0] for c in circles]
-        lexord = np.lexsort((angles, radii))
-        lexmax = lexord[-1]
+        radii = np.array([c[0] for c in circles])
+        # radii that are equal up to rounding are ties, decided by the angle
+        lexmax = (np.array(angles) * (radii >= radii.max() * (1 - 1e-9))).argmax()
         candidate = (
             _prec(points[lexmax], points),
             points[lexmax],
@@ -1077,8 +1079,8 @@ try:
         # workaround for no lexsort in numba
         radius_argmax = radii.argmax()
         radius_max = radii[radius_argmax]
-        # the maximum angle for the largest radius
-        lexmax = (angles * (radii == radius_max)).argmax()
+        # the maximum angle for the largest radius, up to rounding
+        lexmax = (angles * (radii >= radius_max * (1 - 1e-9))).argmax()
 
         if angles[lexmax] <= (np.pi / 2.0):
             return True, points, lexmax, circles[lexmax]
@@ -1104,7 +1106,9 @@ def _angle(p, q, r):
     pq = p - q
     rq = r - q
     magnitudes = np.linalg.norm(pq) * np.linalg.norm(rq)
-    return np.abs(np.arccos(np.dot(pq, rq) / magnitudes))
+    # rounding can take the cosine of parallel vectors just outside [-1, 1]
+    cosine = max(-1.0, min(1.0, np.dot(pq, rq) / magnitudes))
+    return np.abs(np.arccos(cosine))
 
 
 def _prec(p, _l):
-- 
2.43.0


From fdf96c5929571f42c3ebaf146dcb958de5af92a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:38 +0000
Subject: [PATCH 29/32] fix: SpaceTimeEvents refuses a table that is cut short

libpysal's dbf reader takes what a truncated file lacks for empty or
shorter cells, so the events silently got missing or wrong times.
---
 pointpats/spacetime.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index b6b3777..14761e0 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -149,6 +149,10 @@ class SpaceTimeEvents:
             points = list(shp)
             n = len(shp)
             col = dbf.by_col(time_col)
+            # the reader takes what a table cut short lacks for empty cells
+            stored = os.path.getsize(dbf.dataPath)
+            if stored < dbf.header_size + len(dbf) * dbf.record_size:
+                raise OSError(f"{dbf.dataPath} is truncated")
 
         # extract the spatial coordinates from the shapefile
         x = [coords[0] for coords in points]
-- 
2.43.0


From 6af8d0a5455aa1f7716a61c71bff59be4407b53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:32 +0000
Subject: [PATCH 30/32] fix: a batch of PoissonClusterPointProcess has a parent
 for every child

n not divisible by the number of children left the batch short, and a
second batch of new parents filled it up, so a realization had more
clusters than the recorded num_parents.
---
 pointpats/process.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pointpats/process.py b/pointpats/process.py
index 08b2d3a..ca77aee 100644
--- a/pointpats/process.py
+++ b/pointpats/process.py
@@ -466,9 +466,10 @@ class PoissonClusterPointProcess(PointProcess):
         """
         _l, b, r, t = self.window.bbox
         d = self.radius
-        # get parent points
-        pxs = np.random.uniform(_l, r, (int(n / self.children), 1))
-        pys = np.random.uniform(b, t, (int(n / self.children), 1))
+        # get parent points, enough of them for n children
+        parents = int(np.ceil(n / self.children))
+        pxs = np.random.uniform(_l, r, (parents, 1))
+        pys = np.random.uniform(b, t, (parents, 1))
         cents = np.hstack((pxs, pys))
         # generate children points
         pnts = [runif_in_circle(self.children, d, center) for center in cents]
-- 
2.43.0


From bd6eba5c05d7567aa95237beae66d62fc6e74ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:46 +0000
Subject: [PATCH 31/32] fix: KnoxLocal.explore shows insignificant events in
 the colour asked for

colors['nonsig'] was ignored in favour of a fixed grey.
---
 pointpats/spacetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 14761e0..186b85d 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1604,7 +1604,7 @@ class KnoxLocal:
         g = g.reset_index().merge(nbs, left_on="index", right_index=True, how="left")
 
         m = g[g.color == colors["nonsig"]].explore(
-            color="grey", style_kwds=style_kwds.copy(), tiles=tiles
+            color=colors["nonsig"], style_kwds=style_kwds.copy(), tiles=tiles
         )
         blues = g[g.color == colors["neighbor"]]
         if blues.shape[0] == 0:
-- 
2.43.0


From 9934a17bce5dad31a0975825d3f17c1fb4700a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:04 +0000
Subject: [PATCH 32/32] fix: a birth in strauss proposes one point, whatever
 the area of the hull

---
 pointpats/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 4cfd879..e67e961 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -670,7 +670,7 @@ def strauss(
 
             for _ in range(n_iter):
                 if len(points) < n_observations or rng.random() < 0.5:
-                    new_point = poisson(hull, 1, rng=rng)
+                    new_point = poisson(hull, size=1, rng=rng)
                     trial_points = numpy.vstack([points, new_point])
                     k_old = _pairwise_count_kdtree(points, r)
                     k_new = _pairwise_count_kdtree(trial_points, r)
-- 
2.43.0

