PROPS = [
 dict(id="C01", title="Generated patterns have the requested shape and stay inside the hull",
  statement="Every generator in pointpats.random returns exactly the requested number of points and replications (a (reps, n, 2) array, (n, 2) for one replication), all finite and all inside the given hull, whatever the random stream delivers, or raises. In a clustered pattern each replication consists of n_seeds consecutive groups whose first point is the cluster's centre; with cluster_poisson every member lies within that cluster's radius of the centre. A covariance or centre the caller gives is used, and a default one is derived anew for each replication.",
  over=["inputs", "schedules"], forall="all hull kinds, sizes, intensities, radii, covariances and every bit stream a Generator can deliver, including extreme, repeated and starving ones",
  why="The tests sample a few default-seeded draws on one hull; they never see an edge value, a starved rejection loop or several replications with per-replication state.",
  files=["pointpats/random.py", "pointpats/geometry.py"],
  mech=[("rejection loops that refill until the count is reached", "pointpats/random.py"), ("hull dispatch of bbox/contains/centroid", "pointpats/geometry.py")],
  observe=["return value of poisson, normal, cluster_poisson, cluster_normal, strauss"],
  technique="seeded adversarial random streams behind the caller's Generator, geometric oracle per draw",
  note="Sampled streams and inputs, not all of them; the real generators, numpy distributions and shapely predicates run."),
 dict(id="C02", title="The same seed gives bit-identical results, in any surroundings",
  statement="A generator call or quadrat test with rng=<int or other seed> returns bit-identical results whatever ran before, in which thread, with which global random state, clock, entropy and hash seed, and leaves numpy's and Python's global random state untouched. Passing a Generator continues exactly that stream: equal states give equal results, and consecutive calls advance it. The space-time tests and point-process classes, which draw from numpy's global stream, are bit-identical after numpy.random.seed(s).",
  over=["histories", "schedules", "configurations"], forall="all call histories, thread schedules, ambient random states, clocks, entropy and PYTHONHASHSEED values",
  why="A test runs a call twice in one process; it cannot vary history, schedule, entropy or hash seed, and a leak shows only under some of them.",
  files=["pointpats/random.py", "pointpats/quadrat_statistics.py", "pointpats/spacetime.py", "pointpats/process.py"],
  mech=[("every draw goes through the coerced Generator", "pointpats/random.py"), ("rng coercion", "pointpats/quadrat_statistics.py:_coerce_rng"), ("numpy.random.permutation/shuffle", "pointpats/spacetime.py")],
  technique="history, thread-schedule, entropy and clock perturbation with bit-exact differential oracle",
  note="Differential: the reference is the same code in a pristine fork; fresh interpreters with other PYTHONHASHSEED are included."),
 dict(id="C03", title="Random draws that should be independent never repeat",
  statement="Replications in one call, clusters, successive unseeded calls, calls in forked worker processes, the Monte Carlo simulations of a Ripley or quadrat test and successive permutations of a space-time test are drawn afresh: no two share their random content. Unseeded generator calls and Ripley simulations do not repeat because the global numpy seed was reset, the clock stalled or the process was forked. Different seeds give different patterns.",
  over=["schedules", "histories", "configurations"], forall="all worker schedules, start methods, global seeds and clock behaviours",
  why="Repetition shows up across workers, forks and re-seeded sessions that no unit test arranges, and one test run never compares draws.",
  files=["pointpats/random.py", "pointpats/distance_statistics.py", "pointpats/quadrat_statistics.py", "pointpats/spacetime.py"],
  mech=[("fresh default_rng per unseeded call", "pointpats/random.py"), ("one draw per simulation inside the worker", "pointpats/distance_statistics.py")],
  technique="simulated worker pools and forks under simulated entropy and clock, collision oracle over recorded draws",
  note="Collisions are judged on continuous coordinates under simulated entropy that itself never repeats."),
 dict(id="C04", title="Ripley Monte Carlo tests are correct under any worker schedule or failure",
  statement="f_test, g_test, j_test, k_test and l_test return the support asked for and the same statistic as the direct function, one row of simulations per requested simulation aligned with the support, and p-values that follow from those rows as min(p, 1-p) with p = (#{simulated >= observed} + 1)/(n_simulations + 1), regardless of the number of workers, their order, speed or backend. Each simulation is the statistic of a pattern of as many points as observed, inside the hull; keep_simulations changes nothing but whether they are returned, and truncation only shortens. If a worker or task fails the call raises or is complete, and a later call is unaffected.",
  over=["schedules", "fault_sequences", "inputs"], forall="all task orders, worker counts, batch sizes, worker crashes and task failures, input types and supports",
  why="The tests hardly call the *_test functions and never with several workers, a failing worker or another completion order.",
  files=["pointpats/distance_statistics.py", "pointpats/random.py"],
  mech=[("joblib.Parallel over simulations", "pointpats/distance_statistics.py:_ripley_test"), ("p-value folding and truncation", "pointpats/distance_statistics.py")],
  technique="simulated joblib worker pool (seeded order, stragglers, crashes, task errors), differential and formula oracles",
  note="joblib.Parallel itself runs; loky is replaced by a seeded event loop over real forked interpreters or gated threads."),
 dict(id="C05", title="Space-time tests follow from the permutations drawn",
  statement="For whatever permutations numpy delivers, Knox, KnoxLocal, knox, modified_knox, mantel and jacquez report the statistic of their definition, simulated statistics that are exactly those of the permuted events, and pseudo p-values (exceedances + 1)/(permutations + 1), the deprecated knox folding the exceedance count to the smaller tail. KnoxLocal's adjacency list holds each space-time neighbour pair in both directions with the caller's ids and the right lead/lag/coincident label, and hotspots() returns exactly the significant events, their neighbours if asked, and clusters that are the groups linked through them.",
  over=["schedules", "inputs"], forall="all permutation sequences (identity, ties, repeats included), event sets with ties and coincident times, ids in any order",
  why="Tests fix one global seed on one data set, so a wrong comparison, tail, conditioning or id mapping that agrees on it passes.",
  files=["pointpats/spacetime.py"],
  mech=[("permutation loops", "pointpats/spacetime.py:_knox/_knox_local"), ("id mapping and adjacency list", "pointpats/spacetime.py:KnoxLocal")],
  technique="simulator-chosen permutations with a brute-force reference model",
  note="Small event sets (4 to 24); jacquez on tie-free data, where neighbours are unique."),
 dict(id="C06", title="Quadrat counts and their Monte Carlo inference are conserved and exact",
  statement="RectangleM and HexagonM count every event once, in the cell that contains it; QStatistic's chi-square, contributions, degrees of freedom and analytical p-value follow from those counts. Each of the `realizations` simulated patterns has exactly as many events as observed, all inside the window, and contributes the chi-square of its own counts. The Monte Carlo p-value is (#{simulated >= observed} + 1)/(realizations + 1) for any number of realizations, including one.",
  over=["inputs", "schedules"], forall="all point sets (ties, grid alignment, offsets), windows, grid settings, rng kinds and bit streams",
  why="Tests check a few counts and one p-value; conservation on edges, rounding of the simulated count and unlucky streams need search.",
  files=["pointpats/quadrat_statistics.py", "pointpats/random.py"],
  mech=[("cell indexing", "pointpats/quadrat_statistics.py:RectangleM/HexagonM.point_location_sta"), ("CSR simulation and p-value", "pointpats/quadrat_statistics.py:QStatistic")],
  technique="adversarial random streams, geometric and lattice oracles, recording of simulated patterns",
  note="Events within 1e-9 of a cell boundary may be counted on either side."),
 dict(id="C07", title="A PointPattern answers the same whatever was asked of it before",
  statement="After any history of queries, window changes, added marks, coordinate flips, copies, pickling, concurrent reads and aborted queries, every property and query of a PointPattern (n, mbb, intensities, hull, nearest neighbours, pairs, window, table) equals what its current points and window define. explode partitions by mark, unique and superimpose drop exactly the duplicates and keep marks (unique keeps the window), and derived patterns and copies are independent of the original and of the caller's arrays.",
  over=["histories", "schedules", "crash_points"], forall="all operation histories over several patterns, thread interleavings of readers and abort points",
  why="Cached values go stale only in particular orders of queries and mutations; tests query each attribute once on a fresh pattern.",
  files=["pointpats/pointpattern.py", "pointpats/util.py", "pointpats/window.py", "pointpats/geometry.py"],
  mech=[("cached_property", "pointpats/util.py"), ("window property", "pointpats/pointpattern.py")],
  technique="stateful histories with thread interleavings and injected aborts against a reference model",
  note="Shallow copies share their table by definition and are not marked; areas up to cancellation of raw coordinate products."),
 dict(id="C08", title="The caller's data is never modified",
  statement="No public call changes any array, list, frame, geometry, window or keyword object the caller passed, whether the call returns, raises or is aborted midway. The only state a call advances is a random Generator passed to it or numpy's global stream for the functions that draw from it.",
  over=["histories", "crash_points", "inputs"], forall="all public calls, input kinds and abort points",
  why="Tests look at return values; an input shuffled, sorted or appended to in place, or only when a call is aborted, is invisible to them.",
  files=["pointpats/spacetime.py", "pointpats/pointpattern.py", "pointpats/random.py", "pointpats/distance_statistics.py", "pointpats/centrography.py", "pointpats/quadrat_statistics.py", "pointpats/kde.py"],
  mech=[("copies before in-place shuffles", "pointpats/spacetime.py:knox"), ("frames built from inputs", "pointpats/pointpattern.py")],
  technique="seeded call histories with aborts at arbitrary lines, bit-exact snapshots of every input",
  note="Objects are compared by content, shape and dtype before and after each call."),
 dict(id="C09", title="The library can be used from several threads at once",
  statement="Calls running concurrently in different threads on their own or on shared inputs return bit-identical results to the same calls run alone, for every interleaving, as long as they do not share a random stream or draw figures. No call depends on which other calls were made earlier in the process.",
  over=["schedules", "histories"], forall="all thread interleavings at line granularity and all earlier call histories",
  why="Races on module-level or shared cached state need particular interleavings; the test suite is single-threaded.",
  files=["pointpats/random.py", "pointpats/distance_statistics.py", "pointpats/spacetime.py", "pointpats/centrography.py", "pointpats/geometry.py", "pointpats/pointpattern.py"],
  mech=[("no module-level mutable state", "pointpats/"), ("idempotent caches", "pointpats/util.py")],
  technique="seeded line-level thread interleavings, differential oracle against isolated execution",
  note="Preemption at pointpats source lines; calls into numpy/scipy are atomic in the simulation."),
 dict(id="C10", title="Reading events from disk gives the stored data or an exception",
  statement="SpaceTimeEvents built from a shapefile and its dbf holds exactly the stored coordinates and time values in record order (dates as dates, or as days since the first with infer_timestamp), for any path. When opening or reading fails or is cut short at any point it raises instead of returning partial or misaligned events, all file handles it opened are closed again either way, and a later attempt succeeds.",
  over=["fault_sequences", "crash_points", "inputs"], forall="all I/O failures and short reads at every file operation, truncated files, path spellings and column types",
  why="Tests read one bundled file that never fails; short reads, missing companions and leaked handles need injected faults.",
  files=["pointpats/spacetime.py"],
  mech=[("ExitStack around both readers", "pointpats/spacetime.py:SpaceTimeEvents")],
  technique="simulated disk with errors, short reads and truncations at every operation; handle accounting",
  note="libpysal's readers run for real; handles leaked inside their constructors are theirs and excluded."),
 dict(id="C11", title="Point process classes honour size, window and recorded parameters",
  statement="PoissonPointProcess and PoissonClusterPointProcess produce the requested number of realizations, each with exactly the number of points recorded for it in `parameters` (n itself when not conditioning, parents times children for conditioned clusters), every point inside the window; cluster children lie within the radius of a common parent. With asPP each realization is a PointPattern over those points and that window. Zero counts give empty realizations.",
  over=["inputs", "schedules"], forall="all windows, sizes, sample counts and random streams, including zero and extreme Poisson draws",
  why="Tests check a few attributes under one seed; zero draws and tight windows that force refilling are rare.",
  files=["pointpats/process.py", "pointpats/window.py"],
  mech=[("refill loop", "pointpats/process.py:PointProcess.draw"), ("parameters", "pointpats/process.py:setup")],
  technique="simulator-controlled global stream (extreme, zero and starved draws), geometric oracle",
  note="Windows are simple polygons with area; a point within rounding of the boundary counts as inside."),
 dict(id="C12", title="Optional accelerators change speed, never answers",
  statement="With any subset of the optional packages (scikit-learn, numba, statsmodels, KDEpy) missing or failing to load, importing pointpats still works, every function that does not need them gives the same results as with them, and a function that cannot work without one raises an error naming it instead of returning something else. Nothing stays broken once the package becomes available in a new process.",
  over=["configurations", "fault_sequences"], forall="all subsets of missing or broken optional packages, at import time and at call time",
  why="The test environment has one fixed set of packages, so fallback paths never run.",
  files=["pointpats/geometry.py", "pointpats/centrography.py", "pointpats/distance_statistics.py", "pointpats/kde.py", "pointpats/spacetime.py"],
  mech=[("guarded imports", "pointpats/geometry.py, pointpats/centrography.py, pointpats/kde.py")],
  technique="import-fault injection in fresh interpreters, differential oracle between fallback and accelerated paths",
  note="Results compared to 1e-9 between accelerated and fallback paths."),
 dict(id="C13", title="Reporting never changes what is reported",
  statement="plot, explore, summary and hotspots calls, in any order and repeated, whether they succeed or fail, leave every statistic, p-value, table, point and window of the object they report on unchanged, return the same content when repeated, and leave global random state, matplotlib settings and the caller's figures alone. plot returns an axes that shows the object's own data.",
  over=["histories", "fault_sequences"], forall="all orders and repetitions of reporting calls, interleaved with queries and injected failures",
  why="Tests call one reporting method once and look at nothing afterwards.",
  files=["pointpats/spacetime.py", "pointpats/quadrat_statistics.py", "pointpats/pointpattern.py"],
  mech=[("fresh copies of the fitted frame", "pointpats/spacetime.py:KnoxLocal._gdf")],
  technique="seeded reporting histories with injected aborts, bit-exact digest of the reported object",
  note="Figures are drawn with the Agg backend; explore builds the folium map without fetching tiles."),
 dict(id="C14", title="An aborted call leaves no trace",
  statement="If a public call is interrupted by an exception at any point (KeyboardInterrupt, MemoryError, a failing callback), the exception reaches the caller, and afterwards every call, the interrupted one repeated included, behaves as if the interrupted one had never started (methods that modify a pattern in place, such as add_marks, may have done part of it); process-wide state (warning filters, numpy error and print settings, Python's random state, working directory, open figures of non-plotting calls) is as before.",
  over=["crash_points", "histories"], forall="every abort point at line granularity in every public call, followed by any history",
  why="Tests let every call finish; state left half-changed by an abort at one line in hundreds is out of their reach.",
  files=["pointpats/random.py", "pointpats/distance_statistics.py", "pointpats/spacetime.py", "pointpats/quadrat_statistics.py", "pointpats/pointpattern.py", "pointpats/centrography.py", "pointpats/process.py", "pointpats/util.py"],
  mech=[("no state published before it is complete", "pointpats/util.py:cached_property")],
  technique="exceptions injected at seeded source lines, differential oracle against a never-interrupted world",
  note="Interruption at pointpats source lines, not inside numpy or scipy calls."),
 dict(id="C15", title="Simulated patterns and permutations have the distribution promised",
  statement="poisson() and the Poisson process are uniform over the hull or window for every kind, cluster members over the circle around their centre, normal() has the given centre and covariance, strauss() has fewer (more) close pairs than a Poisson pattern when gamma is below (above) one, and random counts are Poisson; points, replications and permutations are independent of each other; the permutations behind the space-time tests are uniform over all orders; the simulations of the Ripley and quadrat tests are the statistic of complete spatial randomness with the observed number of points in the hull or window, evaluated at the same distances as the observed statistic. Hence p-values are calibrated: under complete spatial randomness the observed statistic is exchangeable with the simulations.",
  over=["inputs", "schedules"], forall="all hull and window shapes, supports (given or derived) and patterns",
  why="A biased sampler or a support taken from each simulation passes every example-based test; only many controlled draws expose it.",
  files=["pointpats/random.py", "pointpats/distance_statistics.py", "pointpats/quadrat_statistics.py", "pointpats/spacetime.py", "pointpats/process.py"],
  mech=[("bounding-box rejection", "pointpats/random.py:poisson"), ("support shared by observed and simulated", "pointpats/distance_statistics.py:_ripley_test")],
  technique="many simulated draws under fixed seeds pooled into goodness-of-fit statistics against an independent sampler",
  note="Statistical: thresholds of six or more standard deviations under fixed seeds; small biases below that stay unseen."),
 dict(id="C16", title="Units of measurement and the order of records do not matter",
  statement="Measuring lengths in another unit (coordinates, hulls, windows, radii, covariances, intensities, distances and supports converted together) or times in another unit converts the lengths, areas and intensities of every generator, Ripley function and test, quadrat statistic, space-time test, point pattern, point process and centrographic measure accordingly, and leaves numbers of points, cell counts, test statistics, p-values, neighbours, labels and classifications as they were, given the same random stream. Listing the events in another order brings per-event results into that order and changes no other observed statistic, count or simulated value of the Ripley and quadrat tests.",
  over=["inputs", "schedules", "histories"], forall="all units (powers of two from 2**-30 to 2**30), record orders, random streams and worker pools",
  why="The tests use one unit (metres or the unit square) and one order; a fixed tolerance, an absolute step, an unscaled default or a dependence on which record comes first passes them all.",
  files=["pointpats/random.py", "pointpats/distance_statistics.py", "pointpats/quadrat_statistics.py", "pointpats/spacetime.py", "pointpats/pointpattern.py", "pointpats/centrography.py", "pointpats/process.py"],
  mech=[("rejection sampling in hull coordinates", "pointpats/random.py"), ("cell indexing by width", "pointpats/quadrat_statistics.py"), ("neighbour thresholds", "pointpats/spacetime.py")],
  technique="two simulated worlds under one random stream, differing in unit or record order (and worker pool and history), compared leaf by leaf",
  note="euclidean_median (absolute stopping step) is not judged; simulated values only where no worker draws entropy of its own."),
 dict(id="C17", title="Every random call finishes within a bounded number of draws",
  statement="Every call that draws random numbers (the generators of pointpats.random, the point-process classes and runif_in_circle, quadrat tests and the permutation tests for space-time interaction) finishes, whatever its stream did before: from the moment the stream behaves like a uniform one again, the call needs no more draws than a rejection sampler that keeps every accepted candidate needs for the whole request (proportional to points / accepted share of candidates, number of replications, or events times permutations). strauss() gives up after max_iter attempts, and an impossible request is refused rather than retried for ever.",
  over=["schedules", "inputs"], forall="all outages of the random stream (stuck, one-sided, edge values, alternating) at any draw, sizes, replications, hulls and windows",
  why="A test with a healthy stream and a roomy hull finishes either way; a sampler that starts again, drops what it accepted or draws per replication what it needs once is only slow, and for ever slow after an outage or in a thin hull.",
  files=["pointpats/random.py", "pointpats/process.py", "pointpats/quadrat_statistics.py", "pointpats/spacetime.py"],
  mech=[("rejection loops that keep what was accepted", "pointpats/random.py"), ("refill loop over realize()", "pointpats/process.py:PointProcess.draw"), ("one shuffle per permutation", "pointpats/spacetime.py")],
  technique="simulated stream outages with recovery; draws counted at the bit generator against a bound from the harness's own acceptance shares",
  note="A factor of four and 4000 draws are allowed, so a small constant waste stays unseen. Ripley simulations draw from a generator of their own and are not counted."),
]
NA = [
 dict(id="C20", title="Centrographic statistics equal their definitions",
  statement="Mean, median, weighted and Manhattan centres, standard distance, standard deviational ellipse, minimum bounding rectangle and circle of a point set equal their mathematical definitions.",
  over=["inputs"], forall="all point sets", why="Sampled examples only.", files=["pointpats/centrography.py"], mech=[("closed forms and geometric search", "pointpats/centrography.py")],
  reason="a pure function of its input: no schedule, clock, fault, I/O or randomness to simulate; only its freedom from side effects is (C08, C09, C12, C14)"),
 dict(id="C21", title="Ripley functions equal their estimators",
  statement="f, g, j, k and l evaluated on given points, support and distances equal the documented estimators.",
  over=["inputs"], forall="all point sets and supports", why="Sampled examples only.", files=["pointpats/distance_statistics.py"], mech=[("estimators", "pointpats/distance_statistics.py")],
  reason="pure functions of their input (apart from the random empty-space points covered by C04 and C15): nothing for a simulator to decide"),
 dict(id="C22", title="Geometry dispatch agrees across hull representations",
  statement="area, bbox, contains, centroid and convex-hull preparation agree whether a region is given as a bounding box, point array, shapely geometry, hull object or GeoPandas object.",
  over=["inputs"], forall="all regions and representations", why="Sampled examples only.", files=["pointpats/geometry.py"], mech=[("dispatch", "pointpats/geometry.py")],
  reason="pure functions of their input; the generators and tests that use them are simulated in C01, C04 and C15"),
 dict(id="C23", title="Kernel density values and figures match the chosen engine",
  statement="plot_density draws the kernel density estimate of the given coordinates computed with the requested bandwidth, kernel and engine.",
  over=["inputs"], forall="all point sets and settings", why="Sampled figures only.", files=["pointpats/kde.py"], mech=[("KDEpy/statsmodels call", "pointpats/kde.py")],
  reason="a pure rendering of its input by third-party estimators; its import faults are covered in C12 and side effects in C08"),
 dict(id="C24", title="Windows and polygons contain what their rings enclose",
  statement="Window area, parts, holes and filter_contained agree with the polygon they were built from.",
  over=["inputs"], forall="all polygons", why="Sampled examples only.", files=["pointpats/window.py"], mech=[("Window subclass of libpysal Polygon", "pointpats/window.py")],
  reason="a pure function of its input, delegated to libpysal; used as the oracle's counterpart in C07 and C11"),
]
