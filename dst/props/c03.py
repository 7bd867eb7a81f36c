"""C03: nothing that should be independent is ever repeated."""

import json

import numpy as np

from .. import core, seams, simjoblib
from ..ops import make_events
from ..util import gen_hull, hull_area, hull_scale, make_hull, quiet

RUNS = {"quick": 1000, "thorough": 16000}
TIMEOUT = 90
RULE = (
    "A run makes several independent draws of one kind (replications of one call, successive "
    "unseeded calls, calls in forked processes, Monte Carlo replicates spread over simulated "
    "workers, permutations, distinct seeds) while the ambient state is held still or rewound "
    "between them, and looks for repeats. Non-trivial: at least two draws were compared and some "
    "ambient state was rewound, frozen or cloned in between."
)
REAL = ["pointpats.random", "pointpats.distance_statistics tests", "pointpats.quadrat_statistics",
        "pointpats.spacetime", "pointpats.process", "joblib.Parallel", "forked worker interpreters"]
STUB = ["operating system entropy", "clocks and pid", "joblib backend (seeded event loop)"]
ASSUME = ["the operating system's entropy never repeats", "sample sizes make an accidental tie less likely than 1e-9"]
EXPECT = ["replications", "successive", "forked", "workers-process", "workers-thread", "permutations",
          "seeds", "clusters", "qstat", "process", "global-rewound", "clock-stalled"]
MODES = ("replications", "replications", "replications", "successive", "forked", "workers", "workers", "workers", "permutations",
         "seeds", "clusters", "qstat", "process", "processx")


def plan(r, i, tier):
    m = r.choice(MODES)
    p = {"mode": m, "tick": r.choice((0.0, 0.0, 1e-6)), "rewind": r.random() < 0.7,
         "g": r.choice(("poisson", "normal", "cluster_poisson", "cluster_normal", "strauss")),
         "hull": gen_hull(r, ("bbox", "points", "polygon", "multi", "offset", "whole", "wholepts")),
         "n": r.choice((4, 6, 9)), "reps": r.choice((2, 3, 5)),
         "rng": r.choice(("none", "int", "gen")), "rseed": r.choice((0, 1, r.randrange(2**32)))}
    p["form"] = r.choice(("default", "float", "matrix", "stack", "list"))
    if m == "processx":
        p["parents"] = r.choice(((2, 4), (3, 3), (5, 3), (7, 2), (12, 2)))
        p["keep"], p["cond"] = r.random() < 0.3, r.random() < 0.3
        p["reps"] = min(p["reps"], 3)
    if m == "workers":
        p["pool"] = {"seed": r.getrandbits(32), "start": r.choice(("fork", "fork", "spawn")),
                     "batch": r.choice((1, 1, 2, 5)), "cpus": r.choice((1, 2, 4, 8)),
                     "slow": r.choice((0.0, 0.2))}
        p["backend"] = r.choice(("process", "process", "thread"))
        p["jobs"] = r.choice((-1, 1, 2, 3, 8))
        p["sims"] = r.choice((2, 5, 9, 16))
        p["stat"] = r.choice("FGJKL")
        p["pts"] = r.getrandbits(30)
        p["calls"] = r.choice((1, 2, 2))
        if p["backend"] == "thread":
            p["sims"] = min(p["sims"], 4)
    return p


def rewind(ctx, plan):
    if plan["rewind"]:
        np.random.seed(plan["gseed"] & 0xFFFFFFFF)
        import random

        random.seed(plan["gseed"])
        ctx.probe("global-rewound")
    if plan["tick"] == 0.0:
        ctx.probe("clock-stalled")


def kwargs(plan, reps, n):
    g = plan["g"]
    scale = hull_scale(plan["hull"])
    if g == "strauss":
        return dict(n_iter=10, gamma=0.7, r=0.02 * scale)
    form = plan.get("form", "default")
    if g == "cluster_poisson":
        if form == "list":
            return dict(n_seeds=2, cluster_radius=[0.1 * scale, 0.25 * scale])
        if form == "matrix":
            return dict(n_seeds=2)
        return dict(n_seeds=2, cluster_radius=0.2 * scale)
    if g == "cluster_normal":
        return dict(n_seeds=2, **({"cov": np.eye(2) * (0.1 * scale) ** 2} if form == "matrix" else {}))
    if g == "normal":
        c = (0.3 * scale) ** 2
        # equal matrices in a stack: the same draws would give the same points
        return {"float": {"cov": float(c)}, "matrix": {"cov": np.eye(2) * c},
                "stack": {"cov": np.array([np.eye(2) * c] * reps)}}.get(form, {})
    if g == "poisson" and form == "float":
        return {"intensity": n / hull_area(plan["hull"])}
    return {}


def draw(plan, rng=None, reps=1, n=None):
    import pointpats.random as pr

    kw = kwargs(plan, reps, n or plan["n"])
    kw.setdefault("size", reps if "intensity" in kw else (n or plan["n"], reps))

    return quiet(lambda: getattr(pr, plan["g"])(make_hull(plan["hull"]), rng=rng, **kw))


def no_repeat(ctx, what, items, detail):
    """No two draws share a point, and no point occurs twice."""
    seen = {}
    for i, a in enumerate(items):
        for p in np.asarray(a, float).reshape(-1, 2):
            k = p.tobytes()
            if k in seen:
                ctx.fail(what, f"{detail}: draws {seen[k]} and {i} share the point {p}")
            seen[k] = i


def no_copy(ctx, what, pts, detail):
    """No two pairs of points are the same step apart: nothing is a shifted copy."""
    a = np.asarray(pts, float).reshape(-1, 2)
    d = np.round(a[:, None] - a[None], 9)[np.triu_indices(len(a), 1)]
    d[d[:, 0] < 0] *= -1
    u, c = np.unique(d, axis=0, return_counts=True)
    ctx.check(len(u) == len(d), what, lambda: f"{detail}: {c.max()} pairs of points are {u[c.argmax()]} apart")


def run(ctx, plan):
    m = plan["mode"]
    ctx.nontrivial = True
    if m == "replications":
        rng = {"none": None, "int": plan["rseed"], "gen": np.random.default_rng(plan["rseed"])}[plan["rng"]]
        out = draw(plan, rng, plan["reps"])
        no_repeat(ctx, "replications repeat each other", out, plan["g"])
        no_copy(ctx, "draws are shifted copies of each other", out, plan["g"])
        ctx.log(m, out.tobytes())
    elif m == "successive":
        outs = []
        for _ in range(3):
            rewind(ctx, plan)
            outs.append(draw(plan))
        no_repeat(ctx, "successive unseeded calls repeat each other", outs, plan["g"])
        ctx.log(m, outs[0].tobytes())
    elif m == "seeds":
        s = plan["rseed"]
        seeds = sorted({s, s + 1, s + 2**32, s + 2**31, s * 2 + 7, s + 2**64})
        outs = [draw(plan, x) for x in seeds]
        for i in range(len(outs)):
            for j in range(i):
                same = (outs[i].reshape(-1, 2)[:, None] == outs[j].reshape(-1, 2)[None]).all(-1).any()
                ctx.check(not same, "different seeds give the same draws",
                          lambda: f"{plan['g']} seeds {seeds[j]} and {seeds[i]}")
        ctx.log(m, outs[0].tobytes())
    elif m == "forked":
        outs = []
        draw(plan)  # state a fork would clone
        for i in range(3):
            def go(i=i):
                seams.ENTROPY.reset(plan["seed"], vpid=100 + i)
                seams._vpid[0] = 5000 + i
                return draw(plan)
            outs.append(core.pristine(go))
        outs.append(draw(plan))
        no_repeat(ctx, "forked processes draw the same", outs, plan["g"])
        ctx.log(m, outs[0].tobytes())
    elif m == "clusters":
        plan = {**plan, "g": "cluster_poisson"}
        rng = {"none": None, "int": plan["rseed"], "gen": np.random.default_rng(plan["rseed"])}[plan["rng"]]
        import pointpats.random as pr

        hull = np.array([0.0, 0.0, 1000.0, 800.0])
        out = quiet(lambda: pr.cluster_poisson(hull, size=(24, plan["reps"]), n_seeds=4, cluster_radius=3.0, rng=rng))
        offs = []
        for rep in out:
            for g in np.array_split(rep, 4):
                offs.append(np.round(g[1:] - g[0], 9))
        no_repeat(ctx, "clusters are copies of each other", offs, "cluster offsets")
        no_copy(ctx, "draws are shifted copies of each other", out, "clusters")
        ctx.log(m, out.tobytes())
    elif m == "permutations":
        permutations(ctx, plan)
    elif m == "qstat":
        qstat(ctx, plan)
    elif m in ("process", "processx"):
        process(ctx, plan)
    else:
        workers(ctx, plan)
    ctx.probe(m if m != "processx" else "process")


def permutations(ctx, plan):
    from pointpats import spacetime as st

    rs = np.random.Generator(np.random.PCG64(plan["rseed"]))
    s, t = rs.uniform(0, 10, (26, 2)), rs.integers(0, 12, (26, 1))
    sims = []
    for _ in range(2):  # no rewinding: one stream runs through both
        k = quiet(lambda: st.Knox(s, t, 4.0, 3.0, permutations=25, keep=True))
        sims.append(np.asarray(k.sim))
        ctx.check(len(set(k.sim.tolist())) > 1, "every permutation is the same", lambda: f"Knox.sim={k.sim}")
        kl = quiet(lambda: st.KnoxLocal(s, t, 4.0, 3.0, permutations=25, keep=True))
        sims.append(np.asarray(kl.sim))
        ctx.check(len(set(map(bytes, np.asarray(kl.sims).T.copy()))) > 20, "every permutation is the same",
                  lambda: "KnoxLocal.sims columns repeat")
    for i in range(len(sims)):
        for j in range(i):
            ctx.check(not np.array_equal(sims[i], sims[j]), "successive tests reuse their permutations",
                      lambda: f"{sims[i]}")
    ctx.log("perm", sims[0].tobytes())


def qstat(ctx, plan):
    import pointpats as P

    rs = np.random.Generator(np.random.PCG64(plan["rseed"]))
    pts = rs.uniform(0, 100, (180, 2))
    kw = dict(nx=6, ny=6, realizations=9) if plan["reps"] != 3 else dict(shape="hexagon", lh=12.0, realizations=9)
    seen = []
    for _ in range(2):
        rewind(ctx, plan)
        q = quiet(lambda: P.QStatistic(pts, **kw))
        v = np.asarray(q.chi2_realizations)
        ctx.check(len(set(v.tolist())) > 2, "realizations repeat each other", lambda: f"{v}")
        seen.append(v)
    ctx.check(not np.array_equal(*seen), "successive unseeded calls repeat each other", lambda: f"{seen[0]}")
    g = np.random.default_rng(plan["rseed"])
    a = quiet(lambda: P.QStatistic(pts, rng=g, **kw)).chi2_realizations
    b = quiet(lambda: P.QStatistic(pts, rng=g, **kw)).chi2_realizations
    ctx.check(not np.array_equal(a, b), "one Generator gives two tests the same realizations", lambda: f"{a}")
    ctx.log("qstat", seen[0].tobytes(), np.asarray(a).tobytes())


def process(ctx, plan):
    import libpysal as ps
    import pointpats as P

    win = P.as_window(ps.cg.shapes.Polygon([(0.0, 0.0), (0.0, 9.0), (11.0, 8.0), (10.0, 0.0), (0.0, 0.0)]))
    outs = []
    for _ in range(2):
        if plan["mode"] == "process":
            p = quiet(lambda: P.PoissonPointProcess(win, plan["n"], plan["reps"]))
        else:
            np_, kids = plan["parents"]
            p = quiet(lambda: P.PoissonClusterPointProcess(win, np_ * kids, np_, 1.0, plan["reps"],
                                                           keep=plan["keep"], conditioning=plan["cond"]))
        outs += [p.realizations[k] for k in sorted(p.realizations)]
    no_repeat(ctx, "realizations repeat each other", outs, plan["mode"])
    no_copy(ctx, "draws are shifted copies of each other", np.vstack([np.asarray(o, float).reshape(-1, 2) for o in outs]), plan["mode"])
    ctx.log("process", outs[0].tobytes())


SUPPORT = {"F": (0.0, 14.0, 30), "G": (0.0, 12.0, 40), "J": (0.0, 9.0, 30), "K": (2.0, 60.0, 25), "L": (2.0, 60.0, 25)}


def workers(ctx, plan):
    import joblib
    from pointpats import distance_statistics as ds

    stat = plan["stat"]
    n = {"F": 40, "G": 130, "J": 60, "K": 45, "L": 45}[stat]
    if plan["backend"] == "thread":
        n = min(n, 60)
    rs = np.random.Generator(np.random.PCG64(plan["pts"]))
    pts = rs.uniform(0, 100, (n, 2))
    f = getattr(ds, stat.lower() + "_test")
    kw = {"truncate": False} if stat == "J" else {}
    rows = []
    for _ in range(plan["calls"]):
        rewind(ctx, plan)

        def go():
            return f(pts, support=SUPPORT[stat], keep_simulations=True, n_simulations=plan["sims"],
                     n_jobs=plan["jobs"], **kw)

        if plan["backend"] == "thread":
            with joblib.parallel_config("threading"):
                res = quiet(go)
        else:
            res = quiet(go)
        ctx.check(res.simulations is not None and len(res.simulations) == plan["sims"], "simulations are missing",
                  lambda: f"{stat}: {res.simulations is None or len(res.simulations)} of {plan['sims']}")
        rows += [np.nan_to_num(np.asarray(x, float), nan=-1.0) for x in res.simulations]
    seen = {}
    for i, x in enumerate(rows):
        k = x.tobytes()
        ctx.check(k not in seen, "two Monte Carlo replicates are identical",
                  lambda: f"{stat} n_jobs={plan['jobs']} {plan['backend']} {plan['pool']}: replicates {seen[k]} and {i}")
        seen[k] = i
    st = simjoblib.PLAN.stats
    if st["pools"]:
        ctx.probe("workers-" + plan["backend"])
        ctx.probe("out-of-order", st["out_of_order"])
    ctx.probe("fork-start" if plan["pool"]["start"] == "fork" else "spawn-start")
    ctx.schedule = simjoblib.PLAN.order
    ctx.log("workers", stat, rows[0].tobytes(), rows[-1].tobytes(), tuple(map(tuple, simjoblib.PLAN.order)))


def shrink(plan):
    for key, lo in (("sims", 2), ("calls", 1), ("jobs", 1), ("reps", 2)):
        if key in plan:
            yield from core.smaller_ints(plan, key, lo)
    if "pool" in plan:
        for k in ("batch", "slow", "cpus"):
            if k in plan["pool"]:
                q = json.loads(json.dumps(plan))
                del q["pool"][k]
                yield q
