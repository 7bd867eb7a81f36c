"""C09: calls in several threads, and after any history, answer as if alone."""

import json
import warnings

import numpy as np

from .. import core, ops, seams, simjoblib
from ..core import digest

RUNS = {"quick": 2200, "thorough": 25000}
TIMEOUT = 120
RULE = (
    "A run computes a few calls alone, each in a pristine fork, then makes them in two to four threads "
    "under a seeded line-level scheduler - on their own inputs, on one shared input, or on one shared "
    "fitted object - or one after another following a random history of other calls, failing calls and "
    "aborted calls, and compares every result bit for bit. Non-trivial: at least one thread switch "
    "inside pointpats code, or at least one history call."
)
REAL = ["pointpats (all modules)", "numpy, scipy, scikit-learn, pandas"]
STUB = ["thread scheduler (one thread at a time, switches at pointpats lines)", "asynchronous exceptions", "operating system entropy, clocks"]
ASSUME = ["calls into numpy, scipy and pandas are atomic in the simulation",
          "pyplot keeps one current figure per process by design, so figures are not drawn concurrently"]
QUIET = ("g", "k", "l", "fdist", "jdist", "centro", "pp", "geom", "geocentro", "marks", "knn", "ripd", "window")
SEEDED = ops.SEEDED
GLOBAL = ("knox", "knoxlocal", "oldknox", "mantel", "jacquez", "modknox", "knoxdf", "knoxlocaldf", "ppp", "pcpp")
HISTORY = SEEDED + ops.LEGACY + ops.PURE + ops.EXTRA + ("gtest", "ktest", "ltest", "ftest", "jtest")
PERMUTING = ("knox", "knoxlocal", "oldknox", "mantel", "mantel", "jacquez", "modknox", "modknox", "knoxdf", "knoxlocaldf")
INPLACE = ("g", "k", "l", "centro", "pp", "knn", "ripd", "qstat", "knox", "knoxlocal", "oldknox", "mantel", "modknox",
           "ellipse", "gen", "gtest", "ktest", "ftest", "quadplot", "window")
EXPECT = ["permuting", "changed-in-place", "own-inputs", "shared-input", "shared-object", "history", "switches", "aborted", "global-in-one-thread"]


def warm():
    ops.warm()


def plan(r, i, tier):
    mode = r.choice(("own", "own", "shared", "object", "history", "history", "permuting", "inplace"))
    p = {"mode": mode, "p": r.choice((0.02, 0.08, 0.3, 0.7)), "tseed": r.getrandbits(32), "pool": {"seed": 1, "cpus": 2}}
    kinds = SEEDED + QUIET
    if mode == "own":
        n = r.choice((2, 2, 3, 4))
        p["ops"] = [ops.gen(r, kinds, rng_kinds=("int", "gen"), small=True) for _ in range(n)]
        if r.random() < 0.4:
            p["ops"][0] = ops.gen(r, GLOBAL, small=True)
        if r.random() < 0.4:
            p["ops"][-1] = {**p["ops"][-1], "k": p["ops"][-1]["k"] + 1}
            p["ops"].append(ops.gen(r, (p["ops"][-1]["op"],), rng_kinds=("int",), small=True))
        if p["ops"][0]["op"] not in GLOBAL and r.random() < 0.35:  # the same calls on other data of the same size
            a = p["ops"][0]
            if r.random() < 0.6:
                a = ops.gen(r, TWINS, rng_kinds=("int",), small=True)
            p["ops"] = [a, other_data(a), *p["ops"][2:3]]
            p["p"] = r.choice((0.1, 0.3, 0.7))
    elif mode == "shared":
        p["ops"] = [ops.gen(r, kinds, rng_kinds=("int",), small=True)]
        if "rng" in p["ops"][0]:
            p["ops"][0]["rng"]["kind"] = "int"
        p["threads"] = r.choice((2, 3))
    elif mode == "object":
        p["obj"] = r.choice(("knoxlocal", "quadrat", "pattern", "window"))
        p["ev"] = ops.gen_events(r)
        p["calls"] = [r.randrange(1 << 20) for _ in range(r.choice((2, 3)))]
    elif mode == "permuting":
        d = ops.gen(r, PERMUTING, small=True)
        d["perms"] = r.choice((2, 4, 6))
        p["ops"] = [d]
        for _ in range(r.choice((1, 1, 2))):
            e = ops.gen(r, (d["op"],) if r.random() < 0.6 else PERMUTING, small=True)
            e["perms"] = r.choice((2, 4, 6))
            e["ev"] = {**e["ev"], "n": d["ev"]["n"]}
            p["ops"].append(e)
        p["p"] = r.choice((0.1, 0.3, 0.6))
    elif mode == "inplace":
        d = ops.gen(r, INPLACE, rng_kinds=("int",), small=True)
        if "rng" in d:
            d["rng"]["kind"] = "int"
        if "pts" in d and r.random() < 0.5:
            d["pts"]["n"] = r.choice((12, 30, 60, 130))
        p["ops"] = [d]
        p["steps"] = [[r.choice(("shift", "swap", "scale", "one")), r.randrange(1 << 20)] for _ in range(r.choice((1, 2, 3)))]
    else:
        p["ops"] = [ops.gen(r, kinds + GLOBAL, rng_kinds=("int", "gen"), small=True)]
        p["hist"] = [{"op": ops.gen(r, HISTORY, rng_kinds=("int", "gen", "none"), small=True),
                      "at": r.choice((0, 0, 0, r.randrange(1, 60), r.randrange(1, 600)))}
                     for _ in range(r.choice((1, 2, 4)))]
        if r.random() < 0.5:  # the same call on other data of the same size, so freed memory is used again
            p["hist"].append({"op": other_data(p["ops"][0]), "at": 0})
    return p


TWINS = ("g", "k", "l", "k", "l", "fdist", "jdist", "centro", "pp", "gen")


def other_data(d):
    d = json.loads(json.dumps(d))
    d["k"] += 1
    for key in ("pts", "ev", "hull"):
        if isinstance(d.get(key), dict):
            d[key]["k"] += 1
    return d


def one(d):
    """The call alone: nothing before it, nothing beside it."""

    def go():
        seams.reset(77, 4321)
        return digest(value(ops.build(d)))

    return core.pristine(go)


def value(o):
    try:
        return ("ok", o._fn())
    except Exception as e:  # noqa: BLE001
        return ("exc", type(e).__name__)


def threads(ctx, plan, fns):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        outs, il = seams.interleave(fns, seed=plan["tseed"], p=plan["p"], switches=plan.get("switches"))
    ctx.probe("switches", len(il.trace))
    ctx.schedule = il.trace
    if len(il.trace) > 1:
        ctx.nontrivial = True
    got = []
    for st, v in outs:
        if st == "exc":
            raise v
        got.append(v)
    return got


def run(ctx, plan):
    warnings.simplefilter("ignore")
    mode = plan["mode"]
    if mode == "object":
        return shared_object(ctx, plan)
    if mode == "permuting":
        return permuting(ctx, plan)
    if mode == "inplace":
        return inplace(ctx, plan)
    wants = [one(d) for d in plan["ops"]]
    if mode == "history":
        for h in plan["hist"]:
            o = ops.build(h["op"])
            lc = seams.LineCounter(at=h["at"] or None, exc=KeyboardInterrupt("injected"))
            try:
                with lc:
                    o.call()
            except (Exception, KeyboardInterrupt, simjoblib.WorkerLost) as e:  # noqa: BLE001
                if isinstance(e, seams.HarnessError):
                    raise
            if lc.fired:
                ctx.fault("aborted")
        ctx.probe("history")
        ctx.nontrivial = True
        for d, w in zip(plan["ops"], wants):
            for again in range(2):
                seams.reset(77, 4321)
                got = digest(value(ops.build(d)))
                ctx.check(got == w, "a call depends on the calls made before it",
                          lambda: f"{d} after {[(h['op']['op'], h['at']) for h in plan['hist']]}")
        ctx.log(mode, tuple(wants))
        return
    if mode == "shared":
        o = ops.build(plan["ops"][0])
        built = [o] * plan["threads"]
        wants = wants * plan["threads"]
        ctx.probe("shared-input")
    else:
        built = [ops.build(d) for d in plan["ops"]]
        ctx.probe("own-inputs")
        if plan["ops"][0]["op"] in GLOBAL:
            ctx.probe("global-in-one-thread")
    seams.reset(77, 4321)
    got = threads(ctx, plan, [lambda o=o: digest(value(o)) for o in built])
    for o, g, w in zip(built, got, wants):
        ctx.check(g == w, "a concurrent call gives another result than alone",
                  lambda: f"{o.d} beside {[b.d['op'] for b in built]}")
    # and nothing of the concurrent phase lingers
    for d, w in zip(plan["ops"], wants):
        seams.reset(77, 4321)
        ctx.check(digest(value(ops.build(d))) == w, "a call depends on the calls made before it", lambda: f"{d} after threads")
    ctx.log(mode, tuple(got))


class OwnPermutations:
    """Each thread's permutations come from its own stream, whatever the other threads draw."""

    def __init__(self):
        import threading

        self.mine = threading.local()

    def start(self, k):
        self.mine.rs = np.random.Generator(np.random.PCG64(k))
        self.mine.n = 0

    def __call__(self, k, n):
        self.mine.n += 1
        return self.mine.rs.permutation(n)


def permuting(ctx, plan):
    """Permutation tests in several threads; the permutations are the simulator's."""
    sc = OwnPermutations()

    def go(o, k):
        sc.start(k)
        v = digest(value(o))
        return v, sc.mine.n

    def alone(i, d):
        seams.PERM.script(sc)
        return go(ops.build(d), i)

    wants = [core.pristine(lambda i=i, d=d: alone(i, d)) for i, d in enumerate(plan["ops"])]
    seams.PERM.script(sc)
    try:
        built = [ops.build(d) for d in plan["ops"]]
        got = threads(ctx, plan, [lambda o=o, i=i: go(o, i) for i, o in enumerate(built)])
        for d, g, w in zip(plan["ops"], got, wants):
            if not w[1]:
                continue  # drawn elsewhere: the threads share one stream
            ctx.check(g == w, "a concurrent call gives another result than alone",
                      lambda: f"{d} beside {[x['op'] for x in plan['ops']]}")
        for i, (d, w) in enumerate(zip(plan["ops"], wants)):
            if w[1]:
                ctx.check(go(ops.build(d), i) == w, "a call depends on the calls made before it", lambda: f"{d} after threads")
    finally:
        seams.PERM.fn = None
    ctx.probe("permuting")
    ctx.log("permuting", tuple(got))


def change(o, how, k):
    """The caller changes the arrays it owns, in place."""
    rs = np.random.Generator(np.random.PCG64(k))
    n = 0
    for name in sorted(o.inputs):
        a = o.inputs[name]
        if not isinstance(a, np.ndarray) or not a.flags.writeable or a.ndim < 1 or name in ("hull", "sup", "support"):
            continue
        if a.ndim == 2 and len(a) > 1:
            if how == "swap":
                a[:] = a[rs.permutation(len(a))] if len(set(map(tuple, a.tolist()))) > 1 else a + 1
            elif how == "one":
                a[int(rs.integers(len(a)))] += np.array(3, a.dtype)
            elif how == "scale":
                a *= np.array(2, a.dtype)
            else:
                a[:] = (a + (rs.uniform(0, 9, a.shape) if a.dtype.kind == "f" else rs.integers(0, 5, a.shape))).astype(a.dtype)
            n += 1
    return n


def inplace(ctx, plan):
    d = plan["ops"][0]

    def fresh(k):
        seams.reset(77, 4321)
        o = ops.build(d)
        for how, s in plan["steps"][:k]:
            change(o, how, s)
        return ask(o)

    def ask(o):
        seams.reset(77, 4321)
        simjoblib.PLAN.reset(plan["pool"])
        return digest(value(o))

    wants = [core.pristine(lambda k=k: fresh(k)) for k in range(len(plan["steps"]) + 1)]
    o = ops.build(d)
    for k, w in enumerate(wants):
        if k:
            ctx.probe("changed-in-place", change(o, *plan["steps"][k - 1]))
        ctx.check(ask(o) == w, "a call answers for what an array held before",
                  lambda: f"{d} after {plan['steps'][:k]}")
        ctx.nontrivial = True
    ctx.log("inplace", tuple(wants))


def shared_object(ctx, plan):
    import pointpats as P
    from pointpats import spacetime as st
    from pointpats.quadrat_statistics import HexagonM, RectangleM

    s, t, delta, tau = ops.make_events(plan["ev"])
    kind = plan["obj"]
    np.random.seed(plan["tseed"] % 2**32)

    def make():
        if kind == "knoxlocal":
            return st.KnoxLocal(s, t, delta, tau, permutations=3, keep=True)
        if kind == "quadrat":
            return (RectangleM(s, 3, 3), HexagonM(s, float(np.ptp(s, axis=0).max()) / 3.2),
                    P.QStatistic(s, nx=3, ny=2))
        if kind == "pattern":
            return P.PointPattern(s)
        return P.Window([(-1.0, -1.0), (-1.0, 12.0), (14.0, 12.0), (14.0, -1.0), (-1.0, -1.0)])

    def ask(o, k):
        if kind == "knoxlocal":
            h = o.hotspots(crit=(0.05, 0.3, 0.6, 1.0)[k % 4], inference=("analytic", "permutation")[k // 4 % 2],
                           keep_neighbors=bool(k // 8 % 2))
            return [h.drop(columns="geometry"), ops.knox_state(o)]
        if kind == "quadrat":
            q = o[2]
            return [sorted(o[k % 2].point_location_sta().items()), q.chi2, np.asarray(q.chi2_contrib),
                    sorted(q.mr.point_location_sta().items())]
        if kind == "pattern":
            return [o.knn(1 + k % 2), o.mean_nnd, o.lambda_window, np.asarray(o.mbb), o.unique().df, o.superimpose(o).df,
                    sorted(o.find_pairs(3.0)), o.hull_area]
        return [[np.asarray(p) for p in o.filter_contained(s)], float(o.area)]

    state = np.random.get_state()

    def alone(k):
        np.random.set_state(state)
        return digest(ask(make(), k))

    wants = [core.pristine(lambda k=k: alone(k)) for k in plan["calls"]]
    np.random.set_state(state)
    o = make()
    ctx.probe("shared-object")
    got = threads(ctx, plan, [lambda k=k: digest(ask(o, k)) for k in plan["calls"]])
    for k, g, w in zip(plan["calls"], got, wants):
        ctx.check(g == w, "a concurrent call on a shared object gives another result than alone", lambda: f"{kind} {k} {plan['ev']}")
    for k, w in zip(plan["calls"], wants):
        ctx.check(digest(ask(o, k)) == w, "concurrent use changed the shared object", lambda: f"{kind} {k} {plan['ev']}")
    ctx.log("object", kind, tuple(got))


def pin(plan, schedule):
    return {**plan, "switches": schedule}


def shrink(plan):
    if "hist" in plan:
        yield from core.drops(plan, "hist")
    if "steps" in plan:
        yield from core.drops(plan, "steps")
    if plan["mode"] == "own" and "switches" not in plan and len(plan["ops"]) > 2:
        yield from core.drops(plan, "ops")
    if plan.get("switches"):
        yield from core.drops(plan, "switches")
