"""C05: space-time interaction tests against brute force, permutations chosen by the simulator."""

import itertools
import json

import numpy as np

from .. import core, seams
from ..ops import gen_events, make_events
from ..util import quiet

RUNS = {"quick": 3000, "thorough": 60000}
RULE = (
    "A run draws events, lets the simulator choose every permutation the library asks numpy for "
    "(real, identity, reversal, one transposition, cyclic shift, the same one repeated), runs one "
    "space-time test on them and recomputes statistic, simulated statistics, p-values, tables, "
    "adjacency and hotspots by brute force. Non-trivial: at least one permutation was consumed."
)
REAL = ["pointpats.spacetime", "scipy.spatial.KDTree", "libpysal KNN/Graph", "pandas/geopandas joins"]
STUB = ["numpy.random.permutation/shuffle (return the simulator's permutation)"]
ASSUME = ["statistics are compared with 1e-9 relative tolerance; simulated values that tie with the observed "
          "one within 1e-12 may count either way in mantel"]
EXPECT = ["perm:identity", "perm:reverse", "perm:swap", "perm:cycle", "perm:stuck", "perm:real", "knox", "local",
          "frame", "oldknox", "mantel", "jacquez", "modknox", "hotspots", "no-pairs", "ids:shuffled",
          "zero-permutations", "coincident", "hot-neighbours", "tied-times"]
MODES = ("real", "identity", "reverse", "swap", "cycle", "stuck", "mix")


def plan(r, i, tier):
    return {
        "test": r.choice(("knox", "knox", "local", "local", "local", "oldknox", "mantel", "jacquez", "modknox")),
        "ev": gen_events(r, r.choice((4, 5, 6, 8, 11, 15, 24))),
        "perms": r.choice((0, 1, 2, 5, 9, 19)) if i % 3 else 9,
        "keep": r.random() < 0.75,
        "mode": r.choice(MODES),
        "frame": r.random() < 0.4,
        "ids": r.choice((None, "offset", "shuffled", "str", "reverse")),
        "crit": r.choice((0.05, 0.1, 0.2, 0.35, 0.5)),
        "k": r.choice((1, 2, 3)),
        "ties": r.choice((0, 2, 3, 4)),
        "pk": r.getrandbits(32),
    }


class Script:
    def __init__(self, ctx, mode, k):
        self.ctx, self.mode, self.used = ctx, mode, []
        self.rs = np.random.Generator(np.random.PCG64(k))

    def __call__(self, k, n):
        m = self.mode
        if m == "mix":
            m = ("real", "identity", "swap", "cycle")[int(self.rs.integers(4))]
        if m == "identity":
            p = np.arange(n)
        elif m == "reverse":
            p = np.arange(n)[::-1].copy()
        elif m == "swap":
            p = np.arange(n)
            a, b = self.rs.integers(0, n, 2)
            p[a], p[b] = b, a
        elif m == "cycle":
            p = np.roll(np.arange(n), int(self.rs.integers(0, n)))
        elif m == "stuck" and self.used:
            p = self.used[-1].copy()
        else:
            p = self.rs.permutation(n)
        self.used.append(np.array(p))
        self.ctx.fault("perm:" + m)
        return p


# --------------------------------------------------------------- brute force
def near(a, r):
    a = np.asarray(a, float).reshape(len(a), -1)
    d2 = ((a[:, None, :] - a[None]) ** 2).sum(-1)
    m = d2 <= r * r
    np.fill_diagonal(m, False)
    return m


def ids_for(kind, n, k):
    if kind is None:
        return np.arange(n)
    if kind == "offset":
        return np.arange(n) + 100
    if kind == "reverse":
        return np.arange(n)[::-1].copy()
    p = np.random.Generator(np.random.PCG64(k)).permutation(n)
    return p if kind == "shuffled" else np.array([f"e{i}" for i in p], dtype=object)


def pvals(sim, obs, perms):
    return (np.sum(np.asarray(sim) >= obs) + 1) / (perms + 1)


def run(ctx, plan):
    import scipy.stats as ss
    from pointpats import spacetime as st

    s, t, delta, tau = make_events(plan["ev"])
    n, m, test = len(s), plan["perms"], plan["test"]
    S, T = near(s, delta), near(t, tau)
    sc = Script(ctx, plan["mode"], plan["pk"])
    seams.PERM.script(sc)
    seams.PERM.calls = 0
    ctx.probe(test)
    if m == 0:
        ctx.probe("zero-permutations")
    try:
        if test in ("knox", "local"):
            both(ctx, plan, st, s, t, delta, tau, S, T, sc)
        else:
            old(ctx, plan, st, s, t, delta, tau, S, T, sc)
    finally:
        seams.PERM.fn = None
    if sc.used:
        ctx.nontrivial = True
    ctx.log(test, n, m, [tuple(map(int, p)) for p in sc.used])


def scripted(sc, m):
    """The permutations consumed, or None if the library drew them elsewhere."""
    if not sc.used:
        return None
    return sc.used[:m] if len(sc.used) == m else None


def both(ctx, plan, st, s, t, delta, tau, S, T, sc):
    import scipy.stats as ss

    n, m, keep = len(s), plan["perms"], plan["keep"]
    local = plan["test"] == "local"
    ids = ids_for(plan["ids"], n, plan["pk"]) if (local or plan["frame"]) else np.arange(n)
    if plan["ids"] == "shuffled":
        ctx.probe("ids:shuffled")
    if plan["frame"]:
        import geopandas as gpd

        ctx.probe("frame")
        df = gpd.GeoDataFrame({"a": np.arange(n), "when": t[:, 0]}, index=ids,
                              geometry=gpd.points_from_xy(s[:, 0], s[:, 1]), crs="EPSG:3857")
        cls = st.KnoxLocal if local else st.Knox
        k = quiet(lambda: cls.from_dataframe(df, "when", delta, tau, permutations=m, keep=keep))
    elif local:
        k = quiet(lambda: st.KnoxLocal(s, t, delta, tau, permutations=m, keep=keep, crs="EPSG:3857",
                                       ids=None if plan["ids"] is None else ids))
    else:
        k = quiet(lambda: st.Knox(s, t, delta, tau, permutations=m, keep=keep))
    ctx.judge(lambda: check_global(ctx, plan, k, S, T, sc, keep, local))
    if local:
        ctx.judge(lambda: check_local(ctx, plan, k, s, t, S, T, sc, ids))
        before = core.digest([k.adjlist, k.nsti, k.p_hypergeom])
        hotspots(ctx, plan, k, S & T, ids)
        ctx.check(core.digest([k.adjlist, k.nsti, k.p_hypergeom]) == before, "hotspots() changed the fitted statistics")


def check_global(ctx, plan, k, S, T, sc, keep, local):
    import scipy.stats as ss

    n, m = len(S), plan["perms"]
    ns, nt, nst = S.sum() / 2, T.sum() / 2, (S & T).sum() / 2
    if nst == 0:
        ctx.probe("no-pairs")
    pairs = n * (n - 1) / 2
    ctx.check(k.nst == nst, "the statistic is not the number of close pairs", lambda: f"{k.nst} instead of {nst}")
    if not local:
        ctx.check(k.statistic_ == nst, "the statistic is not the number of close pairs", lambda: f"{k.statistic_}")
    obs = np.array([[nst, ns - nst], [nt - nst, pairs - ns - nt + nst]])
    e = ns * nt / pairs
    exp = np.array([[e, ns - e], [nt - e, pairs - ns - nt + e]])
    ctx.check(np.allclose(k.observed, obs), "observed table", lambda: f"{k.observed} instead of {obs}")
    ctx.check(np.allclose(k.expected, exp), "expected table", lambda: f"{k.expected} instead of {exp}")
    ctx.check(np.isclose(k.p_poisson, 1 - ss.poisson.cdf(nst, e)), "poisson p-value", lambda: f"{k.p_poisson}")
    if m == 0:
        ctx.check(not hasattr(k, "p_sim") and not hasattr(k, "sim"), "inference without permutations")
        return
    ctx.check(hasattr(k, "sim") == bool(keep), "keep does not decide whether simulations are stored")
    sim = None
    if keep:
        sim = np.asarray(k.sim, float)
        ctx.check(sim.shape == (m,), "one simulated statistic per permutation", lambda: f"{sim.shape}")
        ctx.check(np.isclose(k.p_sim, pvals(sim, nst, m)), "the p-value does not follow from the simulations",
                  lambda: f"{k.p_sim} vs {pvals(sim, nst, m)}: {sim} >= {nst}")
        ctx.check((sim == np.round(sim)).all() and (sim >= 0).all() and (sim <= min(ns, nt)).all(),
                  "a simulated statistic is impossible", lambda: f"{sim}")
    # a local test draws m permutations for the global statistic and m for the local ones
    used = sc.used
    if len(used) == (2 * m if local else m):
        want = [(S & T[np.ix_(p, p)]).sum() / 2 for p in used[:m]]
        alt = [(S & T[np.ix_(np.argsort(p), np.argsort(p))]).sum() / 2 for p in used[:m]]
        if sim is not None:
            ctx.check(np.array_equal(sim, want) or np.array_equal(sim, alt),
                      "a simulated statistic is not that of the permuted events", lambda: f"{sim} vs {want}")
        ctx.check(np.isclose(k.p_sim, pvals(want, nst, m)) or np.isclose(k.p_sim, pvals(alt, nst, m)),
                  "the p-value does not follow from the permutations", lambda: f"{k.p_sim} vs {pvals(want, nst, m)}")


def check_local(ctx, plan, k, s, t, S, T, sc, ids):
    import scipy.stats as ss

    n, m, keep = len(S), plan["perms"], plan["keep"]
    ST = S & T
    ctx.check(np.array_equal(np.asarray(k.nsti, float), ST.sum(1)), "local statistics", lambda: f"{k.nsti}")
    ctx.check(np.array_equal(np.asarray(k.statistic_, float), ST.sum(1)), "local statistics", lambda: f"{k.statistic_}")
    nti = T.sum(1)
    hg = [1 - ss.hypergeom.cdf(ST[i].sum() - 1, n - 1, nti, S[i].sum()).mean() for i in range(n)]
    ctx.check(np.allclose(k.p_hypergeom, hg, equal_nan=True), "hypergeometric p-values", lambda: f"{k.p_hypergeom} vs {hg}")
    if m:
        ps = np.asarray(k.p_sims, float)
        ctx.check(ps.shape == (n,), "one local p-value per event")
        ctx.check(hasattr(k, "sims") == bool(keep), "keep does not decide whether simulations are stored")
        if keep:
            sims = np.asarray(k.sims, float)
            ctx.check(sims.shape == (n, m), "one local simulated statistic per event and permutation",
                      lambda: f"{sims.shape}")
            want = ((sims >= ST.sum(1)[:, None]).sum(1) + 1) / (m + 1)
            ctx.check(np.allclose(ps, want), "local p-values do not follow from the simulations",
                      lambda: f"{ps} vs {want}")
            ctx.check((sims <= np.minimum(S.sum(1), T.sum(1))[:, None]).all() and (sims >= 0).all()
                      and (sims == np.round(sims)).all(), "a local simulated statistic is impossible",
                      lambda: f"{sims}")
        if len(sc.used) == 2 * m:
            w = np.zeros((n, m))
            for b, p in enumerate(sc.used[m:]):
                for i in range(n):
                    q = p.copy()
                    q[np.nonzero(p == i)[0]] = p[i]
                    q[i] = i
                    w[i, b] = sum(T[i, q[j]] for j in np.nonzero(S[i])[0])
            if keep:
                ctx.check(np.array_equal(sims, w), "a local simulation is not that of the permuted events",
                          lambda: f"{sims} vs {w}")
            ctx.check(np.allclose(ps, ((w >= ST.sum(1)[:, None]).sum(1) + 1) / (m + 1)),
                      "local p-values do not follow from the permutations", lambda: f"{ps}")
    else:
        ctx.check(not hasattr(k, "p_sims") and not hasattr(k, "sims"), "inference without permutations")
    got = sorted((str(a), str(b), c) for a, b, c in k.adjlist[["focal", "neighbor", "orientation"]].itertuples(index=False))
    want = []
    for i, j in zip(*np.nonzero(ST)):
        o = "lead" if t[i, 0] < t[j, 0] else "lag" if t[i, 0] > t[j, 0] else "coincident"
        if o == "coincident":
            ctx.probe("coincident")
        want.append((str(ids[i]), str(ids[j]), o))
    ctx.check(got == sorted(want), "the adjacency list is not the set of space-time neighbours",
              lambda: f"{got} vs {sorted(want)}")


def hotspots(ctx, plan, k, ST, ids):
    n, m, crit = len(ST), plan["perms"], plan["crit"]
    for inf in ("permutation", "analytic"):
        p = np.asarray(k.p_sims if inf == "permutation" and m else k.p_hypergeom, float)
        sig = p <= crit
        touched = ST[sig].any(0) if sig.any() else np.zeros(n, bool)
        member = (sig & ST.any(1)) | touched
        for kn in (True, False):
            try:
                h = quiet(lambda: k.hotspots(crit=crit, inference=inf, keep_neighbors=kn))
            except Exception as e:  # noqa: BLE001
                ctx.check(not member.any(), "hotspots() fails although there are hotspots",
                          lambda: f"{e!r} at crit {crit}: {p}")
                continue
            ctx.judge(lambda: one_hotspot(ctx, k, h, ST, ids, p, crit, sig, member, kn))


def one_hotspot(ctx, k, h, ST, ids, p, crit, sig, member, kn):
    pos = {str(v): i for i, v in enumerate(ids)}
    lone = sig & ~ST.any(1)  # significant without any space-time neighbour: only p = crit = 1 style ties
    rows = [pos[str(f)] for f in h["focal"]]
    want = {int(i) for i in np.nonzero(member if kn else member & sig)[0]}
    got = {r for r in rows if not lone[r]}
    ctx.check(len(rows) == len(set(rows)) and got == want, "the wrong events are in hotspots",
              lambda: f"{sorted(got)} instead of {sorted(want)} p={p} crit={crit}")
    if kn and (member & ~sig).any():
        ctx.probe("hot-neighbours")
    ctx.probe("hotspots")
    # two members share a cluster exactly when space-time pairs of significant events link them
    E = ST & (sig[:, None] | sig[None])
    comp = list(range(len(ST)))
    for a, b in zip(*np.nonzero(E)):
        ca, cb = comp[a], comp[b]
        if ca != cb:
            comp = [ca if c == cb else c for c in comp]
    pv = {pos[str(f)]: (v, c, g) for f, v, c, g in zip(h["focal"], h["pvalue"], h["cluster"], h["geometry"])}
    for i in got:
        ctx.check(np.isclose(float(pv[i][0]), p[i]), "a hotspot carries another event's p-value",
                  lambda: f"event {i}: {pv[i][0]} vs {p[i]}")
        ctx.check((pv[i][2].x, pv[i][2].y) == tuple(map(float, k.s_coords[i])), "a hotspot carries another event's place")
    for a, b in itertools.combinations(sorted(got), 2):
        ctx.check((pv[a][1] == pv[b][1]) == (comp[a] == comp[b]), "clusters are not the linked groups",
                  lambda: f"events {a}, {b}: {pv[a][1]} {pv[b][1]} components {comp}")


def old(ctx, plan, st, s, t, delta, tau, S, T, sc):
    n, m, test = len(s), plan["perms"], plan["test"]
    k = plan["k"]
    tril = np.tril_indices(n, -1)
    ds = np.sqrt(((s[:, None] - s[None]) ** 2).sum(-1))
    dt = np.abs(t[:, None, 0] - t[None, :, 0]).astype(float)
    loose = 0.0
    if test == "oldknox":
        call = lambda: st.knox(s, t, delta, tau, permutations=m)
        stat = lambda p: (S & T[np.ix_(p, p)]).sum() / 2
    elif test == "modknox":
        call = lambda: st.modified_knox(s, t, delta, tau, permutations=m)
        
        def stat(p):
            q = T[np.ix_(p, p)]
            return ((S & q).sum() - (S.sum(1) * q.sum(1)).sum() / (n - 1.0)) / 2

        loose = 1e-12
    elif test == "mantel":
        if np.ptp(dt[tril]) == 0 or np.ptp(ds[tril]) == 0:
            return
        con = (1.0, -1.0, 1.0, -1.0) if plan["pk"] % 2 else (2.0, 0.5, 0.5, -1.5)
        call = lambda: st.mantel(s, t, m, *con)
        a = (ds[tril] + con[0]) ** con[1]

        def stat(p):
            return np.corrcoef((dt[np.ix_(p, p)][tril] + con[2]) ** con[3], a)[0, 1]

        loose = 1e-12
    else:
        k = min(k, n - 1)
        # ties in either nearest neighbour order make the answer a matter of choice
        s = np.random.Generator(np.random.PCG64(plan["pk"])).uniform(0, 20, (n, 2))
        rt = np.random.Generator(np.random.PCG64(plan["pk"] + 1))
        t = rt.uniform(0, 20, (n, 1))
        if plan["ties"]:
            t = rt.choice([0.0, 1.0, 5.0, 13.0][: plan["ties"]], (n, 1))
            ctx.probe("tied-times")

        def bounds(p):
            """The statistic's smallest and largest value over the ways to break ties in time."""
            d = np.abs(t[p] - t[p].T)
            np.fill_diagonal(d, np.inf)
            lo = hi = 0
            for i in range(n):
                edge = np.sort(d[i])[k - 1]
                sure = set(np.nonzero(d[i] < edge)[0])
                tied = set(np.nonzero(d[i] == edge)[0])
                need = k - len(sure)
                lo += len(sure & ns[i]) + max(0, need - len(tied - ns[i]))
                hi += len(sure & ns[i]) + min(need, len(tied & ns[i]))
            return lo, hi

        def nn(a, k):
            d = np.sqrt(((a[:, None] - a[None]) ** 2).sum(-1))
            np.fill_diagonal(d, np.inf)
            return [set(r[:k]) for r in np.argsort(d, 1)]

        ns = nn(s, k)
        call = lambda: st.jacquez(s, t, k, permutations=m)
        stat = lambda p: sum(len(x & y) for x, y in zip(ns, nn(t[p], k)))
    res = quiet(call)

    def judge():
        one = np.arange(n)
        if test == "jacquez" and plan["ties"]:
            return tied(one)
        obs = stat(one)
        if not isinstance(res, dict):
            ctx.check(not m, "no p-value although permutations were asked for")
            got = float(np.asarray(res).ravel()[0])
        else:
            got = float(np.asarray(res["stat"]).ravel()[0])
        ctx.check(np.isclose(got, obs, rtol=1e-9, atol=1e-9), "the statistic differs from its definition",
                  lambda: f"{test}: {got} vs {obs}")
        if not m:
            ctx.check(not isinstance(res, dict) or "pvalue" not in res, "inference without permutations")
            return
        p = float(np.asarray(res["pvalue"]).ravel()[0])
        x = p * (m + 1) - 1
        ctx.check(abs(x - round(x)) < 1e-9 and 0 <= round(x) <= m, "not a pseudo p-value", lambda: f"{test}: {p} of {m}")
        if len(sc.used) != m:
            return
        ok = []
        cum, c = [], one
        for q in sc.used:  # shuffling one array in place composes the permutations
            c = c[q]
            cum.append(c)
        for seq in (sc.used, cum, [np.argsort(q) for q in sc.used]):
            sim = np.array([stat(q) for q in seq])
            hi = int((sim >= obs - loose * max(1, abs(obs))).sum())
            lo = int((sim >= obs + loose * max(1, abs(obs))).sum()) if loose else hi
            if test == "oldknox":
                ok.append(round(x) == min(hi, m - hi))
            else:
                ok.append(lo <= round(x) <= hi)
        ctx.check(any(ok), "the p-value does not follow from the permutations",
                  lambda: f"{test}: p={p} of {m}, statistic {obs}, simulated {sim}")

    def tied(one):
        got = int(res["stat"] if isinstance(res, dict) else res)
        lo, hi = bounds(one)
        ctx.check(lo <= got <= hi, "the statistic differs from its definition", lambda: f"{test}: {got} not in {lo}..{hi}")
        if not m:
            return
        x = float(res["pvalue"]) * (m + 1) - 1
        ctx.check(abs(x - round(x)) < 1e-9 and 0 <= round(x) <= m, "not a pseudo p-value", lambda: f"{test}: {x} of {m}")
        if len(sc.used) != m:
            return
        cum, c = [], one
        for q in sc.used:
            c = c[q]
            cum.append(c)
        seen = []
        for seq in (sc.used, cum, [np.argsort(q) for q in sc.used]):
            b = [bounds(q) for q in seq]
            seen.append((sum(lo >= got for lo, _ in b), sum(hi >= got for _, hi in b)))
        ctx.check(any(lo <= round(x) <= hi for lo, hi in seen), "the p-value does not follow from the permutations",
                  lambda: f"{test}: {round(x)} of {m} simulations reach {got}; possible: {seen}")

    ctx.judge(judge)


def shrink(plan):
    for key, lo in (("perms", 0),):
        yield from core.smaller_ints(plan, key, lo)
    for key in ("frame", "ids"):
        if plan[key]:
            q = json.loads(json.dumps(plan))
            q[key] = None
            yield q
    for v in (4, 5, 6, 8):
        if v < plan["ev"]["n"]:
            q = json.loads(json.dumps(plan))
            q["ev"]["n"] = v
            yield q
