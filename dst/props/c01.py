"""C01: generators deliver exactly what was asked for, whatever the stream does."""

import math

import numpy as np

from .. import seams
from ..core import smaller_ints
from ..util import ODD, gen_hull, hull_area, hull_scale, inside, make_hull, quiet, sample_in

RUNS = {"quick": 2400, "thorough": 60000}
RULE = (
    "A run draws a generator, a hull, a count/replication/intensity request and a random "
    "stream fault profile, makes 1-3 successive calls on one stream and checks every returned "
    "array. Non-trivial: the stream deviated at least once during a call that returned points."
)
REAL = ["pointpats.random", "pointpats.geometry", "numpy distributions", "shapely/GEOS", "scipy.spatial"]
STUB = ["the bit generator behind numpy.random.Generator (SimBitGen: seeded, adversarial)"]
ASSUME = [
    "the stream eventually stops misbehaving (bursts are finite)",
    "containment is judged with a tolerance of 1e-9 of the hull's extent",
]
EXPECT = ["extreme", "repeat", "stuck", "tiny", "low", "high", "reps>1", "rejected-request"]
GENS = ("poisson", "normal", "cluster_poisson", "cluster_normal", "strauss")


def plan(r, i, tier):
    calls = []
    stream = {}
    for k in seams.SimBitGen.KINDS:
        if r.random() < 0.4:
            stream[k] = r.choice((0.002, 0.02, 0.08)) if k in ("stuck", "low", "high") else r.choice((0.02, 0.1, 0.3))
    if i % 9 == 0:
        stream = {}
    for _ in range(r.choice((1, 1, 2, 3))):
        calls.append(call(r))
    return {"calls": calls, "stream": stream, "burst": r.choice((4, 20, 80)), "sseed": r.getrandbits(40)}


def call(r):
    g = r.choice(GENS)
    kinds = None
    if g == "strauss":
        kinds = ("bbox", "points", "polygon", "multi", "tiny")
    elif g != "poisson" and r.random() < 0.5:
        kinds = ("bbox", "polygon", "multi", "holed", "offset", "tiny", "sliver")
    if r.random() < 0.35:
        kinds = ODD
    hull = gen_hull(r, kinds) if kinds else gen_hull(r)
    reps = r.choice((1, 1, 2, 3))
    n = r.choice((0, 1, 2, 3, 5, 8, 13, 30)) if g != "strauss" else r.choice((1, 2, 3, 5, 9))
    c = {"g": g, "hull": hull, "n": n, "reps": reps}
    how = r.choice(("int", "tuple", "tuple", "intensity", "intensity_reps", "frac"))
    if g in ("normal", "cluster_normal") and how not in ("int", "tuple"):
        how = "tuple"
    if hull["kind"] == "convex" and reps > 1:
        c["n"] = min(n, 5)
    c["how"] = how
    if how == "int" or how == "intensity":
        c["reps"] = 1
    if g == "normal":
        c["cov"] = r.choice(("default", "float", "matrix", "stack"))
        c["center"] = r.choice((None, r.getrandbits(30)))
        if c["cov"] == "stack" and how == "tuple":
            c["reps"] = r.choice((1, 2, 3, 4, 6)) if hull["kind"] != "convex" else 2
            c["n"] = min(c["n"], 13)
        c["tiny"] = [r.random() < 0.5 for _ in range(6)]
    if g == "cluster_poisson":
        c["seeds"] = r.choice((2, 2, 3, 4))
        c["radius"] = r.choice(("default", "float", "list", "array"))
        if c["radius"] != "default" and r.random() < 0.2:
            c["seeds"] = 1
        c["rk"] = [r.choice((0.02, 0.1, 0.3, 0.6)) for _ in range(4)]
    if g == "cluster_normal":
        c["seeds"] = r.choice((2, 2, 3, 4))
        c["cov"] = r.choice(("default", "matrix", "matrix"))
    if g == "strauss":
        c["gamma"] = r.choice((0.3, 0.6, 1.0))
        c["r"] = r.choice((0.01, 0.1))
        c["n_iter"] = r.choice((0, 5, 40))
    return c


def expected(c):
    area = hull_area(c["hull"])
    n = c["n"]
    if c["how"] == "int":
        return {"size": n}, n, 1
    if c["how"] == "tuple":
        return {"size": (n, c["reps"])}, n, c["reps"]
    if c["how"] == "intensity":
        return {"intensity": n / area}, n, 1
    if c["how"] == "intensity_reps":
        return {"intensity": n / area, "size": c["reps"]}, n, c["reps"]
    x = n + 0.37
    return {"intensity": x / area, "size": c["reps"]}, n, c["reps"]


def run(ctx, plan):
    import pointpats.random as pr

    bg = seams.SimBitGen(plan["sseed"], plan["stream"], plan["burst"])
    rng = bg.generator()
    for c in plan["calls"]:
        before = sum(bg.fired.values())
        c = {**c, "unlucky": bool(plan["stream"])}
        kw, n, reps = expected(c)
        scale = hull_scale(c["hull"])
        hull = make_hull(c["hull"])
        g = c["g"]
        must = True
        sds = center = radii = None
        if g == "normal":
            if c["center"] is not None:
                import random

                center = sample_in(c["hull"], random.Random(c["center"]), 1)[0]
                kw["center"] = tuple(center)
            s = 0.02 * scale if c["hull"]["kind"] not in ("sliver", "strip") else 0.001 * scale
            if c["cov"] == "float":
                kw["cov"] = float(scale * 0.3) ** 2
            elif c["cov"] == "matrix":
                kw["cov"] = np.diag([s * s, s * s])
                sds = [s] * reps
            elif c["cov"] == "stack":
                sds = [s * (1 + 0.5 * k) for k in range(reps)]
                if center is not None:
                    sds = [q / 1e3 if t else q for q, t in zip(sds, c["tiny"])]
                kw["cov"] = np.array([np.diag([q * q, q * q]) for q in sds])
            if center is None and c["hull"]["kind"] in ("holed", "multi", "polygon", *ODD):
                # the default centre may lie outside such a hull: keep it reachable
                kw["cov"] = float(scale * 0.5) ** 2
                sds = None
        elif g == "cluster_poisson":
            k = c["seeds"]
            kw["n_seeds"] = k
            radii = [f * scale for f in c["rk"][:k]]
            if c["hull"]["kind"] in ("sliver", "strip"):
                radii = [f * scale / 40 for f in c["rk"][:k]]
            if c["radius"] == "float":
                radii = radii[:1] * k
                kw["cluster_radius"] = radii[0]
            elif c["radius"] == "list":
                kw["cluster_radius"] = list(radii)
            elif c["radius"] == "array":
                kw["cluster_radius"] = np.array(radii)
            else:
                radii = None
            must = n >= k
        elif g == "cluster_normal":
            k = c["seeds"]
            kw["n_seeds"] = k
            if c["cov"] == "matrix":
                s = 0.004 * scale if c["hull"]["kind"] not in ("sliver", "strip") else 0.0002 * scale
                kw["cov"] = np.diag([s * s, s * s])
                sds = [s] * reps
            must = n >= k
        elif g == "strauss":
            kw.update(gamma=c["gamma"], r=c["r"] * scale, n_iter=c["n_iter"])
        try:
            out = quiet(lambda: getattr(pr, g)(hull, rng=rng, **kw))
        except (seams.StreamExhausted, MemoryError):
            raise
        except Exception as e:  # noqa: BLE001
            if must:
                # coincident seeds make the default radius or covariance degenerate
                if g == "cluster_normal" and c["cov"] == "default" and plan["stream"]:
                    ctx.probe("degenerate-seeds")
                    ctx.log(g, "err")
                    continue
                ctx.fail("a valid request was refused", f"{g} {c}: {e!r}")
            ctx.probe("rejected-request")
            ctx.log(g, "err")
            continue
        ctx.check(must, "an impossible request was answered", f"{c}")
        ctx.judge(lambda: verify(ctx, c, out, n, reps, radii, sds, center, scale))
        ctx.log(g, np.asarray(out).tobytes())
        if reps > 1:
            ctx.probe("reps>1")
        if n and sum(bg.fired.values()) > before:
            ctx.nontrivial = True
        if not plan["stream"]:
            ctx.probe("fault-free")
    for k, v in bg.fired.items():
        ctx.fault(k, v)
    ctx.extra["draws"] = bg.n


def verify(ctx, c, out, n, reps, radii, sds, center, scale):
    g, d = c["g"], c["hull"]
    want = (n, 2) if reps == 1 else (reps, n, 2)
    ctx.check(isinstance(out, np.ndarray) and out.shape == want, "wrong number of points",
              lambda: f"{g}: {getattr(out, 'shape', type(out))} instead of {want} for {c}")
    ctx.check(np.isfinite(out).all(), "non-finite coordinates", lambda: f"{c}")
    ok = inside(d, out)
    ctx.check(ok.all(), "point outside the hull",
              lambda: f"{g}: {out.reshape(-1, 2)[~ok][:3]} outside {d}")
    eps = 1e-9 * scale + 1e-14 * float(np.abs(out).max(initial=0))
    for k, rep in enumerate(out.reshape((reps, n, 2))):
        if g.startswith("cluster"):
            ng = c["seeds"]
            groups = np.array_split(rep, ng)
            seeds = np.array([q[0] for q in groups])
            rad = radii
            if g == "cluster_poisson" and rad is None:
                dm = [math.dist(a, b) for x, a in enumerate(seeds) for b in seeds[:x]]
                rad = [min(dm) / 2] * ng
            if g == "cluster_normal":
                rad = None if sds is None else [sds[k] * 40 * 2] * ng
            if rad is not None:
                for q, (grp, rr) in enumerate(zip(groups, rad)):
                    far = np.hypot(*(grp - grp[0]).T).max()
                    ctx.check(far <= rr + eps, "cluster member beyond its cluster's radius",
                              lambda: f"{g} replication {k} cluster {q}: {far} > {rr}; {c}")
                    if len(grp) > 1 and g == "cluster_normal":
                        # a normal draw never lands on its centre in a healthy stream
                        pass
        if g == "normal" and sds is not None and center is not None and n:
            far = np.hypot(*(rep - center).T).max()
            ctx.check(far <= 80 * sds[k] + eps, "normal draw ignores its centre or covariance",
                      lambda: f"replication {k}: {far} vs sd {sds[k]}; {c}")
            # a draw this near the centre has a probability below 1e-9 in a healthy stream
            ctx.check(bool(c.get("unlucky")) or far >= 1e-5 * sds[k] - eps, "normal draw ignores its centre or covariance",
                      lambda: f"replication {k}: {far} vs sd {sds[k]}; {c}")


def shrink(plan):
    import json

    cs = plan["calls"]
    for i in range(len(cs)):
        if len(cs) > 1:
            q = json.loads(json.dumps(plan))
            q["calls"] = cs[:i] + cs[i + 1 :]
            yield q
    for k in list(plan["stream"]):
        q = json.loads(json.dumps(plan))
        del q["stream"][k]
        yield q
    for i in range(len(cs)):
        for key in ("n", "reps"):
            for cand in smaller_ints(cs[i], key, 1):
                q = json.loads(json.dumps(plan))
                q["calls"][i] = cand
                yield q
