"""C02: a seed decides the result, and only the caller's stream is touched."""

import json
import os
import subprocess
import sys

import numpy as np

from .. import core, ops, seams
from ..core import digest

RUNS = {"quick": 1500, "thorough": 40000}
RULE = (
    "A run picks seeded calls, computes each in a pristine fork under other ambient state "
    "(entropy, global generators, clock, process id), then repeats them after a random history "
    "of other calls, reseedings and failing calls, some in interleaved threads. Non-trivial: "
    "at least one history event or thread switch separates the call from its baseline."
)
REAL = ["pointpats.random", "pointpats.quadrat_statistics", "pointpats.spacetime permutation tests",
        "pointpats.process", "numpy.random"]
STUB = ["operating system entropy, clocks, pid, number of processors, host name (seeded)", "thread scheduler (line-level, seeded)"]
ASSUME = ["numpy's own generators are deterministic", "one numpy build: streams are compared within it"]
EXPECT = ["seed0", "threads", "global-reseed", "legacy", "stream-continued", "entropy-change", "failing-call",
          "seed-object-reused", "other-machine", "setting-changed"]


def plan(r, i, tier):
    mode = r.choice(("history", "history", "stream", "legacy", "threads"))
    p = {"mode": mode}
    rk = ("int", "gen", "npint", "seq") if mode in ("history", "threads") else ("gen",)
    if mode == "legacy":
        p["subject"] = ops.gen(r, ops.LEGACY)
        p["lseed"] = r.choice((0, 1, r.randrange(2**32)))
    elif mode == "stream":
        p["subject"] = ops.gen(r, ops.SEEDED, rng_kinds=("gen",), small=True)
        p["sseed"] = ops.gen_seed(r)
        p["times"] = r.choice((2, 3))
    elif mode == "threads":
        p["subjects"] = [ops.gen(r, ops.SEEDED, rng_kinds=rk, small=True) for _ in range(r.choice((2, 3)))]
        p["tseed"] = r.getrandbits(32)
        p["tp"] = r.choice((0.02, 0.1, 0.4))
    else:
        p["subject"] = ops.gen(r, ops.SEEDED, rng_kinds=rk)
    p["hist"] = [event(r) for _ in range(r.choice((1, 2, 4)))]
    return p


def event(r):
    k = r.choice(("op", "op", "op", "reseed", "draw", "fail", "entropy", "clock", "pyrandom", "machine", "setting"))
    e = {"e": k}
    if k == "op":
        e["op"] = ops.gen(r, ops.SEEDED + ops.LEGACY[:8] + ("ppp", "g", "k"),
                          rng_kinds=("int", "gen", "none"), small=True)
    if k in ("reseed", "entropy", "pyrandom"):
        e["v"] = r.randrange(2**31)
    if k == "machine":
        e["v"] = r.choice((1, 2, 3, 5, 64, 192))
    if k == "setting":
        e["v"] = r.randrange(5)
    if k == "draw":
        e["v"] = r.choice((1, 3, 700))
    return e


def play(ctx, ev):
    import random

    k = ev["e"]
    if k == "op":
        ops.build(ev["op"]).attempt()
    elif k == "reseed":
        np.random.seed(ev["v"])
        ctx.probe("global-reseed")
    elif k == "draw":
        np.random.random(ev["v"])
    elif k == "fail":
        import pointpats.random as pr

        try:
            pr.poisson(np.array([0.0, 0.0, 1.0, 1.0]), size="seven", rng=3)
        except Exception:  # noqa: BLE001
            ctx.probe("failing-call")
    elif k == "entropy":
        seams.ENTROPY.reset(ev["v"])
        ctx.probe("entropy-change")
    elif k == "clock":
        seams.CLOCK.advance(86400.0 * 365)
    elif k == "pyrandom":
        random.seed(ev["v"])
    elif k == "machine":
        seams.MACHINE.cores, seams.MACHINE.host = ev["v"], f"node{ev['v']}"
        ctx.probe("other-machine")
    elif k == "setting":
        setting(ev["v"])
        ctx.probe("setting-changed")


def setting(v):
    """Something of the process that is none of a seeded computation's business."""
    import gc

    import pandas as pd

    if v == 0:
        np.set_printoptions(precision=2, threshold=3, suppress=True)
    elif v == 1:
        pd.set_option("display.precision", 1, "display.max_rows", 4)
    elif v == 2:
        os.chdir(os.environ.get("DST_SCRATCH", "/tmp"))
    elif v == 3:
        gc.disable()
    else:
        os.environ.update(TZ="Pacific/Auckland", LANG="tr_TR.UTF-8", OMP_NUM_THREADS="3", JOBLIB_TEMP_FOLDER="/tmp")


def baseline(fn, salt):
    """fn() in a fork whose ambient state differs from this process's."""

    def go():
        seams.reset(salt, salt + 17)
        seams.CLOCK.advance(1e6)
        seams.MACHINE.cores, seams.MACHINE.host = 1 + salt, f"base{salt}"
        return fn()

    return core.pristine(go)


def stream_run(d, seed, times):
    g = np.random.Generator(np.random.PCG64(seed))
    out = []
    for _ in range(times):
        out.append(digest(ops.build(d, rng=g).attempt()))
    return out, digest(repr(g.bit_generator.state))


def legacy_run(d, seed):
    np.random.seed(seed)
    return digest(ops.build(d).attempt())


def run(ctx, plan):
    mode = plan["mode"]
    if mode == "legacy":
        want = baseline(lambda: legacy_run(plan["subject"], plan["lseed"]), 1)
        for e in plan["hist"]:
            play(ctx, e)
        got = legacy_run(plan["subject"], plan["lseed"])
        ctx.check(got == want, "np.random.seed does not decide the result", lambda: f"{plan['subject']}")
        for e in plan["hist"]:
            play(ctx, e)
        got = legacy_run(plan["subject"], plan["lseed"])
        ctx.check(got == want, "np.random.seed does not decide the result", lambda: f"again: {plan['subject']}")
        ctx.probe("legacy")
        ctx.nontrivial = True
        ctx.log("legacy", plan["subject"]["op"], got)
        return
    if mode == "stream":
        d = plan["subject"]
        want = baseline(lambda: stream_run(d, plan["sseed"], plan["times"]), 2)
        g = np.random.Generator(np.random.PCG64(plan["sseed"]))
        got = []
        start = digest(repr(g.bit_generator.state))
        for _ in range(plan["times"]):
            for e in plan["hist"]:
                play(ctx, e)
            before = seams.global_state()["np.random"]
            got.append(digest(ops.build(d, rng=g).attempt()))
            ctx.check(seams.global_state()["np.random"] == before,
                      "the global random state was touched", lambda: f"{d}")
        end = digest(repr(g.bit_generator.state))
        ctx.check(got == want[0], "a Generator's stream does not decide the results", lambda: f"{d}")
        ctx.check(end == want[1], "the Generator is left in another state", lambda: f"{d}")
        ctx.check(end != start, "the caller's Generator was not advanced", lambda: f"{d}")
        ctx.check(d["op"] != "gen" or len(set(got)) == len(got), "successive calls on one Generator repeat each other",
                  lambda: f"{d}")
        ctx.probe("stream-continued")
        ctx.nontrivial = True
        ctx.log("stream", tuple(got), end)
        return
    subjects = plan["subjects"] if mode == "threads" else [plan["subject"]]
    wants = [baseline(lambda d=d: digest(ops.build(d).attempt()), 3 + i) for i, d in enumerate(subjects)]
    for d in subjects:
        if d["rng"]["seed"] == 0:
            ctx.probe("seed0")
    for rnd in range(2):
        for e in plan["hist"]:
            play(ctx, e)
        before = seams.global_state()
        built = [ops.build(d) for d in subjects]
        if mode == "threads":
            outs, il = seams.interleave([lambda o=o: digest(o.attempt()) for o in built],
                                        seed=plan["tseed"] + rnd, p=plan["tp"],
                                        switches=plan["switches"][rnd] if "switches" in plan else None)
            got = []
            for o in outs:
                if o[0] == "exc":
                    raise o[1]
                got.append(o[1])
            ctx.schedule = (ctx.schedule or []) + [il.trace]
            ctx.probe("threads")
            ctx.probe("thread-switches", len(il.trace))
        else:
            got = [digest(o.attempt()) for o in built]
        for d, g, w in zip(subjects, got, wants):
            ctx.check(g == w, "the seed does not decide the result",
                      lambda: f"{d} after {[e['e'] for e in plan['hist']]}")
        after = seams.global_state()
        for k in ("np.random", "random"):
            ctx.check(before[k] == after[k], "the global random state was touched",
                      lambda: f"{k} by {[d['op'] + ':' + d.get('g', '') for d in subjects]}")
        ctx.log(mode, tuple(got))
    if mode == "history":
        reuse(ctx, subjects[0], wants[0], plan)
    ctx.nontrivial = True


def reuse(ctx, d, want, plan):
    """One seed object (not a stream) handed to call after call decides the same each time."""
    kind, s = d["rng"]["kind"], d["rng"]["seed"]
    if kind not in ("int", "npint", "seq"):
        return
    obj = ops.make_rng(d["rng"])
    for rnd in range(3):
        got = digest(ops.build(d, rng=obj).attempt())
        ctx.check(got == want, "the seed does not decide the result", lambda: f"{d}: use {rnd} of one {kind} seed object")
        if rnd == 0:
            for e in plan["hist"]:
                play(ctx, e)
    if kind == "seq":
        ctx.check(obj.n_children_spawned == 0 and obj.entropy == s, "the caller's SeedSequence was changed",
                  lambda: f"{d}: {obj}")
    ctx.probe("seed-object-reused")


def pin(plan, schedule):
    if plan["mode"] != "threads":
        return plan
    return {**plan, "switches": schedule}


def shrink(plan):
    yield from core.drops(plan, "hist")
    for rnd, sw in enumerate(plan.get("switches", [])):
        n = len(sw)
        size = n
        while size:
            for s in range(0, n, size):
                q = json.loads(json.dumps(plan))
                q["switches"][rnd] = sw[:s] + sw[s + size :]
                yield q
            size //= 2


def subjects_for(seed, n):
    import random

    out = []
    for i in range(n):
        r = random.Random(f"C02-interp:{seed}:{i}")
        if i % 3 == 0:
            out.append(("legacy", ops.gen(r, ops.LEGACY), r.randrange(2**32)))
        else:
            out.append(("seeded", ops.gen(r, ops.SEEDED, rng_kinds=("int", "gen")), 0))
    return out


def interp_digests(seed, n):
    out = []
    for kind, d, s in subjects_for(seed, n):
        np.random.seed((s + os.getpid()) % 2**32)
        out.append(legacy_run(d, s) if kind == "legacy" else digest(ops.build(d).attempt()))
    return out


def final(seed, tier):
    """The same calls in fresh interpreters under other hash seeds."""
    n = 60 if tier == "quick" else 400
    want = core.pristine(lambda: interp_digests(seed, n), 600)
    seeds = ("1", "7777") if tier == "quick" else ("1", "2", "3", "7777", "31337")
    for hs in seeds:
        env = {k: v for k, v in os.environ.items() if k not in ("DST_ENV", "PYTHONHASHSEED")}
        env["DST_HASHSEED"] = hs
        code = (
            "import sys; from dst import core; core.boot(); from dst.props import c02;"
            f"print('DIGESTS', ' '.join(c02.interp_digests({seed}, {n})))"
        )
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], cwd=core.VERIF,
                           env={**env, "PYTHONHASHSEED": hs}, capture_output=True, text=True, timeout=600)
        line = [x for x in p.stdout.splitlines() if x.startswith("DIGESTS")]
        if not line:
            raise seams.HarnessError(f"fresh interpreter failed: {p.stderr[-800:]}")
        got = line[0].split()[1:]
        for i, (a, b) in enumerate(zip(want, got)):
            if a != b:
                return {"kind": "another interpreter gives another result",
                        "detail": f"PYTHONHASHSEED={hs}: {subjects_for(seed, n)[i]}"}, None
    return None, {"interpreters": len(seeds) + 1, "calls_compared": n * len(seeds)}
