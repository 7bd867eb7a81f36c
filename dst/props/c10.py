"""C10: reading events from disk gives the stored data or an exception."""

import datetime
import json
import os
import shutil
import struct
import tempfile

import numpy as np

from .. import core, seams
from ..util import quiet

RUNS = {"quick": 3000, "thorough": 80000}
RULE = (
    "A run writes a shapefile, its index and its table with a writer of its own, reads them through "
    "SpaceTimeEvents on a simulated disk with a small buffer, and then again while an operation fails, a "
    "file is cut (before or during the reading), a companion is missing, the record counts differ or the "
    "call is interrupted: the outcome must be the stored data or an exception, with every handle closed, "
    "and a last undisturbed reading must succeed. Non-trivial: a fault fired."
)
REAL = ["pointpats.spacetime.SpaceTimeEvents", "libpysal shapefile and dbf readers", "Python's buffered I/O"]
STUB = ["raw file operations under the scratch directory"]
ASSUME = ["handles a libpysal reader's constructor leaks when it fails are libpysal's",
          "an interruption between a reader's construction and the next statement may find it in nobody's hands",
          "a number cell that is empty in the table is delivered as missing (None)"]
EXPECT = ["EIO", "EACCES", "EMFILE", "ENOENT", "short", "cut", "cut-before", "missing", "counts", "interrupt", "bad-column",
          "raised", "complete", "type:int", "type:real", "type:float", "type:date", "type:text", "infer", "pointz",
          "upper", "relative", "pathlike-dots", "close-error", "one-event", "blank"]
TYPES = ("int", "real", "float", "date", "text")


def plan(r, i, tier):
    p = {"n": r.choice((1, 2, 3, 5, 9, 17, 40)), "type": r.choice(TYPES), "col": r.randrange(4),
         "infer": r.random() < 0.5, "pointz": r.random() < 0.2, "spell": r.choice(("plain", "plain", "upper", "relative", "dots", "unicode", "shx")),
         "buf": r.choice((16, 32, 100, 512, 8192)), "short": r.choice((0, 0, 0, 1, 7, 40)), "k": r.getrandbits(32),
         "blank": r.random() < 0.08, "faults": []}
    for _ in range(r.choice((1, 1, 2, 3))):
        kind = r.choice(("ops", "ops", "ops", "cut-before", "cut-before", "missing", "counts", "interrupt", "bad-column", "cut"))
        f = {"kind": kind, "file": r.choice(("shp", "shx", "dbf", "dbf")), "at": r.random()}
        if kind == "ops":
            f["errs"] = [[r.random(), r.choice(("EIO", "EIO", "EACCES", "EMFILE", "ENOENT", "short"))] for _ in range(r.choice((1, 1, 1, 2)))]
        if kind in ("cut", "cut-before"):
            f["keep"] = r.choice((0.0, 0.5, round(r.random(), 3), round(1 - r.random() ** 4, 4), 0.999))
            f["bytes"] = r.choice((None, None, 1, 2, 3, 9, 20))
        if kind == "counts":
            f["by"] = r.choice((-1, 1, -2, 5))
        if kind == "interrupt":
            f["exc"] = r.choice(("KeyboardInterrupt", "MemoryError"))
        p["faults"].append(f)
    return p


class Files:
    """The stored events, and a byte-level writer for them."""

    def __init__(self, plan):
        g = np.random.Generator(np.random.PCG64(plan["k"]))
        n = plan["n"]
        self.n, self.type, self.z = n, plan["type"], plan["pointz"]
        scale = (1.0, 1e-3, 1e6)[int(g.integers(3))]
        self.xy = np.round(g.uniform(-1, 1, (n, 2)), 6) * scale + (0.0, 1e5)[int(g.integers(2))]
        if g.random() < 0.3:
            self.xy[-1] = self.xy[0]
        t = self.type
        if t == "int":
            v = [int(x) for x in g.integers(-999, 40000, n)]
        elif t == "real":
            v = [float(x) / 100 for x in g.integers(-9999, 99999, n)]
        elif t == "float":
            v = [float(x) / 8 for x in g.integers(-9999, 99999, n)]
        elif t == "date":
            v = [datetime.date(1890, 1, 1) + datetime.timedelta(int(x)) for x in g.integers(0, 60000, n)]
        else:
            v = ["ev%03d" % x for x in g.integers(0, 999, n)]
        self.blank = None
        if plan["blank"] and t != "text":
            self.blank = int(g.integers(n))
            v[self.blank] = None
        self.values = v
        self.other = [int(x) for x in g.integers(0, 99999, n)]
        self.pos = plan["col"]

    def shp(self):
        n, code, words = self.n, (11 if self.z else 1), (18 if self.z else 10)
        lo, hi = self.xy.min(0), self.xy.max(0)
        recs, index = b"", b""
        for i, (x, y) in enumerate(self.xy):
            index += struct.pack(">ii", (100 + len(recs)) // 2, words)
            recs += struct.pack(">ii", i + 1, words) + struct.pack("<idd", code, x, y)
            if self.z:
                recs += struct.pack("<dd", 7.0 + i, 3.0)

        def head(size):
            return (struct.pack(">7i", 9994, 0, 0, 0, 0, 0, (100 + size) // 2)
                    + struct.pack("<ii8d", 1000, code, *lo, *hi, 0.0, 0.0, 0.0, 0.0))

        return head(len(recs)) + recs, head(len(index)) + index

    def dbf(self, by=0):
        kinds = {"int": ("N", 9, 0), "real": ("N", 11, 2), "float": ("F", 13, 3), "date": ("D", 8, 0), "text": ("C", 7, 0)}
        cols = [("ID", ("N", 6, 0), self.other), ("NOTE", ("C", 5, 0), ["x"] * self.n), ("DAY2", ("D", 8, 0), [datetime.date(1999, 9, 9)] * self.n)]
        cols.insert(self.pos, ("T", kinds[self.type], self.values))

        def cell(spec, v):
            t, size, dec = spec
            if v is None:
                return b" " * size
            if t in "NF":
                return (f"{v:{size}.{dec}f}" if dec else f"{v:{size}d}").encode()
            if t == "D":
                return v.strftime("%Y%m%d").rjust(8, "0").encode()
            return str(v)[:size].ljust(size).encode()

        n = self.n + by
        rows = [b" " + b"".join(cell(s, c[i % self.n]) for _, s, c in cols) for i in range(max(0, n))]
        out = struct.pack("<BBBBLHH20x", 3, 99, 1, 1, len(rows), 32 * len(cols) + 33, 1 + sum(s[1] for _, s, _ in cols))
        for name, (t, size, dec), _ in cols:
            out += struct.pack("<11sc4xBB14x", name.encode(), t.encode(), size, dec)
        return out + b"\r" + b"".join(rows) + b"\x1a"

    def write(self, base, dbf_by=0):
        shp, shx = self.shp()
        for ext, data in (("shp", shp), ("shx", shx), ("dbf", self.dbf(dbf_by))):
            with open(f"{base}.{ext}", "wb") as f:
                f.write(data)


def verify(ctx, ev, want, plan, when):
    """The events are exactly what is stored."""
    def go():
        n = want.n
        ctx.check(ev.n == n, "wrong number of events", lambda: f"{ev.n} for {n} {when}")
        for name, arr, shape in (("x", ev.x, (n, 1)), ("y", ev.y, (n, 1)), ("space", ev.space, (n, 2)), ("t", ev.t, (n, 1)), ("time", ev.time, (n, 2))):
            ctx.check(isinstance(arr, np.ndarray) and arr.shape == shape, "events have another shape",
                      lambda: f"{name} {np.shape(arr)} instead of {shape} {when}")
        ctx.check((ev.space == want.xy).all() and (ev.x[:, 0] == want.xy[:, 0]).all() and (ev.y[:, 0] == want.xy[:, 1]).all(),
                  "coordinates differ from those stored", lambda: f"{ev.space[:4]} for {want.xy[:4]} {when}")
        vals = want.values
        if plan["infer"] and want.type == "date" and want.blank is None:
            day1 = min(vals)
            vals = [(v - day1).days for v in vals]
        got = list(ev.t[:, 0])
        ctx.check(len(got) == len(vals) and all(same(a, b) for a, b in zip(got, vals)), "times differ from those stored",
                  lambda: f"{got[:6]} for {vals[:6]} {when}")
        ctx.check(all(same(a, b) for a, b in zip(ev.time[:, 0], vals)) and all(float(v) == 1 for v in ev.time[:, 1]),
                  "the time array differs from the times", lambda: f"{ev.time[:4]} {when}")

    ctx.judge(go)


def same(a, b):
    if b is None:
        return a is None or a != a
    if isinstance(b, str):
        return isinstance(a, str) and a == b
    if isinstance(b, datetime.date):
        return isinstance(a, datetime.date) and a == b
    return not isinstance(a, (str, datetime.date)) and a is not None and a == b


def run(ctx, plan):
    top = tempfile.mkdtemp(prefix="dst-c10-")
    cwd = os.getcwd()
    try:
        scenario(ctx, plan, top)
    finally:
        os.chdir(cwd)
        shutil.rmtree(top)


def scenario(ctx, plan, top):
    from libpysal.io.iohandlers.pyDbfIO import DBF
    from libpysal.io.iohandlers.pyShpIO import PurePyShpWrapper

    from pointpats.spacetime import SpaceTimeEvents

    want = Files(plan)
    name = {"dots": "a.b.shp.d", "unicode": "événements 1"}.get(plan["spell"], "ev")
    os.mkdir(os.path.join(top, "v1.0 x"))
    base = os.path.join(top, "v1.0 x", name)
    path = base + {"upper": ".SHP", "shx": ".shx"}.get(plan["spell"], ".shp")
    if plan["spell"] == "relative":
        os.chdir(top)
        path = os.path.relpath(path, top)
        ctx.probe("relative")
    if plan["spell"] == "upper":
        ctx.probe("upper")
    if plan["spell"] == "dots":
        ctx.probe("pathlike-dots")
    ctx.probe("type:" + want.type)
    for flag in ("infer", "pointz"):
        if plan[flag]:
            ctx.probe(flag)
    if want.n == 1:
        ctx.probe("one-event")

    def attempt(disk_plan, what, col="T", at=None, exc=None):
        """One reading on a disk of its own: (events or None, disk)."""
        disk = seams.SimDisk(top, disk_plan, plan["buf"])
        disk.shorten = plan["short"]
        undo = [disk.constructor(c) for c in (PurePyShpWrapper, DBF)]
        before = seams.global_state()
        lc = seams.LineCounter(at=at, exc=exc) if at else None
        ev = err = None
        try:
            with disk:
                if lc:
                    with lc:
                        ev = quiet(lambda: SpaceTimeEvents(path, col, infer_timestamp=plan["infer"]))
                else:
                    ev = quiet(lambda: SpaceTimeEvents(path, col, infer_timestamp=plan["infer"]))
        except seams.HarnessError:
            raise
        except BaseException as e:  # noqa: BLE001
            err = type(e).__name__
        finally:
            for u in undo:
                u()
        if lc and lc.fired:
            ctx.fault("interrupt")
            ctx.nontrivial = True
            ctx.check(err is not None, "an interruption was swallowed", lambda: f"{exc!r} {lc.fired}")
            disk.excuse_fresh()
        for k, v in disk.fired.items():
            ctx.fault(k, v)
            ctx.nontrivial = True
        if any(disk.plan.get(i + 1) and w == "close" and disk.plan[i + 1][0] == "EIO" for i, (w, _) in enumerate(disk.log)):
            ctx.probe("close-error")
            # a reader whose own close failed may have left its other file
            for h in disk.handles:
                if not h.done and os.path.splitext(h.path)[1] == ".shp":
                    h.lost = True
        left = [os.path.basename(h.path) for h in disk.open_handles()]
        ctx.check(not left, "a file was left open", lambda: f"{left} after {what} ({err}), operations {disk.log[-6:]}")
        ctx.check(seams.global_state() == before, "reading events changed process-wide state", lambda: what)
        ctx.probe("raised" if err else "complete")
        ctx.log(what, err, disk.ops)
        return ev, err, disk

    def stored(dbf_by=0):
        want.write(base, dbf_by)

    stored()
    ev, err, disk = attempt({}, "an undisturbed reading")
    if want.blank is None:
        ctx.check(err is None, "reading intact files failed", lambda: f"{err} {json.dumps(plan)}")
    else:
        ctx.probe("blank")
    if ev is not None:
        verify(ctx, ev, want, plan, "from intact files")
    ops = disk.ops
    lines = None
    for f in plan["faults"]:
        kind, col, dp, at, exc = f["kind"], "T", {}, None, None
        what = json.dumps(f)
        target = f"{base}.{f['file']}"
        if kind == "ops":
            for frac, code in f["errs"]:
                dp[1 + int(frac * ops)] = [code]
        elif kind == "cut":
            dp[1 + int(f["at"] * ops)] = ["cut", os.path.relpath(target, top), f["keep"]]
        elif kind == "cut-before":
            size = os.path.getsize(target)
            keep = size - f["bytes"] if f["bytes"] else int(size * f["keep"])
            with open(target, "r+b") as g:
                g.truncate(max(0, keep))
            ctx.fault("cut-before")
            ctx.nontrivial = True
        elif kind == "missing":
            os.remove(target)
            ctx.fault("missing")
            ctx.nontrivial = True
        elif kind == "counts":
            stored(f["by"])
            ctx.fault("counts")
            ctx.nontrivial = True
        elif kind == "bad-column":
            col = "NOSUCH"
            ctx.fault("bad-column")
        else:
            if lines is None:
                with seams.LineCounter() as lc:
                    attempt({}, "a counted reading")
                lines = lc.n
            at, exc = 1 + int(f["at"] * max(0, lines - 1)), {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[f["exc"]]("injected")
        ev, err, disk = attempt(dp, what, col, at, exc)
        if kind in ("missing", "bad-column", "counts"):
            ctx.check(err is not None, "unreadable events did not raise", lambda: what)
        if ev is not None:
            verify(ctx, ev, want, plan, f"after {what} {disk.fired}")
        stored()
    ev, err, _ = attempt({}, "a last reading")
    if want.blank is None:
        ctx.check(err is None, "a later reading fails", lambda: f"{err} after {plan['faults']}")
    if ev is not None:
        verify(ctx, ev, want, plan, "in a last reading")


def shrink(plan):
    yield from core.drops(plan, "faults")
    for key, v in (("short", 0), ("buf", 8192), ("spell", "plain"), ("pointz", False), ("infer", False), ("blank", False), ("n", 2), ("n", 1)):
        if plan[key] != v:
            yield {**plan, key: v}
