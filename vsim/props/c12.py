"""C12 Each plot shows and saves its own figure, also after failed saves."""
import io
import os
import shutil
import tempfile

import numpy as np

from ..core import HarnessError, Violation
from ..disk import Disk, Mounted, oserr
from ..runner import list_shrinks, simpler
from ..sched import INJECTED, Sched, Stepper
from ..stream import clock_values

COUNT = {"quick": 500, "thorough": 30000}
RULE = ("A seeded history over 1-4 plots and 1-3 datasets: create, draw, recompute, scribble over results, open or close "
        "other figures, save to a simulated disk or file object with storage faults and cancellations, retry. "
        "Non-trivial = a saved picture was compared while another figure existed or after a failed save.")
COMPONENTS = {"real": ["allantools.Plot", "allantools.Dataset", "matplotlib with the Agg, SVG and PDF writers"],
              "stub": ["disk (in memory)", "file objects"]}
ASSUMPTIONS = ["the plot's picture is what its documented figure attribute renders to",
               "curves are read back from the documented axes attribute"]

FNS = ["adev", "oadev", "mdev", "tdev", "hdev", "ohdev", "totdev", "mtie", "tierms", "gradev", "pdev"]


def preload():
    import matplotlib
    import matplotlib.pyplot as plt
    import matplotlib.backends.backend_svg, matplotlib.backends.backend_pdf  # noqa
    os.environ["SOURCE_DATE_EPOCH"] = "1600000000"
    matplotlib.rcParams["svg.hashsalt"] = "vsim"
    matplotlib.rcParams["figure.max_open_warning"] = 0
    # small pictures: the property is about which picture, not how large
    matplotlib.rcParams["figure.figsize"] = (2.4, 1.8)
    matplotlib.rcParams["figure.dpi"] = 50
    matplotlib.rcParams["savefig.dpi"] = "figure"
    fig, ax = plt.subplots()        # warm the font and layout caches
    ax.set_xscale("log")
    ax.plot([1, 2], [1, 2])
    for fmt in ("png", "svg", "pdf"):
        fig.savefig(io.BytesIO(), format=fmt)
    plt.close(fig)


def gen_save(rng, p):
    fault = None
    k = rng.random()
    if k < 0.45:
        fault = rng.choice([{"open": 28}, {"open": 13}, {"enospc": rng.choice([0, 10, 300, 2000])},
                            {"eio": rng.choice([0, 1, 2])}, {"short": 97}, {"close": 5}, {"enospc": 700, "short": 64},
                            {"nodir": 1}, {"step": rng.randrange(1, 4)}])
    return {"op": "save", "p": p, "to": rng.choice(["png", "png", "png", "svg", "pdf", "buffer", "pathlib"]),
            "fault": fault, "retry": rng.random() < .8, "same": rng.random() < .4}


def generate(rng, index, tier):
    nd = rng.choice([1, 2, 3])
    ops = [{"op": "new", "nd": rng.random() < .5}]
    np_ = 1
    for _ in range(rng.randrange(3, 13)):
        k = rng.random()
        if k < 0.16 and np_ < 4:
            ops.append({"op": "new", "nd": rng.random() < .5})
            np_ += 1
        elif k < 0.42:
            ops.append({"op": "draw", "p": rng.randrange(np_), "d": rng.randrange(nd), "err": rng.random() < .5,
                        "grid": rng.random() < .4, "kw": rng.choice([{}, {}, {"color": "red"}, {"label": "x"}, {"marker": "o"}])})
        elif k < 0.5 and rng.random() < .6:
            ops.append({"op": "race", "p": rng.randrange(np_), "d": rng.randrange(nd), "err": rng.random() < .5,
                        "fns": [rng.choice(FNS) for _ in range(rng.choice([1, 2, 3]))], "first": rng.randrange(2),
                        "kw": rng.choice([{}, {}, {"color": "red"}]),
                        "pre": sorted([rng.randrange(1, 260), 0] for _ in range(rng.choice([1, 2, 4, 8])))})
        elif k < 0.52:
            ops.append({"op": "compute", "d": rng.randrange(nd), "fn": rng.choice(FNS)})
        elif k < 0.58:
            ops.append({"op": "scribble", "d": rng.randrange(nd), "k": rng.choice(["taus", "stat", "stat_err"])})
        elif k < 0.62:
            ops.append({"op": "input", "d": rng.randrange(nd), "seed": rng.randrange(1000)})
        elif k < 0.68:
            ops.append({"op": rng.choice(["foreign", "foreign", "close", "current"]), "p": rng.randrange(np_)})
        else:
            ops.append(gen_save(rng, rng.randrange(np_)))
    if index % 40 == 39:        # a session with very many figures
        ops.insert(rng.randrange(1, len(ops) + 1), {"op": "crowd", "k": rng.randrange(19, 30)})
        ops.append({"op": "draw", "p": 0, "d": 0, "err": False, "grid": False, "kw": {}})
    ops.append(gen_save(rng, rng.randrange(np_)))
    data = [{"n": rng.choice([20, 33, 60]), "seed": rng.randrange(1000), "fn": rng.choice(FNS)} for _ in range(nd)]
    if index % 10 == 7:         # curves with very many points
        data[0].update(n=rng.choice([120, 400]), taus="all", fn=rng.choice(["adev", "oadev", "tierms", "mtie", "hdev"]))
    return {"data": data, "ops": ops}


class FaultyBuffer(io.RawIOBase):
    """A caller's file object that fails."""

    def __init__(self, ctx, plan):
        super().__init__()
        self.ctx, self.plan, self.data, self.nw = ctx, plan or {}, bytearray(), 0

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        self.nw += 1
        if self.plan.get("open"):
            self.ctx.fault("buffer-write-error")
            raise oserr(self.plan["open"])
        if self.plan.get("eio", -1) == self.nw - 1:
            self.ctx.fault("buffer-write-error")
            raise oserr(5)
        if self.plan.get("enospc", -1) >= 0 and len(self.data) + len(b) > self.plan["enospc"]:
            self.ctx.fault("buffer-write-error")
            raise oserr(28)
        self.data += b
        return len(b)


def execute(sc, ctx):
    d = tempfile.mkdtemp(prefix="vsim-")
    try:
        run(sc, ctx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def render(fig, fmt):
    b = io.BytesIO()
    fig.savefig(b, format=fmt)
    return b.getvalue()


def run(sc, ctx, mount):
    import allantools
    import matplotlib
    import matplotlib.pyplot as plt
    rc = dict(matplotlib.rcParams)
    disk = Disk(ctx, mount)
    ds = []
    for i in sc["data"]:
        ds.append(allantools.Dataset(data=clock_values("walk", "phase", i["n"], i["seed"], 1.0, 0.0), rate=1.0,
                                     taus=i.get("taus", [1, 2, 4])))
        ds[-1].compute(i["fn"])
    plots, curves, label = [], [], []
    failed = others = 0

    def check(who):
        for n, p in enumerate(plots):
            check_curves(p, curves[n], "%s: plot %d" % (who, n))
            if label[n] is not None and p.ax.get_ylabel() != label[n]:
                raise Violation("label", "%s: plot %d is labelled %r, last drawn statistic is %r" %
                                (who, n, p.ax.get_ylabel(), label[n]))
        ctx.ok(len(plots))

    for i, op in enumerate(sc["ops"]):
        k = op["op"]
        who = "operation %d %s" % (i, op)
        if "p" in op and op["p"] >= len(plots) or "d" in op and op["d"] >= len(ds):
            continue
        if k == "new":
            plots.append(allantools.Plot(no_display=True) if op["nd"] else allantools.Plot())
            curves.append([])
            label.append(None)
            if any(plots[-1].fig is p.fig for p in plots[:-1]):
                raise Violation("shared-figure", "%s: two plots share one figure" % who)
        elif k == "crowd":
            for _ in range(op["k"]):
                plots.append(allantools.Plot(no_display=True))
                curves.append([])
                label.append(None)
        elif k == "draw":
            d = ds[op["d"]]
            o = d.out
            kw = dict(op["kw"])
            if op["err"] or op["grid"] or i % 2:    # else the documented defaults
                kw.update(errorbars=op["err"], grid=op["grid"])
            cur = {"x": np.array(o["taus"], copy=True), "y": np.array(o["stat"], copy=True),
                   "err": np.array(o["stat_err"], dtype=float) if op["err"] else None}
            plots[op["p"]].plot(d, **kw)
            curves[op["p"]].append(cur)
            label[op["p"]] = o["stat_id"]
            ctx.event("draw", op["p"], op["d"])
        elif k == "race":
            cands, end = race(op, ds[op["d"]], plots[op["p"]], ctx)
            shown = [c for c in cands if one_curve(plots[op["p"]], c, op["err"])]
            if not shown:
                raise Violation("mixed-curve", "%s: the curve drawn while %s ran on another thread is not any one of "
                                "the results the dataset held meanwhile" % (who, op["fns"]))
            curves[op["p"]].append({"x": shown[0]["taus"], "y": shown[0]["stat"],
                                    "err": shown[0]["stat_err"] if op["err"] else None})
            label[op["p"]] = plots[op["p"]].ax.get_ylabel()
            ctx.event("race", op["p"], op["d"], len(cands), label[op["p"]])
        elif k == "compute":
            ds[op["d"]].compute(op["fn"])
        elif k == "input":
            ds[op["d"]].set_input(clock_values("white", "phase", 24, op["seed"], 1.0, 0.0), rate=1.0, taus=[1, 2])
        elif k == "scribble":
            a = ds[op["d"]].out.get(op["k"])
            for v in a if isinstance(a, list) else [a]:
                if isinstance(v, np.ndarray) and v.flags.writeable:
                    v *= 3.0
            ctx.fault("result-scribbled")
        elif k == "foreign":
            f, ax = plt.subplots()
            ax.plot([1, 5], [2, 3])
            others += 1
            ctx.fault("foreign-figure")
        elif k == "current":
            plt.figure(plots[op["p"]].fig.number) if plt.fignum_exists(getattr(plots[op["p"]].fig, "number", -1)) else None
        elif k == "close":
            plt.close(plots[op["p"]].fig)
            ctx.fault("figure-closed")
        elif k == "save":
            failed += save(op, i, who, plots, disk, mount, ctx, curves)
            if len(plots) + others > 1 or failed:
                ctx.nontrivial = True
        check(who)
    now = dict(matplotlib.rcParams)
    diff = [x for x in rc if repr(rc[x]) != repr(now.get(x)) and x != "backend"]
    if diff:
        raise Violation("settings", "plotting changed matplotlib settings %s" % diff)


def held(out):
    return {"taus": np.array(out["taus"], copy=True), "stat": np.array(out["stat"], copy=True),
            "stat_err": np.array(out["stat_err"], dtype=float), "stat_id": out["stat_id"]}


def race(op, d, p, ctx):
    """Draw the dataset while another thread recomputes it; returns every
    result the dataset held from the start to the end of the drawing."""
    sched = Sched(ctx, op["pre"], "opcode", scope=["plot.py", "dataset.py"])
    cands, drawing = [], []

    def draw(t):
        cands.append(held(d.out))
        drawing.append(1)
        sched.op_begin(t, None)
        p.plot(d, errorbars=op["err"], **op["kw"])
        sched.op_end()
        cands.append(held(d.out))
        drawing.append(2)

    def work(t):
        for fn in op["fns"]:
            sched.op_begin(t, None)
            d.compute(fn)
            sched.op_end()
            if drawing == [1]:
                cands.append(held(d.out))
    for b in (draw, work) if op["first"] == 0 else (work, draw):
        sched.spawn(b)
    sched.run()
    if len(cands) > 2:
        ctx.probe("recomputed-while-drawing")
    return cands, d.out


def one_curve(p, c, err):
    """Is the newest curve of this plot the result c?"""
    if p.ax.get_ylabel() != c["stat_id"]:
        return False
    if err:
        l = p.ax.containers[-1].lines[0]
        segs = p.ax.containers[-1].lines[2][0].get_segments()
        lo, hi = (c["stat_err"], c["stat_err"]) if c["stat_err"].ndim == 1 else c["stat_err"]
        if len(segs) != len(c["taus"]):
            return False
        for s, x, y, a, z in zip(segs, c["taus"], c["stat"], lo, hi):
            if len(s) and not np.allclose(np.asarray(s), [[x, y - a], [x, y + z]], rtol=1e-9, atol=0, equal_nan=True):
                return False
    else:
        l = p.ax.get_lines()[-1]
    return np.array_equal(np.asarray(l.get_xdata(), dtype=float), c["taus"].astype(float), equal_nan=True) and \
        np.array_equal(np.asarray(l.get_ydata(), dtype=float), c["stat"].astype(float), equal_nan=True)


def save(op, i, who, plots, disk, mount, ctx, curves):
    p = plots[op["p"]]
    to = op["to"]
    fmt = "png" if to in ("buffer", "pathlib") else to
    want = render(p.fig, fmt)
    look = sorted({op["p"], (op["p"] + 1 + i % 3) % len(plots)})
    before = [render(plots[n].fig, "png") for n in look]
    name = "same" if op["same"] else "p%d" % i
    path = os.path.join(mount, name + "." + fmt)
    fault = op["fault"]
    attempts = [fault] if fault else []
    if not fault or op["retry"]:
        attempts.append(None)
    nfail = 0
    import pathlib
    for f in attempts:
        plan = {k: v for k, v in (f or {}).items() if k not in ("nodir", "step")}
        old = bytes(disk.files[path]) if path in disk.files else None
        disk.set_plan(plan)
        buf = FaultyBuffer(ctx, plan)
        target = buf if to == "buffer" else path
        if f and "nodir" in f and to != "buffer":
            target = os.path.join(mount, "nodir", "x." + fmt)
        if to == "pathlib":
            target = pathlib.Path(target)
        exc = None
        try:
            with Mounted(disk):
                if f and "step" in f:
                    with Stepper(ctx, (f["step"], "alloc"), scope=["plot.py"]):
                        p.save(target)
                else:
                    p.save(target)
        except INJECTED as e:
            exc = e
        except Exception as e:
            exc = e
        fired = list(disk.fired)
        hurt = [x for x in fired if x not in ("short-write", "torn-write")]
        ctx.event("save", op["p"], to, exc, fired)
        if exc is None:
            if f and "nodir" in f and to != "buffer":
                raise Violation("silent-failure", "%s: saving into a missing directory returned" % who)
            if hurt:
                raise Violation("silent-failure", "%s: returned although the disk reported %s" % (who, hurt))
            got = bytes(buf.data) if to == "buffer" else bytes(disk.files.get(path, b""))
            if got != want and render(p.fig, fmt) != want:
                raise HarnessError("rendering is not deterministic")
            if got != want:
                whose = [n for n, q in enumerate(plots) if q is not p and got == render(q.fig, fmt)]
                raise Violation("wrong-picture", "%s: the saved file (%d bytes) is not the picture of plot %d (%d bytes)%s" %
                                (who, len(got), op["p"], len(want), " but of plot %s" % whose if whose else ""))
            ctx.ok()
            ctx.probe("saved-" + to)
        else:
            if not (f and (hurt or "nodir" in f or "step" in f or (to == "buffer" and plan))):
                raise Violation("save-failed", "%s: raised %r without a storage fault (%s)" % (who, exc, fired))
            nfail += 1
            if "nodir" in (f or {}):
                ctx.fault("missing-directory")
        for n, a in zip(look, before):
            if a != render(plots[n].fig, "png"):
                raise Violation("plot-changed", "%s: saving plot %d changed the picture of plot %d (raised %r)" %
                                (who, op["p"], n, exc))
        ctx.ok(len(look))
        exc = None
        if disk.open_handles:
            import gc
            gc.collect()
    disk.set_plan(None)
    return nfail


def check_curves(p, want, who):
    from matplotlib.container import ErrorbarContainer
    boxes = [c for c in p.ax.containers if isinstance(c, ErrorbarContainer)]
    ebl = [c.lines[0] for c in boxes]
    caps = [l for c in boxes for l in c.lines[1]]
    plain = [l for l in p.ax.get_lines() if not any(l is x for x in ebl + caps)]
    if len(plain) != sum(c["err"] is None for c in want) or len(boxes) != sum(c["err"] is not None for c in want):
        raise Violation("curves", "%s shows %d plain curves and %d with error bars; %s were drawn" %
                        (who, len(plain), len(boxes), [("with" if c["err"] is not None else "without") for c in want]))
    for c in want:
        if c["err"] is None:
            l = plain.pop(0)
        else:
            b = boxes.pop(0)
            l = b.lines[0]
            if not b.has_yerr:
                raise Violation("error-bars", "%s: no error bars" % who)
            segs = b.lines[2][0].get_segments()
            lo, hi = (c["err"], c["err"]) if c["err"].ndim == 1 else c["err"]
            if len(segs) != len(c["x"]):
                raise Violation("error-bars", "%s: %d error bars for %d points" % (who, len(segs), len(c["x"])))
            for s, x, y, a, z in zip(segs, c["x"], c["y"], lo, hi):
                s = np.asarray(s)
                if len(s) and not np.allclose(s, [[x, y - a], [x, y + z]], rtol=1e-9, atol=0, equal_nan=True):
                    raise Violation("error-bars", "%s: error bar at tau %r spans %s, drawn as %s" %
                                    (who, x, s[:, 1].tolist(), [y - a, y + z]))
        if l is None:
            raise Violation("curves", "%s: error bars without the curve" % who)
        if not (np.array_equal(np.asarray(l.get_xdata(), dtype=float), c["x"].astype(float), equal_nan=True) and
                np.array_equal(np.asarray(l.get_ydata(), dtype=float), c["y"].astype(float), equal_nan=True)):
            raise Violation("curve-data", "%s: a curve shows %s over %s, the dataset held %s over %s when it was drawn" %
                            (who, list(l.get_ydata()), list(l.get_xdata()), c["y"].tolist(), c["x"].tolist()))


def shrink(sc):
    for c in list_shrinks(sc["ops"], 1):
        yield dict(sc, ops=c)
    for i, op in enumerate(sc["ops"]):
        if op["op"] == "save":
            for x in simpler(op, ("fault", (None,)), ("to", ("png",)), ("retry", (False,)), ("same", (False,))):
                yield dict(sc, ops=sc["ops"][:i] + [x] + sc["ops"][i + 1:])
        if op["op"] == "race":
            for key in ("pre", "fns"):
                for c in list_shrinks(op[key], 1):
                    yield dict(sc, ops=sc["ops"][:i] + [dict(op, **{key: c})] + sc["ops"][i + 1:])
        if op["op"] == "draw":
            for x in simpler(op, ("kw", ({},)), ("grid", (False,)), ("err", (False,))):
                yield dict(sc, ops=sc["ops"][:i] + [x] + sc["ops"][i + 1:])
