"""C06 results file under disk faults."""
import errno
import gc
import os
import resource
import shutil
import signal
import tempfile

import numpy as np

from ..core import HarnessError, SimCrash, Violation
from ..disk import Disk, Mounted
from ..forks import fork_call
from ..runner import list_shrinks
from ..sched import INJECTED, Stepper
from ..stream import clock_values, lean_input

COUNT = {"quick": 1600, "thorough": 120000}
RULE = ("A seeded history of set_input / compute / write_results on up to two datasets over a simulated disk with a "
        "seeded fault plan per write (plus some real kernel faults: file-size limit, directory, missing folder, all in a scratch folder). Non-trivial = at "
        "least one file was written and parsed back, or one injected fault fired inside a write.")
COMPONENTS = {"real": ["allantools.Dataset", "io text/buffer layers of CPython", "kernel for RLIMIT_FSIZE and unusable-path runs"],
              "stub": ["raw disk (in memory: ENOSPC, EIO, torn/short writes, open and close errors, power loss)"]}
ASSUMPTIONS = ["a failed write may leave any partial content in the target file",
               "columns are AF, tau, N, alpha, min, value, max as in the documented format"]

FNS = ["adev", "oadev", "mdev", "tdev", "hdev", "ohdev", "totdev", "mtie", "tierms", "gradev", "pdev", "theo1"]
SURROGATE = "caf\udce9"     # undecodable byte of a file name: no encoding can write it
BAD_DIGITS = ["five", None, -3, 2.5]


def gen_inp(rng):
    n = rng.choice([rng.randrange(3, 8), rng.randrange(12, 60), rng.randrange(12, 60), rng.randrange(60, 240)])
    rate = rng.choice([1.0, 10.0, 0.1, 3.0, 1, 0.7, 1000.0])
    k = rng.random()
    taus = None if k < .25 else rng.choice(["all", "octave", "decade", "log10"]) if k < .55 else \
        sorted(set(rng.randrange(1, max(2, n // 3)) for _ in range(rng.randrange(1, 6))))
    return {"n": n, "rate": rate, "type": rng.choice(["phase", "phase", "freq"]), "taus": taus,
            "seed": rng.randrange(2 ** 31), "scale": 10.0 ** rng.choice([0, -9, -12, 3]),
            "nan": rng.choice([0] * 6 + [1, 4])}


def gen_plan(rng):
    k = rng.choice(["open", "enospc", "enospc", "eio", "short", "close", "crash", "enospc-short", "rename", "fsync"])
    p = {"bufsize": rng.choice([0, 0, 1, 16, 64, 128, 512])}
    if k == "open":
        p["open"] = rng.choice([errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.EROFS])
    if "enospc" in k:
        p["enospc"] = rng.choice([0, 1, rng.randrange(0, 300), rng.randrange(0, 3000)])
    if k == "eio":
        p["eio"] = rng.choice([0, 0, 1, rng.randrange(0, 20)])
    if "short" in k:
        p["short"] = rng.choice([1, 2, 7, 100])
    if k == "close":
        p["close"] = rng.choice([errno.EIO, errno.ENOSPC])
    if k == "crash":
        p["crash"] = rng.randrange(0, 1500)
    if k == "fsync":
        p["fsync"] = rng.choice([errno.EIO, errno.ENOSPC])
    if k == "rename":
        p["rename"] = errno.EACCES
    return p


def generate(rng, index, tier):
    ops = []
    nd = rng.choice([1, 1, 2])
    for d in range(nd):
        ops.append(["set", d, gen_inp(rng)])
        if rng.random() < 0.85:
            ops.append(["compute", d, rng.choice(FNS)])
    for _ in range(rng.randrange(2, 9)):
        d = rng.randrange(nd)
        k = rng.random()
        if k < 0.15:
            ops.append(["set", d, gen_inp(rng)])
        elif k < 0.45:
            ops.append(["compute", d, rng.choice(FNS)])
        else:
            w = {"file": rng.choice(["a.txt", "a.txt", "b.dat"]), "digits": rng.choice([5, 5, 1, 3, 8, 12, 15]),
                 "header": rng.choice([{}, {}, {"Operator": "me", "Gate": 0.1}, {"x": 1, "note": "a b {c} %s"}, {"τ0": "1 µs", "Gate": None}]),
                 "omit": rng.random() < 0.4, "plan": None, "step": None, "kind": "sim"}
            q = rng.random()
            if q < 0.5:
                w["plan"] = gen_plan(rng)
            elif q < 0.62:
                w["step"] = [rng.randrange(1, 120), rng.choice(["interrupt", "alloc"])]
            elif q < 0.70:
                w["digits"] = rng.choice(BAD_DIGITS)
            elif q < 0.74:
                w["header"] = rng.choice([None, [1, 2], 7, {"site": SURROGATE}, {SURROGATE: 1, "x": 2}])
            elif q < 0.80:
                w["kind"] = rng.choice(["fsize", "fsize", "isdir", "missing"])
                w["fsize"] = rng.choice([0, 1, 50, 200, 700, 5000])
            ops.append(["write", d, w])
    if index % 80 == 40:    # a long table, beyond numpy's summarising threshold
        ops[0][2].update(n=3000, taus="all", nan=0)
        ops = [[o[0], o[1], "adev"] if o[0] == "compute" and o[1] == 0 else o for o in ops]
        ops.insert(1, ["compute", 0, "oadev"])
    # what the caller's program has set for its own printing is none of the file's business
    printing = rng.choice([None, None, None, {"precision": 2, "suppress": True}, {"threshold": 5, "edgeitems": 1},
                           {"legacy": "1.13"}, {"linewidth": 20, "nanstr": "n.a.", "floatmode": "fixed"}])
    return {"ops": ops, "dirty": rng.choice([None, 10, 500, 5000]), "printing": printing}


def make(inp):
    v = clock_values("white", inp["type"], inp["n"], inp["seed"], inp["scale"], 0.0)
    for j in range(min(inp.get("nan", 0), inp["n"] // 3)):
        v[(inp["seed"] + 7 * j) % inp["n"]] = np.nan
    t = inp["taus"]
    if isinstance(t, list):
        t = [m / float(inp["rate"]) for m in t]
    return dict(data=v, rate=inp["rate"], data_type=inp["type"], taus=t)


def same_number(text, v):
    try:
        return text == str(v) or float(text) == float(v)
    except (TypeError, ValueError):
        return False


def deep(out):
    return {k: [np.array(y, copy=True) for y in v] if isinstance(v, list) else
            np.array(v, copy=True) if isinstance(v, np.ndarray) else v for k, v in out.items()}


def same(a, b):
    if list(a) != list(b):
        return False
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, list):
            if not (isinstance(y, list) and len(x) == len(y) and all(p.tobytes() == q.tobytes() for p, q in zip(x, y))):
                return False
        elif isinstance(x, np.ndarray):
            if not (isinstance(y, np.ndarray) and x.tobytes() == y.tobytes()):
                return False
        elif x is not y and x != y:
            return False
    return True


class Model(object):
    def __init__(self):
        self.inp = None
        self.res = None    # (stat, rate, data_type, deep copy of out)


def verify_file(ctx, what, data, m, w):
    """The whole file against the result."""
    stat, rate, dtype, out = m.res
    try:
        text = bytes(data).decode("utf-8")
    except UnicodeDecodeError:
        raise Violation("content", "%s: not text" % what)
    if not text.endswith("\n"):
        raise Violation("content", "%s: last line is incomplete: %r" % (what, text[-40:]))
    lines = text[:-1].split("\n")
    heads = [l for l in lines if l.startswith("#")]
    rows = [l for l in lines if not l.startswith("#")]
    hd = {}
    for h in heads:
        if ":" in h:
            k, v = h[1:].split(":", 1)
            hd.setdefault(k.strip(), v.strip())
    if not heads or "Allantools" not in heads[0]:
        raise Violation("content", "%s: first line %r" % (what, lines[0][:60]))
    if hd.get("Input data type") != str(dtype):
        raise Violation("header", "%s: header says data type %r, results were computed from %r" %
                        (what, hd.get("Input data type"), dtype))
    if not same_number(hd.get("Input data rate"), rate):
        raise Violation("header", "%s: header says rate %r, results were computed at %r" %
                        (what, hd.get("Input data rate"), rate))
    hp = {} if w["omit"] else w["header"]
    for k, v in hp.items():
        if hd.get(str(k)) != str(v):
            raise Violation("header", "%s: parameter %s: %r in file, %r given" % (what, k, hd.get(str(k)), v))
    if len(heads) != 3 + len(hp):
        raise Violation("header", "%s: %d comment lines, expected %d" % (what, len(heads), 3 + len(hp)))
    if not rows or lines.index(rows[0]) != len(heads):
        raise Violation("content", "%s: no column header after the comments" % what)
    cols = rows[0].split()
    if cols != ["AF", "Tau", "N", "alpha", "min_" + stat, stat, "max_" + stat]:
        raise Violation("columns", "%s: column header %r for %s" % (what, cols, stat))
    body = [r.split() for r in rows[1:]]
    if len(body) != len(out["taus"]):
        raise Violation("rows", "%s: %d rows for %d taus" % (what, len(body), len(out["taus"])))
    digits = 5 if w["omit"] else w["digits"]
    err = out["stat_err"]
    for i, r in enumerate(body):
        tau, dev, n = float(out["taus"][i]), float(out["stat"][i]), out["stat_n"][i]
        if isinstance(err, list):
            lo, hi = dev - float(err[0][i]), dev + float(err[1][i])
        else:
            lo, hi = dev - float(err[i]) / 2, dev + float(err[i]) / 2
        if len(r) != 7:
            raise Violation("rows", "%s: row %d is %r" % (what, i, r))
        af = int(round(tau * rate))
        if r[0] != str(af):
            raise Violation("af", "%s: row %d has AF %s, tau*rate is %.9g" % (what, i, r[0], tau * rate))
        if r[2] != str(int(n)):
            raise Violation("n", "%s: row %d has N %s, result %r" % (what, i, r[2], n))
        for j, v in ((1, tau), (4, lo), (5, dev), (6, hi)):
            want = "%.*e" % (digits - 1, v)
            if r[j] != want:
                # bounds may be formed in another order of operations
                try:
                    g = float(r[j])
                except ValueError:
                    g = None
                close = g is not None and (abs(g - v) <= 0.51 * 10.0 ** (1 - digits) * max(abs(v), abs(g)) +
                                           1e-15 * abs(dev)) and len(r[j].lstrip("-")) == len(want.lstrip("-"))
                if j in (1, 5) or not close:
                    raise Violation("number", "%s: row %d column %s is %s, result %s" % (what, i, cols[j], r[j], want))
    ctx.ok(4 + len(body))


def write_args(w):
    if w["omit"] and w["digits"] in (1, 3, 5, 8, 12, 15) and isinstance(w["header"], dict):
        return {}
    return {"digits": w["digits"], "header_params": w["header"]}


def bad_args(w):
    return not (isinstance(w["header"], dict) and isinstance(w["digits"], int) and w["digits"] > 0) or \
        any(SURROGATE in (k, v) for k, v in w["header"].items())


def execute(sc, ctx):
    import allantools
    mount = tempfile.mkdtemp(prefix="vsim-")
    try:
        run(sc, ctx, allantools, mount)
    finally:
        shutil.rmtree(mount, ignore_errors=True)


def run(sc, ctx, at, mount):
    if sc.get("printing"):
        np.set_printoptions(**sc["printing"])
    disk = Disk(ctx, mount)
    junk = bytearray(b"old content %d\n" % 7 * 400)
    if sc["dirty"]:
        for f in ("a.txt", "b.dat"):
            disk.files[disk.mount + f] = bytearray(junk[:sc["dirty"]])
    ds, mo = {}, {}
    for op in sc["ops"]:
        d = op[1]
        if op[0] == "set":
            kw = lean_input(make(op[2]), op[2]["seed"])
            if d not in ds:
                ds[d], mo[d] = at.Dataset(**kw), Model()
            else:
                ds[d].set_input(kw.pop("data"), **kw)
            mo[d].inp = op[2]
        elif d not in ds:
            continue
        elif op[0] == "compute":
            try:
                ds[d].compute(op[2])
                mo[d].res = (op[2], mo[d].inp["rate"], mo[d].inp["type"], deep(ds[d].out))
                ctx.simtime += mo[d].inp["n"] / float(mo[d].inp["rate"])
            except UserWarning:
                ctx.probe("compute-refused")
            ctx.event("compute", op[2], mo[d].res is not None)
        else:
            write(ctx, at, disk, mount, ds, mo, d, op[2])


def scratch_clean(mount):
    for n in os.listdir(mount):
        p = os.path.join(mount, n)
        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)


def fds():
    return len(os.listdir("/proc/self/fd"))


def attempt(ds, path, w, disk, ctx):
    """One call of write_results; returns the exception or None.  Handles are
    counted while the exception is still alive."""
    gc.collect()
    before, held = fds(), disk.open_handles
    try:
        if w["step"]:
            with Stepper(ctx, w["step"], scope=["dataset.py"]):
                ds.write_results(path, **write_args(w))
        else:
            ds.write_results(path, **write_args(w))
        exc = None
    except BaseException as e:
        exc = e
        if isinstance(e, HarnessError):
            raise
    leaked = disk.open_handles - held, fds() - before
    # an interrupt may land between open() and the with block: nobody can help that
    if leaked != (0, 0) and not disk.dead and not isinstance(exc, INJECTED):
        raise Violation("handle-leak", "write_results left %d handles open after %r" %
                        (leaked[0] + leaked[1], type(exc).__name__))
    return exc


def write(ctx, at, disk, mount, ds, mo, d, w):
    if w["kind"] != "sim":
        return real_write(ctx, disk, mount, ds[d], mo[d], w)
    m = mo[d]
    path = disk.mount + w["file"]
    old = bytes(disk.files[path]) if path in disk.files else None
    out0, inp0 = ds[d].out, ds[d].inp
    snap, isnap = deep(out0), dict(inp0)
    data0 = np.array(inp0["data"], copy=True)
    disk.set_plan(w["plan"])
    with Mounted(disk):
        exc = attempt(ds[d], path, w, disk, ctx)
    fired, touched = list(disk.fired), bool(disk.opens) or disk.bypassed
    injected = isinstance(exc, INJECTED)
    disk.set_plan(None)
    failed = [f for f in fired if not f.startswith(("short", "torn"))]
    what = "write_results(%s, %s) fault=%s" % (w["file"], write_args(w), (fired or (w["step"] if injected else None)))
    ctx.event("write", w["file"], type(exc).__name__ if exc is not None else None, fired,
              disk.files.get(path) and bytes(disk.files[path]).decode("utf-8", "replace") if not failed else None)
    if fired or injected:
        ctx.nontrivial = True
    # the dataset is what it was
    if not (list(ds[d].inp) == list(isnap) and all(ds[d].inp[k] is isnap[k] for k in isnap) and
            np.array_equal(np.asarray(ds[d].inp["data"]), data0, equal_nan=True) and same(ds[d].out, snap)):
        raise Violation("dataset-changed", "%s changed the dataset" % what)
    if isinstance(exc, SimCrash) or disk.dead:
        if exc is None:
            raise Violation("swallowed", "%s: returned although the machine died" % what)
        ctx.probe("power-loss")
        disk.dead = False
        disk.open_handles = 0
        del exc
        gc.collect()
        # restart: only the disk survives; the job is run again from its input
        if m.res is None:
            return
        return retry(ctx, at, disk, ds, mo, d, w, path, what + " then restart")
    refused = m.res is None or bad_args(w)
    if exc is None:
        if refused:
            if m.res is None:
                raise Violation("accepted", "%s: returned normally although nothing was computed" % what)
            ctx.probe("odd-arguments-accepted")
            return
        if failed:
            raise Violation("swallowed", "%s: returned normally although %s was raised by the disk" % (what, failed))
        if path not in disk.files:
            raise Violation("content", "%s: no file" % what)
        verify_file(ctx, what, disk.files[path], m, w)
        ctx.nontrivial = True
        ctx.probe("verified")
        return
    # raised
    if not failed and not injected:
        if not refused:
            raise Violation("spurious:" + type(exc).__name__, "%s: raised %r with a healthy disk" % (what, exc),
                            key=type(exc).__name__)
        now = bytes(disk.files[path]) if path in disk.files else None
        if now != old and not fired:
            raise Violation("truncated", "%s: refused with %r but the existing file changed from %d bytes to %s" %
                            (what, exc, len(old or b""), None if now is None else len(now)))
        ctx.probe("refused-untouched")
        ctx.ok()
        return
    if failed and not isinstance(exc, OSError) and not injected and not refused:
        raise Violation("wrong-error", "%s: disk error %s surfaced as %r" % (what, failed, exc))
    if refused:
        return
    if injected and not fired and not touched:
        now = bytes(disk.files[path]) if path in disk.files else None
        if now != old:
            raise Violation("truncated", "%s: interrupted before opening but file changed" % what)
    ctx.probe("failed-then-retried")
    retry(ctx, at, disk, ds, mo, d, w, path, what + " then retry")


def retry(ctx, at, disk, ds, mo, d, w, path, what):
    if mo[d].res is None or bad_args(w):
        return
    w2 = dict(w, plan=None, step=None)
    disk.set_plan(None)
    with Mounted(disk):
        exc = attempt(ds[d], path, w2, disk, ctx)
    if exc is not None:
        raise Violation("retry", "%s: raised %r" % (what, exc))
    verify_file(ctx, what, disk.files[path], mo[d], w)


def real_write(ctx, disk, mount, ds, m, w):
    """Real kernel faults in a child process, on a scratch directory."""
    ctx.nontrivial = True
    path = os.path.join(mount, "real.txt")
    kind = w["kind"]

    def child():
        # only paths inside the scratch folder: the code under test may delete
        # or replace what it is given
        if kind == "isdir":
            os.mkdir(os.path.join(mount, "dir"))
            p = os.path.join(mount, "dir")
        elif kind == "missing":
            p = os.path.join(mount, "nowhere", "real.txt")
        else:
            p = path
            with open(p, "w") as f:
                f.write("old")
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (w["fsize"], resource.RLIM_INFINITY))
        before = fds()
        try:
            ds.write_results(p, **write_args(w))
            res = None
        except Exception as e:
            res = (type(e).__name__, isinstance(e, OSError), e.errno if isinstance(e, OSError) else None)
            leak = fds() - before
            return res, leak, None
        leak = fds() - before
        if kind != "fsize":
            return res, leak, None
        with open(p, "rb") as f:
            return res, leak, f.read()
    out = fork_call(child, 60)
    scratch_clean(mount)
    if out[0] != "ok":
        raise HarnessError("real write: %r" % (out,))
    res, leak, data = out[1]
    ctx.event("real", kind, res and res[0], leak)
    ctx.fault("real-" + kind)
    what = "write_results on %s%s" % (kind, w["fsize"] if kind == "fsize" else "")
    if leak:
        raise Violation("handle-leak", "%s: %d descriptors left open" % (what, leak))
    refused = m.res is None or bad_args(w)
    if res is None:
        if m.res is None:
            raise Violation("accepted", "%s: returned normally although nothing was computed" % what)
        if refused:
            return
        if kind != "fsize":
            raise Violation("swallowed", "%s: returned normally" % what)
        verify_file(ctx, what, data, m, w)
    elif not refused and not res[1]:
        raise Violation("wrong-error", "%s: raised %s" % (what, res[0]))
    elif not refused and kind == "fsize" and w["fsize"] >= 5000 and len(m.res[3]["taus"]) < 20:
        raise Violation("spurious:" + res[0], "%s: raised %s with room to spare" % (what, res[0]))
    ctx.ok()


def shrink(sc):
    for ops in list_shrinks(sc["ops"], 1):
        yield dict(sc, ops=ops)
    if sc["dirty"]:
        yield dict(sc, dirty=None)
    if sc.get("printing"):
        yield dict(sc, printing=None)
    for i, op in enumerate(sc["ops"]):
        def rep(x):
            return dict(sc, ops=sc["ops"][:i] + [[op[0], op[1], x]] + sc["ops"][i + 1:])
        if op[1] != 0:
            yield dict(sc, ops=sc["ops"][:i] + [[op[0], 0, op[2]]] + sc["ops"][i + 1:])
        if op[0] == "write":
            w = op[2]
            for k, v in (("plan", None), ("step", None), ("header", {}), ("digits", 5), ("kind", "sim"), ("file", "a.txt")):
                if w[k] != v:
                    yield rep(dict(w, **{k: v}))
            if w["plan"]:
                for k in list(w["plan"]):
                    yield rep(dict(w, plan={a: b for a, b in w["plan"].items() if a != k}))
        elif op[0] == "compute" and op[2] != "adev":
            yield rep("adev")
        elif op[0] == "set":
            s = op[2]
            for k, v in (("taus", [1]), ("taus", [1, 2]), ("rate", 1.0), ("type", "phase"), ("scale", 1.0), ("n", 12)):
                if s[k] != v and not (k == "taus" and s[k] == [1]) and not (k == "n" and s["n"] < 12):
                    yield rep(dict(s, **{k: v}))
