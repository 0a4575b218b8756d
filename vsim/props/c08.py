"""C08 Batch functions are pure under concurrency, cancellation, failed allocation."""
import copy
import json
import os
import shutil
import tempfile

import numpy as np

from ..core import Ctx, HarnessError, Violation, approx_same
from ..forks import pristine
from ..procstate import changed, process_wide, thread_local
from ..runner import list_shrinks
from ..sched import Sched, Stepper
from ..stream import clock_values

COUNT = {"quick": 3000, "thorough": 60000}
RULE = ("1-3 caller threads call any of the catalogued statistic, noise-identification, conversion, spectrum and mask "
        "functions with shared and private arguments; a seeded scheduler preempts inside the package, cancels calls "
        "at any step and fails any allocating numpy/scipy call. Non-trivial = a result was compared with its pristine "
        "solo value in a run with a preemption, an injected fault, or several calls.")
COMPONENTS = {"real": ["all public batch functions of allantools", "numpy, scipy", "CPython threads"],
              "stub": ["thread scheduler (seeded, one runner at a time)", "allocator (fails on plan)"]}
ASSUMPTIONS = ["cancellation is not injected between acquiring process state and the statement guarding it "
               "(with header, statement before try, finally body): CPython offers no safe point there",
               "switches happen between source lines or bytecode instructions of the package"]

DEVS = ["adev", "oadev", "mdev", "tdev", "pdev", "hdev", "ohdev", "totdev", "ttotdev", "mtotdev", "htotdev", "theo1",
        "mtie", "mtie_phase_fast", "tierms", "gradev"]
SLOW = {"mtotdev", "htotdev", "ttotdev", "theo1"}
MASKS = ["prc_tdev", "prc_mtie", "eprtc_tdev", "eprtc_mtie", "prtcA_tdev", "prtcB_tdev", "prtcA_mtie", "prtcB_mtie"]
OTHER = ["gcodev", "three_cornered_hat_phase", "tau_generator", "tau_reduction", "trim_data", "frequency2phase",
         "phase2frequency", "phase2radians", "frequency2fractional", "psd2allan", "adev2psd_piecewise_approx",
         "psd_piecewise_to_adev", "confidence_interval", "confidence_interval_noiseID", "autocorr_noise_id",
         "edf_greenhall", "edf_totdev", "edf_mtotdev", "edf_simple", "rn", "b1", "rn_theory", "b1_theory",
         "rn_boundary", "b1_boundary", "lag1_acf", "detrend", "numpy_psd", "scipy_psd", "calc_hdev_phase",
         "calc_mtotdev_phase", "calc_htotdev_freq", "mask", "remove_small_ns", "input_to_phase"]
CATALOG = DEVS + OTHER
PSD = ["adev2psd_piecewise_approx", "psd_piecewise_to_adev", "psd2allan"]
CIFN = ["confidence_interval_noiseID", "autocorr_noise_id", "edf_greenhall", "rn", "b1", "detrend", "lag1_acf"]
NEEDS = {"gcodev": 2, "three_cornered_hat_phase": 3}


def gen_op(rng, fn, nbuf, ntau):
    r = rng.choice([1.0, 1, 10.0, 0.1, 4.0])
    p = {"rate": r, "dt": rng.choice(["phase", "phase", "freq"]), "tb": rng.randrange(ntau),
         "kwargs": rng.random() < 0.7}
    if rng.random() < 0.03:
        p["dt"] = "fase"
    if fn == "gradev":
        p.update(ci=rng.choice([0.9, 0.95, 0.68, 0.683]), noisetype=rng.choice(["wp", "wf", "fp", "ff", "rf"]))
    if fn in ("edf_greenhall", "edf_simple", "edf_totdev", "edf_mtotdev"):
        p.update(alpha=rng.choice([2, 1, 0, -1, -2]), m=rng.choice([1, 2, 3, 8, 20, 20, 97, 200, 333]), N=rng.choice([30, 64, 101, 400, 400, 2000]),
                 d=rng.choice([2, 3]), ov=rng.random() < .5, mod=rng.random() < .5)
    elif fn in PSD:
        k = rng.randrange(2, 6)
        p.update(vals=[round(rng.uniform(0.5, 2.0), 3) for _ in range(k)], kind=rng.choice(["adev", "mdev", "hdev"]),
                 size=rng.choice([8, 17, 40]), base=rng.choice([2, 10, 1]), aslist=rng.random() < .5,
                 fvec=rng.random() < .5, h=[round(rng.uniform(0.1, 3), 3) for _ in range(k)],
                 alpha=[rng.choice([-2, -1, 0, 0.5, -1.5]) for _ in range(k)])
    elif fn in ("rn", "b1", "rn_theory", "b1_theory", "rn_boundary", "b1_boundary", "autocorr_noise_id",
                "confidence_interval_noiseID", "confidence_interval"):
        p.update(af=rng.choice([1, 1, 2, 3]), b=rng.choice([0, -1, -2, -3]), N=rng.choice([10, 64, 257]),
                 dmin=rng.choice([0, 0, 1]), dmax=rng.choice([2, 3]), ci=rng.choice([0.68, 0.95, 0.9, None]),
                 dev=round(rng.uniform(0.1, 5), 4), edf=rng.choice([1, 2.5, 7, 100]),
                 dt2=rng.choice(["adev", "oadev", "mdev", "tdev", "hdev", "ohdev", "xdev"]))
    elif fn == "mask":
        p.update(mask=rng.choice(MASKS), tau=rng.choice([0.1, 1, 50, 150, 1e3, 5e4, 1e6]))
    elif fn == "tau_generator":
        p.update(even=rng.random() < .5, maxm=rng.choice([-1, -1, 5, 20]))
    elif fn == "tau_reduction":
        p.update(ms=sorted({rng.randrange(1, 200) for _ in range(20)}), npd=rng.choice([2, 4, 10]))
    elif fn == "frequency2fractional":
        p.update(mean=rng.choice([-1, 10.0, 3.5]))
    elif fn == "detrend":
        p.update(deg=rng.choice([1, 2]))
    elif fn == "three_cornered_hat_phase":
        p.update(fn=rng.choice(["adev", "oadev", "mdev", "hdev", "totdev"]))
    elif fn in ("calc_hdev_phase", "calc_mtotdev_phase", "calc_htotdev_freq"):
        p.update(m=rng.choice([1, 2, 3]), stride=rng.choice([1, 1, 2]))
    elif fn == "remove_small_ns":
        p.update(ns=[rng.randrange(0, 6) for _ in range(rng.randrange(1, 8))])
    return {"fn": fn, "b": [rng.randrange(nbuf) for _ in range(NEEDS.get(fn, 1))], "p": p, "fault": None, "pre": []}


def vary(rng, op, nbuf, ntau):
    """The same call with one thing changed (an incomplete cache key, a shared
    buffer or a leftover of the earlier call shows up here)."""
    op = copy.deepcopy(op)
    p = op["p"]
    k = rng.choice(sorted(p) + ["buffer"] * 4)
    other = gen_op(rng, op["fn"], nbuf, ntau)
    if k == "buffer":
        op["b"] = other["b"]
    elif isinstance(p[k], float) and rng.random() < 0.5:
        p[k] *= rng.choice([1.001, 1.01, 0.99])
    else:
        p[k] = other["p"][k]
    return op


def disturb(rng, op, nth):
    """Where in the call it is cancelled, refused memory or preempted: places
    are fractions of the call's own length, measured in its solo run."""
    k = rng.random()
    u = round(rng.random(), 4)
    op["fault"] = [u, "interrupt"] if k < 0.16 else [u, "alloc-call"] if k < 0.32 else [u, "alloc"] if k < 0.36 else None
    op["pre"] = [[round(rng.random(), 4), rng.randrange(3)] for _ in range(rng.choice([0, 1, 2, 4, 9]))] if nth > 1 else []
    return op


def generate(rng, index, tier):
    nth = rng.choice([1, 2, 2, 3])
    theme = rng.random()
    same = rng.random() < 0.4       # all threads call variants of one call
    if theme < 0.2:
        pool = PSD
    elif theme < 0.3:
        pool = CIFN
    elif theme < 0.5:
        pool = [rng.choice(CATALOG)]
    elif theme < 0.6:
        pool = DEVS
    else:
        pool = [CATALOG[(index * 3 + j * 7) % len(CATALOG)] for j in range(4)] + [rng.choice(CATALOG)]
    slow = any(f in SLOW for f in pool)
    nb = rng.randrange(1, 5)
    sizes = [rng.choice([12, 33, 40, 64, 90, 90, 300]) for _ in range(rng.choice([1, 2]))]
    if any(f in CIFN for f in pool):
        sizes = [rng.choice([40, 128, 200]) for _ in range(2)]
    bufs = []
    for i in range(nb):
        n = rng.choice(sizes)
        bufs.append({"n": min(n, 36) if slow else min(n, 64) if "pdev" in pool else n, "seed": rng.randrange(2 ** 31),
                     "shape": rng.choice(["white", "walk", "rwfm", "ramp", "spike", "const"]),
                     "scale": rng.choice([1.0, 1.0, 1e-9, 1e3]),
                     "layout": rng.choice(["array", "array", "array", "list", "tuple", "ro", "strided", "f32", "int"]),
                     "nan": rng.choice([0, 0, 0, 0, 1, 3]) if pool is not CIFN else 0, "owner": rng.choice([None, None] + list(range(nth)))})
    for i in range(1, nb):      # nearly the same record again: same ends, same sum, one sample off
        if rng.random() < 0.25:
            bufs[i] = dict(rng.choice(bufs[:i]), twin=[rng.choice(["swap", "bump", "shift"]), round(rng.random(), 3)],
                           owner=bufs[i]["owner"])
    taub = [rng.choice([None, "all", "octave", "decade", "log10", {"k": rng.choice(["list", "array", "ro", "tuple", "ints"]),
                                                         "m": [rng.randrange(1, 9) for _ in range(rng.randrange(1, 6))]}])
            for _ in range(rng.randrange(1, 4))]
    threads, first = [], None
    if nth == 1 and rng.random() < 0.5:     # sweep: the same call disturbed again and again, all along its length
        op = gen_op(rng, rng.choice(pool), nb, len(taub))
        n, kinds = rng.randrange(10, 31), rng.choice([["interrupt"], ["alloc-call"], ["interrupt", "alloc-call"]])
        ops = [dict(copy.deepcopy(op), fault=[round((i + rng.random()) / n, 4), kinds[i % len(kinds)]]) for i in range(n)]
        for _ in range(3):
            ops.insert(rng.randrange(1, len(ops) + 1), copy.deepcopy(op) if rng.random() < .5 else vary(rng, op, nb, len(taub)))
        threads.append(ops)
    for t in range(nth - len(threads)):
        ops = []
        for _ in range(rng.randrange(1, 6 if nth > 1 else 9)):
            if ops and rng.random() < 0.15:
                ops.append({"fn": "!scribble", "k": rng.randrange(9)})
            if ops and rng.random() < 0.15:
                ops.append({"fn": "!refill", "b": rng.randrange(nb)})
            prev = [o for o in ops if not o["fn"].startswith("!")]
            k = rng.random()
            if prev and k < 0.2:
                op = dict(copy.deepcopy(rng.choice(prev)), fault=None)
            elif prev and k < 0.45:
                op = disturb(rng, vary(rng, rng.choice(prev), nb, len(taub)), nth)
            elif first and same:
                op = disturb(rng, vary(rng, first, nb, len(taub)), nth)
            else:
                op = disturb(rng, gen_op(rng, rng.choice(pool), nb, len(taub)), nth)
            first = first or op
            ops.append(op)
        threads.append(ops)
    return {"bufs": bufs, "taub": taub, "threads": threads,
            "grain": "line" if max(b["n"] for b in bufs) > 128 else rng.choice(["line", "line", "opcode"])}


# ------------------------------------------------------------- arguments
def content(b, version):
    v = clock_values(b["shape"], "phase", b["n"], b["seed"] + 7919 * version, b["scale"], 0.0)
    for j in range(min(b["nan"], b["n"] // 4)):
        v[(b["seed"] + 5 * j) % b["n"]] = np.nan
    if b.get("twin") and b["n"] > 6:
        kind, u = b["twin"]
        j = 1 + int(u * (b["n"] - 3))
        if kind == "swap":
            v[[j, j + 1]] = v[[j + 1, j]]
        elif kind == "bump":
            v[j] += 0.5 * b["scale"]
        else:
            v[1:-1] = np.roll(v[1:-1], 1)
    if b["layout"] == "int":
        v = np.round(np.nan_to_num(v) * 100)
    return v


def make_buf(b):
    v = content(b, 0)
    lay = b["layout"]
    if lay == "list":
        return [float(x) for x in v]
    if lay == "tuple":
        return tuple(float(x) for x in v)
    if lay == "f32":
        return v.astype(np.float32)
    if lay == "int":
        return v.astype(np.int64)
    if lay == "strided":
        base = np.zeros(2 * len(v) + 3)
        base[1:1 + 2 * len(v):2] = v
        return base[1:1 + 2 * len(v):2]
    if lay == "ro":
        v.setflags(write=False)
    return v


def refill(b, buf, version):
    v = content(b, version)
    if isinstance(buf, list):
        buf[:] = [float(x) for x in v]
    else:
        buf[...] = v


def make_taus(t):
    if not isinstance(t, dict):
        return t
    m = [float(x) for x in t["m"]]
    if t["k"] == "ints":
        return [int(x) for x in m]
    if t["k"] == "list":
        return m
    if t["k"] == "tuple":
        return tuple(m)
    a = np.array(m)
    if t["k"] == "ro":
        a.setflags(write=False)
    return a


def build(op, bufs, taub):
    """(callable, args, kwargs) of one operation on live argument objects."""
    import allantools
    from allantools import allantools as core_mod, ci, mask, noise
    fn, p = op["fn"], op["p"]
    x = [bufs[i] for i in op["b"]]
    taus = taub[p["tb"]]

    def obj(*mods):
        for m in mods:
            if hasattr(m, fn):
                return getattr(m, fn)
        raise HarnessError("no function " + fn)
    f = None if fn == "mask" else obj(allantools, core_mod, ci, noise)
    if fn in DEVS or fn == "gcodev":
        kw = {"rate": p["rate"], "data_type": p["dt"], "taus": taus}
        if fn == "gradev":
            kw.update(ci=p["ci"], noisetype=p["noisetype"])
        if not p["kwargs"] and fn != "gradev":
            return f, x + [p["rate"], p["dt"], taus], {}
        return f, x, kw
    if fn == "three_cornered_hat_phase":
        t = taus if taus is not None else "octave"
        return f, x, {"rate": p["rate"], "taus": t, "function": getattr(allantools, p["fn"])}
    if fn == "tau_generator":
        return f, x + [p["rate"]], {"taus": taus, "even": p["even"], "maximum_m": p["maxm"]}
    if fn == "tau_reduction":
        return f, [np.array(p["ms"]), p["rate"], p["npd"]], {}
    if fn in ("trim_data", "lag1_acf"):
        return f, [arr(x[0])], {}
    if fn in ("frequency2phase", "phase2frequency"):
        return f, [arr(x[0]), p["rate"]], {}
    if fn == "input_to_phase":
        return f, [arr(x[0]), p["rate"], p["dt"]], {}
    if fn == "phase2radians":
        return f, [x[0], p["rate"]], {}
    if fn == "frequency2fractional":
        return f, [x[0], p["mean"]], {}
    if fn == "psd2allan":
        s = np.abs(np.sin(np.arange(1, p["size"] + 1) * p["vals"][0])) + 0.1
        fr = np.arange(p["size"]) * 0.5 if p["fvec"] else 0.5
        return f, [s, fr], {"kind": p["kind"] if p["kind"] != "hdev" else "adev", "base": p["base"]}
    if fn == "adev2psd_piecewise_approx":
        t = [2.0 ** i for i in range(len(p["vals"]))]
        v = list(p["vals"])
        if not p["aslist"]:
            t, v = np.array(t), np.array(v)
        return f, [v, t], {"vartype": "hdev" if p["kind"] == "hdev" else "adev"}
    if fn == "psd_piecewise_to_adev":
        k = len(p["h"])
        a = [p["h"], p["alpha"], [0.01 * 10 ** i for i in range(k - 1)], [1.0, 3.0]]
        if not p["aslist"]:
            a = [np.array(y, dtype=float) for y in a]
        else:
            a = [list(y) for y in a]
        return f, a, {}
    if fn == "confidence_interval":
        return f, [p["dev"], p["edf"]], {"ci": p["ci"]} if p["ci"] else {}
    if fn == "confidence_interval_noiseID":
        return f, [arr(x[0]), p["dev"], p["af"]], dict({"dev_type": p["dt2"], "data_type": p["dt"]},
                                                       **({"ci": p["ci"]} if p["ci"] else {}))
    if fn == "autocorr_noise_id":
        return f, [arr(x[0]), p["af"]], {"data_type": p["dt"], "dmin": p["dmin"], "dmax": p["dmax"]}
    if fn == "edf_greenhall":
        return f, [], {"alpha": p["alpha"], "d": p["d"], "m": p["m"], "N": p["N"], "overlapping": p["ov"],
                       "modified": p["mod"]}
    if fn in ("edf_totdev", "edf_mtotdev", "edf_simple"):
        return f, [p["N"], p["m"], p["alpha"]], {}
    if fn in ("rn", "b1"):
        return f, [arr(x[0]), p["af"], 1.0], {}
    if fn == "rn_theory":
        return f, [p["af"], p["b"]], {}
    if fn == "rn_boundary":
        return f, [p["af"], p["b"]], {}
    if fn == "b1_theory":
        return f, [p["N"], p["b"] + 1], {}
    if fn == "b1_boundary":
        return f, [p["b"], p["N"]], {}
    if fn == "detrend":
        return f, [arr(x[0])], {"deg": p["deg"]}
    if fn in ("numpy_psd", "scipy_psd"):
        return f, [arr(x[0])], {"f_sample": p["rate"]}
    if fn == "calc_hdev_phase":
        return f, [arr(x[0]), p["rate"], p["m"], p["stride"]], {}
    if fn == "calc_mtotdev_phase":
        return f, [arr(x[0]), p["rate"], p["m"]], {}
    if fn == "calc_htotdev_freq":
        return f, [arr(x[0]), p["m"]], {}
    if fn == "mask":
        return getattr(mask, p["mask"]), [p["tau"]], {}
    if fn == "remove_small_ns":
        k = len(p["ns"])
        return f, [np.arange(1., k + 1), np.arange(2., k + 2), np.arange(.5, k + .5), np.array(p["ns"])], {}
    raise HarnessError("no builder for " + fn)


def arr(x):
    return x if isinstance(x, np.ndarray) else np.asarray(x)


def arrays(v, out=None):
    out = [] if out is None else out
    if isinstance(v, np.ndarray):
        out.append(v)
    elif isinstance(v, (list, tuple)):
        for y in v:
            arrays(y, out)
    elif isinstance(v, dict):
        for y in v.values():
            arrays(y, out)
    return out


def frozen(v):
    """Deep copy that keeps bits (functions stay)."""
    if isinstance(v, np.ndarray):
        return np.array(v, copy=True)
    if isinstance(v, (list, tuple)):
        return type(v)(frozen(y) for y in v)
    if isinstance(v, dict):
        return {k: frozen(y) for k, y in v.items()}
    return v


def same_bits(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same_bits(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same_bits(a[k], b[k]) for k in a)
    return a is b or (type(a) is type(b) and (a == b or (a != a and b != b)))


def call_pure(op, bufs, taub):
    f, a, k = build(op, bufs, taub)
    return f(*a, **k)


# ------------------------------------------------------------- execution
def execute(sc, ctx):
    here, d = os.getcwd(), tempfile.mkdtemp(prefix="vsim-")
    os.chdir(d)
    try:
        run(sc, ctx)
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def can_refill(b, tid):
    return b["owner"] == tid and b["layout"] not in ("tuple", "ro")


def run(sc, ctx):
    nth = len(sc["threads"])
    bufspec = [dict(b, owner=(b["owner"] if b["owner"] is None or b["owner"] < nth else None)) for b in sc["bufs"]]
    # -- expected values, each alone in a pristine process
    expect, cache = {}, {}
    for tid, ops in enumerate(sc["threads"]):
        ver = [0] * len(bufspec)
        for n, op in enumerate(ops):
            if op["fn"] == "!refill":
                if can_refill(bufspec[op["b"]], tid):
                    ver[op["b"]] += 1
                continue
            if op["fn"].startswith("!") or not usable(op, bufspec, tid):
                continue
            key = json.dumps([op["fn"], op["b"], op["p"], [ver[b] for b in op["b"]]], sort_keys=True)
            if key not in cache:
                def solo(op=op, ver=tuple(ver)):
                    bufs = [make_buf(b) for b in bufspec]
                    for b, s, v in zip(bufs, bufspec, ver):
                        if v:
                            refill(s, b, v)
                    f, a, k = build(op, bufs, [make_taus(t) for t in sc["taub"]])
                    st = Stepper(Ctx(), grain=sc["grain"], callfaults=True)
                    try:
                        with st:
                            val = ("ok", f(*a, **k))
                    except BaseException as e:
                        if isinstance(e, (Violation, HarnessError)):
                            raise
                        val = ("exc", type(e).__name__)
                    return frozen(val), st.steps, st.calls
                out = pristine(solo)
                if out[0] != "ok":
                    raise HarnessError("solo run: %s" % (out,))
                cache[key] = out[1]
            expect[(tid, n)] = cache[key]

    bufs = [make_buf(b) for b in bufspec]
    taub = [make_taus(t) for t in sc["taub"]]
    keep = [frozen(b) for b in bufs]
    keept = [frozen(t) for t in taub]
    before = process_wide()
    alone = nth == 1
    sched = Sched(ctx, (), sc["grain"], callfaults=True)
    held = []
    stats = {"compared": 0, "calls": 0}

    def body_for(tid, ops):
        def body(t):
            ver = [0] * len(bufspec)
            for n, op in enumerate(ops):
                if op["fn"] == "!refill":
                    b = op["b"]
                    if can_refill(bufspec[b], tid):
                        ver[b] += 1
                        refill(bufspec[b], bufs[b], ver[b])
                        keep[b] = frozen(bufs[b])
                        ctx.fault("buffer-refilled")
                    continue
                if op["fn"] == "!scribble":
                    mine = [h for h in held if h[0] == tid]
                    if mine:
                        h = mine[op["k"] % len(mine)]
                        for a in arrays(h[2]):
                            if a.flags.writeable and a.size and a.dtype.kind in "fi":
                                a[...] = -777
                        h[3] = frozen(h[2])
                        ctx.fault("result-scribbled")
                    continue
                if not usable(op, bufspec, tid):
                    continue
                one(t, tid, n, op)
        return body

    def one(t, tid, n, op):
        who = "thread %d call %d %s(%s)" % (tid, n, op["fn"], json.dumps(op["p"], sort_keys=True))
        f, a, k = build(op, bufs, taub)
        fa, fk = frozen(a), frozen(k)
        tl = thread_local()
        val = exc = None
        t.fired = []
        stats["calls"] += 1
        want, steps, calls = expect[(tid, n)]
        fault = op.get("fault")
        if fault:
            fault = [1 + int(fault[0] * (calls if fault[1] == "alloc-call" else steps)), fault[1]]
        sched.op_begin(t, fault, [[1 + int(u * steps), k] for u, k in op.get("pre", ())])
        try:
            val = f(*a, **k)
            sched.op_end()
        except BaseException as e:
            sched.op_end()
            if isinstance(e, (Violation, HarnessError)):
                raise
            exc = e
            e.__traceback__ = None
        ctx.event("call", tid, n, op["fn"], exc, val if exc is None else None)
        bad = [i for i in range(len(a)) if not same_bits(fa[i], a[i])] + [i for i in k if not same_bits(fk[i], k[i])]
        if bad:
            raise Violation("argument-modified", "%s modified its argument(s) %s" % (who, bad), key=op["fn"])
        d = changed(tl, thread_local())
        if d:
            raise Violation("state-changed", "%s changed %s" % (who, d), key=op["fn"])
        if alone:
            d = changed(before, process_wide(1))
            if d:
                raise Violation("state-changed", "%s changed process-wide %s (injected %s, raised %r)" %
                                (who, d, t.fired, exc), key=op["fn"])
        if exc is not None:
            if not t.fired:
                if want[0] != "exc" or want[1] != type(exc).__name__:
                    raise Violation("wrong-outcome", "%s raised %r; alone in a fresh process: %s" %
                                    (who, exc, want[0] if want[0] == "ok" else want[1]), key=op["fn"])
                ctx.probe("raise-" + op["fn"])
                ctx.ok()
            return
        if want[0] != "ok":
            raise Violation("wrong-outcome", "%s returned; alone in a fresh process it raises %s" % (who, want[1]),
                            key=op["fn"])
        d = approx_same(val, want[1], 1e-10)
        if d:
            raise Violation("wrong-result", "%s differs from the same call alone in a fresh process: %s" % (who, d),
                            key=op["fn"])
        if op["fn"] in DEVS or op["fn"] in ("gcodev", "three_cornered_hat_phase"):
            ins = arrays([a, k])
            for i, o in enumerate(arrays(val)):
                if any(np.may_share_memory(o, x) and np.shares_memory(o, x) for x in ins):
                    raise Violation("shared-memory", "%s: returned array %d is a view of an argument" % (who, i),
                                    key=op["fn"])
            held.append([tid, who, val, frozen(val)])
        stats["compared"] += 1
        ctx.probe(op["fn"])
        ctx.ok(3)

    for tid, ops in enumerate(sc["threads"]):
        sched.spawn(body_for(tid, ops))
    sched.run()
    for tid, who, val, kept in held:
        if not same_bits(kept, val):
            raise Violation("result-changed", "%s: the returned result changed later" % who)
    for i, (x, y) in enumerate(zip(keep + keept, bufs + taub)):
        if not same_bits(x, y):
            raise Violation("argument-modified", "argument object %d was modified" % i)
    d = changed(before, process_wide())
    if d:
        raise Violation("state-changed", "process-wide %s changed after overlapping calls %s" %
                        (d, [[o["fn"] for o in ops] for ops in sc["threads"]]))
    ctx.simtime += stats["calls"]
    if stats["compared"] and (sched.switches or stats["calls"] > 1 or any(t.fired for t in sched.threads)):
        ctx.nontrivial = True


def usable(op, bufspec, tid):
    return all(b < len(bufspec) and bufspec[b]["owner"] in (None, tid) for b in op["b"])


def shrink(sc):
    ths = sc["threads"]
    if len(ths) > 1:
        for i in range(len(ths)):
            yield dict(sc, threads=ths[:i] + ths[i + 1:])
    if any(op.get("pre") for ops in ths for op in ops):
        yield dict(sc, threads=[[dict(op, pre=[]) for op in ops] for ops in ths])
        for i, ops in enumerate(ths):
            yield dict(sc, threads=ths[:i] + [[dict(op, pre=[]) for op in ops]] + ths[i + 1:])
    for i, ops in enumerate(ths):
        for c in list_shrinks(ops, 1):
            yield dict(sc, threads=ths[:i] + [c] + ths[i + 1:])
    for i, ops in enumerate(ths):
        for j, op in enumerate(ops):
            if op.get("fault"):
                yield dict(sc, threads=ths[:i] + [ops[:j] + [dict(op, fault=None)] + ops[j + 1:]] + ths[i + 1:])
            for c in list_shrinks(op.get("pre", []), 0):
                yield dict(sc, threads=ths[:i] + [ops[:j] + [dict(op, pre=c)] + ops[j + 1:]] + ths[i + 1:])
    if sc["grain"] != "line":
        yield dict(sc, grain="line")
    for i, b in enumerate(sc["bufs"]):
        for k, v in (("layout", "array"), ("nan", 0), ("shape", "white"), ("scale", 1.0), ("n", 12)):
            if b[k] != v:
                yield dict(sc, bufs=sc["bufs"][:i] + [dict(b, **{k: v})] + sc["bufs"][i + 1:])
