"""C04 gap-resistant Allan deviation under simulated sample loss."""
import random

import numpy as np

from ..core import Violation
from ..refs import LD, EPS
from ..stream import clock_values, SHAPES
from ..runner import list_shrinks

COUNT = {"quick": 5000, "thorough": 160000}
RULE = ("A seeded link model loses samples of a seeded clock record; gradev() runs on what arrived. "
        "Non-trivial = at least one sample lost and at least one tau reported.")
COMPONENTS = {"real": ["allantools.gradev", "allantools.oadev", "allantools.ci"],
              "stub": ["clock, lossy link (Gilbert-Elliott, burst, periodic, outage, edge)"]}
ASSUMPTIONS = ["lost samples are marked NaN in the record",
               "scipy.stats.chi2 is the chi-squared reference; degrees of freedom from NIST SP1065 table 5",
               "error bars are only checked when the noise model has at least one degree of freedom"]

LOSS = ["none", "iid", "burst", "ge", "periodic", "outage", "edge", "near-total", "keep-comb", "mixed"]
NOISE = {"wp": 2, "fp": 1, "wf": 0, "ff": -1, "rf": -2, "xx": None}


def generate(rng, index, tier):
    n = rng.choice([rng.randrange(4, 30), rng.randrange(20, 200), rng.randrange(100, 1500)])
    if index % 60 == 59:
        n = rng.randrange(4000, 40000)
    k = rng.random()
    if k < 0.3:
        taus = rng.choice(["all", "octave", "decade", "log10", None]) if n < 300 else \
            rng.choice(["octave", "decade", "log10", None])
    else:
        taus = [rng.randrange(1, max(2, n // rng.choice([1, 2, 4, 8]))) for _ in range(rng.randrange(1, 7))]
        if rng.random() < 0.15:
            taus.append(n + 3)
    return {"n": n, "seed": rng.randrange(2 ** 31), "shape": rng.choice(SHAPES[:7]),
            "scale": 10.0 ** rng.choice([0, 0, -9, 4]), "rate": rng.choice([1.0, 1.0, 10.0, 0.1, 4, 0.5, 1000.0]),
            "loss": rng.choice(LOSS), "p": rng.choice([0.003, 0.02, 0.1, 0.3, 0.6, 0.9]),
            "lseed": rng.randrange(2 ** 31), "extra": [],
            "taus": taus, "tau_array": rng.random() < 0.4,
            "ci": rng.choice([None, 0.9, 0.68, 0.95, 0.5, 0.99, 0.6826894921370859]),
            "noise": rng.choice([None, "wp", "fp", "wf", "ff", "rf", "xx"]),
            "pad": [rng.choice([0, 1, 3, 40]), rng.choice([0, 1, 7])],
            "kind": rng.choice(["array", "array", "list"]),
            "dtype": rng.choice(["phase", "phase", "phase", "phase", "freq"])}


def lost_indices(sc):
    n, p = sc["n"], sc["p"]
    r = random.Random(sc["lseed"])
    kind = sc["loss"]
    lost = set()
    if kind in ("iid", "mixed"):
        lost |= {i for i in range(n) if r.random() < p}
    if kind in ("burst", "mixed"):
        for _ in range(r.randrange(1, 4)):
            a = r.randrange(n)
            lost |= set(range(a, min(n, a + r.randrange(1, max(2, n // 5)))))
    if kind == "ge":
        bad = False
        for i in range(n):
            bad = (r.random() < 0.7) if bad else (r.random() < p / 3)
            if bad and r.random() < 0.9:
                lost.add(i)
    if kind == "periodic":
        k = r.randrange(2, 13)
        o = r.randrange(k)
        lost |= {i for i in range(n) if i % k == o}
    if kind == "outage":
        a = r.randrange(n)
        lost |= set(range(a, min(n, a + n // 2)))
    if kind in ("edge", "mixed"):
        a, b = r.randrange(0, max(1, n // 3)), r.randrange(0, max(1, n // 3))
        lost |= set(range(a)) | set(range(n - b, n))
    if kind == "near-total":
        keep = set(r.sample(range(n), min(n, r.randrange(1, 7))))
        lost |= set(range(n)) - keep
    if kind == "keep-comb":
        k = r.randrange(2, 7)
        lost |= {i for i in range(n) if i % k}
    if sc["dtype"] == "freq":
        # integration cannot bridge a hole: keep only losses at the edges
        keep = [i for i in range(n) if i not in lost]
        if keep:
            lost = set(range(keep[0])) | set(range(keep[-1] + 1, n))
    return sorted((lost | set(sc["extra"])) - set(sc.get("spare", [])))


def wanted_ms(sc, n):
    t, rate = sc["taus"], float(sc["rate"])
    if t is None or t == "octave":
        ms = [2 ** k for k in range(int(np.floor(np.log2(n))) + 1)]
    elif t == "all":
        ms = range(1, n + 1)
    elif t == "decade":
        ms = [c * 10 ** k for k in range(int(np.floor(np.log10(n))) + 1) for c in (1, 2, 4)]
    elif t == "log10":
        top = np.log10(n)
        ms = [int(v) for v in np.round((1.0 / rate) * np.logspace(0, top, int(10 * top)) * rate)]
    else:
        ms = t
    return sorted(set(m for m in ms if 0 < m < n))


def edf_table5(N, m, alpha):
    """NIST SP1065 table 5."""
    N, m = np.float64(N), np.float64(m)
    with np.errstate(all="ignore"):
        if alpha == 2:
            return (N + 1) * (N - 2 * m) / (2 * (N - m))
        if alpha == 1:
            return np.exp(np.sqrt(np.log((N - 1) / (2 * m)) * np.log((2 * m + 1) * (N - 1) / 4)))
        if alpha == 0:
            return (3 * (N - 1) / (2 * m) - 2 * (N - 2) / N) * 4 * m * m / (4 * m * m + 5)
        if alpha == -1:
            return 2 * (N - 2) / (2.3 * N - 4.9) if m == 1 else 5 * N * N / (4 * m * (N + 3 * m))
        if alpha == -2:
            return (N - 2) / (m * (N - 3) ** 2) * ((N - 1) ** 2 - 3 * m * (N - 1) + 4 * m * m)
        return N - 1


def model(x, ms, rate):
    """{m: (dev, count, tol)} over triples that survived."""
    a = np.asarray(x, dtype=LD)
    ok = ~np.isnan(a)
    big = float(np.max(np.abs(a[ok]))) if ok.any() else 0.0
    out = {}
    for m in ms:
        if 2 * m >= len(a):
            continue
        use = ok[2 * m:] & ok[m:-m] & ok[:-2 * m]
        k = int(np.count_nonzero(use))
        if k < 2:
            continue
        d = (a[2 * m:] - 2 * a[m:-m] + a[:-2 * m])[use]
        v = float(np.sqrt(np.sum(d * d) / (2 * LD(k))) / m * LD(rate))
        out[m] = (v, k, 16 * EPS * big / m * float(rate) + 1e-10 * v)
    return out


def call(data, sc):
    import allantools
    kw = {"rate": sc["rate"], "data_type": sc["dtype"]}
    t = sc["taus"]
    if isinstance(t, list):
        t = [m / float(sc["rate"]) for m in t]
        kw["taus"] = np.array(t) if sc["tau_array"] else t
    elif t is not None:
        kw["taus"] = t
    if sc["ci"] is not None:
        kw["ci"] = sc["ci"]
    if sc["noise"] is not None:
        kw["noisetype"] = sc["noise"]
    try:
        return allantools.gradev(data, **kw)
    except UserWarning:
        return None


def check_result(ctx, what, res, want, present, sc):
    rate = float(sc["rate"])
    ms = sorted(want)
    if res is None:
        if ms:
            raise Violation("omitted", "%s: gradev reports nothing, but m=%s have >=2 surviving triples (%s)" %
                            (what, ms[:10], [want[m][1] for m in ms[:10]]))
        return
    taus, dev, errs, ns = res
    got = [int(round(t * rate)) for t in taus]
    if got != ms:
        raise Violation("taus", "%s: reported m=%s, expected (>=2 surviving triples) %s" % (what, got[:30], ms[:30]))
    if not (len(dev) == len(ns) == len(errs[0]) == len(errs[1]) == len(taus)):
        raise Violation("shape", "%s: column lengths differ" % what)
    import scipy.stats
    alpha = NOISE[sc["noise"] or "wp"]
    conf = 0.9 if sc["ci"] is None else sc["ci"]
    for i, m in enumerate(ms):
        v, k, tol = want[m]
        if int(ns[i]) != k or ns[i] != int(ns[i]):
            raise Violation("count", "%s: m=%d reports n=%r, %d triples survived" % (what, m, ns[i], k))
        if not abs(dev[i] - v) <= tol:
            raise Violation("value", "%s: m=%d deviation %r, surviving triples give %r" % (what, m, dev[i], v))
        if not abs(taus[i] - m / rate) <= 1e-9 * m / rate:
            raise Violation("taus", "%s: tau %r for m=%d" % (what, taus[i], m))
        edf = edf_table5(present, m, alpha)
        if np.isfinite(edf) and edf >= 1:
            q = (1 - conf) / 2
            d = float(dev[i])
            lo = d - d * np.sqrt(edf / scipy.stats.chi2.ppf(1 - q, edf))
            hi = d * np.sqrt(edf / scipy.stats.chi2.ppf(q, edf)) - d
            for name, g, w in (("lower", errs[0][i], lo), ("upper", errs[1][i], hi)):
                if not (np.isfinite(g) and g >= 0 and abs(g - w) <= 1e-7 * (abs(w) + d)):
                    raise Violation("errorbar", "%s: m=%d noise %s ci=%r: %s error bar %r, chi-squared interval "
                                    "(edf %.6g) is at distance %r" % (what, m, sc["noise"], sc["ci"], name, g, edf, w))
            ctx.probe("errorbar-checked")
        ctx.ok()


def execute(sc, ctx):
    n = sc["n"]
    v = clock_values(sc["shape"], sc["dtype"], n, sc["seed"], sc["scale"], 0.0)
    lost = lost_indices(sc)
    ctx.fault("lost-sample", len(lost))
    ctx.simtime += n / float(sc["rate"])
    v[lost] = np.nan
    if len(lost) == n:
        return
    data = v.tolist() if sc["kind"] == "list" and sc["dtype"] == "phase" else v
    keep = np.array(v)
    if sc["dtype"] == "freq":
        f = v[~np.isnan(v)]
        x = np.concatenate(([0.0], np.cumsum(np.asarray(f, dtype=LD)) / LD(sc["rate"])))
    else:
        x = v
    ms = wanted_ms(sc, len(x))
    want = model(x, ms, sc["rate"])
    if sc["dtype"] == "freq":     # cumulative sum rounding
        want = {m: (a, k, t + len(x) * 64 * EPS * float(np.max(np.abs(x))) / m * sc["rate"]) for m, (a, k, t) in want.items()}
    present = int(np.count_nonzero(~np.isnan(np.asarray(x, dtype=float))))
    res = call(data, sc)
    ctx.event("gradev", None if res is None else [np.asarray(r) for r in res])
    check_result(ctx, "loss=%s" % sc["loss"], res, want, present, sc)
    if res is not None and lost:
        ctx.nontrivial = True
    # a link that was down before the start / after the end adds nothing
    if sc["dtype"] == "phase" and isinstance(sc["taus"], list):
        a, b = sc["pad"]
        if a or b:
            ctx.fault("edge-loss", a + b)
            pad = np.concatenate((np.full(a, np.nan), keep, np.full(b, np.nan)))
            ms2 = [m for m in sorted(set(sc["taus"])) if 0 < m < n]
            if ms2 == sorted(set(m for m in sc["taus"] if m > 0 and m < n + a + b)):
                res2 = call(pad, sc)
                check_result(ctx, "padded %d+%d" % (a, b), res2, want, present, sc)
    if not lost and sc["dtype"] == "phase":
        import allantools
        t = [m / float(sc["rate"]) for m in want]
        if t:
            o = allantools.oadev(keep, rate=sc["rate"], data_type="phase", taus=t)
            tol = np.array([want[m][2] for m in sorted(want)])
            if len(o[0]) != len(res[0]) or np.any(np.abs(o[1] - res[1]) > 2 * tol) or np.any(o[3] != res[3]):
                raise Violation("oadev", "nothing lost, but gradev %s n=%s and oadev %s n=%s" %
                                (res[1].tolist()[:8], res[3].tolist()[:8], o[1].tolist()[:8], o[3].tolist()[:8]))
            ctx.probe("lossless-oadev")


def shrink(sc):
    lost = lost_indices(sc)
    base = dict(sc, loss="none", extra=lost)
    if sc["loss"] != "none":
        yield base
    for l in list_shrinks(sc["extra"], 0):
        yield dict(sc, extra=l)
    for n in (4, 6, 10, sc["n"] // 2, sc["n"] - 1):
        if 4 <= n < sc["n"]:
            yield dict(sc, n=n, extra=[i for i in sc["extra"] if i < n])
    if isinstance(sc["taus"], list):
        for l in list_shrinks(sc["taus"], 1):
            yield dict(sc, taus=l)
    for k, v in (("pad", [0, 0]), ("rate", 1.0), ("scale", 1.0), ("ci", None), ("kind", "array"),
                 ("noise", None), ("tau_array", False), ("shape", "white")):
        if sc[k] != v:
            yield dict(sc, **{k: v})
