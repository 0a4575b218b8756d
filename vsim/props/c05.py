"""C05 samples lost before start or after stop never change a frequency result."""
import random

import numpy as np

from ..core import Violation, approx_same
from ..runner import simpler
from ..stream import clock_values, SHAPES

COUNT = {"quick": 3000, "thorough": 250000}
RULE = ("A seeded counter starts late and/or stops early, losing samples at the edges of a frequency record; one "
        "statistic runs on the record with its missing edges and on the trimmed record. Non-trivial = at least "
        "one edge sample lost and at least one tau reported.")
COMPONENTS = {"real": ["all frequency-capable statistics of allantools", "allantools.Dataset"],
              "stub": ["counter with late start / early stop / mid-record loss"]}
ASSUMPTIONS = ["missing samples are NaN; at least one sample survives",
               "for two-channel gcodev both counters start and stop together"]

STATS = ["adev", "oadev", "mdev", "tdev", "pdev", "hdev", "ohdev", "totdev", "ttotdev", "mtotdev", "htotdev",
         "theo1", "mtie", "tierms", "gradev", "gcodev"]
SLOW = {"mtotdev": 60, "htotdev": 60, "ttotdev": 60, "theo1": 150, "pdev": 150}


def generate(rng, index, tier):
    fn = STATS[index % len(STATS)] if rng.random() < 0.7 else rng.choice(STATS)
    n = rng.choice([rng.randrange(1, 12), rng.randrange(8, 40), rng.randrange(30, 400), rng.randrange(300, 3000)])
    n = min(n, SLOW.get(fn, 3000))
    k = rng.random()
    if k < 0.5:
        taus = rng.choice(["all", "octave", "decade", "log10", None])
        if taus == "all" and n > 60:
            taus = "octave"
    else:
        taus = [rng.randrange(1, max(2, n // rng.choice([1, 2, 4]))) for _ in range(rng.randrange(1, 5))]
    return {"fn": fn, "n": n, "seed": rng.randrange(2 ** 31), "shape": rng.choice(SHAPES[:7]),
            "offset": rng.choice([0.0, 0.0, 1.0, 1e3]), "rate": rng.choice([1.0, 1, 10.0, 0.1, 4.0, 0.5]),
            "lead": rng.choice([0, 1, 1, 2, 5, 37, 300] * 4 + [1500, 7000]),
            "trail": rng.choice([0, 1, 1, 2, 6, 41, 1100] * 4 + [5500]),
            "holes": rng.choice([0, 0, 0, 0, 0, 0, 1, 3]), "taus": taus, "tau_array": rng.random() < 0.4,
            "via": rng.choice(["call", "call", "dataset", "reused"]), "kind": rng.choice(["array", "array", "list", "f32", "strided"])}


def run(sc, rec, rec2):
    import allantools
    t = sc["taus"]
    if isinstance(t, list):
        t = [m / float(sc["rate"]) for m in t]
        if sc["tau_array"]:
            t = np.array(t)
    if sc["kind"] == "list":
        rec, rec2 = list(map(float, rec)), list(map(float, rec2))
    elif sc["kind"] == "f32":
        rec, rec2 = rec.astype(np.float32), rec2.astype(np.float32)
    elif sc["kind"] == "strided":
        rec, rec2 = np.repeat(rec, 2)[::2], np.repeat(rec2, 3)[1::3]
    try:
        if sc["fn"] == "gcodev":
            out = allantools.gcodev(rec, rec2, rate=sc["rate"], data_type="freq", taus=t)
        elif sc["via"] == "dataset":
            d = allantools.Dataset(data=rec, rate=sc["rate"], data_type="freq", taus=t)
            d.compute(sc["fn"])
            out = tuple(d.out[k] for k in ("taus", "stat", "stat_err", "stat_n"))
        elif sc["via"] == "reused":     # one dataset: other record, other statistic, then this one, twice
            d = allantools.Dataset(data=np.array([1.0, 2.0, 0.5, 0.7, 1.1, 3.0, 2.5, 1.0]), rate=1.0, data_type="phase")
            d.compute("oadev")
            d.set_input(rec, rate=sc["rate"], data_type="freq", taus=t)
            for fn in ("tierms", sc["fn"], sc["fn"]):
                try:
                    d.compute(fn)
                except (Exception, UserWarning):
                    if fn == sc["fn"]:
                        raise
            out = tuple(d.out[k] for k in ("taus", "stat", "stat_err", "stat_n"))
        else:
            out = getattr(allantools, sc["fn"])(rec, rate=sc["rate"], data_type="freq", taus=t)
    except (Exception, UserWarning) as e:
        return "exc", type(e).__name__
    return "ok", out


def execute(sc, ctx):
    n = sc["n"]
    v = clock_values(sc["shape"], "freq", n, sc["seed"], 1.0, sc["offset"])
    w = clock_values("white", "freq", n, sc["seed"] ^ 1, 1.0, 0.0)
    full = v.copy()
    r = random.Random(sc["seed"])
    for _ in range(sc["holes"]):
        if n > 2:
            v[r.randrange(1, n - 1)] = np.nan
            ctx.fault("mid-record-loss")
    pad = lambda a: np.concatenate((np.full(sc["lead"], np.nan), a, np.full(sc["trail"], np.nan)))
    ctx.fault("late-start", int(sc["lead"] > 0))
    ctx.fault("early-stop", int(sc["trail"] > 0))
    ctx.simtime += (n + sc["lead"] + sc["trail"]) / float(sc["rate"])
    a = run(sc, pad(v), pad(w))
    b = run(sc, v, w)
    ctx.event("out", a[0], b[0])
    what = "%s(%s) with %d+%d missing edge samples around %d" % (sc["fn"], sc["via"], sc["lead"], sc["trail"], n)
    if a[0] != b[0]:
        raise Violation("outcome", "%s: %s, trimmed record: %s" % (what, a, b), key=sc["fn"])
    if a[0] == "exc":
        if a[1] != b[1]:
            raise Violation("outcome", "%s: raises %s, trimmed record raises %s" % (what, a[1], b[1]), key=sc["fn"])
        ctx.probe("both-raise")
        return
    d = approx_same(norm(a[1]), norm(b[1]), 1e-9)
    if d:
        raise Violation("differs", "%s differs from the trimmed record: %s" % (what, d), key=sc["fn"])
    ctx.ok()
    if np.isnan(v).any() and sc["fn"] != "gradev":      # samples lost inside stay in the record: taus and counts know
        c = run(sc, full, w)
        if c[0] == "ok" and approx_same([np.asarray(a[1][k]) for k in (0, 3)], [np.asarray(c[1][k]) for k in (0, 3)], 1e-9):
            raise Violation("span", "%s with a sample lost inside: taus and counts %s %s, complete record %s %s" %
                            (what, a[1][0], a[1][3], c[1][0], c[1][3]), key=sc["fn"])
    ctx.probe(sc["fn"])
    if len(b[1][0]) and sc["lead"] + sc["trail"]:
        ctx.nontrivial = True


def norm(out):
    return tuple([np.asarray(y) for y in x] if isinstance(x, list) else np.asarray(x) for x in out)


def shrink(sc):
    yield from simpler(sc, ("lead", (0, 1)), ("trail", (0, 1)), ("holes", (0,)), ("via", ("call",)),
                       ("kind", ("array",)), ("rate", (1.0,)), ("offset", (0.0,)),
                       ("taus", ([1], [2], [1, 2], None)), ("shape", ("white",)), ("tau_array", (False,)))
    for n in (3, 5, 8, 12, sc["n"] // 2, sc["n"] - 1):
        if 2 < n < sc["n"]:
            yield dict(sc, n=n)
