"""C14 a lost sample never becomes a wrong number, and spoils only what depends on it."""
import random

import numpy as np

from ..core import Violation
from ..runner import list_shrinks, simpler

COUNT = {"quick": 5000, "thorough": 250000}
RULE = ("A seeded link loses samples inside a record (marked NaN); a statistic, estimator or noise identifier runs on "
        "what arrived and on two records in which the lost samples carried different large values. Non-trivial = at "
        "least one sample lost and at least one number compared.")
COMPONENTS = {"real": ["all deviations, MTIE, codeviation, three-cornered hat, noise identification, conversions, "
                       "Dataset, real-time estimators"],
              "stub": ["clock, lossy link"]}
ASSUMPTIONS = ["a lost sample is NaN in a float record; samples lost at the edges of a frequency record are C05, "
               "the gap-resistant statistic is C04",
               "masked arrays are outside: the package turns every record into a plain array",
               "a number depends on lost samples if it differs by more than 1e-6 between two sets of values for them",
               "a lost frequency sample may spoil everything computed from the phase after it"]
STATS = ["adev", "oadev", "mdev", "tdev", "hdev", "ohdev", "totdev", "mtotdev", "ttotdev", "htotdev", "theo1",
         "mtie", "tierms", "pdev"]
OTHER = ["gcodev", "hat", "mtie_fast", "noiseid", "ci", "rn", "b1", "convert", "stream", "stream"]
SLOW = {"mtotdev": 60, "htotdev": 60, "ttotdev": 60, "theo1": 150, "pdev": 150, "hat": 150}
TOL = 1e-6


def generate(rng, index, tier):
    fn = rng.choice(OTHER) if rng.random() < .35 else STATS[index % len(STATS)] if rng.random() < .7 else rng.choice(STATS)
    n = rng.choice([rng.randrange(5, 16), rng.randrange(12, 60), rng.randrange(50, 400), rng.randrange(300, 1500)])
    n = min(n, SLOW.get(fn, 1500))
    if fn in ("noiseid", "ci", "b1", "rn"):
        n = max(n, 40)
    if fn == "stream":
        n = min(n, 300)
    if rng.random() < .5:
        taus = rng.choice(["all", "octave", "decade", "log10", None])
        if taus == "all" and n > 80:
            taus = "octave"
    else:
        taus = [rng.randrange(1, max(2, n // rng.choice([1, 2, 4]))) for _ in range(rng.randrange(1, 6))]
    sc = {"fn": fn, "n": n, "seed": rng.randrange(2 ** 31), "shape": rng.choice(["white", "walk"]),
          "scale": 10.0 ** rng.choice([0, 0, -9, 3]), "offset": rng.choice([0.0, 0.0, 10.0]),
          "rate": rng.choice([1.0, 1.0, 10.0, 0.1, 4, 0.5]), "taus": taus,
          "data_type": rng.choice(["phase", "phase", "freq"]),
          "via": rng.choice(["call", "call", "dataset"]), "kind": rng.choice(["array", "array", "list", "readonly", "strided"]),
          "chan": rng.randrange(3), "af": rng.choice([1, 1, 2, 3, 5, 7, 11]),
          "statistic": rng.choice(["adev", "oadev", "mdev", "ohdev", "hdev", "tdev"]),
          "family": rng.choice(["oadev", "ohdev", "tdev"]), "auto": rng.random() < .4, "ppd": rng.choice([2, 4, 5]),
          "afs": rng.choice([[1], [1, 2, 4], [3, 1], [5, 2], [1, 10]])}
    sc["lost"] = losses(rng, sc)
    return sc


def losses(rng, sc):
    n = sc["n"]
    lo, hi = (0, n) if sc["data_type"] == "phase" or sc["fn"] in ("noiseid", "ci", "stream", "convert") else (1, n - 1)
    k = rng.random()
    if k < .35:
        out = [rng.choice([lo, hi - 1, rng.randrange(lo, hi), rng.randrange(max(lo, hi - 6), hi)])]
    elif k < .6:
        out = rng.sample(range(lo, hi), min(hi - lo, rng.randrange(1, 5)))
    elif k < .75:
        a = rng.randrange(lo, hi)
        out = range(a, min(hi, a + rng.randrange(1, 9)))
    elif k < .9:
        p = rng.choice([2, 3, 5, 7])
        o = rng.randrange(p)
        out = [i for i in range(lo, hi) if i % p == o]
    else:
        p = rng.choice([.01, .05, .3])
        out = [i for i in range(lo, hi) if rng.random() < p] or [rng.randrange(lo, hi)]
    return sorted(set(out))


def records(sc):
    """The record as it arrived, and twice with the lost samples filled in."""
    n = sc["n"]
    r = np.random.RandomState(sc["seed"] % 2 ** 32)
    base = [r.standard_normal(n) for _ in range(3)]
    if sc["shape"] == "walk":
        base = [np.cumsum(b) for b in base]
    fill = [np.zeros(n)] + [r.choice([-1.0, 1.0], n) * (a + b * r.random_sample(n)) for a, b in ((300, 100), (50, 100))]
    out = []
    for v in range(3):
        x = base[0].copy()
        for i in sc["lost"]:
            x[i] = np.nan if v == 0 else base[0][i] + fill[v][i]
        out.append((x + sc["offset"]) * sc["scale"])
    return out, [(b + sc["offset"]) * sc["scale"] for b in base[1:]]


def dress(sc, x):
    if sc["kind"] == "list":
        return [float(v) for v in x]
    if sc["kind"] == "strided":
        return np.repeat(x, 2)[::2]
    if sc["kind"] == "readonly":
        x = x.copy()
        x.flags.writeable = False
    return x


def table(out):
    """(labels that must agree, numbers) of a (taus, devs, errs, ns) result."""
    taus, devs, errs, ns = out
    return ([list(map(float, taus)), list(map(float, ns))],
            [list(map(float, devs)), list(map(float, errs))])


def run(sc, x, others):
    """-> (labels, rows of numbers), or the exception."""
    import allantools
    from allantools import ci
    fn, rate = sc["fn"], sc["rate"]
    t = [m / float(rate) for m in sc["taus"]] if isinstance(sc["taus"], list) else sc["taus"]
    dt = sc["data_type"]
    rec = dress(sc, x)
    try:
        if fn in STATS:
            if sc["via"] == "dataset":
                d = allantools.Dataset(data=rec, rate=rate, data_type=dt, taus=t)
                d.compute(fn)
                o = d.out
                return table((o["taus"], o["stat"], o["stat_err"], o["stat_n"]))
            return table(getattr(allantools, fn)(rec, rate=rate, data_type=dt, taus=t))
        if fn == "gcodev":
            pair = (rec, dress(sc, others[0])) if sc["chan"] else (dress(sc, others[0]), rec)
            return table(allantools.gcodev(pair[0], pair[1], rate=rate, data_type=dt, taus=t))
        if fn == "hat":
            recs = [dress(sc, others[0]), dress(sc, others[1])]
            recs.insert(sc["chan"], rec)
            return table(allantools.three_cornered_hat_phase(recs[0], recs[1], recs[2], float(rate), t,
                                                             getattr(allantools, sc["statistic"])))
        if fn == "mtie_fast":
            return table(allantools.mtie_phase_fast(x))
        if fn == "noiseid":
            o = allantools.autocorr_noise_id(np.array(x), sc["af"], data_type=dt)
            return [], [[float(v) for v in o]]
        if fn == "ci":
            o = allantools.confidence_interval_noiseID(np.array(x), 1.0, sc["af"], dev_type=sc["statistic"], data_type=dt)
            return [], [[float(v) for v in o]]
        if fn in ("rn", "b1"):
            return [], [[float(getattr(ci, fn)(np.array(x), sc["af"], 1.0 if fn == "rn" else 1))]]
        if fn == "convert":
            rows = [allantools.phase2frequency(rec, float(rate)), allantools.phase2radians(rec, 10.0),
                    allantools.frequency2fractional(rec, mean_frequency=5.0 * sc["scale"]), allantools.frequency2fractional(rec)]
            return [[len(r) for r in rows]], [[float(v) for v in r] for r in rows]
        if fn == "stream":
            est = getattr(allantools, sc["family"] + "_realtime")(
                afs=list(sc["afs"]), tau0=1.0 / float(rate), auto_afs=sc["auto"], pts_per_decade=sc["ppd"])
            labels, rows = [], []
            for v in x:
                (est.add_phase if dt == "phase" else est.add_frequency)(float(v))
                labels.append(list(map(float, est.taus())))
                rows.append(list(map(float, est.devs())))
                if hasattr(est, "mdev"):
                    rows.append(list(map(float, est.mdev())))
            return labels, rows
    except Exception as e:
        return e


def close(a, b):
    return a == b or (a != a and b != b) or abs(a - b) <= TOL * max(abs(a), abs(b))


def execute(sc, ctx):
    import allantools  # noqa
    recs, others = records(sc)
    with np.errstate(all="ignore"):
        got, one, two = [run(sc, x, others) for x in recs]
    ctx.fault("sample-lost", len(sc["lost"]))
    ctx.probe(sc["fn"])
    who = "%s(%s, n=%d, lost %s)" % (sc["fn"], sc["data_type"], sc["n"], sc["lost"][:12])
    ctx.event(sc["fn"], repr(got)[:3000])
    ident = sc["fn"] in ("noiseid", "ci", "rn", "b1")
    if isinstance(one, Exception) or isinstance(two, Exception):
        if isinstance(one, Exception) and isinstance(two, Exception) and not isinstance(got, Exception):
            if all(v != v for r in got[1] for v in r):
                return
            raise Violation("number-from-nothing", "%s returns %s; with all samples present the call raises %r" %
                            (who, got[1][:2], one))
        if isinstance(one, Exception) and isinstance(two, Exception):
            return
        if isinstance(got, Exception):
            return
        if all(v != v for r in got[1] for v in r):
            return
        raise Violation("depends", "%s returns numbers although whether it can be computed depends on what was lost" % who)
    same = all(close(a, b) for r, s in zip(one[1], two[1]) for a, b in zip(r, s))
    if isinstance(got, Exception):
        if ident and (not same or sc["fn"] == "ci"):
            return      # an identifier may refuse what it cannot judge
        raise Violation("refused", "%s raises %r; a lost sample should spoil only the numbers that depend on it" % (who, got))
    if not (len(got[0]) == len(one[0]) and all(a == b for a, b in zip(got[0], one[0])) and
            [len(r) for r in got[1]] == [len(r) for r in one[1]]):
        raise Violation("labels", "%s: taus or counts %s, without loss %s" % (who, str(got[0])[:300], str(one[0])[:300]))
    # clipped or normalised results may coincide; what a lost frequency sample leaves unknown is every phase after it
    strict = sc["fn"] not in ("hat", "ci", "rn", "b1") and sc["data_type"] == "phase"
    for k, (r, s, t) in enumerate(zip(got[1], one[1], two[1])):
        for i, (a, b, c) in enumerate(zip(r, s, t)):
            where = "%s number [%d][%d]" % (who, k, i)
            indep = close(b, c)
            if a == a:
                if not indep:
                    raise Violation("wrong-number", "%s is %r although it depends on the lost samples: %r or %r" %
                                    (where, a, b, c))
                if not close(a, b):
                    raise Violation("wrong-number", "%s is %r, but with the lost samples present %r" % (where, a, b))
                ctx.ok()
                ctx.nontrivial = True
            elif b == c and strict:
                raise Violation("spoiled", "%s is NaN although it does not depend on the lost samples (%r)" % (where, b))
            else:
                ctx.ok()
                if not indep:
                    ctx.nontrivial = True


def shrink(sc):
    if len(sc["lost"]) > 1:
        for l in list_shrinks(sc["lost"], 1):
            yield dict(sc, lost=l)
    if isinstance(sc["taus"], list) and len(sc["taus"]) > 1:
        for t in list_shrinks(sc["taus"], 1):
            yield dict(sc, taus=t)
    for n in (sc["n"] // 2, sc["n"] - 1):
        if n >= 4 and sc["lost"] and max(sc["lost"]) < n - (sc["data_type"] == "freq"):
            yield dict(sc, n=n)
    yield from simpler(sc, ("via", ["call"]), ("kind", ["array"]), ("scale", [1.0]), ("offset", [0.0]), ("rate", [1.0]),
                       ("shape", ["white"]), ("auto", [False]))
