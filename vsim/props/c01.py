"""C01 streaming = batch at every instant."""
import numpy as np

from ..core import Violation
from ..refs import History, ref_stream
from ..stream import deliver, gen_segs, shrink_segs
from ..runner import list_shrinks

COUNT = {"quick": 640, "thorough": 60000}
RULE = ("A seeded simulated counter and lossy, duplicating, reordering link feed one estimator; it is "
        "polled at seeded instants. Non-trivial = at least one poll compared a value made of >=1 term.")
COMPONENTS = {"real": ["allantools.realtime estimators", "allantools oadev/ohdev/tdev/mdev/frequency2phase"],
              "stub": ["counter, clock and network (discrete-event model)"]}
ASSUMPTIONS = ["samples are finite Python or numpy numbers; averaging factors are positive integers",
               "equality is to the rounding error a running double-precision sum may accumulate"]

TAU0 = [1.0, 1, 0.1, 10.0, 1e-3, 2, 0.25, 3.7, 1e-6, 86400.0, 1.0 / 3.0]


def generate(rng, index, tier):
    fam = rng.choice(["oadev", "ohdev", "tdev"])
    mode = rng.random()
    vast = index % 210 == 209       # past the first million samples
    if vast:
        fam = ["oadev", "ohdev", "tdev"][index // 210 % 3]
        total, amax = rng.randrange(1050000, 1100000), 3000
    elif index % 63 == 62:
        total, amax = rng.randrange(66000, 150000), 3000
    elif mode < 0.55:
        total, amax = rng.randrange(1, 60), 12
    elif mode < 0.9:
        total, amax = rng.randrange(50, 900), 150
    else:
        total, amax = rng.randrange(2000, 12000), 2000
    naf = rng.choice([1, 1, 2, 3, 4, 5]) if total < 20000 else 1 if vast else rng.choice([1, 2, 3])
    afs = [max(1, int(amax ** rng.random())) for _ in range(naf)]
    if rng.random() < 0.2:
        afs[rng.randrange(naf)] = max(1, total // rng.choice([2, 3]) - rng.randrange(0, 2))
    order = rng.random()
    if order < 0.35:
        afs = sorted(set(afs))
    elif order < 0.6:
        afs = sorted(set(afs), reverse=True)
    elif order > 0.85:
        afs = afs + [rng.choice(afs)]
    segs = gen_segs(rng, total)
    if vast:
        clean = dict(segs[0], drop=0, dup=0, jitter=0, type="float", offset=5.0 * segs[0]["scale"])
        segs = [dict(clean, n=total - 20000, kind=rng.choice(["phase", "phase", "phase", "freq"])),
                dict(clean, n=20000, kind=rng.choice(["phase", "freq"]), seed=clean["seed"] + 1)]
        afs = afs[:1]
    return {"family": fam, "afs": afs, "afs_kind": rng.choice(["list", "list", "tuple", "array", "npints"]),
            "tau0": rng.choice(TAU0 if rng.random() < .8 else [1.0]),
            "segs": segs, "poll_seed": rng.randrange(2 ** 31),
            "kwargs": rng.random() < 0.5}


def make_afs(afs, kind):
    if kind == "tuple":
        return tuple(afs)
    if kind == "array":
        return np.array(afs)
    if kind == "npints":
        return [np.int64(a) for a in afs]
    return list(afs)


def poll_plan(sc, total):
    """Deterministic set of sample counts at which to poll."""
    import random
    r = random.Random(sc["poll_seed"])
    if total <= 80:
        return set(range(0, total + 1))
    s = {total, total - 1, 1, 2, 3}
    for a in set(sc["afs"]):
        for mult in (2, 3):
            for d in (-1, 0, 1, 2):
                s.add(mult * a + d)
    for _ in range(6):
        s.add(r.randrange(total + 1))
    if total > 1000000:
        return {k for k in s if k > total - 9 or k < 9} | {r.randrange(total) for _ in range(3)} | {2 ** 20 + 1}
    if len(s) > 40 or total > 20000:
        s = set(r.sample(sorted(s), min(len(s), 12 if total > 20000 else 40))) | {total}
    return s


def compare(ctx, what, fam, afs, tau0, x, est, batch):
    """One report of the real estimator against the definition (and the batch
    functions)."""
    taus = np.asarray(est.taus(), dtype=float)
    devs = np.asarray(est.devs(), dtype=float)
    if len(taus) != len(afs) or len(devs) != len(afs):
        raise Violation("shape", "%s: %d taus and %d deviations for averaging factors %r" %
                        (what, len(taus), len(devs), list(afs)[:40]))
    views = [(fam, devs, None)]
    if fam == "tdev":
        views.append(("mdev", np.asarray(est.mdev(), dtype=float), None))
        if len(views[1][1]) != len(afs):
            raise Violation("shape", "%s: mdev has %d values for %d factors" % (what, len(views[1][1]), len(afs)))
    cache = {}
    for i, m in enumerate(afs):
        m = int(m)
        if abs(taus[i] - m * float(tau0)) > 1e-9 * m * float(tau0):
            raise Violation("taus", "%s: taus[%d]=%r, expected %r" % (what, i, taus[i], m * tau0))
        if m not in cache:
            cache[m] = ref_stream(fam, x, m, tau0)
        v, n, tol = cache[m]
        for name, got, _ in views:
            f = np.sqrt(3.0) / (m * float(tau0)) if name == "mdev" else 1.0
            if n == 0:
                if got[i] != 0:
                    raise Violation("early", "%s: %s(m=%d) = %r with %d samples, no term can be formed" %
                                    (what, name, m, got[i], len(x)))
            else:
                ctx.nontrivial = True
                if not abs(got[i] - v * f) <= tol * f + 8e-16 * abs(v * f):
                    raise Violation("value", "%s: %s(m=%d, tau0=%r) = %r after %d samples, definition gives %r (tol %.1e)" %
                                    (what, name, m, tau0, got[i], len(x), v * f, tol * f))
            ctx.ok()
    if batch:
        batch_compare(ctx, what, fam, afs, tau0, x, devs, cache)


def batch_compare(ctx, what, fam, afs, tau0, x, devs, cache):
    import allantools
    func = getattr(allantools, fam)
    want = sorted(set(int(m) for m in afs if cache[int(m)][1] >= 2))
    if not want:
        return
    data = np.array([float(v) for v in x])
    try:
        taus, bdev, _, ns = func(data, rate=1.0 / tau0, data_type="phase", taus=[m * tau0 for m in want])
    except RuntimeWarning:
        return
    for t, d in zip(taus, bdev):
        m = int(round(t / tau0))
        for i, a in enumerate(afs):
            if int(a) == m:
                v, n, tol = cache[m]
                if not abs(devs[i] - d) <= 2 * tol + 1e-12 * abs(v):
                    raise Violation("batch", "%s: streaming %s(m=%d) = %r but batch %s gives %r on the same %d samples" %
                                    (what, fam, m, devs[i], fam, d, len(x)))
                ctx.ok()
                ctx.probe("batch-compared")


def build(sc):
    import allantools
    cls = getattr(allantools, sc["family"] + "_realtime")
    afs = make_afs(sc["afs"], sc["afs_kind"])
    if sc["tau0"] == 1 and sc["poll_seed"] % 2:     # documented defaults
        return cls() if sc["afs"] == [1] else cls(afs=afs)
    if sc["kwargs"]:
        return cls(afs=afs, tau0=sc["tau0"], auto_afs=False)
    return cls(afs, sc["tau0"])


def feed(est, x, kind, v, tau0):
    """One delivery: real estimator and model history."""
    if kind == "phase":
        est.add_phase(v)
        x.append(v)
    else:
        est.add_frequency(v)
        if not x:
            x.append(0)
        x.append(x[-1] + v * tau0)
        x.steps += 1


def execute(sc, ctx):
    est = build(sc)
    tau0 = sc["tau0"]
    x = History()
    total = sum(s["n"] for s in sc["segs"])
    plan = poll_plan(sc, total)
    compare(ctx, "at start", sc["family"], sc["afs"], tau0, x, est, False)
    k = 0
    for t, kind, v in deliver(sc["segs"], float(tau0), ctx):
        feed(est, x, kind, v, tau0)
        k += 1
        ctx.probe(kind)
        if k in plan:
            ctx.probe("poll")
            compare(ctx, "poll at t=%.6g" % t, sc["family"], sc["afs"], tau0, x, est, k % 7 == 0 and k > 20)
            ctx.event("poll", k, np.asarray(est.devs()))
    compare(ctx, "at end", sc["family"], sc["afs"], tau0, x, est, True)
    ctx.event("end", k, np.asarray(est.devs()), np.asarray(est.taus()))


def shrink(sc):
    for segs in shrink_segs(sc["segs"]):
        yield dict(sc, segs=segs)
    for afs in list_shrinks(sc["afs"], 1):
        yield dict(sc, afs=afs)
    for i, a in enumerate(sc["afs"]):
        for b in (1, a // 2, a - 1):
            if 0 < b < a:
                yield dict(sc, afs=sc["afs"][:i] + [b] + sc["afs"][i + 1:])
    for k, v in (("tau0", 1.0), ("afs_kind", "list"), ("kwargs", True)):
        if sc[k] != v:
            yield dict(sc, **{k: v})
