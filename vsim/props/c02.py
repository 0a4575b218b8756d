"""C02 automatic averaging factors: complete, aligned, exact."""
import random

import numpy as np

from ..core import Violation
from ..refs import History, log_grid
from ..runner import simpler
from ..stream import deliver, gen_segs, shrink_segs
from .c01 import TAU0, compare, feed

COUNT = {"quick": 480, "thorough": 40000}
RULE = ("A seeded simulated counter and faulty link feed one estimator in automatic mode; the active "
        "factors are checked after every sample, all values at seeded instants and around every insertion. "
        "Non-trivial = at least one deviation made of >=1 term was compared.")
COMPONENTS = {"real": ["allantools.realtime estimators in auto mode", "allantools batch oadev/ohdev/tdev"],
              "stub": ["counter, clock and network (discrete-event model)"]}
ASSUMPTIONS = ["grid = round(10^decade * logspace(0,1,pts_per_decade+1)[k]), distinct values, as in the source",
               "equality is to the rounding error a running double-precision sum may accumulate"]


def generate(rng, index, tier):
    mode = rng.random()
    if index % 81 == 80:
        total = rng.randrange(8000, 40000)
    elif mode < 0.35:
        total = rng.randrange(0, 80)
    elif mode < 0.9:
        total = rng.randrange(60, 700)
    else:
        total = rng.randrange(1000, 4000)
    ppd = rng.choice([1, 2, 3, 4, 4, 5, 6, 7, 8, 10, 12, 20, 33])
    if total > 5000:
        ppd = min(ppd, 7)
    if index % 240 == 120:      # the sixth decade
        total, ppd = rng.randrange(205000, 230000), rng.choice([1, 2])
    return {"family": rng.choice(["oadev", "ohdev", "tdev"]),
            "afs": rng.choice([None, None, [1], [1, 2, 4], [7], [], [1, 10, 100]]),
            "ppd": ppd,
            "pass_ppd": rng.random() < 0.9 or total > 5000,
            "tau0": rng.choice(TAU0),
            "segs": gen_segs(rng, max(total, 1)), "poll_seed": rng.randrange(2 ** 31)}


def build(sc):
    import allantools
    cls = getattr(allantools, sc["family"] + "_realtime")
    kw = {"auto_afs": True, "tau0": sc["tau0"]}
    if sc["tau0"] == 1 and sc["poll_seed"] % 2:
        del kw["tau0"]
    if sc["pass_ppd"]:
        kw["pts_per_decade"] = sc["ppd"]
    if sc["afs"] is not None:
        kw["afs"] = list(sc["afs"])
    return cls(**kw)


def execute(sc, ctx):
    est = build(sc)
    ppd = sc["ppd"] if sc["pass_ppd"] else 4
    tau0 = float(sc["tau0"])
    r = random.Random(sc["poll_seed"])
    x = History()
    k = 0
    grid = log_grid(ppd, 0)
    total = sum(s["n"] for s in sc["segs"])
    rate = min(1.0, (25.0 if total < 50000 else 6.0) / max(1, total))
    check_afs(ctx, "at start", est, grid, tau0)
    for t, kind, v in deliver(sc["segs"], tau0, ctx):
        feed(est, x, kind, v, sc["tau0"])
        k += 1
        before = len(grid)
        grid = log_grid(ppd, len(x)) if _maybe(grid, ppd, len(x)) else grid
        if total < 50000 or k % 97 == 0 or len(grid) != before or len(x) < 200:
            check_afs(ctx, "after %d samples" % len(x), est, grid, tau0)
        if len(grid) != before:
            ctx.probe("factor-added", len(grid) - before)
            ctx.event("af", k, grid[-1])
        if r.random() < (rate if len(grid) == before else 1.0 if total <= 1000 else 0.3):
            ctx.probe("poll")
            compare(ctx, "after %d samples" % len(x), sc["family"], grid, tau0, x, est, r.random() < 0.2)
    compare(ctx, "at end", sc["family"], grid, tau0, x, est, True)
    ctx.event("end", k, np.asarray(est.devs()), np.asarray(est.taus()))


def _maybe(grid, ppd, n):
    """Only recompute the grid when a new point can have become usable."""
    return n < 3 or n % 2 == 1 or n < 2 * grid[-1] + 3


def check_afs(ctx, what, est, grid, tau0):
    taus = np.asarray(est.taus(), dtype=float)
    devs = np.asarray(est.devs())
    if len(taus) != len(devs):
        raise Violation("misaligned", "%s: %d taus but %d deviations" % (what, len(taus), len(devs)))
    if hasattr(est, "mdev") and len(est.mdev()) != len(taus):
        raise Violation("misaligned", "%s: %d taus but %d mdev values" % (what, len(taus), len(est.mdev())))
    want = tau0 * np.array(grid)
    if len(taus) != len(want) or np.any(np.abs(taus - want) > 1e-9 * want):
        raise Violation("grid", "%s: active factors %s, expected %s" %
                        (what, [float("%.6g" % (t / tau0)) for t in taus][:60], grid[:60]))
    ctx.ok()


def shrink(sc):
    for segs in shrink_segs(sc["segs"]):
        yield dict(sc, segs=segs)
    yield from simpler(sc, ("tau0", (1.0,)), ("afs", (None,)), ("ppd", (4, 1)))
