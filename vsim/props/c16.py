"""C16 a monitor that polls an estimator while it is fed sees whole samples only."""
import sys

import numpy as np

from ..core import Ctx, Violation
from ..forks import pristine
from ..runner import list_shrinks, simpler
from ..sched import INJECTED, Sched, Stepper
from .c03 import FAM, construct, put, samples

COUNT = {"quick": 1500, "thorough": 80000}
RULE = ("One thread feeds an estimator sample by sample while one or two monitor threads poll it; the seeded scheduler "
        "switches inside samples and inside polls (source lines or bytecodes), polls may be cancelled or run out of "
        "memory. Non-trivial = at least one poll overlapped a sample and reported a non-zero deviation.")
COMPONENTS = {"real": ["allantools.realtime estimators"], "stub": ["thread scheduler (baton-passing, seeded)"]}
ASSUMPTIONS = ["one thread feeds the estimator",
               "the factors of one report may show different samples in progress, and taus() and devs() are two reports"]
WHAT = ["devs", "taus", "mdev", "devs", "mdev"]


def generate(rng, index, tier):
    auto = rng.random() < .6
    family = rng.choice(FAM + ["tdev"])
    n = rng.choice([rng.randrange(3, 15), rng.randrange(5, 40), rng.randrange(20, 90)])
    grain = rng.choice(["line", "opcode"])
    feed = {"n": n, "seed": rng.randrange(2 ** 31), "kind": rng.choice(["phase", "phase", "freq", "mixed"]),
            # negative: a sample that adds an averaging factor
            "pre": sorted([rng.randrange(n) if rng.random() < .5 else -rng.randrange(1, 9), round(rng.random(), 4), rng.randrange(2)]
                          for _ in range(rng.choice([1, 3, 8, 20])))}
    mons = []
    for _ in range(rng.choice([1, 1, 2])):
        polls = []
        for _ in range(rng.choice([2, 6, 15, 30])):
            polls.append({"what": rng.choice(WHAT if family == "tdev" else ["devs", "devs", "taus"]),
                          "pre": [[round(rng.random(), 4), rng.randrange(2)] for _ in range(rng.choice([0, 0, 1, 1, 2]))],
                          "back": rng.choice([0, 0, 0, 1, -1]), "scribble": rng.random() < .2,
                          "fault": [round(rng.random(), 4), rng.choice(["interrupt", "alloc"])] if rng.random() < .06 else None})
        mons.append(polls)
    return {"cfg": {"family": family, "auto": auto, "tau0": rng.choice([1.0, .5, 10.0]), "ppd": rng.choice([2, 4, 5, 10])},
            "afs": None if auto else rng.choice([[1], [1, 2, 4], [3, 1], [5, 2, 1], [2, 7, 9]]),
            "feed": feed, "monitors": mons, "grain": grain}


def log(f):
    ph, fr = samples(f["n"], f["seed"], "phase"), samples(f["n"], f["seed"], "freq")
    kinds = {"phase": ["phase"], "freq": ["freq"], "mixed": ["phase", "freq", "freq"]}[f["kind"]]
    return [(kinds[i % len(kinds)], (ph if kinds[i % len(kinds)] == "phase" else fr)[i]) for i in range(f["n"])]


def get(est, what):
    return getattr(est, what)()


def alone(sc, seq):
    """Every report after every sample, and the length of every sample and poll in steps."""
    def run():
        est = construct(sc["cfg"], None if sc["afs"] is None else list(sc["afs"]))
        names = ["devs", "taus"] + (["mdev"] if hasattr(est, "mdev") else [])
        reps, lens = [{w: np.array(get(est, w), copy=True) for w in names}], []
        for s in seq:
            put(est, s)
            reps.append({w: np.array(get(est, w), copy=True) for w in names})
        est = construct(sc["cfg"], None if sc["afs"] is None else list(sc["afs"]))
        with Stepper(Ctx(), grain=sc["grain"], scope=["realtime.py"]) as st:
            at = 0
            for s in seq:
                put(est, s)
                lens.append(st.steps - at)
                at = st.steps
            polls = {}
            for w in names:
                get(est, w)
                polls[w] = st.steps - at
                at = st.steps
        return reps, lens, polls
    return pristine(run)


def execute(sc, ctx):
    import allantools  # noqa
    seq = log(sc["feed"])
    ref = alone(sc, seq)
    if ref[0] != "ok":
        raise Violation("solo-failed", "estimator %r alone: %s" % (sc["cfg"], ref[1:]))
    reps, lens, plens = ref[1]
    est = construct(sc["cfg"], None if sc["afs"] is None else list(sc["afs"]))
    sched = Sched(ctx, (), sc["grain"], scope=["realtime.py"])
    grown = [i for i in range(len(seq)) if len(reps[i + 1]["taus"]) > len(reps[i]["taus"])] or [0]
    places = [(j if j >= 0 else grown[-j % len(grown)], u, k) for j, u, k in sc["feed"]["pre"]]
    began, done = [0], [0]
    seen = []

    def writer(t):
        for i, s in enumerate(seq):
            pre = [[1 + int(u * lens[i]), k] for j, u, k in places if j == i]
            began[0] = i + 1
            sched.op_begin(t, None, pre)
            put(est, s)
            sched.op_end()
            done[0] = i + 1

    def monitor(polls):
        def body(t):
            for p in polls:
                if p["what"] not in plens:
                    continue
                ln = plens[p["what"]]
                fault = p["fault"] and [1 + int(p["fault"][0] * ln), p["fault"][1]]
                a = done[0]
                sched.op_begin(t, fault, [[1 + int(u * ln), k] for u, k in p["pre"]])
                try:
                    r, exc = get(est, p["what"]), None
                except INJECTED:
                    r = exc = None
                except Exception as e:
                    r, exc = None, e
                sched.op_end()
                seen.append((p, a, began[0], r, None if r is None else np.array(r, copy=True), exc))
                if r is not None and p["scribble"] and isinstance(r, np.ndarray) and r.flags.writeable:
                    r += 1000.0
                    ctx.fault("scribble")
                if p["back"] >= 0:
                    sched._preempt(t, p["back"], sys._getframe())
        return body

    sched.spawn(writer)
    for m in sc["monitors"]:
        sched.spawn(monitor(m))
    sched.run()
    who = "%r afs=%s" % (sc["cfg"], sc["afs"])
    for p, a, b, live, r, exc in seen:
        w = p["what"]
        what = "%s: %s() between samples %d and %d" % (who, w, a, b)
        ctx.event(w, a, b, r, repr(exc))
        if exc is not None:
            raise Violation("poll-raised", "%s raises %r" % (what, exc))
        if r is None:
            continue
        cand = [reps[k][w] for k in range(a, b + 1)]
        if r.ndim != 1 or len(r) not in {len(c) for c in cand}:
            raise Violation("shape", "%s has shape %s; whole samples give %s" % (what, r.shape, sorted({len(c) for c in cand})))
        if w == "taus":
            if not any(same(r, c) for c in cand):
                raise Violation("mixed", "%s is %s; whole samples give %s or %s" % (what, r.tolist(), cand[0].tolist(), cand[-1].tolist()))
        else:
            for i, v in enumerate(r):
                ok = [c[i] for c in cand if i < len(c)]
                if not any(same(v, x) for x in ok) and not (v == 0 and i >= len(cand[0])):
                    raise Violation("torn", "%s: number %d is %r; whole samples give %s" % (what, i, float(v), [float(x) for x in ok][:8]))
        if not p["scribble"] and not same(live, r):
            raise Violation("snapshot-changed", "%s changed after it was returned" % what)
        ctx.ok()
        if b > a and np.any(r != 0):
            ctx.probe("poll-inside-sample")
            if len({len(c) for c in cand}) > 1:
                ctx.probe("poll-inside-growth")
            ctx.nontrivial = True
    for w in reps[-1]:
        r = np.asarray(get(est, w))
        if not same(r, reps[-1][w]):
            raise Violation("disturbed", "%s: %s() after the stream is %s, without monitors %s" % (who, w, r.tolist(), reps[-1][w].tolist()))
    ctx.simtime += len(seq) * sc["cfg"]["tau0"]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def shrink(sc):
    for i in range(len(sc["monitors"])):
        if len(sc["monitors"]) > 1:
            yield dict(sc, monitors=sc["monitors"][:i] + sc["monitors"][i + 1:])
        for polls in list_shrinks(sc["monitors"][i], 1):
            yield dict(sc, monitors=sc["monitors"][:i] + [polls] + sc["monitors"][i + 1:])
    f = sc["feed"]
    for pre in list_shrinks(f["pre"]):
        yield dict(sc, feed=dict(f, pre=pre))
    for n in (f["n"] // 2, f["n"] - 1):
        if n > 1:
            yield dict(sc, feed=dict(f, n=n))
    for kind in ("phase", "freq"):
        if f["kind"] == "mixed":
            yield dict(sc, feed=dict(f, kind=kind))
    for i, m in enumerate(sc["monitors"]):
        for j, p in enumerate(m):
            for q in (dict(p, fault=None), dict(p, scribble=False), dict(p, pre=[])):
                if q != p:
                    yield dict(sc, monitors=sc["monitors"][:i] + [m[:j] + [q] + m[j + 1:]] + sc["monitors"][i + 1:])
    yield from simpler(sc, ("grain", ["line"]))
