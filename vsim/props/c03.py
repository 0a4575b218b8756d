"""C03 streaming estimators are isolated, replayable, and report snapshots."""
import random

import numpy as np

from ..core import Violation, SimCrash
from ..forks import pristine
from ..sched import Sched
from ..stream import clock_values
from ..runner import list_shrinks

COUNT = {"quick": 480, "thorough": 40000}
RULE = ("Several estimators owned by 1-3 threads, interleaved by the seeded scheduler at source-line or "
        "bytecode points, with seeded caller-side mutation and crash/replay. Non-trivial = at least one "
        "report with a non-zero deviation was compared with the solo run.")
COMPONENTS = {"real": ["allantools.realtime estimators", "allantools batch functions as background load"],
              "stub": ["thread scheduler (baton-passing, seeded)", "process crash (estimator discarded)"]}
ASSUMPTIONS = ["one thread feeds one estimator (estimators are not documented as safe for two writers)",
               "the sample log is written ahead of the estimator, so a crash inside add_phase replays that sample"]

FAM = ["oadev", "ohdev", "tdev"]
BATCH = ["adev", "oadev", "mdev", "tdev", "ohdev", "totdev", "mtie"]


def generate(rng, index, tier):
    nth = rng.choice([1, 2, 2, 3])
    threads = []
    for t in range(nth):
        ops = []
        lists = rng.choice([1, 1, 2])
        slots = rng.choice([1, 2, 2, 3])
        made = []
        for s in range(slots):
            ops.append(["new", s, {"family": rng.choice(FAM), "auto": rng.random() < 0.35,
                                   "afs": rng.choice(["default", rng.randrange(lists), rng.randrange(lists)]),
                                   "tau0": rng.choice([1.0, 0.5, 10.0]), "ppd": rng.choice([2, 4, 4, 5])}])
            made.append(s)
        for _ in range(rng.randrange(3, 12)):
            s = rng.choice(made)
            k = rng.random()
            if k < 0.42:
                ops.append(["feed", s, rng.choice(["phase", "phase", "freq"]),
                            rng.randrange(1, 14) if rng.random() < .93 else rng.choice([60, 130, 300, 1100]), rng.randrange(2 ** 31)])
            elif k < 0.62:
                ops.append(["poll", s])
            elif k < 0.70:
                ops.append(["scribble", s])
            elif k < 0.80:
                ops.append(["mutate", rng.randrange(lists), rng.choice(["append", "clear", "set", "reverse", "extend"])])
            elif k < 0.90:
                ops.append(["crash", s, rng.choice(["phase", "freq"]), rng.randrange(1, 10), rng.randrange(2 ** 31),
                            rng.randrange(1, 80)])
            else:
                ops.append(["batch", rng.choice(BATCH), rng.randrange(2 ** 31)])
        for s in made:
            ops.append(["feed", s, "phase", rng.randrange(1, 20), rng.randrange(2 ** 31)])
            ops.append(["poll", s])
        threads.append({"lists": [rng.choice([[1], [1, 2, 4], [3, 1], [2], [5, 2, 1]]) for _ in range(lists)],
                        "ops": ops})
    grain = rng.choice(["line", "line", "opcode"])
    nst = sum(len(t["ops"]) for t in threads) * (150 if grain == "line" else 1200)
    pre = sorted([rng.randrange(1, max(2, int(nst * rng.random()))), rng.randrange(4)]
                 for _ in range(rng.choice([0, 2, 6, 20, 60]) if nth > 1 else 0))
    return {"threads": threads, "grain": grain, "preempts": pre,
            "scope": rng.choice([["realtime.py"], ["realtime.py"], None])}


def samples(n, seed, kind):
    return [float(v) for v in clock_values("walk" if seed % 2 else "white", kind, n, seed, 1.0, 0.0)]


def construct(cfg, afs):
    import allantools
    cls = getattr(allantools, cfg["family"] + "_realtime")
    kw = {"tau0": cfg["tau0"], "auto_afs": cfg["auto"], "pts_per_decade": cfg["ppd"]}
    if afs is not None:
        kw["afs"] = afs
    return cls(**kw)


def put(est, s):
    if s[0] == "phase":
        est.add_phase(s[1])
    else:
        est.add_frequency(s[1])


def report(est):
    out = [est.taus(), est.devs()]
    if hasattr(est, "mdev"):
        out.append(est.mdev())
    return out


def frozen(rep):
    return [(str(np.asarray(a).dtype), np.asarray(a).shape, np.asarray(a).tobytes()) for a in rep]


def static_plan(th):
    """For every slot of a thread: config, averaging factors at construction,
    and the sequence of samples and polls it must see."""
    lists = [list(l) for l in th["lists"]]
    plan = {}
    for op in th["ops"]:
        if op[0] == "new":
            cfg = op[2]
            afs = None if cfg["afs"] == "default" else list(lists[cfg["afs"]])
            if afs == []:
                afs = None
            plan[op[1]] = {"cfg": cfg, "afs": afs, "seq": []}
        elif op[0] in ("feed", "crash"):
            if op[1] in plan:
                plan[op[1]]["seq"] += [("s", op[2], v) for v in samples(op[3], op[4], op[2])]
        elif op[0] == "poll":
            if op[1] in plan:
                plan[op[1]]["seq"].append(("poll",))
        elif op[0] == "mutate" and op[1] < len(lists):
            mutate(lists[op[1]], op[2])
    return plan


def mutate(lst, how):
    if how == "append":
        lst.append(7)
    elif how == "extend":
        lst.extend([1, 3])
    elif how == "clear":
        del lst[1:]
    elif how == "set" and lst:
        lst[0] = lst[0] + 2
    elif how == "reverse":
        lst.reverse()


def solo(p):
    """The same estimator alone, in a pristine process.  Every report comes
    from an estimator of its own that is fed the samples so far and polled just
    once, so that nothing an earlier poll may have done is in it."""
    def run():
        out = []
        for n, e in enumerate(p["seq"]):
            if e[0] == "s":
                continue
            est = construct(p["cfg"], None if p["afs"] is None else list(p["afs"]))
            for s in p["seq"][:n]:
                if s[0] == "s":
                    put(est, s[1:])
            rep = report(est)
            out.append((frozen(rep), [np.array(a, copy=True) for a in rep]))
        return out
    return pristine(run)


def execute(sc, ctx):
    import allantools
    plans = [static_plan(th) for th in sc["threads"]]
    want = [{s: solo(p) for s, p in sorted(pl.items())} for pl in plans]
    for ti, w in enumerate(want):
        for s, o in w.items():
            if o[0] != "ok":
                raise Violation("solo-failed", "estimator %r alone: %s" % (plans[ti][s]["cfg"], o[1]))
    sched = Sched(ctx, sc["preempts"], sc["grain"], scope=sc["scope"])
    results = []      # per thread: (slot, poll index, live arrays or None, frozen at poll time)

    def make_body(ti, th, plan):
        res = []
        results.append(res)

        def body(t):
            lists = [list(l) for l in th["lists"]]
            est, log, polls, last = {}, {}, {}, {}
            for op in th["ops"]:
                kind = op[0]
                if kind == "new":
                    cfg = op[2]
                    afs = None if cfg["afs"] == "default" else lists[cfg["afs"]]
                    if afs is not None and len(afs) == 0:
                        afs = None
                    sched.op_begin(t)
                    est[op[1]] = construct(cfg, afs)
                    sched.op_end()
                    log[op[1]], polls[op[1]] = [], 0
                elif kind == "feed":
                    if op[1] not in est:
                        continue
                    ss = [(op[2], v) for v in samples(op[3], op[4], op[2])]
                    sched.op_begin(t)
                    for s in ss:
                        log[op[1]].append(s)
                        put(est[op[1]], s)
                    sched.op_end()
                    ctx.simtime += len(ss) * plan[op[1]]["cfg"]["tau0"]
                elif kind == "crash":
                    if op[1] not in est:
                        continue
                    ss = [(op[2], v) for v in samples(op[3], op[4], op[2])]
                    sched.op_begin(t, [op[5], "crash"])
                    i = 0
                    try:
                        for i, s in enumerate(ss):
                            log[op[1]].append(s)
                            put(est[op[1]], s)
                        sched.op_end()
                    except SimCrash:
                        sched.op_end()
                        # the estimator is gone; a new one replays the durable log
                        p = plan[op[1]]
                        log[op[1]] += ss[i + 1:]
                        sched.op_begin(t)
                        est[op[1]] = construct(p["cfg"], None if p["afs"] is None else list(p["afs"]))
                        for s in log[op[1]]:
                            put(est[op[1]], s)
                        sched.op_end()
                        ctx.probe("crash-replayed")
                elif kind == "poll":
                    if op[1] not in est:
                        continue
                    sched.op_begin(t)
                    r = report(est[op[1]])
                    sched.op_end()
                    rec = [op[1], polls[op[1]], r, frozen(r)]
                    polls[op[1]] += 1
                    last[op[1]] = rec
                    res.append(rec)
                elif kind == "scribble":
                    rec = last.get(op[1])
                    if rec is not None and rec[2] is not None:
                        for a in rec[2]:
                            if isinstance(a, np.ndarray) and a.flags.writeable:
                                a += 1000.0
                        rec[2] = None      # ours now; no longer a snapshot
                        ctx.fault("scribble")
                elif kind == "mutate":
                    if op[1] < len(lists):
                        mutate(lists[op[1]], op[2])
                        ctx.fault("mutate-afs")
                elif kind == "batch":
                    d = np.random.RandomState(op[2] % 2 ** 32).standard_normal(24)
                    sched.op_begin(t)
                    getattr(allantools, op[1])(d, taus=[1, 2, 4])
                    sched.op_end()
        return body

    for ti, th in enumerate(sc["threads"]):
        sched.spawn(make_body(ti, th, plans[ti]))
    sched.run()
    for ti, res in enumerate(results):
        for slot, k, live, fz in res:
            ref, val = want[ti][slot][1][k]
            who = "thread %d estimator %d %r" % (ti, slot, plans[ti][slot]["cfg"])
            ctx.event("report", ti, slot, k, fz[1][2].hex()[:200])
            if fz != ref:
                got = [np.frombuffer(f[2], dtype=f[0]).tolist()[:12] for f in fz]
                raise Violation("not-isolated", "%s: report %d is %s but the same estimator alone reports %s" %
                                (who, k, got, [v.tolist()[:12] for v in val]))
            if live is not None and frozen(live) != fz:
                raise Violation("snapshot-changed", "%s: report %d changed after it was returned: now %s" %
                                (who, k, [np.asarray(a).tolist()[:12] for a in live]))
            if np.any(np.asarray(val[1]) != 0):
                ctx.nontrivial = True
            ctx.ok(2)


def shrink(sc):
    if len(sc["threads"]) > 1:
        for i in range(len(sc["threads"])):
            yield dict(sc, threads=sc["threads"][:i] + sc["threads"][i + 1:])
    if sc["preempts"]:
        yield dict(sc, preempts=[])
    for i, th in enumerate(sc["threads"]):
        for ops in list_shrinks(th["ops"], 0):
            yield dict(sc, threads=sc["threads"][:i] + [dict(th, ops=ops)] + sc["threads"][i + 1:])
    for p in list_shrinks(sc["preempts"], 0):
        yield dict(sc, preempts=p)
    if sc["grain"] != "line":
        yield dict(sc, grain="line")
    for i, th in enumerate(sc["threads"]):
        for j, op in enumerate(th["ops"]):
            if op[0] in ("feed", "crash") and op[3] > 1:
                for n in (1, op[3] // 2, op[3] - 1):
                    nop = list(op)
                    nop[3] = n
                    ops = th["ops"][:j] + [nop] + th["ops"][j + 1:]
                    yield dict(sc, threads=sc["threads"][:i] + [dict(th, ops=ops)] + sc["threads"][i + 1:])
