"""C07 Dataset atomicity and refinement under threads, interrupts, failures."""
import os
import shutil
import tempfile

import numpy as np

from ..core import HarnessError, Violation, approx_same
from ..disk import Disk, Mounted
from ..forks import pristine
from ..runner import list_shrinks
from ..sched import INJECTED, Sched
from ..stream import clock_values, lean_input
from .c06 import same_number

COUNT = {"quick": 1400, "thorough": 120000}
RULE = ("1-3 caller threads share 1-2 datasets; a seeded scheduler switches between them at bytecode or line points "
        "of the package and injects interrupts and allocation failures. Non-trivial = at least one computation "
        "finished and its published result was matched, in a run with a preemption, an injected fault or a failed call.")
COMPONENTS = {"real": ["allantools.Dataset", "the statistics it calls", "CPython threads"],
              "stub": ["thread scheduler (seeded, one runner at a time)", "disk (in memory)"]}
ASSUMPTIONS = ["an interrupt that lands after publication but before return may leave the new complete result",
               "switches happen between bytecode instructions of the package, as in CPython"]

FNS = ["adev", "oadev", "mdev", "tdev", "hdev", "ohdev", "totdev", "mtie", "tierms", "gradev", "pdev"]
BADFN = ["nosuchdev", "trim_data", "tau_generator", "frequency2phase", "np"]


def gen_inp(rng, i):
    bad = rng.random()
    return {"n": rng.choice([2, 3]) if bad < 0.06 else rng.randrange(14, 40),
            "rate": 0 if 0.06 <= bad < 0.09 else rng.choice([1.0, 10.0, 0.1, 4.0, 2]),
            "type": "fase" if 0.09 <= bad < 0.13 else rng.choice(["phase", "freq"]),
            "taus": rng.choice([None, "octave", "all", "log10", [1, 2], [1, 2, 4]]), "seed": 1000 * i + rng.randrange(1000),
            "dirt": rng.choice(["lead", "gap", "gap", "dead", "stuck", "inf"]) if rng.random() < 0.15 else None}


def generate(rng, index, tier):
    nd = rng.choice([1, 1, 2])
    inputs = [gen_inp(rng, i) for i in range(rng.randrange(nd + 1, 6))]
    if rng.random() < 0.4:      # inputs that differ in their samples only
        inputs = [dict(inputs[0], seed=1000 * i + rng.randrange(1000)) for i in range(len(inputs))]
    fns = [rng.choice(FNS) for _ in range(rng.choice([1, 2, 3]))]
    nth = rng.choice([1, 2, 2, 3])
    owner = [rng.randrange(nd) for _ in inputs]
    for d in range(nd):
        owner[d] = d
    threads = []
    grain = rng.choice(["opcode", "opcode", "line"])
    for t in range(nth):
        ops = []
        for _ in range(rng.randrange(2, 7)):
            d = rng.randrange(nd)
            k = rng.random()
            mine = [i for i, o in enumerate(owner) if o == d]
            fault = None
            if rng.random() < 0.25:
                fault = [rng.randrange(1, rng.choice([12, 40, 120]) * (1 if grain == "line" else 2)),
                         rng.choice(["interrupt", "interrupt", "alloc"])]
            if k < 0.3:
                ops.append(["set", d, rng.choice(mine), fault])
            elif k < 0.68:
                ops.append(["compute", d, rng.choice(fns) if rng.random() < 0.93 else rng.choice(BADFN), fault])
            elif k < 0.85:
                ops.append(["read", d, None, None])
            else:
                ops.append(["write", d, None, fault])
        threads.append(ops)
    nst = sum(len(o) for o in threads) * (90 if grain == "opcode" else 20)
    pre = sorted([rng.randrange(1, max(2, nst)), rng.randrange(3)]
                 for _ in range(rng.choice([1, 3, 8, 25, 60]) if nth > 1 else 0))
    # how callers hold their records: one array per input kept alive, a fresh
    # array per set_input() dropped afterwards, or one buffer refilled in place
    memory = rng.choice(["keep", "fresh", "fresh", "buffer" if nth == 1 else "fresh"])
    if memory == "buffer":
        for inp in inputs:
            inp["n"] = inputs[0]["n"]
        for op in threads[0]:
            op[3] = None if op[0] == "set" else op[3]
    return {"inputs": inputs, "owner": owner, "nd": nd, "threads": threads, "grain": grain, "preempts": pre,
            "memory": memory,
            "scope": rng.choice([["dataset.py"], ["dataset.py"], ["dataset.py"], None])}


def make(inp):
    v = clock_values("white", "freq" if inp["type"] == "freq" else "phase", inp["n"], inp["seed"], 1.0, 0.0)
    if inp.get("dirt") and len(v) > 3:     # missing, stuck or overflowed readings: the results may not be numbers
        n = len(v)
        v[{"lead": slice(0, 2), "gap": slice(n // 2, n // 2 + 2), "inf": slice(n // 3, n // 3 + 1)}.get(
            inp["dirt"], slice(1, n))] = {"stuck": 1.25, "inf": np.inf}.get(inp["dirt"], np.nan)
    t = inp["taus"]
    if isinstance(t, list):
        t = [m / (float(inp["rate"]) or 1.0) for m in t]
    return dict(data=v, rate=inp["rate"], data_type=inp["type"], taus=t)


def expected(fn, inp):
    def run():
        import allantools
        kw = make(inp)
        r = getattr(allantools, fn)(kw["data"], rate=kw["rate"], data_type=kw["data_type"], taus=kw["taus"])
        return tuple(r)
    out = pristine(run)
    return ("ok", out[1]) if out[0] == "ok" else ("exc", out[1])


KEYS = ["taus", "stat", "stat_err", "stat_n"]


class History(object):
    """Set of model states a dataset may be in, given everything observed.
    State: (inp, out, pending) with pending = sorted tuple of
    (op, stage, snapshot)."""

    def __init__(self, d, inp):
        self.d = d
        self.states = {(inp, None, ())}
        self.kinds = {}

    def begin(self, op, kind, arg):
        self.kinds[op] = (kind, arg)
        self.states = {(i, o, tuple(sorted(p + ((op, 0, None),), key=str))) for i, o, p in self.states}

    def close(self, expect):
        todo = list(self.states)
        seen = set(todo)
        while todo:
            i, o, p = todo.pop()
            for n, (op, stage, snap) in enumerate(p):
                kind, arg = self.kinds[op]
                nxt = None
                if kind == "set" and stage == 0:
                    nxt = (arg, o, (op, 1, None))
                elif kind == "compute" and stage == 0:
                    nxt = (i, o, (op, 1, i))
                elif kind == "compute" and stage == 1 and expect[(arg, snap)][0] == "ok":
                    nxt = (i, (arg, snap), (op, 2, snap))
                elif kind == "write" and stage == 0:
                    nxt = (i, o, (op, 1, o))
                if nxt is not None:
                    st = (nxt[0], nxt[1], tuple(sorted(p[:n] + (nxt[2],) + p[n + 1:], key=str)))
                    if st not in seen:
                        seen.add(st)
                        todo.append(st)
            if len(seen) > 20000:
                raise HarnessError("history too large")
        self.states = seen

    def end(self, op, stages, pred=lambda snap: True):
        """Operation returned: it must be in one of `stages`."""
        out = set()
        for i, o, p in self.states:
            for q in p:
                if q[0] == op and q[1] in stages and pred(q[2]):
                    out.add((i, o, tuple(x for x in p if x[0] != op)))
        self.states = out
        return bool(out)

    def observe_out(self, ident):
        self.states = {s for s in self.states if s[1] in ident}
        return bool(self.states)

    def observe_inp(self, ident):
        self.states = {s for s in self.states if s[0] == ident}
        return bool(self.states)


def match_result(vals, stat, expect, who):
    """Which (fn, input) can have produced these four columns?"""
    found = [(fn, i) for (fn, i), e in sorted(expect.items())
             if fn == stat and e[0] == "ok" and approx_same(tuple(vals), tuple(e[1][:4]), 1e-10) is None]
    if found:
        return found
    # attribute the damage
    parts = []
    for k, v in zip(KEYS, vals):
        src = [key for key, e in sorted(expect.items()) if e[0] == "ok" and
               approx_same(v, e[1][KEYS.index(k)], 1e-10) is None]
        parts.append("%s from %s" % (k, src[:3]))
    raise Violation("torn-result", "%s: published result named %r is not the result of any one computation: %s" %
                    (who, stat, "; ".join(parts)))


def execute(sc, ctx):
    mount = tempfile.mkdtemp(prefix="vsim-")
    try:
        run(sc, ctx, mount)
    finally:
        shutil.rmtree(mount, ignore_errors=True)


def run(sc, ctx, mount):
    import allantools
    inputs = [make(i) for i in sc["inputs"]]
    copies = [np.array(i["data"], copy=True) for i in inputs]
    memory = sc.get("memory", "keep")
    buffers = [np.empty(sc["inputs"][0]["n"]) for _ in range(sc["nd"])]

    def hand_over(d, i):
        """The record as the caller passes it to set_input()."""
        kw = dict(inputs[i])
        if memory == "fresh":
            kw["data"] = copies[i].copy()
        elif memory == "buffer":
            buffers[d][:] = copies[i]
            kw["data"] = buffers[d]
        return lean_input(kw, sc["inputs"][i]["seed"])
    fns = sorted({op[2] for th in sc["threads"] for op in th if op[0] == "compute" and op[2] not in BADFN})
    expect = {(fn, i): expected(fn, inp) for fn in fns for i, inp in enumerate(sc["inputs"])}
    disk = Disk(ctx, mount)
    ds, hist, owned = [], [], []
    for d in range(sc["nd"]):
        mine = [i for i, o in enumerate(sc["owner"]) if o == d]
        first = mine[0]
        ds.append(allantools.Dataset(**hand_over(d, first)))
        hist.append(History(d, first))
        owned.append(mine)
    sched = Sched(ctx, sc["preempts"], sc["grain"], scope=sc["scope"])
    stats = {"matched": 0, "odd": 0}

    def read(d, who):
        h = hist[d]
        out, inp = getattr(ds[d], "out", None), getattr(ds[d], "inp", None)
        if not isinstance(out, dict) or not isinstance(inp, dict):
            raise Violation("torn-result", "%s: published result %r, input %r" % (who, out, inp))
        h.close(expect)
        vals = [out.get(k) for k in KEYS]
        stat = out.get("stat_id")
        if all(v is None for v in vals) and stat is None:
            ident = [None]
        elif any(v is None for v in vals) or stat is None:
            raise Violation("torn-result", "%s: published result is incomplete: %s missing (stat_id %r)" %
                            (who, [k for k, v in zip(KEYS, vals) if v is None], stat))
        else:
            ident = match_result(vals, stat, expect, who)
            if not any(i in owned[d] for _, i in ident):
                raise Violation("foreign-result", "%s: result belongs to an input of another dataset" % who)
            stats["matched"] += 1
        if not h.observe_out(ident):
            raise Violation("stale-result", "%s: published result is %s of input %s, impossible after this history" %
                            (who, ident[0] and ident[0][0], [x and x[1] for x in ident]))
        got = [i for i, c in enumerate(copies) if np.array_equal(inp["data"], c, equal_nan=True)]
        if len(got) != 1 or any(inp[k] is not inputs[got[0]][k] and not np.array_equal(inp[k], inputs[got[0]][k])
                                for k in ("rate", "data_type", "taus")):
            raise Violation("torn-input", "%s: input fields come from different set_input() calls: data %s, rate %r, "
                            "type %r, taus %r" % (who, got, inp["rate"], inp["data_type"], inp["taus"]))
        if not h.observe_inp(got[0]):
            raise Violation("wrong-input", "%s: current input is %d, impossible after this history" % (who, got[0]))
        ctx.event("read", d, ident, got[0])
        ctx.ok(2)

    def body_for(tid, ops):
        def body(t):
            for n, op in enumerate(ops):
                kind, d, arg, fault = op
                if d >= sc["nd"]:
                    continue
                who = "thread %d op %d %s dataset %d" % (tid, n, kind, d)
                h, oid = hist[d], "%d.%d" % (tid, n)
                if kind == "read":
                    read(d, who)
                    continue
                if kind == "set" and arg not in owned[d]:
                    continue
                if kind == "compute" and arg in BADFN:
                    before = ds[d].out, ds[d].inp
                    try:
                        sched.op_begin(t, None)
                        ds[d].compute(arg)
                        sched.op_end()
                    except (AttributeError, RuntimeError):
                        sched.op_end()
                        stats["odd"] += 1
                        ctx.fault("refused-function")
                    else:
                        raise Violation("accepted", "%s: compute(%r) returned" % (who, arg))
                    continue
                path = os.path.join(disk.mount, "t%d-%d.txt" % (tid, n))
                h.begin(oid, kind, arg)
                exc = val = None
                t.where = None
                try:
                    sched.op_begin(t, fault)
                    if kind == "set":
                        kw = hand_over(d, arg)
                        ds[d].set_input(kw.pop("data"), **kw)
                    elif kind == "compute":
                        val = ds[d].compute(arg)
                    else:
                        ds[d].write_results(path, 12)
                    sched.op_end()
                except BaseException as e:
                    sched.op_end()
                    if isinstance(e, (Violation, HarnessError)):
                        raise
                    exc = e
                h.close(expect)
                ctx.event("op", tid, n, kind, exc)
                if isinstance(exc, INJECTED):
                    inside = t.where is not None and t.where != "dataset.py"
                    good = h.end(oid, (0, 1) if inside and kind == "compute" else (0, 1, 2))
                elif kind == "set":
                    if exc is not None:
                        raise exc
                    good = h.end(oid, (1,))
                elif kind == "write":
                    if exc is not None:
                        good = h.end(oid, (1,), lambda s: s is None)
                        if not good:
                            raise Violation("write-failed", "%s: %r although a result was published" % (who, exc))
                    else:
                        if path not in disk.files:
                            mounted.fold_path(path)
                        good = check_file(disk, path, h, oid, expect, sc, who)
                        disk.files.pop(path, None)
                elif exc is not None:
                    stats["odd"] += 1
                    ctx.fault("compute-failed")
                    name = type(exc).__name__
                    good = h.end(oid, (1,), lambda s: expect[(arg, s)] == ("exc", name))
                    if not good:
                        raise Violation("wrong-failure", "%s: compute(%r) raised %r; expected for its inputs: %s" %
                                        (who, arg, exc, {i: expect[(arg, i)][0] for i in owned[d]}))
                else:
                    r = tuple(val.get(k) for k in KEYS)

                    def fits(s):
                        e = expect[(arg, s)]
                        return e[0] == "ok" and approx_same(r, tuple(e[1][:4]), 1e-10) is None
                    good = h.end(oid, (2,), fits)
                    if not good:
                        raise Violation("wrong-result", "%s: compute(%r) returned a result that belongs to no input "
                                        "current during the call" % (who, arg))
                    ctx.simtime += 1
                if not good:
                    raise Violation("history", "%s: no sequential explanation" % who)
                read(d, who + " (after)")
        return body

    for tid, ops in enumerate(sc["threads"]):
        sched.spawn(body_for(tid, ops))
    mounted = Mounted(disk)
    with mounted:
        sched.run()
        for d in range(sc["nd"]):
            read(d, "at end dataset %d" % d)
    for i, kw in enumerate(inputs):
        if kw["data"].tobytes() != copies[i].tobytes():
            raise Violation("input-modified", "data of input %d was modified" % i)
    if stats["matched"] and (sched.switches or stats["odd"] or any(t.fired for t in sched.threads)):
        ctx.nontrivial = True


def check_file(disk, path, h, oid, expect, sc, who):
    if path not in disk.files:
        raise Violation("no-file", "%s: nothing written" % who)
    lines = bytes(disk.files[path]).decode().splitlines()
    heads = [l for l in lines if l.startswith("#")]
    rows = [l.split() for l in lines if not l.startswith("#")]
    hd = dict((x.strip() for x in l[1:].split(":", 1)) for l in heads if ":" in l)
    if not rows or len(rows[0]) < 7:
        raise Violation("mixed-file", "%s: no table in the file" % who)
    stat = rows[0][5]
    names = set(rows[0][4:7])

    def fits(snap):
        if snap is None:
            return False
        fn, i = snap
        if names != {"min_" + fn, fn, "max_" + fn}:
            return False
        taus, dev, err, ns = expect[snap][1][:4]
        if len(rows) - 1 != len(taus):
            return False
        for r, t, v, n in zip(rows[1:], taus, dev, ns):
            if int(r[2]) != int(n) or not close(float(r[1]), t) or not close(float(r[5]), v):
                return False
        return same_number(hd.get("Input data rate"), sc["inputs"][i]["rate"]) and \
            hd.get("Input data type") == sc["inputs"][i]["type"]
    if not h.end(oid, (1,), fits):
        raise Violation("mixed-file", "%s: file named %s with header %s and %d rows is not one result published "
                        "during the call" % (who, stat, {k: hd[k] for k in hd if k.startswith("Input")}, len(rows) - 1))
    return True


def close(a, b):
    return (np.isnan(a) and np.isnan(b)) or a == b or abs(a - b) <= 2e-11 * max(abs(a), abs(b))


def shrink(sc):
    ths = sc["threads"]
    if len(ths) > 1:
        for i in range(len(ths)):
            yield dict(sc, threads=ths[:i] + ths[i + 1:])
    if sc["preempts"]:
        yield dict(sc, preempts=[])
    for i, ops in enumerate(ths):
        for c in list_shrinks(ops, 0):
            yield dict(sc, threads=ths[:i] + [c] + ths[i + 1:])
    for p in list_shrinks(sc["preempts"], 0):
        yield dict(sc, preempts=p)
    for i, ops in enumerate(ths):
        for j, op in enumerate(ops):
            if op[3]:
                yield dict(sc, threads=ths[:i] + [ops[:j] + [op[:3] + [None]] + ops[j + 1:]] + ths[i + 1:])
    if sc["grain"] != "line":
        yield dict(sc, grain="line")
    if sc["scope"] is None:
        yield dict(sc, scope=["dataset.py"])
    for i, p in enumerate(sc["preempts"]):
        for s in (p[0] // 2, p[0] - 1):
            if s > 0:
                yield dict(sc, preempts=sorted(sc["preempts"][:i] + [[s, p[1]]] + sc["preempts"][i + 1:]))
