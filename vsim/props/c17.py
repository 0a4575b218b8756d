"""C17 what runs for ever keeps up: the work per sample does not grow with the stream."""
import collections
import sys
import tracemalloc

import numpy as np

from ..core import Violation
from ..runner import simpler
from ..sched import package_codes
from .c03 import FAM, construct, put, report

COUNT = {"quick": 320, "thorough": 12000}
RULE = ("A stream runs with steady samples, mixed kinds, outages made up by a backlog, and polls; the bytecodes, the list "
        "and array elements handed to C code, and the memory allocated are counted for a window of samples early and one "
        "much later. Non-trivial = both windows measured with every active factor updated.")
COMPONENTS = {"real": ["allantools.realtime estimators", "allantools.noise.iterpink"], "stub": ["clock and link", "work meter (sys.monitoring, tracemalloc)"]}
ASSUMPTIONS = ["work is counted as bytecodes of the package, elements handed to C functions and bytes allocated; an amortised "
               "cost (growing a buffer now and then) is allowed: windows are judged by their mean, memory by its median",
               "the samples themselves are kept, so memory as a whole does grow"]
CHEAP = {"len", "append", "pop", "popleft", "appendleft", "isinstance", "enumerate", "zip", "iter", "reversed", "next",
         "id", "type", "extend", "super", "hasattr", "getattr", "islice", "callable", "__init__", "bool"}
WORK = {"sum", "mean", "cumsum", "dot", "nansum", "nanmean", "diff", "std", "var", "copy", "array", "append", "concatenate",
        "insert", "delete", "sort", "roll", "max", "min", "tolist"}


def generate(rng, index, tier):
    if index % 8 == 7:
        return {"pink": rng.choice([1, 2, 3, 7, 20, 32, 80, 100]), "n": rng.randrange(4000, 30000), "seed": rng.randrange(2 ** 31),
                "window": rng.choice([100, 200])}
    auto = rng.random() < .5
    n = rng.choice([3000, 5000, 9000] if tier == "quick" else [4000, 12000, 40000])
    return {"cfg": {"family": rng.choice(FAM), "auto": auto, "tau0": rng.choice([1.0, .5, 10.0]), "ppd": rng.choice([1, 2, 3, 4])},
            "afs": None if auto else rng.choice([[1], [1, 2, 4], [3, 1], [7], [5, 2, 11], [1, 1, 1], [30]]),
            "n": n + rng.randrange(500), "seed": rng.randrange(2 ** 31), "kind": rng.choice(["phase", "freq", "mixed"]),
            "type": rng.choice(["float", "np", "int"]), "window": rng.choice([20, 40, 60]),
            "poll": rng.choice([0, 1, 1, 7]), "lost": rng.choice([0, 0, 1, 3])}


class Meter(object):
    """Bytecodes, elements handed to C functions and memory of single operations."""

    def __init__(self):
        self.n = 0
        self.codes = package_codes(tuple(sys.modules["allantools"].__path__[0] + f for f in ("/realtime.py", "/noise.py")))

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(4, "vsim")
        mon.register_callback(4, mon.events.INSTRUCTION, self._step)
        mon.register_callback(4, mon.events.CALL, self._call)
        for c in self.codes:
            mon.set_local_events(4, c, mon.events.INSTRUCTION | mon.events.CALL)
        tracemalloc.start()
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        for c in self.codes:
            mon.set_local_events(4, c, 0)
        mon.free_tool_id(4)
        tracemalloc.stop()

    def _step(self, code, where):
        self.n += 1

    def _call(self, code, where, fn, arg0):
        name = getattr(fn, "__name__", "")
        mod = str(getattr(fn, "__module__", "") or "")
        if isinstance(arg0, (list, tuple, collections.deque)):
            if name not in CHEAP and not mod.startswith("allantools"):
                self.n += len(arg0)
        elif isinstance(arg0, np.ndarray):
            if (isinstance(fn, np.ufunc) or name in WORK) and not mod.startswith("allantools"):
                self.n += arg0.size

    def run(self, fn):
        self.n = 0
        tracemalloc.reset_peak()
        before = tracemalloc.get_traced_memory()[0]
        fn()
        return self.n, tracemalloc.get_traced_memory()[1] - before


def pink(sc, ctx):
    import allantools
    np.random.seed(sc["seed"] % 2 ** 32)
    d, w = sc["pink"], sc["window"] // sc["pink"] * sc["pink"] + sc["pink"]     # whole refreshes
    it = allantools.noise.iterpink(sc["pink"])
    with Meter() as m:
        rows = []
        for at in (2 * d, sc["n"]):
            for _ in range(at):
                next(it)
            r = [m.run(lambda: next(it)) for _ in range(w)]
            rows.append((np.mean([a for a, b in r]), tracemalloc.get_traced_memory()[0]))
    (c1, m1), (c2, m2) = rows
    ctx.event(sc["pink"], c1, c2)
    if c2 > 2 * c1 + 60:
        raise Violation("work-grows", "iterpink(%d): a sample costs %.0f steps at first, %.0f after %d" % (d, c1, c2, sc["n"]))
    if m2 - m1 > 2 * sc["n"] + 4000:
        raise Violation("memory-grows", "iterpink(%d) keeps %d bytes more after %d samples" % (d, m2 - m1, sc["n"]))
    ctx.ok(2)
    ctx.probe("iterpink")
    ctx.nontrivial = True


def execute(sc, ctx):
    import allantools  # noqa
    if "pink" in sc:
        return pink(sc, ctx)
    est = construct(sc["cfg"], None if sc["afs"] is None else list(sc["afs"]))
    r = np.random.RandomState(sc["seed"])
    n, w = sc["n"], sc["window"]
    xs = r.standard_normal(n + w)
    if sc["type"] == "int":
        xs = np.round(xs * 100)
    xs = list(xs) if sc["type"] == "np" else [int(v) for v in xs] if sc["type"] == "int" else [float(v) for v in xs]
    kinds = {"phase": ["phase"], "freq": ["freq"], "mixed": ["phase", "freq", "freq"]}[sc["kind"]]
    lost = set(int(i) for i in r.randint(0, n, sc["lost"]))
    first = max(3 * max(sc["afs"] or [1]) + 2, 60)
    work = []
    i = 0

    def feed(stop):
        nonlocal i
        while i < stop:
            if i not in lost:
                put(est, (kinds[i % len(kinds)], xs[i]))
            if sc["poll"] and i % 97 == 0:
                report(est)
            i += 1
    for at in (first, n):
        feed(at)
        rows, polls = [], []
        with Meter() as m:
            for k in range(w):
                rows.append(m.run(lambda: put(est, (kinds[i % len(kinds)], xs[i]))))
                i += 1
                if sc["poll"] and k % sc["poll"] == 0:
                    polls.append(m.run(lambda: report(est)))
        f = len(est.taus())
        work.append((f, rows, polls))
        ctx.event(at, f, [a for a, b in rows], [a for a, b in polls])
    (f1, r1, p1), (f2, r2, p2) = work
    who = "%r afs=%s kind=%s" % (sc["cfg"], sc["afs"], sc["kind"])
    scale = 2.0 * f2 / f1
    for what, a, b in (("a sample", r1, r2), ("a report", p1, p2)):
        if not a:
            continue
        c1, c2 = np.mean([x[0] for x in a]), np.mean([x[0] for x in b])
        m1, m2 = np.median([x[1] for x in a]), np.median([x[1] for x in b])
        if c2 > scale * c1 + 60:
            raise Violation("work-grows", "%s: %s costs %.0f steps after %d samples, %.0f after %d (%d and %d factors)" %
                            (who, what, c1, first, c2, n, f1, f2))
        if m2 > scale * m1 + 4000:
            raise Violation("memory-grows", "%s: %s allocates %.0f bytes after %d samples, %.0f after %d (%d and %d factors)" %
                            (who, what, m1, first, m2, n, f1, f2))
        ctx.ok(2)
    ctx.fault("outage-backlog", len(lost))
    ctx.probe("late-window")
    ctx.nontrivial = True
    ctx.simtime += n * sc["cfg"]["tau0"]


def shrink(sc):
    if "pink" in sc:
        yield from simpler(sc, ("pink", [2, 20]), ("window", [100]), ("n", [4000]))
        return
    yield from simpler(sc, ("afs", ([1], [1, 2, 4]) if not sc["cfg"]["auto"] else (None,)), ("kind", ["phase"]), ("type", ["float"]),
                       ("poll", [0, 1]), ("lost", [0]), ("window", [20]))
    for n in (1000, 2000):
        if n < sc["n"]:
            yield dict(sc, n=n)
