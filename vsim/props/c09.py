"""C09 MTIE is the same whether or not memory allows the fast path."""
import sys

import numpy as np

from ..core import PKG, Violation, approx_same
from ..runner import list_shrinks, simpler
from ..stream import clock_values, SHAPES

COUNT = {"quick": 4000, "thorough": 300000}
RULE = ("One or more MTIE calls (direct or through a dataset) on generated records while a simulated allocator refuses "
        "the rolling-window array for a planned subset of taus (by call number, by size limit, or all), as ValueError "
        "or MemoryError. Non-trivial = at least one allocation refused and at least one tau compared with the "
        "definition.")
COMPONENTS = {"real": ["allantools.mtie", "allantools.Dataset", "numpy"],
              "stub": ["allocation of strided window arrays (numpy.lib.stride_tricks)"]}
ASSUMPTIONS = ["records have at least 3 samples; missing samples (NaN) make every window that holds one NaN"]


def generate(rng, index, tier):
    calls = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        n = rng.choice([rng.randrange(3, 10), rng.randrange(6, 40), rng.randrange(30, 160), rng.randrange(100, 600)])
        if index % 80 == 79:
            n = rng.randrange(1500, 20000)
        k = rng.random()
        if k < 0.3:
            taus = rng.choice(["octave", "decade", "log10", "all" if n < 60 else "octave", None])
        else:
            taus = [rng.choice([rng.randrange(1, n), rng.randrange(1, max(2, n // 3)), 1, n - 2, n - 1, n // 2])
                    for _ in range(rng.randrange(1, 6))]
        plan = rng.choice([{"mode": "all"}, {"mode": "none"}, {"mode": "size", "limit": rng.choice([8, 60, 400, 3000, 10 ** 6])},
                           {"mode": "calls", "k": sorted({rng.randrange(0, 6) for _ in range(rng.randrange(1, 4))})},
                           {"mode": "all"}])
        calls.append({"n": n, "seed": rng.randrange(2 ** 31), "shape": rng.choice(SHAPES[:7] + ["steps", "sawtooth"]),
                      "offset": rng.choice([0.0, 0.0, 1.0, -1e3]), "dt": rng.choice(["phase", "phase", "freq"]),
                      "rate": rng.choice([1.0, 1, 10.0, 0.1, 4.0]), "taus": taus, "plan": plan,
                      "exc": rng.choice(["value", "value", "memory"]), "nan": rng.choice([0] * 9 + [1]),
                      "layout": rng.choice(["array", "array", "list", "int", "f32"]),
                      "via": rng.choice(["call", "call", "dataset"])})
    return {"calls": calls}


def record(c):
    n = c["n"]
    r = np.random.RandomState(c["seed"] % 2 ** 32)
    if c["shape"] == "steps":       # many ties: few distinct levels
        v = r.randint(0, 3, n).astype(float)
    elif c["shape"] == "sawtooth":  # the extreme leaves the window at the same step another enters
        v = (np.arange(n) % max(2, n // 4)).astype(float) * r.choice([1, -1])
    else:
        v = clock_values(c["shape"], c["dt"], n, c["seed"], 1.0, c["offset"])
    if c["nan"] and n > 4:
        v[1 + c["seed"] % (n - 2)] = np.nan
    if c["layout"] == "int":
        return np.round(np.nan_to_num(v) * 10).astype(np.int64)
    if c["layout"] == "f32":
        return v.astype(np.float32)
    return v


class Allocator(object):
    """Refuses window arrays according to the plan of the current call."""

    def __init__(self, ctx):
        self.ctx, self.plan, self.n, self.refused = ctx, {"mode": "none"}, 0, 0

    def begin(self, plan, exc):
        self.plan, self.exc, self.n, self.refused = plan, exc, 0, 0

    def ask(self, size):
        i, self.n, p = self.n, self.n + 1, self.plan
        if p["mode"] == "all" or (p["mode"] == "size" and size > p["limit"]) or (p["mode"] == "calls" and i in p["k"]):
            self.refused += 1
            self.ctx.fault("window-alloc-" + self.exc)
            if self.exc == "memory":
                raise MemoryError("simulated: unable to allocate window array of %d elements" % size)
            raise ValueError("array is too big; simulated")


class Seam(object):
    """Both numpy window makers, wherever the package holds a reference."""

    def __init__(self, alloc):
        self.alloc, self.undo = alloc, []

    def __enter__(self):
        st = np.lib.stride_tricks
        for name in ("as_strided", "sliding_window_view"):
            real = getattr(st, name)

            def fake(x, *a, _real=real, _name=name, **k):
                f = sys._getframe(1)
                if f.f_code.co_filename.startswith(PKG):
                    shape = k.get("shape", a[0] if a and _name == "as_strided" else None)
                    if _name == "sliding_window_view":
                        w = k.get("window_shape", a[0] if a else 1)
                        w = int(np.prod(w))
                        size = max(0, np.size(x) - w + 1) * w
                    else:
                        size = int(np.prod(shape)) if shape is not None else np.size(x)
                    self.alloc.ask(size)
                return _real(x, *a, **k)
            mods = [st] + [m for k, m in sorted(sys.modules.items())
                           if getattr(m, "__file__", None) and m.__file__.startswith(PKG)]
            for m in mods:
                for key, val in list(vars(m).items()):
                    if val is real:
                        setattr(m, key, fake)
                        self.undo.append((m, key, real))
        return self

    def __exit__(self, *a):
        for m, k, v in reversed(self.undo):
            setattr(m, k, v)


def call(c, data):
    import allantools
    t = c["taus"]
    if isinstance(t, list):
        t = [m / float(c["rate"]) for m in t]
    d = [float(x) for x in data] if c["layout"] == "list" else data
    try:
        if c["via"] == "dataset":
            ds = allantools.Dataset(data=d, rate=c["rate"], data_type=c["dt"], taus=t)
            ds.compute("mtie")
            return "ok", tuple(np.asarray(ds.out[k]) for k in ("taus", "stat", "stat_err", "stat_n"))
        return "ok", tuple(np.asarray(x) for x in allantools.mtie(d, rate=c["rate"], data_type=c["dt"], taus=t))
    except (Exception, UserWarning) as e:
        return "exc", type(e).__name__


def phase_of(c, data):
    x = np.asarray(data, dtype=float)
    if c["dt"] == "freq":
        x = np.concatenate(([0.0], np.cumsum(x - np.nanmean(x)) / float(c["rate"])))
    return x


def definition(x, m):
    """Largest peak-to-peak value over all windows of m+1 samples (running
    extremes by doubling; NaN in a window makes it NaN)."""
    hi = lo = np.asarray(x)
    w = 1
    while w < m + 1:
        s = min(w, m + 1 - w)
        hi, lo = np.maximum(hi[:-s], hi[s:]), np.minimum(lo[:-s], lo[s:])
        w += s
    return np.max(hi - lo)


def execute(sc, ctx):
    alloc = Allocator(ctx)
    with Seam(alloc):
        for i, c in enumerate(sc["calls"]):
            one(i, c, ctx, alloc)


def one(i, c, ctx, alloc):
    data = record(c)
    keep = data.copy()
    alloc.begin({"mode": "none"}, c["exc"])
    free = call(c, data)
    alloc.begin(c["plan"], c["exc"])
    got = call(c, data)
    refused = alloc.refused
    alloc.begin({"mode": "none"}, c["exc"])
    what = "call %d: mtie of %d %s samples (%s), window arrays refused: %d" % (i, c["n"], c["dt"], c["plan"], refused)
    ctx.event("mtie", got[0], got[1], refused)
    ctx.simtime += c["n"] / float(c["rate"])
    if keep.tobytes() != data.tobytes():
        raise Violation("input-modified", "%s: input modified" % what)
    if got[0] != free[0] or (got[0] == "exc" and got[1] != free[1]):
        raise Violation("outcome", "%s: %s; with memory: %s" % (what, got[1] if got[0] == "exc" else "returned",
                                                               free[1] if free[0] == "exc" else "returned"))
    if got[0] == "exc":
        m = c["taus"] if isinstance(c["taus"], list) else [1]
        if any(1 <= k <= len(phase_of(c, data)) - 2 for k in m):
            raise Violation("raised", "%s: raises %s although there are windows to evaluate" % (what, got[1]), key=got[1])
        ctx.probe("both-raise")
        return
    f32 = c["layout"] == "f32"
    x = phase_of(c, data)
    n = len(x)
    scale = float(np.nanmax(np.abs(x))) if np.any(np.isfinite(x)) else 0.0
    if c["dt"] == "freq":
        scale = max(scale, float(np.nanmax(np.abs(np.asarray(data, dtype=float)))) * n / float(c["rate"]))
    tol = (1e-5 if f32 else 0.0 if c["dt"] == "phase" else 1e-12 * n) * scale
    for who, (taus, dev, err, ns) in (("with memory", free[1]), ("refused", got[1])):
        if not len(taus) == len(dev) == len(err) == len(ns):
            raise Violation("misaligned", "%s (%s): columns of different length" % (what, who))
        if isinstance(c["taus"], list) and not c["nan"]:
            want = sorted({m for m in c["taus"] if n - m >= 2})
            have = [int(round(t * float(c["rate"]))) for t in taus]
            if have != want:
                raise Violation("taus", "%s (%s): taus reported at %s, expected %s" % (what, who, have, want))
        for t, d, e, k in zip(taus, dev, err, ns):
            m = int(round(t * float(c["rate"])))
            ref = definition(x, m)
            ok = abs(d - ref) <= tol or (ref != ref and d != d)
            if not ok:
                raise Violation("value-" + who.split()[0], "%s (%s): MTIE at m=%d is %r, windows of %d samples give %r" %
                                (what, who, m, float(d), m + 1, float(ref)))
            if k != n - m:
                raise Violation("count", "%s (%s): count at m=%d is %r, there are %d windows" % (what, who, m, k, n - m))
            r = float(d) / np.sqrt(n - m)
            if not (abs(e - r) <= 1e-9 * abs(r) + tol or (r != r and e != e)):
                raise Violation("error-bar", "%s (%s): error at m=%d is %r, not %r" % (what, who, m, float(e), r))
            ctx.ok(3)
    d = approx_same(got[1], free[1], 1e-6 if f32 else 1e-12)
    if d:
        raise Violation("differs", "%s: differs from the result with memory: %s" % (what, d))
    if refused and len(got[1][0]):
        ctx.nontrivial = True
        ctx.probe("refused-" + c["plan"]["mode"])


def shrink(sc):
    for c in list_shrinks(sc["calls"], 1):
        yield dict(sc, calls=c)
    for i, c in enumerate(sc["calls"]):
        def put(x):
            return dict(sc, calls=sc["calls"][:i] + [x] + sc["calls"][i + 1:])
        for x in simpler(c, ("plan", ({"mode": "all"},)), ("taus", ([1], [2], [3])), ("via", ("call",)), ("rate", (1.0,)),
                         ("layout", ("array",)), ("nan", (0,)), ("offset", (0.0,)), ("dt", ("phase",)),
                         ("shape", ("steps", "white")), ("exc", ("value",))):
            yield put(x)
        for n in (3, 4, 5, 6, 8, 12, c["n"] // 2, c["n"] - 1):
            if 2 < n < c["n"]:
                t = c["taus"]
                yield put(dict(c, n=n, taus=[min(m, n - 1) for m in t] if isinstance(t, list) else t))
