"""C10 Noise generation is reproducible from the seed alone."""
import random

import numpy as np

from ..core import Violation, identical
from ..forks import pristine
from ..procstate import rng_digest
from ..rngsim import kasdin, lean, source
from ..runner import list_shrinks
from ..sched import INJECTED, Stepper

COUNT = {"quick": 3000, "thorough": 250000}
RULE = ("A seeded history of reseeding, generation by every source, statistics, cancelled generations and scribbling "
        "over returned arrays; each stretch since a seed is replayed in a pristine process after a different prelude "
        "and must match bit for bit. Non-trivial = at least one generated sequence compared after some other activity.")
COMPONENTS = {"real": ["allantools.noise", "allantools.Noise", "statistics called in between", "numpy's generator"],
              "stub": ["history generator", "cancellation"]}
ASSUMPTIONS = ["reproducibility is claimed between two seedings; generators opened before a seed are dropped at it"]

STATS = ["adev", "oadev", "mdev", "tdev", "hdev", "ohdev", "totdev", "mtotdev", "htotdev", "theo1", "mtie", "tierms",
         "gradev", "pdev", "noiseid", "psd", "dataset", "stream", "gcodev", "numpy_psd", "scipy_psd", "ci"]


def gen_source(rng):
    k = rng.choice(["white", "brown", "violet", "pink", "noise", "noise", "tk", "tk", "iter", "iternext", "iternext"])
    n = rng.choice([0, 1, 2, 3, 5, 17, 64, 200, 1024]) if k != "pink" else rng.choice([0, 1, 2, 9, 50, 300])
    if k in ("white", "brown", "violet", "pink") and rng.random() < 0.02:
        n = rng.choice([4096, 5000, 20000, 70000]) if k != "pink" else 5000
    op = {"op": k, "n": n, "level": rng.choice([1.0, 2, 0.25, 1e-20]), "fs": rng.choice([1.0, 1.0, 10, 0.5]), "lean": rng.random() < 0.5}
    if k in ("pink", "iter"):
        op["depth"] = rng.choice([1, 2, 3, 8, 20, 80])
    if k == "iternext":
        op.update(which=rng.randrange(4), n=rng.choice([1, 2, 7, 30, 90]))
    if k == "noise":
        op.update(which=rng.randrange(3), n=2 ** (rng.randrange(1, 9) if rng.random() < 0.97 else rng.randrange(12, 15)), b=rng.choice([0, -1, -2, -3, -4, -2.5]),
                  reuse=rng.random() < .5)
    if k == "tk":
        dt = rng.choice([1.0, 0.1, 2.0, 1])
        op.update(n=rng.choice([4, 6, 8, 20, 33, 128]), dt=dt, out=rng.choice(["phase", "freq"]),
                  seg=rng.choice([1, 2, 3]), seed=rng.choice([None, None, 0, 1, 7, 2 ** 32 - 1, "np0", "np5"]))
    return op


def generate(rng, index, tier):
    ops = []
    if rng.random() < 0.85:
        ops.append({"op": "seed", "seed": rng.choice([0, 1, 5, 2 ** 32 - 1])})
    for _ in range(rng.randrange(2, 15)):
        k = rng.random()
        if k < 0.14:
            ops.append({"op": "seed", "seed": rng.choice([0, 0, 1, 5, 12345, rng.randrange(2 ** 32)])})
        elif k < 0.3:
            ops.append({"op": "stat", "fn": rng.choice(STATS), "seed": rng.randrange(1000), "n": rng.choice([16, 40, 64])})
        elif k < 0.36:
            ops.append({"op": "scribble", "k": rng.randrange(8)})
        elif k < 0.42:
            ops.append({"op": "cancel", "src": gen_source(rng), "at": rng.randrange(1, 30)})
        else:
            ops.append(gen_source(rng))
    return {"ops": ops, "prelude": [gen_source(rng) for _ in range(rng.randrange(0, 4))],
            "prelude_seed": rng.randrange(2 ** 31)}


class World(object):
    """The sources of one history."""

    def __init__(self):
        self.iters, self.objs = [], {}

    def seed(self, s):
        np.random.seed(s)
        self.iters = []

    def source(self, op):
        """Returns the generated array (or None if the op yields nothing)."""
        from allantools import noise
        k, n = op["op"], op["n"]
        if k in ("white", "brown", "violet", "pink"):
            return source(op, n)
        if k == "iter":
            self.iters.append(noise.iterpink(**lean(op, {"depth": op["depth"]}, depth=20)))
            return None
        if k == "iternext":
            if not self.iters:
                self.iters.append(noise.iterpink(5))
            g = self.iters[op["which"] % len(self.iters)]
            return np.array([next(g) for _ in range(n)])
        if k == "noise":
            o = self.objs[op["which"]] = kasdin(op, n, self.objs.get(op["which"]) if op["reuse"] else None)
            o.generateNoise()
            return o.time_series
        f, h, a = nodes(op)
        s = op["seed"]
        if isinstance(s, str):
            s = np.int64(s[2:])
        return noise.timmer_koenig_from_psd(f, h, a, op["n"] * op["dt"], op["dt"], **lean(op, {"output": op["out"], "seed": s}, output="phase", seed=None))


def nodes(op):
    k = op["seg"]
    lo, hi = 1.0 / (op["n"] * op["dt"]), 0.5 / op["dt"]
    f = [lo + (hi - lo) * (i + 0.37) / k for i in range(k - 1)]
    return f, [1.0 + i for i in range(k)], [-1.0 + 0.5 * i for i in range(k)]


def want_len(op):
    return int(op["n"] * op["dt"] / op["dt"]) if op["op"] == "tk" else op["n"]


def stat(op):
    """A statistic on data that do not come from the global stream."""
    import allantools
    from allantools import noise
    x = np.cumsum(np.random.RandomState(op["seed"]).standard_normal(op["n"]))
    fn = op["fn"]
    try:
        if fn == "noiseid":
            allantools.autocorr_noise_id(x, 1)
        elif fn == "psd":
            allantools.psd2allan(np.abs(x[:12]) + 1.0, 0.5)
        elif fn == "dataset":
            d = allantools.Dataset(data=x)
            d.compute("oadev")
        elif fn == "stream":
            r = allantools.oadev_realtime(afs=[1, 2, 4], tau0=1.0)
            for v in x[:16]:
                r.add_phase(v)
        elif fn == "gcodev":
            allantools.gcodev(x, x[::-1].copy())
        elif fn in ("numpy_psd", "scipy_psd"):
            getattr(noise, fn)(x)
        elif fn == "ci":
            allantools.confidence_interval_noiseID(x, 1.0, 1)
        else:
            getattr(allantools, fn)(x, taus="octave")
    except (ValueError, RuntimeError, NotImplementedError, AssertionError, TypeError, UserWarning):
        pass


def epochs(ops):
    """Stretches between seedings: lists of op indexes.  A call with a seed
    argument is also an epoch of its own; whether it reseeds the global stream
    or a private one is the library's choice, so what follows it is only
    compared within the stretch since the last global seed."""
    out, cur = [], None
    for i, op in enumerate(ops):
        if op["op"] == "seed":
            cur = [i]
            out.append(cur)
            continue
        if op["op"] == "cancel":
            cur = None          # position in the stream unknown until reseeded
            continue
        if op["op"] in ("stat", "scribble"):
            continue
        if op["op"] == "tk" and op["seed"] is not None:
            out.append([i])
        if cur is not None and op["op"] != "seed":
            cur.append(i)
    return out


def execute(sc, ctx):
    ops = sc["ops"]
    eps = epochs(ops)

    def replay(ep):
        def run():
            np.random.seed(sc["prelude_seed"])
            random.seed(sc["prelude_seed"])
            w = World()
            for op in sc["prelude"]:
                w.source(op)
            w = World()
            out = {}
            for i in ep:
                op = ops[i]
                if op["op"] == "seed":
                    w.seed(op["seed"])
                else:
                    v = w.source(op)
                    out[i] = None if v is None else np.array(v, copy=True)
            return out
        return pristine(run)

    expected = {}
    for ep in eps:
        r = replay(ep)
        if r[0] != "ok":
            raise Violation("raised", "replay of operations %s raises %s: %s" %
                            ([ops[i] for i in ep], r[1], r[2][-300:]), key=r[1])
        for i, v in r[1].items():
            if v is not None and i in expected and not identical(v, expected[i]):
                raise Violation("not-reproducible", "operation %d (%s) depends on what precedes it, not on its seed "
                                "argument alone" % (i, ops[i]), key=ops[i]["op"])
            expected[i] = v

    w = World()
    held, last = [], {}
    busy = compared = 0
    for i, op in enumerate(ops):
        k = op["op"]
        if k == "seed":
            w.seed(op["seed"])
            ctx.fault("reseed")
            last = {}
            continue
        if k == "scribble":
            if held:
                h = held[op["k"] % len(held)]
                if h[1].flags.writeable and h[1].size:
                    h[1][...] = 7.25
                    h[2] = h[1].copy()
                    ctx.fault("result-scribbled")
                    busy = 1
            continue
        if k == "stat":
            before = rng_digest(), random.getstate()
            stat(op)
            if (rng_digest(), random.getstate()) != before:
                raise Violation("consumes-randomness", "operation %d: statistic %s changed the random stream" %
                                (i, op["fn"]), key=op["fn"])
            ctx.fault("statistic-interleaved")
            ctx.ok()
            busy = 1
            continue
        if k == "cancel":
            try:
                with Stepper(ctx, (op["at"], "interrupt")):
                    w.source(op["src"])
            except INJECTED:
                pass
            except RuntimeError:
                pass
            w.iters = []
            busy = 1
            last = {}
            continue
        if k == "tk" and op["seed"] is not None:
            last = {}
        try:
            v = w.source(op)
        except StopIteration:
            raise Violation("exhausted", "operation %d: pink generator ended" % i)
        ctx.event("gen", i, k, v)
        if v is None:
            continue
        ctx.simtime += len(v)
        if len(v) != want_len(op):
            raise Violation("length", "operation %d (%s): %d samples, %d requested" % (i, op, len(v), want_len(op)), key=k)
        if i in expected:
            e = expected[i]
            if e is None or not identical(v, e):
                raise Violation("not-reproducible", "operation %d (%s) differs bit for bit from the same operations "
                                "since the last seed in a fresh process" % (i, op), key=k)
            compared += 1
            ctx.probe(k)
            ctx.ok(2)
        for h in held:
            if np.shares_memory(h[1], v):
                raise Violation("shared", "operation %d (%s) returned memory of an earlier sequence (operation %d)" %
                                (i, op, h[0]), key=k)
            if not identical(h[1], h[2]):
                raise Violation("changed-later", "sequence of operation %d changed during operation %d (%s)" %
                                (h[0], i, op), key=k)
        # freshness: no sequence repeats within a seeding
        if len(v) >= 2 and np.ptp(v) > 0:
            n = len(v)
            sig = v / np.max(np.abs(v))
            for j, old in last.items():
                m = min(n, len(old))
                if m >= 2 and kindred(ops[j], op) and np.allclose(old[:m] / np.max(np.abs(old[:m])),
                                                                  sig[:m] / np.max(np.abs(sig[:m])), rtol=1e-9, atol=1e-12):
                    raise Violation("stale", "operation %d (%s) repeats the samples of operation %d without reseeding" %
                                    (i, op, j), key=k)
            last[i] = np.array(v, copy=True)
        if len(held) < 12:
            held.append([i, v, np.array(v, copy=True)])
        busy = 1
    for i, v, c in held:
        if not identical(v, c):
            raise Violation("changed-later", "sequence of operation %d changed after it was returned" % i)
    if compared and busy:
        ctx.nontrivial = True


def kindred(a, b):
    """Same source with the same shape of filter, so equal draws would show."""
    return a["op"] == b["op"] and a.get("depth") == b.get("depth") and a.get("b") == b.get("b") and \
        (a["op"] != "tk" or all(a[k] == b[k] for k in ("n", "dt", "seg", "out"))) and \
        (a["op"] != "iternext" or a["which"] == b["which"]) and a["op"] != "brown" or (a["op"] == b["op"] == "brown")


def shrink(sc):
    for c in list_shrinks(sc["ops"], 1):
        yield dict(sc, ops=c)
    for c in list_shrinks(sc["prelude"], 0):
        yield dict(sc, prelude=c)
    for i, op in enumerate(sc["ops"]):
        for n in (2, 4, 8):
            if op.get("n", 0) > n and op["op"] not in ("stat",):
                yield dict(sc, ops=sc["ops"][:i] + [dict(op, n=n)] + sc["ops"][i + 1:])
