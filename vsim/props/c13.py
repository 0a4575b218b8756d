"""C13 a refused reading or a failed growth leaves a streaming estimator as it was."""
import datetime
import fractions
import sys

import numpy as np

from .. import core
from ..core import Violation
from ..forks import pristine
from ..runner import list_shrinks
from .c03 import FAM, construct, frozen, put, report, samples

COUNT = {"quick": 3000, "thorough": 100000}
RULE = ("One estimator fed a seeded log in which some readings are no numbers or fail while they are converted, "
        "and some of the estimator's own array growths fail with MemoryError. Non-trivial = at least one call was "
        "refused and a later report with a non-zero deviation was compared.")
COMPONENTS = {"real": ["allantools.realtime estimators"],
              "stub": ["readings (lazy objects whose conversion fails when the scenario says)",
                       "numpy array growth called from the package (fails at the seeded call)"]}
ASSUMPTIONS = ["failures strike the conversion of a reading or the growth of an array; an asynchronous interrupt "
               "in the middle of the arithmetic of one sample is not claimed",
               "complex NumPy scalars, masked constants and one-element arrays are left out: "
               "NumPy itself is not of one mind on whether they are numbers"]
GROW = ["append", "concatenate", "hstack", "vstack", "resize", "insert", "zeros", "empty", "full", "ones", "pad",
        "zeros_like", "empty_like"]
BAD = ["none", "str", "numstr", "bytes", "list", "tuple", "array2", "array0", "dict", "hugeint", "object", "complex",
       "timedelta", "nan-text", "type", "strarray"]
LAZY = ["lazy-oserror", "lazy-memory", "lazy-value", "lazy-keyint"]
GOOD = ["int", "fraction", "npfloat", "bool", "zerodim", "npint"]


class Lazy(object):
    """A reading that is fetched when it is used, and whose fetching fails the
    first `fails` times."""

    def __init__(self, value, exc, fails):
        self.value, self.exc, self.fails, self.failed = value, exc, fails, 0

    def get(self):
        if self.failed < self.fails:
            self.failed += 1
            raise self.exc("reading lost")
        return self.value

    def __float__(self):
        return self.get()

    def __add__(self, other):
        return self.get() + other
    __radd__ = __add__

    def __mul__(self, other):
        return self.get() * other
    __rmul__ = __mul__

    def __sub__(self, other):
        return self.get() - other

    def __rsub__(self, other):
        return other - self.get()

    def __array__(self, *a, **k):
        return np.array(self.get())


def bad(kind, value, fails):
    """The object handed over as a reading."""
    if kind.startswith("lazy"):
        return Lazy(value, {"lazy-oserror": OSError, "lazy-memory": MemoryError, "lazy-value": ValueError,
                            "lazy-keyint": KeyboardInterrupt}[kind], fails)
    return {"none": None, "str": "abc", "numstr": "%r" % value, "bytes": b"\x01", "list": [value], "tuple": (value,),
            "array2": np.array([value, value]), "array0": np.array([]), "dict": {"x": value}, "hugeint": 10 ** 400,
            "object": object(), "complex": complex(value, 1.0), "timedelta": datetime.timedelta(seconds=1),
            "nan-text": "nan?", "type": float, "strarray": np.array(["a"])}[kind]


def good(kind, value):
    """The same number in another type; (object, float it stands for)."""
    n = int(round(value * 100))
    return {"int": (n, float(n)), "fraction": (fractions.Fraction(n, 4), n / 4.0), "npfloat": (np.float64(value), value),
            "bool": (n % 2 == 0, float(n % 2 == 0)), "zerodim": (np.array(value), value),
            "npint": (np.int64(n), float(n))}[kind]


def generate(rng, index, tier):
    auto = rng.random() < 0.6
    cfg = {"family": rng.choice(FAM), "auto": auto, "afs": None, "tau0": rng.choice([1.0, 0.5, 10.0, 1]),
           "ppd": rng.choice([1, 2, 3, 4, 4, 5, 8])}
    afs = None if auto else rng.choice([[1], [1, 2, 4], [3, 1], [2], [5, 2, 1], [1, 10]])
    ops = []
    kinds = rng.choice([["phase"], ["freq"], ["phase", "freq"]])
    for _ in range(rng.randrange(3, 16)):
        k = rng.random()
        how = rng.choice(kinds)
        if k < 0.40:
            n = rng.randrange(1, 14) if rng.random() < .8 else rng.choice([40, 90, 250])
            ops.append(["feed", how, n, rng.randrange(2 ** 31)])
        elif k < 0.62:
            ops.append(["bad", how, rng.choice(BAD + LAZY), rng.randrange(2 ** 31), rng.choice([1, 1, 2, 3]),
                        rng.random() < .5])
        elif k < 0.80:
            n = rng.randrange(1, 30) if rng.random() < .7 else rng.choice([60, 120, 300])
            ops.append(["oom", how, n, rng.randrange(2 ** 31), rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 9]),
                        rng.random() < .6])
        elif k < 0.87:
            ops.append(["typed", how, rng.choice(GOOD), rng.randrange(2 ** 31)])
        else:
            ops.append(["poll", rng.choice([0, 0, 1])])
    ops.append(["feed", rng.choice(kinds), rng.randrange(2, 30), rng.randrange(2 ** 31)])
    ops.append(["poll", 0])
    return {"cfg": cfg, "afs": afs, "ops": ops}


class Memory(object):
    """Counts the array growths the package asks for; fails the armed one."""

    def __init__(self, ctx):
        self.ctx, self.left, self.fired = ctx, 0, 0

    def install(self):
        for name in GROW:
            setattr(np, name, self.wrap(name, getattr(np, name)))

    def wrap(self, name, real):
        def call(*a, **k):
            if self.left and sys._getframe(1).f_code.co_filename.startswith(core.PKG):
                self.left -= 1
                if not self.left:
                    self.fired += 1
                    self.ctx.fault("oom-" + name)
                    raise MemoryError("simulated: %s" % name)
            return real(*a, **k)
        return call


def alone(sc, accepted, counts):
    """Reports of estimators, alone in a pristine process, that were only ever
    given the accepted samples."""
    def run():
        out = []
        for n in counts:
            est = construct(sc["cfg"], None if sc["afs"] is None else list(sc["afs"]))
            for s in accepted[:n]:
                put(est, s)
            rep = report(est)
            out.append((frozen(rep), [np.asarray(a).tolist() for a in rep]))
        return out
    return pristine(run)


def execute(sc, ctx):
    mem = Memory(ctx)
    mem.install()
    est = construct(sc["cfg"], None if sc["afs"] is None else list(sc["afs"]))
    accepted = []       # (kind, float): what the estimator took
    polls = []          # (number accepted, report)
    story = []
    refused = 0

    def give(kind, obj, value, why):
        """True if the estimator took it."""
        try:
            put(est, (kind, obj))
        except Exception as e:
            ctx.event("refused", kind, why, type(e).__name__)
            story.append("%s %s refused: %s" % (kind, why, type(e).__name__))
            return False
        except KeyboardInterrupt:
            if why != "lazy-keyint":
                raise
            ctx.event("refused", kind, why, "interrupt")
            return False
        ctx.event("took", kind, why)
        accepted.append((kind, value))
        return True

    for op in sc["ops"]:
        if op[0] == "feed":
            for v in samples(op[2], op[3], op[1]):
                put(est, (op[1], v))
                accepted.append((op[1], v))
            ctx.simtime += op[2] * sc["cfg"]["tau0"]
        elif op[0] == "typed":
            obj, value = good(op[2], samples(1, op[3], op[1])[0])
            if not give(op[1], obj, value, op[2]):
                refused += 1
        elif op[0] == "bad":
            value = samples(1, op[3], op[1])[0]
            obj = bad(op[2], value, op[4])
            ctx.fault("reading-" + op[2])
            took = give(op[1], obj, value, op[2])
            if took:
                # a caller may accept anything, but then it counts as the number it stands for
                if isinstance(obj, Lazy):
                    pass
                else:
                    try:
                        value = float(obj)
                    except Exception:
                        raise Violation("took-no-number", "%s accepted %r as a %s reading without raising" %
                                        (sc["cfg"]["family"], obj, op[1]))
                    accepted[-1] = (op[1], value)
            else:
                refused += 1
            if not took and isinstance(obj, Lazy) and op[5]:
                for _ in range(8):      # the caller tries the same reading again
                    if give(op[1], obj, value, op[2]):
                        break
                else:
                    raise Violation("never-taken", "%s refuses a %s reading of %r that can be read again" %
                                    (sc["cfg"]["family"], op[1], value))
                ctx.probe("retried")
        elif op[0] == "oom":
            mem.left = op[4]
            for v in samples(op[2], op[3], op[1]):
                before = mem.fired
                if not give(op[1], v, v, "sample"):
                    if mem.fired == before:
                        raise Violation("refused-number", "%s refused %s %r" % (sc["cfg"]["family"], op[1], v))
                    refused += 1
                    if op[5]:
                        if not give(op[1], v, v, "sample"):
                            raise Violation("refused-number", "%s refused %s %r when tried again after a MemoryError" %
                                            (sc["cfg"]["family"], op[1], v))
                        ctx.probe("retried")
            mem.left = 0
            ctx.simtime += op[2] * sc["cfg"]["tau0"]
        elif op[0] == "poll":
            if op[1]:
                mem.left = op[1]
                try:
                    report(est)
                except MemoryError:
                    pass
                mem.left = 0
            polls.append((len(accepted), frozen(report(est))))
    out = alone(sc, accepted, [n for n, _ in polls])
    if out[0] != "ok":
        raise Violation("alone-failed", "%r fed only numbers: %s" % (sc["cfg"], out[1:]))
    for k, (n, fz) in enumerate(polls):
        ref, val = out[1][k]
        ctx.event("report", k, n, fz[1][2].hex()[:200])
        if fz != ref:
            raise Violation("not-unchanged", "%r: report %d after %d accepted samples is %s, but an estimator given "
                            "only those reports %s (%s)" %
                            (sc["cfg"], k, n, [np.frombuffer(f[2], dtype=f[0]).tolist()[:12] for f in fz],
                             [v[:12] for v in val], "; ".join(story[:6])))
        ctx.ok()
        if refused and any(v != 0 for v in val[1]):
            ctx.nontrivial = True


def shrink(sc):
    for ops in list_shrinks(sc["ops"], 0):
        yield dict(sc, ops=ops)
    for i, op in enumerate(sc["ops"]):
        if op[0] in ("feed", "oom") and op[2] > 1:
            for n in (1, op[2] // 2, op[2] - 1):
                nop = list(op)
                nop[2] = n
                yield dict(sc, ops=sc["ops"][:i] + [nop] + sc["ops"][i + 1:])
        if op[0] == "bad" and op[4] > 1:
            yield dict(sc, ops=sc["ops"][:i] + [op[:4] + [1] + op[5:]] + sc["ops"][i + 1:])
