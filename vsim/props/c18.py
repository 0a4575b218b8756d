"""C18 Results depend on arguments and seeds only, not on the surroundings."""
import contextlib
import copy
import gc
import hashlib
import importlib.machinery
import importlib.util
import io
import os
import random
import shutil
import sys
import tempfile
import threading
import time
import warnings

import numpy as np

from ..core import HarnessError, PKG, REPO, Violation, approx_same
from ..forks import pristine
from ..runner import list_shrinks
from ..stream import clock_values
from . import c08

COUNT = {"quick": 1200, "thorough": 30000}
RULE = ("A seeded history of statistics, conversions, noise, datasets (with results files) and streams runs in one "
        "process whose surroundings a seeded environment changes before and inside every call; each result is compared "
        "with the same call in a pristine process with default surroundings. Non-trivial = a result compared under at "
        "least one change of surroundings.")
COMPONENTS = {"real": ["all statistics, conversions, noise sources, Dataset, realtime estimators", "CPython, numpy, scipy"],
              "stub": ["clock, working directory, environment variables, standard output, floating-point error mode, "
                       "warning filters, print options, random streams, collector, calling thread, optimisation level"]}
ASSUMPTIONS = ["raising floating-point modes and warnings turned into errors are only applied to calls that signal nothing "
               "under the defaults",
               "a standard output that fails is not among the surroundings (print raises as documented by Python)"]

KINDS = ["fp-raise", "fp-ignore", "warnings-error", "warnings-ignore", "print-options", "cwd", "cwd-gone", "clock", "rng", "stdout-none",
         "stdout-ascii", "thread", "gc-off", "gc-always", "environ", "environ-empty", "optimize1", "optimize2"]
INSIDE = ["cwd", "clock", "rng", "gc-off", "gc-always", "environ", "environ-empty"]
SCRATCH = [None]
EXTRA = ["dataset", "dataset", "dataset", "stream", "stream", "noise", "noise", "kasdin"]


def gen_extra(rng, kind):
    if kind == "dataset":
        return {"fn": "dataset", "b": [0], "p": {"stat": rng.choice(["adev", "oadev", "mdev", "tdev", "hdev", "gradev", "totdev",
                                                                  "mtie", "tierms", "pdev"]),
                                       "rate": rng.choice([1.0, 10.0, 0.1, 3, 1e-3, 2.5e6]), "dt": rng.choice(["phase", "freq"]),
                                       "digits": rng.choice([3, 5, 9, 16]), "relative": rng.random() < .5,
                                       "header": rng.random() < .5}}
    if kind == "stream":
        return {"fn": "stream", "b": [0], "p": {"fam": rng.choice(["oadev", "ohdev", "tdev"]), "auto": rng.random() < .5,
                                      "dt": rng.choice(["phase", "freq"]), "ppd": rng.choice([3, 10])}}
    if kind == "noise":
        return {"fn": "noise", "b": [], "p": {"src": rng.choice(["white", "brown", "violet", "pink", "tk"]),
                                   "n": rng.choice([5, 64, 300]), "seed": rng.randrange(2 ** 32), "fs": rng.choice([1.0, 10, .5])}}
    return {"fn": "kasdin", "b": [], "p": {"n": 2 ** rng.randrange(3, 9), "b": rng.choice([0, -1, -2, -3, -4]),
                                "seed": rng.randrange(2 ** 32), "tau": rng.choice([1.0, 8.0, 64])}}


def generate(rng, index, tier):
    pool = [c08.CATALOG[(index * 5 + j * 11) % len(c08.CATALOG)] for j in range(4)]
    slow = any(f in c08.SLOW or f == "pdev" for f in pool)
    n = rng.choice([24, 36]) if slow else rng.choice([40, 64, 130, 200, rng.randrange(1, 12)])
    bufs = [{"n": n, "seed": rng.randrange(2 ** 31), "shape": rng.choice(["white", "walk", "rwfm", "ramp", "spike"]),
             "scale": rng.choice([1.0, 1e-9, 1e3]), "layout": rng.choice(["array", "array", "list", "f32", "int"]),
             "nan": 0, "owner": None} for _ in range(3)]
    taub = [rng.choice([None, "all", "octave", "decade", "log10", {"k": rng.choice(["list", "array"]),
                                                         "m": [rng.randrange(1, 9) for _ in range(4)]}]) for _ in range(2)]
    ops = []
    for _ in range(rng.randrange(3, 9)):
        op = gen_extra(rng, rng.choice(EXTRA)) if rng.random() < 0.4 else c08.gen_op(rng, rng.choice(pool), 3, 2)
        op["amb"] = sorted(rng.sample(KINDS, rng.choice([1, 1, 2, 3])))
        op["mid"] = sorted([rng.randrange(1, 60), rng.choice(INSIDE)] for _ in range(rng.choice([0, 0, 1, 2])))
        op["k"] = rng.randrange(1000)
        ops.append(op)
    return {"bufs": bufs, "taub": taub, "ops": ops}


# ------------------------------------------------------------- the calls
def perform(op, sc):
    """One call of the catalogue; arguments are made afresh."""
    import allantools
    p = op["p"]
    bufs = [c08.make_buf(b) for b in sc["bufs"]]
    if op["fn"] == "dataset":
        d = allantools.Dataset(np.asarray(bufs[op["b"][0]], dtype=float), p["rate"], p["dt"], "octave")
        got = d.compute(p["stat"])
        name = "result-%d.txt" % op["k"]
        scratch = SCRATCH[0]
        path = name if p["relative"] else os.path.join(scratch, name)
        try:
            os.getcwd()
        except OSError:
            path = os.path.join(scratch, name)
        d.write_results(path, p["digits"], {"oscillator": "H\xe4", "drift": 1.25e-9} if p["header"] else {})
        with open(path, "rb") as f:
            text = f.read()
        os.remove(path)
        return dict(got), text
    if op["fn"] == "stream":
        cls = getattr(allantools, p["fam"] + "_realtime")
        e = cls(tau0=0.5, auto_afs=True, pts_per_decade=p["ppd"]) if p["auto"] else cls([1, 2, 5], 0.5)
        out = []
        for i, v in enumerate(np.asarray(bufs[op["b"][0]], dtype=float)):
            (e.add_phase if p["dt"] == "phase" else e.add_frequency)(float(v))
            if i % 16 == 15:
                out.append(np.array(e.devs()))
        return out, np.array(e.taus()), np.array(e.mdev()) if p["fam"] == "tdev" else None
    if op["fn"] == "noise":
        n, fs = p["n"], p["fs"]
        if p["src"] == "tk":
            return allantools.noise.timmer_koenig_from_psd([0.01], [1.0, 2.0], [-2, 0], n * 0.5, 0.5, seed=p["seed"])
        np.random.seed(p["seed"])
        if p["src"] == "pink":
            return allantools.noise.pink(n, 9)
        return getattr(allantools.noise, p["src"])(n, fs=fs)
    if op["fn"] == "kasdin":
        np.random.seed(p["seed"])
        o = allantools.Noise(p["n"], 1e-3, p["b"])
        o.generateNoise()
        return (np.array(o.time_series), o.phase_psd_from_qd(0.5), o.frequency_psd_from_qd(0.5),
                [getattr(o, f)(0.5, p["tau"]) for f in ("adev_from_qd", "mdev_from_qd", "pdev_from_qd")])
    f, a, k = c08.build(op, bufs, [c08.make_taus(t) for t in sc["taub"]])
    return f(*a, **k)


def outcome(op, sc):
    try:
        return ("ok", c08.frozen(perform(op, sc)))
    except (HarnessError, Violation):
        raise
    except Exception as e:
        return ("exc", type(e).__name__)


def baseline(op, sc, scratch):
    """Value with default surroundings, and what the call signals by itself."""
    SCRATCH[0] = scratch
    os.chdir(scratch)
    val = outcome(op, sc)
    hits = []
    with np.errstate(all="call", call=lambda kind, flag: hits.append(kind)):
        outcome(op, sc)
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        outcome(op, sc)
    return val, len(hits), len(seen)


# ------------------------------------------------------ the surroundings
class Surroundings(object):
    def __init__(self, scratch, rnd):
        self.scratch, self.rnd, self.n = scratch, rnd, 0
        self.base = 1e9
        self.out = sys.stdout
        self.env = dict(os.environ)

    def clock(self):
        self.base += self.rnd.choice([0.0, 1e-9, 1.0, 3600.0, -7200.0, 1e8, -1e8])
        return self.base

    def apply(self, kind, stack):
        """Change one thing (undone by the ExitStack if it is to be undone)."""
        if kind == "fp-raise":
            stack.enter_context(np.errstate(all="raise"))
        elif kind == "fp-ignore":
            stack.enter_context(np.errstate(all="ignore"))
        elif kind == "warnings-error":
            stack.enter_context(warnings.catch_warnings())
            warnings.simplefilter("error")
        elif kind == "warnings-ignore":
            stack.enter_context(warnings.catch_warnings())
            warnings.simplefilter("ignore")
        elif kind == "print-options":
            stack.enter_context(np.printoptions(precision=1, threshold=2, edgeitems=1, suppress=True, sign="+",
                                                floatmode="fixed", nanstr="x", infstr="y", linewidth=20))
        elif kind == "cwd":
            self.n += 1
            d = os.path.join(self.scratch, "wd%d" % self.n)
            os.mkdir(d)
            os.chdir(d)
        elif kind == "cwd-gone":
            self.n += 1
            d = os.path.join(self.scratch, "gone%d" % self.n)
            os.mkdir(d)
            os.chdir(d)
            os.rmdir(d)
        elif kind == "clock":
            saved = [(k, getattr(time, k)) for k in ("time", "monotonic", "perf_counter", "process_time", "time_ns", "sleep",
                                                     "monotonic_ns", "perf_counter_ns", "thread_time")]
            stack.callback(lambda: [setattr(time, k, f) for k, f in saved])
            for k, _ in saved:
                setattr(time, k, (lambda *a: int(self.clock() * 1e9)) if k.endswith("_ns") else (lambda *a: self.clock()))
        elif kind == "rng":
            np.random.seed(self.rnd.randrange(2 ** 32))
            random.seed(self.rnd.randrange(2 ** 32))
        elif kind == "stdout-none":
            stack.callback(setattr, sys, "stdout", sys.stdout)
            sys.stdout = None
        elif kind == "stdout-ascii":
            stack.callback(setattr, sys, "stdout", sys.stdout)
            sys.stdout = io.TextIOWrapper(io.BytesIO(), encoding="ascii", errors="strict")
        elif kind == "gc-off":
            stack.callback(gc.enable)
            gc.disable()
        elif kind == "gc-always":
            stack.callback(gc.set_threshold, *gc.get_threshold())
            gc.set_threshold(150, 1, 1)
        elif kind in ("environ", "environ-empty"):
            stack.callback(self.restore_env)
            if kind == "environ-empty":
                os.environ.clear()
            else:
                os.environ.update(TZ="Antarctica/Troll", LANG="tr_TR.UTF-8", LC_ALL="C", HOME="/nonexistent", TMPDIR="/nonexistent",
                                  OMP_NUM_THREADS="3", PYTHONOPTIMIZE="2", COLUMNS="7", USER="n\xf6")
        elif kind.startswith("optimize"):
            stack.callback(sys.modules.update, unload())
            load_optimized(int(kind[-1]))
            stack.callback(unload)
        elif kind != "thread":
            raise HarnessError("surroundings " + kind)

    def restore_env(self):
        os.environ.clear()
        os.environ.update(self.env)


def unload():
    return {k: sys.modules.pop(k) for k in list(sys.modules) if k == "allantools" or k.startswith("allantools.")}


CODE = {}


def load_optimized(level):
    """Import the package again as `python -O` / `-OO` would compile it."""
    class Loader(importlib.machinery.SourceFileLoader):
        def get_code(self, fullname):
            if (self.path, level) not in CODE:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    CODE[self.path, level] = compile(self.get_data(self.path), self.path, "exec", dont_inherit=True,
                                                     optimize=level)
            return CODE[self.path, level]

    class Finder(object):
        @staticmethod
        def find_spec(name, path=None, target=None):
            if name != "allantools" and not name.startswith("allantools."):
                return None
            base = os.path.join(REPO, *name.split("."))
            for file, where in ((os.path.join(base, "__init__.py"), [base]), (base + ".py", None)):
                if os.path.exists(file):
                    return importlib.util.spec_from_file_location(name, file, loader=Loader(name, file),
                                                                  submodule_search_locations=where)
            return None
    sys.meta_path.insert(0, Finder)
    try:
        import allantools  # noqa: F401
        if not allantools.__file__.startswith(PKG):
            raise HarnessError("optimised copy loaded from " + allantools.__file__)
    finally:
        sys.meta_path.remove(Finder)


def in_thread(fn):
    box = []

    def body():
        try:
            box.append(("ret", fn()))
        except BaseException as e:
            box.append(("raise", e))
    t = threading.Thread(target=body)
    t.start()
    t.join()
    if box[0][0] == "raise":
        raise box[0][1]
    return box[0][1]


def with_changes_inside(fn, mid, change):
    """fn() while `change(kind)` strikes at the given line events of the package."""
    todo = sorted(mid)
    count = [0]

    def line(frame, event, arg):
        if event == "line":
            count[0] += 1
            while todo and count[0] >= todo[0][0]:
                change(todo.pop(0)[1])
        return line

    def call(frame, event, arg):
        return line if todo and frame.f_code.co_filename.startswith(PKG) else None
    if not todo:
        return fn()
    sys.settrace(call)
    try:
        return fn()
    finally:
        sys.settrace(None)


def history(sc, base, scratch):
    """All calls in one process, the surroundings changing around them."""
    SCRATCH[0] = scratch
    os.chdir(scratch)
    out = []
    around = Surroundings(scratch, random.Random(len(sc["ops"]) * 7919 + sum(o["k"] for o in sc["ops"])))
    for op, (val, fp, warned) in zip(sc["ops"], base):
        applied = []
        os.chdir(scratch)
        with contextlib.ExitStack() as stack:
            noisy = op["fn"] in ("noise", "kasdin")
            for kind in sorted(op["amb"], key=lambda k: (not k.startswith("optimize"), k)):
                if (kind == "fp-raise" and fp) or (kind == "warnings-error" and warned):
                    continue
                if (kind == "cwd-gone" and "cwd" in op["amb"]) or (kind == "warnings-ignore" and "warnings-error" in op["amb"]):
                    continue
                if kind.startswith("optimize") and (val == ("exc", "AssertionError") or any(a.startswith("opt") for a in applied)):
                    continue
                around.apply(kind, stack)
                applied.append(kind)

            def inside(kind):
                # a relative file name means the directory current at the call
                if (kind == "rng" and noisy) or (kind.startswith("cwd") and op["fn"] == "dataset"):
                    return
                applied.append("inside-" + kind)
                around.apply(kind, stack)

            def run():
                return with_changes_inside(lambda: outcome(op, sc), op["mid"], inside)
            got = in_thread(run) if "thread" in applied else run()
        out.append((got, applied))
    os.chdir(scratch)
    return out


# ------------------------------------------------------------- execution
def execute(sc, ctx):
    scratch = tempfile.mkdtemp(prefix="vsim-")
    try:
        base = []
        for op in sc["ops"]:
            r = pristine(lambda op=op: baseline(op, sc, scratch))
            if r[0] != "ok":
                raise HarnessError("baseline: %s" % (r,))
            base.append(r[1])
        r = pristine(lambda: history(sc, base, scratch))
        if r[0] != "ok":
            raise HarnessError("history: %s" % (r,))
        for n, (op, (want, _, _), (got, applied)) in enumerate(zip(sc["ops"], base, r[1])):
            for kind in applied:
                ctx.fault(kind)
            ctx.sched_hash = hashlib.sha256((ctx.sched_hash + op["fn"] + str(applied)).encode()).hexdigest()[:16]
            ctx.event("call", n, op["fn"], applied, got[1])
            who = "call %d %s(%s) with changed surroundings %s" % (n, op["fn"], op["p"], applied or "(none)")
            if got[0] != want[0] or (got[0] == "exc" and got != want):
                raise Violation("outcome", "%s: %s; with default surroundings: %s" % (who, brief(got), brief(want)), key=op["fn"])
            ctx.probe(op["fn"] if got[0] == "ok" else "raise-" + op["fn"])
            if got[0] == "ok":
                d = approx_same(got[1], want[1], 1e-12)
                if d:
                    raise Violation("result", "%s: %s" % (who, d), key=op["fn"])
                if applied:
                    ctx.nontrivial = True
            ctx.ok()
        ctx.simtime += len(sc["ops"])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def brief(v):
    return "raises " + v[1] if v[0] == "exc" else "returns"


def shrink(sc):
    for ops in list_shrinks(sc["ops"], 1):
        yield dict(sc, ops=ops)
    for i, op in enumerate(sc["ops"]):
        for key in ("amb", "mid"):
            for c in list_shrinks(op[key], 0):
                o = copy.deepcopy(op)
                o[key] = c
                yield dict(sc, ops=sc["ops"][:i] + [o] + sc["ops"][i + 1:])
