"""C15 checkpointed objects resume as if nothing had happened."""
import copy
import os
import pickle
import shutil
import tempfile

import numpy as np

from ..core import Violation
from ..forks import pristine
from ..runner import list_shrinks
from .c03 import FAM, construct, put, report, samples

COUNT = {"quick": 2500, "thorough": 100000}
RULE = ("Estimators, datasets and noise objects of one process are checkpointed, copied and lost in seeded crashes; "
        "each restart is a fresh process that loads the last checkpoint and repeats the work since. Non-trivial = at "
        "least one report after a restart or from a copy was compared with the uninterrupted history.")
COMPONENTS = {"real": ["allantools.realtime estimators", "allantools.Dataset", "allantools.Noise", "pickle, copy.deepcopy"],
              "stub": ["process crash and restart (pristine forked processes)", "checkpoint store"]}
ASSUMPTIONS = ["the work since a checkpoint is logged and repeated after a restart",
               "generators (iterpink) and figures cannot be checkpointed in Python and are left out"]
STATS = ["adev", "oadev", "mdev", "tdev", "hdev", "ohdev", "totdev", "mtie", "tierms", "gradev", "pdev", "theo1"]


def generate(rng, index, tier):
    ops = []
    kinds = {}
    for s in range(rng.choice([1, 1, 2, 3])):
        kinds[s] = rng.choice(["est", "est", "data", "data", "noise"])
        if kinds[s] == "est":
            auto = rng.random() < .5
            ops.append(["new", s, "est", {"family": rng.choice(FAM), "auto": auto, "tau0": rng.choice([1.0, .5, 10.0]),
                                          "ppd": rng.choice([2, 4, 5, 1, 3, 10, 50])},
                        None if auto else rng.choice([None, [1], [1, 2, 4], [3, 1], [5, 2, 1]])])
        elif kinds[s] == "data":
            ops.append(["new", s, "data", rng.choice([0, 1]), rng.randrange(2 ** 31)])
        else:
            ops.append(["new", s, "noise", 2 ** rng.randrange(1, 7), rng.choice([0, -1, -2, -3, -4])])
    for _ in range(rng.randrange(4, 18)):
        s = rng.choice(sorted(kinds))
        k = rng.random()
        if k < .2:
            ops.append(["save", rng.randrange(6)])
        elif k < .36:
            ops.append(["crash"])
        elif k < .44:
            new = rng.choice([x for x in range(4)])
            if new not in kinds:
                kinds[new] = kinds[s]
                ops.append(["copy", s, new, rng.choice([-1, -1, 2, 5])])
        else:
            ops.append(act(rng, s, kinds[s]))
    for s in sorted(kinds):
        ops.append(act(rng, s, kinds[s]))
        ops.append(["look", s])
    return {"ops": ops}


def act(rng, s, kind):
    k = rng.random()
    if k < .25:
        return ["look", s]
    if kind == "est":
        return ["feed", s, rng.choice(["phase", "phase", "freq"]), rng.choice([1, 2, 5, 13, 40, 40, 150]), rng.randrange(2 ** 31)]
    if kind == "data":
        if k < .5:
            return ["input", s, rng.choice([8, 20, 50]), rng.randrange(2 ** 31), rng.choice(["phase", "freq"]),
                    rng.choice(["array", "list", "readonly"]), rng.choice([None, "all", "decade", [1.0, 2.0, 5.0]]),
                    rng.choice([1.0, 2.0])]
        if k < .62:
            return ["write", s, rng.choice([3, 5, 9])]
        return ["compute", s, rng.choice(STATS)]
    if k < .45:
        return ["params", s, 2 ** rng.randrange(1, 7), rng.choice([1, 1e-20, .5]), rng.choice([0, -1, -2, -3, -4])]
    return ["gen", s, rng.randrange(2 ** 31)]


def build(op):
    import allantools
    if op[2] == "est":
        return construct(op[3], op[4])
    if op[2] == "data":
        if op[3]:
            return allantools.Dataset()
        return allantools.Dataset(data=np.random.RandomState(op[4] % 2 ** 32).standard_normal(30), rate=1.0)
    return allantools.Noise(nr=op[3], qd=1, b=op[4])


def apply(obj, op):
    """Do one operation; returns what the caller sees."""
    k = op[0]
    if k == "feed":
        for v in samples(op[3], op[4], op[2]):
            put(obj, (op[2], v))
    elif k == "input":
        x = np.random.RandomState(op[3] % 2 ** 32).standard_normal(op[2])
        if op[5] == "list":
            x = x.tolist()
        elif op[5] == "readonly":
            x.flags.writeable = False
        obj.set_input(x, rate=op[7], data_type=op[4], taus=op[6])
    elif k == "compute":
        try:
            return ["computed", flat(obj.compute(op[2]))]
        except Exception as e:
            return ["raised", type(e).__name__]
    elif k == "write":
        d = tempfile.mkdtemp(prefix="vsim15-")
        try:
            p = os.path.join(d, "out.txt")
            try:
                obj.write_results(p, digits=op[2])
            except Exception as e:
                return ["raised", type(e).__name__]
            with open(p) as f:
                return ["file", f.read()]
        finally:
            shutil.rmtree(d)
    elif k == "params":
        obj.set_input(nr=op[2], qd=op[3], b=op[4])
    elif k == "gen":
        np.random.seed(op[2] % 2 ** 32)
        obj.generateNoise()
        return ["noise", flat(obj.time_series)]
    elif k == "look":
        return look(obj)
    return None


def look(obj):
    if hasattr(obj, "devs"):
        return ["report", flat(report(obj))]
    if hasattr(obj, "inp"):
        return ["dataset", flat(obj.inp), flat(obj.out)]
    return ["noise", flat([obj.nr, obj.qd, obj.b, obj.time_series])]


def flat(v):
    """A value as nested plain data, arrays with dtype and bytes."""
    if isinstance(v, np.ndarray):
        return ["array", str(v.dtype), list(v.shape), v.tobytes().hex() if v.dtype != object else repr(v)]
    if isinstance(v, np.generic):
        return ["scalar", str(v.dtype), v.tobytes().hex()]
    if isinstance(v, dict):
        return {str(k): flat(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [flat(x) for x in v]
    if isinstance(v, float):
        return v.hex()
    return v if v is None or isinstance(v, (bool, int, str)) else repr(type(v))


def uninterrupted(ops):
    """No checkpoint, no crash; a copy is an object of its own with the same past."""
    def run():
        objs, past, out = {}, {}, {}
        for i, op in enumerate(ops):
            if op[0] == "new":
                objs[op[1]], past[op[1]] = build(op), [op]
            elif op[0] == "copy":
                if op[1] not in past:
                    continue
                past[op[2]] = list(past[op[1]])
                o = build(past[op[2]][0])
                for p in past[op[2]][1:]:
                    apply(o, p)
                objs[op[2]] = o
            elif op[0] not in ("save", "crash") and op[1] in objs:
                past[op[1]].append(op)
                out[i] = apply(objs[op[1]], op)
        return out
    return pristine(run)


def segment(ops, start, blob, done):
    """One process lifetime: from the last checkpoint to the next new crash."""
    def run():
        objs = pickle.loads(blob) if blob is not None else {}
        pos, saved, out = start, blob, []
        for i in range(start, len(ops)):
            op = ops[i]
            if op[0] == "new":
                objs[op[1]] = build(op)
            elif op[0] == "save":
                saved, pos = pickle.dumps(objs, protocol=op[1]), i + 1
            elif op[0] == "copy":
                if op[1] in objs:
                    objs[op[2]] = copy.deepcopy(objs[op[1]]) if op[3] < 0 else \
                        pickle.loads(pickle.dumps(objs[op[1]], protocol=op[3]))
            elif op[0] == "crash":
                if i not in done:
                    return {"crash": i, "start": pos, "blob": saved, "out": out}
            elif op[1] in objs:
                out.append((i, apply(objs[op[1]], op)))
        return {"crash": None, "out": out}
    return pristine(run)


def execute(sc, ctx):
    ops = sc["ops"]
    ref = uninterrupted(ops)
    if ref[0] != "ok":
        raise Violation("reference-failed", "uninterrupted history: %s" % (ref[1:],))
    start, blob, done, life = 0, None, set(), 0
    copied = False
    while True:
        seg = segment(ops, start, blob, done)
        if seg[0] != "ok":
            raise Violation("restart-failed", "process %d, from operation %d: %s" % (life, start, str(seg[1:])[-700:]))
        seg = seg[1]
        for i, got in seg["out"]:
            want = ref[1].get(i)
            ctx.event(life, i, str(got)[:400])
            if got != want:
                raise Violation("not-resumed", "process %d, operation %d %r: %s instead of %s" %
                                (life, i, ops[i], str(got)[:400], str(want)[:400]))
            ctx.ok()
            copied = copied or any(o[0] == "copy" and o[2] == ops[i][1] for o in ops[:i])
            if got is not None and ((life and start) or copied):
                ctx.nontrivial = True
        if seg["crash"] is None:
            break
        ctx.fault("crash")
        done.add(seg["crash"])
        start, blob = seg["start"], seg["blob"]
        if blob is not None:
            ctx.probe("restored")
        life += 1


def shrink(sc):
    for ops in list_shrinks(sc["ops"], 1):
        yield dict(sc, ops=ops)
    for i, op in enumerate(sc["ops"]):
        if op[0] == "feed" and op[3] > 1:
            for n in (1, op[3] // 2):
                yield dict(sc, ops=sc["ops"][:i] + [op[:3] + [n] + op[4:]] + sc["ops"][i + 1:])
        if op[0] == "save" and op[1] != 4:
            yield dict(sc, ops=sc["ops"][:i] + [["save", 4]] + sc["ops"][i + 1:])
