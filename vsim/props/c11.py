"""C11 Generated noise has the promised second-order law on any random stream."""
import numpy as np

from ..core import Violation
from ..rngsim import Stream, kasdin, lean, source
from ..runner import list_shrinks, simpler
from ..sched import Sched

COUNT = {"quick": 1040, "thorough": 90000}
RULE = ("Several noise sources run interleaved on 1-3 scheduled threads; the random stream is replaced by unit impulses, "
        "one run per number drawn, which yields the exact linear map of every source; its covariance is compared with "
        "theory and between sources. Long records (up to 2^18) are turned back into white noise by undoing the promised "
        "filter, which must preserve the norm of the draws. Non-trivial = at least one source with two or more samples was compared.")
COMPONENTS = {"real": ["allantools.noise sources", "allantools.Noise", "numpy FFT and arithmetic"],
              "stub": ["numpy's random stream (planned vectors)", "thread scheduler"]}
ASSUMPTIONS = ["sources draw standard normal numbers through numpy.random's module functions",
               "spectral synthesis at the Nyquist bin of an even record has the documented real-part coefficient"]


def gen_tk(rng):
    n = rng.choice([4, 5, 6, 7, 9, 12, 16, 21, 32, 45])
    dt = rng.choice([1.0, 1.0, 0.5, 2.0, 0.25])
    seg = rng.choice([1, 1, 2, 3, 4])
    grid = [float(x) for x in np.linspace(1.0 / ((n - 1) * dt), 0.5 / dt, n // 2 + 1)]
    nodes = []
    for _ in range(seg - 1):
        k = rng.random()
        if k < 0.4:
            nodes.append(rng.choice(grid))
        elif k < 0.5:
            nodes.append(grid[0] * 0.5)
        elif k < 0.6:
            nodes.append(grid[-1] * 1.5)
        else:
            nodes.append(rng.uniform(grid[0], grid[-1]))
    nodes = sorted(set(nodes))
    seg = len(nodes) + 1
    return {"src": "tk", "n": n, "dt": dt, "nodes": nodes, "h": [rng.choice([1.0, 0.3, 4.0, 1e-22]) for _ in range(seg)],
            "alpha": [rng.choice([0, -1, -2, 1, 2, 0.5]) for _ in range(seg)], "out": rng.choice(["phase", "freq"]),
            "lean": rng.random() < 0.5}


def gen_op(rng):
    k = rng.choice(["white", "brown", "violet", "pink", "iter", "iter", "noise", "noise", "tk", "tk"])
    if k == "tk":
        return gen_tk(rng)
    op = {"src": k, "n": rng.choice([1, 2, 3, 7, 16, 31, 64]), "level": rng.choice([1.0, 2, 0.25, 1e-20, 50.0]),
          "fs": rng.choice([1.0, 1.0, 10, 0.5, 3, 1e3]), "lean": rng.random() < 0.6}
    if k in ("pink", "iter"):
        op["depth"] = rng.choice([1, 2, 3, 4, 5, 8, 13, 16, 20])
        op["n"] = rng.choice([1, 2, 5, 17, 40])
    if k == "iter":
        op["chunks"] = [rng.choice([1, 3, 8, 17]) for _ in range(rng.randrange(1, 4))]
    if k == "noise":
        op.update(n=2 ** rng.randrange(1, 7), b=rng.choice([0, -1, -2, -3, -4, -2.5, 0.5]), obj=rng.randrange(2))
    return op


def gen_long(rng):
    """One long record: its whole covariance is out of reach of impulses, but
    undoing the promised filter must turn it back into unit white noise."""
    k = rng.choice(["white", "brown", "violet", "noise", "noise", "tk"])
    n = rng.choice([2 ** rng.randrange(12, 19), rng.randrange(3000, 150000)])
    if k == "tk":
        return dict(gen_tk(rng), n=2 * (min(n, 40000) // 2), dt=1.0, nodes=[rng.choice([0.01, 0.1, 0.003])], out="phase",
                    h=[rng.choice([1.0, 0.3]) for _ in range(2)], alpha=[rng.choice([0, -1, -2, 1]) for _ in range(2)])
    op = {"src": k, "n": rng.choice([n, n, n, 1024]), "level": rng.choice([1.0, 2, 1e-20]), "fs": rng.choice([1.0, 10, 3]),
          "lean": rng.random() < 0.5}
    if k == "noise":
        op.update(n=2 ** rng.randrange(12, 19), b=rng.choice([0, -1, -2, -3, -4, -2.5]), obj=0)
    return op


def generate(rng, index, tier):
    if index % 25 == 11:
        return {"threads": [[gen_long(rng)]], "preempts": [], "probe": rng.randrange(2 ** 31), "long": rng.choice([0, 0, 1, 6])}
    nth = rng.choice([1, 1, 2, 3])
    threads, budget = [], 160 if nth > 1 else 260
    for _ in range(nth):
        ops = []
        for _ in range(rng.randrange(1, 4)):
            op = gen_op(rng)
            cost = draws(op)
            if cost > budget and (ops or threads):
                continue
            budget -= cost
            ops.append(op)
        threads.append(ops)
    if rng.random() < 0.05:
        op = gen_op(rng)
        op["n"] = 256 if op["src"] != "tk" else op["n"]
        if op["src"] == "pink":
            op.update(n=100, depth=80)
        if op["src"] == "iter":
            op["chunks"] = [100]
        threads = [[op]]
    if index % 100 == 57:       # deep pink noise: long enough to wrap around every source
        depth = rng.choice([64, 129, 140, 257])
        op = dict(gen_op(rng), src=rng.choice(["pink", "iter"]), n=depth + 9, depth=depth, chunks=[depth, 9])
        threads = [[op]]
    pre = sorted([rng.randrange(1, rng.choice([20, 200, 1000])), rng.randrange(3)]
                 for _ in range(rng.choice([1, 5, 30]) if len(threads) > 1 else 0))
    return {"threads": threads, "preempts": pre, "probe": rng.randrange(2 ** 31)}


def draws(op):
    if op["src"] in ("pink", "iter"):
        n = op["n"] if op["src"] == "pink" else sum(op["chunks"])
        return op["depth"] * 3 + 2 * op["depth"] * (n // op["depth"] + 1)
    return op["n"] + 2


# ------------------------------------------------------------- one run
def body_for(ops, out, objs, sched):
    from allantools import noise

    def body(t):
        iters = {}
        todo = []
        for i, op in enumerate(ops):
            if op["src"] == "iter":
                todo += [(c, i, n) for c, n in enumerate(op["chunks"])]
            else:
                todo.append((0, i, op["n"]))
        # chunks of several generators alternate
        for c, i, n in sorted(todo):
            op = ops[i]
            k = op["src"]
            if sched:
                sched.op_begin(t, None)
            if k in ("white", "brown", "violet", "pink"):
                v = source(op, n)
            elif k == "iter":
                if i not in iters:
                    iters[i] = noise.iterpink(**lean(op, {"depth": op["depth"]}, depth=20))
                v = np.array([next(iters[i]) for _ in range(n)])
            elif k == "noise":
                o = objs[op["obj"]] = kasdin(op, n, objs.get(op["obj"]))
                o.generateNoise()
                v = o.time_series
            else:
                v = noise.timmer_koenig_from_psd(op["nodes"], op["h"], op["alpha"], n * op["dt"], op["dt"],
                                                 **lean(op, {"output": op["out"]}, output="phase"))
            if sched:
                sched.op_end()
            out.setdefault(i, []).append(np.array(v, copy=True))
    return body


def outs_for(outs):
    outs.append({})
    return outs[0]


def simulate(sc, ctx, stream):
    """All sources once on the given stream: {(thread, op): samples}."""
    outs = []
    if len(sc["threads"]) == 1:
        with stream:
            body_for(sc["threads"][0], outs_for(outs), {}, None)(None)
        return {(0, i): np.concatenate(v) for i, v in outs[0].items()}
    sched = Sched(ctx, sc["preempts"], scope=["noise.py", "noise_kasdin.py"])
    for ops in sc["threads"]:
        outs.append({})
        sched.spawn(body_for(ops, outs[-1], {}, sched))
    with stream:
        sched.run()
    return {(t, i): np.concatenate(v) for t, o in enumerate(outs) for i, v in o.items()}


# ------------------------------------------------------------- theory
def theory(op):
    """Promised covariance matrix."""
    k, n = op["src"], op["n"]
    if k in ("white", "brown", "violet"):
        fs = float(op["fs"])
        if k == "white":
            return op["level"] * fs / 2.0 * np.eye(n)
        i = np.arange(1, n + 1)
        if k == "brown":
            return op["level"] * 4 * np.pi ** 2 * fs / 2.0 / fs ** 2 * np.minimum.outer(i, i)
        d = np.abs(np.subtract.outer(i, i))
        return op["level"] / (2 * np.pi) ** 2 * fs / 2.0 * fs ** 2 * (2.0 * (d == 0) - 1.0 * (d == 1))
    if k in ("pink", "iter"):
        depth = op["depth"]
        if k == "iter":
            n = sum(op["chunks"])
        src = np.zeros((n, depth), dtype=int)   # which draw feeds source c at time t
        cur, i = list(range(depth)), 0
        for t in range(n):
            if t:
                i = (i + 1) % depth
                if i:
                    cur[(i & -i).bit_length() - 1] = depth + t
            src[t] = cur
        return np.eye(n) + (src[:, None, :] == src[None, :, :]).sum(axis=2)
    if k == "noise":
        h = np.ones(n)
        a = -op["b"]            # response (1 - z)^(-a/2)
        for j in range(1, n):
            h[j] = h[j - 1] * (j - 1 + a / 2.0) / j
        T = np.zeros((n, n))
        for r in range(n):
            T[r, :r + 1] = h[:r + 1][::-1]
        return op["level"] * (T @ T.T)
    n = int(n * op["dt"] / op["dt"])
    dt = float(op["dt"])
    freq = np.linspace(1.0 / ((n - 1) * dt), 1.0 / (2 * dt), n // 2 + 1)
    C = np.zeros((n, n))
    t = np.arange(n)
    lag = np.subtract.outer(t, t)
    for j in range(1, n // 2 + 1):
        seg = sum(1 for x in op["nodes"] if x <= freq[j])
        sx = op["h"][seg] * freq[j] ** op["alpha"][seg] / (2 * np.pi * freq[j]) ** 2
        w = sx if 2 * j != n else sx / 4.0
        C += w * (n - 1) / dt / n ** 2 * np.cos(2 * np.pi * j * lag / n)
    if op["out"] == "freq":
        D = np.zeros((n, n))
        for r in range(1, n):
            D[r, r], D[r, r - 1] = 1 / dt, -1 / dt
        C = D @ C @ D.T
    return C


def whiten(op, v):
    """Undo the promised filter of a long record."""
    k = op["src"]
    if k == "white":
        return v / np.sqrt(op["level"] * op["fs"] / 2.0)
    if k == "brown":
        return np.diff(v, prepend=0.0) / np.sqrt(op["level"] * 4 * np.pi ** 2 / op["fs"] / 2.0)
    if k == "violet":
        u = np.cumsum(np.concatenate(([0.0], v))) / np.sqrt(op["level"] / (2 * np.pi) ** 2 * op["fs"] ** 3 / 2.0)
        return u - u.mean()
    if k == "noise":
        v, a = v / np.sqrt(op["level"]), -op["b"] / 2.0
        if a == int(a):
            for _ in range(int(a)):
                v = np.diff(v, prepend=0.0)
            return v
        j = np.arange(1, len(v))
        g = np.concatenate(([1.0], np.cumprod((j - 1 - a) / j)))
        m = 2 * len(v)
        return np.fft.irfft(np.fft.rfft(v, m) * np.fft.rfft(g, m), m)[:len(v)]
    n = len(v)
    freq = np.linspace(1.0 / (n - 1), 0.5, n // 2 + 1)[1:-1]
    X = np.fft.rfft(v)[1:-1]
    seg = [sum(1 for x in op["nodes"] if x <= f) for f in freq]
    sx = np.array([op["h"][q] for q in seg]) * freq ** np.array([float(op["alpha"][q]) for q in seg]) / (2 * np.pi * freq) ** 2
    X = X / np.sqrt(sx / 4.0 * (n - 1))
    return np.concatenate((X.real, X.imag))


def long_record(sc, ctx):
    op = sc["threads"][0][0]
    count = Stream()
    zero = simulate(sc, ctx, count)[(0, 0)]
    K, n = count.k, op["n"]
    rs = np.random.RandomState(sc["probe"])
    z = rs.standard_normal(K)
    if sc["long"]:              # a few unit impulses only
        z = np.zeros(K)
        z[rs.randint(0, K, sc["long"])] = 1.0
        if sc["long"] == 1:
            z[:] = 0.0
            z[rs.randint(0, 1 + K // 50)] = 1.0
    s = Stream(z=z)
    v = simulate(sc, ctx, s)[(0, 0)]
    ctx.fault("impulse-run")
    ctx.event("long", K, v)
    who = where(sc, (0, 0))
    if np.any(zero != 0):
        raise Violation("offset", "source %s: not zero on an all-zero stream" % who)
    if len(v) != n or s.k != K:
        raise Violation("length", "%s: %d samples, expected %d" % (who, len(v), n), key=op["src"])
    u = whiten(op, v)
    got = float(np.sum(u * u))
    if op["src"] == "violet":
        want, exact = float(np.sum((z - z.mean()) ** 2)), K == n + 1
    else:
        want, exact = float(np.sum(z * z)), K == n and op["src"] != "tk"
    if exact:
        # as many draws as samples: promised covariance <=> undoing the filter preserves every norm
        if abs(got - want) > 1e-5 * max(want, 1.0):
            raise Violation("covariance", "%s: undoing the promised filter gives energy %r, the draws have %r" %
                            (who, got, want), key=op["src"])
    elif not sc["long"]:
        for part in (u, u[:len(u) // 2], u[len(u) // 2:], u[-len(u) // 8:]):
            m = len(part)
            if abs(np.sum(part * part) - m) > 9 * np.sqrt(2.0 * m):
                raise Violation("covariance", "%s: undoing the promised filter gives variance %r, expected 1" %
                                (who, float(np.mean(part * part))), key=op["src"])
    ctx.ok(2)
    ctx.probe("long-" + op["src"])
    ctx.simtime += n
    ctx.nontrivial = True


def execute(sc, ctx):
    sc = dict(sc, threads=[t for t in sc["threads"] if t])
    if not sc["threads"]:
        return
    if "long" in sc:
        return long_record(sc, ctx)
    count = Stream()
    zero = simulate(sc, ctx, count)
    K = count.k
    faults = dict(ctx.faults)
    for key, v in zero.items():
        if np.any(v != 0):
            raise Violation("offset", "source %s: not zero on an all-zero stream" % where(sc, key))
    # the sources must not care how values look: same number of draws each run
    A = {key: np.zeros((len(v), K)) for key, v in zero.items()}
    for k in range(K):
        s = Stream(hot=k)
        o = simulate(sc, ctx, s)
        if s.k != K:
            raise Violation("draws", "the number of draws depends on the values drawn (%d, %d)" % (s.k, K))
        for key, v in o.items():
            if len(v) != len(A[key]):
                raise Violation("length", "%s: length depends on the stream" % where(sc, key))
            A[key][:, k] = v
    z = np.random.RandomState(sc["probe"]).standard_normal(K)
    o = simulate(sc, ctx, Stream(z=z))
    ctx.faults.clear()
    ctx.faults.update(faults)
    ctx.fault("impulse-run", K)
    ctx.event("draws", K)
    for key, v in sorted(o.items()):
        ref = A[key] @ z
        scale = np.max(np.abs(A[key]).sum(axis=1)) if len(v) else 0
        if len(v) and np.max(np.abs(v - ref)) > 1e-9 * scale:
            raise Violation("not-linear", "%s is not the linear map of its draws" % where(sc, key), key=src(sc, key))
        C = A[key] @ A[key].T
        T = theory(op_of(sc, key))
        if C.shape != T.shape:
            raise Violation("length", "%s: %d samples, expected %d" % (where(sc, key), len(C), len(T)), key=src(sc, key))
        if len(C):
            err = np.abs(C - T)
            big = np.max(np.abs(T))
            # FFT-based sources carry rounding of the largest entry
            if np.max(err) > 1e-9 * big:
                i, j = np.unravel_index(int(np.argmax(err)), err.shape)
                raise Violation("covariance", "%s: covariance of samples %d and %d is %r, promised %r" %
                                (where(sc, key), i, j, float(C[i, j]), float(T[i, j])), key=src(sc, key))
        ctx.ok(2)
        ctx.probe(src(sc, key))
        ctx.simtime += len(v)
        ctx.event("law", str(key), C.shape[0])
        if len(v) >= 2:
            ctx.nontrivial = True
    keys = sorted(A)
    for a in range(len(keys)):
        for b in range(a + 1, len(keys)):
            X = A[keys[a]] @ A[keys[b]].T
            s = np.max(np.abs(A[keys[a]]), initial=0) * np.max(np.abs(A[keys[b]]), initial=0)
            if X.size and np.max(np.abs(X)) > 1e-9 * s * K:
                raise Violation("correlated", "%s and %s share random numbers" % (where(sc, keys[a]), where(sc, keys[b])))
            ctx.ok()


def op_of(sc, key):
    return sc["threads"][key[0]][key[1]]


def src(sc, key):
    return op_of(sc, key)["src"]


def where(sc, key):
    return "thread %d source %d %s" % (key[0], key[1], {k: v for k, v in op_of(sc, key).items()})


def shrink(sc):
    ths = sc["threads"]
    if len(ths) > 1:
        for i in range(len(ths)):
            yield dict(sc, threads=ths[:i] + ths[i + 1:])
    for p in list_shrinks(sc["preempts"], 0):
        yield dict(sc, preempts=p)
    if "long" in sc:
        n = ths[0][0]["n"]
        while n > 64:
            n //= 2
            yield dict(sc, threads=[[dict(ths[0][0], n=n)]])
        return
    for i, ops in enumerate(ths):
        for c in list_shrinks(ops, 1):
            yield dict(sc, threads=ths[:i] + [c] + ths[i + 1:])
    for i, ops in enumerate(ths):
        for j, op in enumerate(ops):
            def put(x):
                return dict(sc, threads=ths[:i] + [ops[:j] + [x] + ops[j + 1:]] + ths[i + 1:])
            if op["src"] == "tk":
                for x in simpler(op, ("out", ("phase",)), ("lean", (False,)), ("dt", (1.0,))):
                    yield put(x)
            elif op["src"] == "iter":
                for c in list_shrinks(op["chunks"], 1):
                    yield put(dict(op, chunks=c))
                for x in simpler(op, ("depth", (1, 2, 3, 4))):
                    yield put(x)
            else:
                for x in simpler(op, ("level", (1.0,)), ("fs", (1.0,)), ("n", (2, 4, 8))):
                    yield put(x)
