"""Simulated counter and network feeding a streaming estimator.

A clock model emits one sample per tick; each sample travels as a message over
a simulated link that loses, duplicates, delays and thereby reorders them.
The receiver (the estimator) accepts what arrives, in arrival order."""
import heapq
import random

import numpy as np

SHAPES = ["white", "walk", "rwfm", "const", "ramp", "quad", "spike", "tiny", "huge"]


def clock_values(shape, kind, n, seed, scale, offset):
    r = np.random.RandomState(seed % (2 ** 32))
    w = r.standard_normal(n)
    t = np.arange(n, dtype=float)
    if shape == "walk":
        v = np.cumsum(w)
    elif shape == "rwfm":
        v = np.cumsum(np.cumsum(w))
    elif shape == "const":
        v = np.zeros(n)
    elif shape == "ramp":
        v = 3.0 * t + w
    elif shape == "quad":
        v = 0.01 * t * t + w
    elif shape == "spike":
        v = w * 1e-3
        v[r.randint(0, n)] += 1e3
    elif shape == "tiny":
        v = w * 1e-9
    elif shape == "huge":
        v = w * 1e6
    else:
        v = w
    if kind == "freq" and shape in ("rwfm", "quad"):
        v = v / (1.0 + t)
    return v * scale + offset


def deliver(segs, tau0, ctx):
    """Discrete-event run: yields (time, kind, value) in arrival order."""
    q, seq, now = [], 0, 0.0
    for si, s in enumerate(segs):
        rnd = random.Random(s["seed"])
        vals = clock_values(s["shape"], s["kind"], s["n"], s["seed"], s["scale"], s["offset"])
        for i in range(s["n"]):
            now += tau0
            if s["drop"] and rnd.random() < s["drop"]:
                ctx.fault("drop")
                continue
            copies = 1
            if s["dup"] and rnd.random() < s["dup"]:
                copies = 2
                ctx.fault("duplicate")
            for _ in range(copies):
                delay = 0.01 * tau0
                if s["jitter"]:
                    if rnd.random() < s["jitter"]:
                        delay += rnd.random() * s["maxdelay"] * tau0
                        ctx.fault("delay")
                v = float(vals[i])
                if s["type"] == "np":
                    v = np.float64(v)
                elif s["type"] == "int":
                    v = int(round(max(-1e12, min(1e12, v * 10))))
                heapq.heappush(q, (now + delay, seq, s["kind"], v))
                seq += 1
    last = -1
    while q:
        t, sq, kind, v = heapq.heappop(q)
        if sq < last:
            ctx.fault("reordered")
        last = max(last, sq)
        ctx.simtime = max(ctx.simtime, t)
        yield t, kind, v


def gen_segs(rng, total, mixed=True):
    segs = []
    left = total
    nseg = rng.choice([1, 1, 1, 2, 2, 3, 4]) if mixed else 1
    faulty = rng.random() < 0.5
    base_kind = rng.choice(["phase", "phase", "freq"])
    scale = 10.0 ** rng.choice([0, 0, 0, -9, -3, 3, -12])
    for i in range(nseg):
        n = left if i == nseg - 1 else max(1, int(left * rng.random()))
        left -= n
        if n <= 0:
            continue
        kind = base_kind if (not mixed or rng.random() < 0.5) else rng.choice(["phase", "freq"])
        segs.append({
            "kind": kind, "n": n, "seed": rng.randrange(2 ** 31),
            "shape": rng.choice(SHAPES[:7] if rng.random() < .9 else SHAPES),
            "scale": scale, "offset": rng.choice([0.0, 0.0, 1.0, -250.0]) * scale,
            "drop": rng.choice([0, 0.01, 0.1, 0.4]) if faulty else 0,
            "dup": rng.choice([0, 0.02, 0.2]) if faulty else 0,
            "jitter": rng.choice([0, 0.05, 0.5]) if faulty else 0,
            "maxdelay": rng.choice([1.5, 5, 40]),
            "type": rng.choice(["float", "float", "float", "np", "int"]),
        })
    return segs


def shrink_segs(segs):
    from .runner import list_shrinks
    for c in list_shrinks(segs, 1):
        yield c
    for i, s in enumerate(segs):
        for n in (1, 2, 3, s["n"] // 4, s["n"] // 2, (3 * s["n"]) // 4, s["n"] - 1):
            if 0 < n < s["n"]:
                yield segs[:i] + [dict(s, n=n)] + segs[i + 1:]
        for k, v in (("drop", 0), ("dup", 0), ("jitter", 0), ("type", "float"), ("offset", 0.0),
                     ("shape", "white"), ("scale", 1.0)):
            if s[k] != v:
                yield segs[:i] + [dict(s, **{k: v})] + segs[i + 1:]


def lean_input(kw, seed):
    """Dataset arguments, without those that equal the documented default for
    every other seed."""
    if seed % 2:
        for k, d in (("rate", 1.0), ("data_type", "phase"), ("taus", None)):
            if type(kw[k]) is type(d) and kw[k] == d:
                del kw[k]
    return kw
