COMMON = '''
import os
import sys
import threading
import numpy as np
import allantools as at

def check(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)

def same(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=0, equal_nan=True)

rng = np.random.RandomState(7)

'''
BUGS = [
dict(id="C04-zero-terms", prop="C04",
 needs="a phase record with an outage and stretches of exactly constant frequency (a coarse counter)",
 breaks="second differences that are exactly zero are not counted as surviving triples",
 edits=[("allantools.py", """    n = len(np.where(np.isnan(v_arr) == False)[0])  # noqa
""", """    n = np.count_nonzero(np.nan_to_num(v_arr))
""")],
 demo=COMMON + '''
x = np.round(np.cumsum(rng.standard_normal(400)))     # a counter with whole-number readings
x[100:140] = np.nan
t, d, e, n = at.gradev(x, rate=1.0, taus=[1, 2, 5])
for tau, dev, k in zip(t, d, n):
    m = int(tau)
    v = x[2*m:] - 2*x[m:-m] + x[:-2*m]
    v = v[~np.isnan(v)]
    check(k == len(v), "tau %s: %s triples instead of %d" % (tau, k, len(v)))
    check(same(dev, np.sqrt(np.mean(v**2)/2)/m), "tau %s: %s" % (tau, dev))
'''),
dict(id="C04-small-n-tail", prop="C04",
 needs="periodic losses, so that the number of surviving triples is not monotone in tau",
 breaks="every tau after the first one with too few triples is left out",
 edits=[("allantools.py", """    ns_big_enough = ns > 1

""", """    ns_big_enough = np.logical_and.accumulate(ns > 1)  # ns falls with tau

""")],
 demo=COMMON + '''
x = np.cumsum(rng.standard_normal(300))
x[np.arange(300) % 4 == 1] = np.nan
x[np.arange(300) % 4 == 2] = np.nan      # triples survive for m = 4, 8 but hardly for m = 2
x[np.arange(300) % 4 == 3] = np.nan
t, d, e, n = at.gradev(x, rate=1.0, taus=[1, 2, 4, 8])
check(list(t) == [4, 8], "taus %s instead of [4, 8]" % list(t))
'''),
dict(id="C04-edf-length", prop="C04",
 needs="a record with losses and a look at the error bars",
 breaks="degrees of freedom are those of the full record, so the error bars of a lossy one are too small",
 edits=[("allantools.py", """    N = len(np.where(np.isnan(data) == False)[0])  # noqa
""", """    N = len(v_arr) + 2 * int(mj)  # samples
""")],
 demo=COMMON + '''
from allantools import ci
x = np.cumsum(rng.standard_normal(300))
x[rng.random_sample(300) < .4] = np.nan
t, d, (lo, hi), n = at.gradev(x, rate=1.0, taus=[1, 2, 4], noisetype="wf")
for i, tau in enumerate(t):
    a, b = ci.confidence_interval(d[i], ci.edf_simple(np.count_nonzero(~np.isnan(x)), tau, 0), .9)
    check(same([lo[i], hi[i]], [d[i] - a, b - d[i]]), "tau %s: bars %s %s" % (tau, lo[i], hi[i]))
'''),
dict(id="C07-out-update", prop="C07",
 needs="a computation that fails, or a reader between the steps of a computation",
 breaks="the published result is refilled key by key, so readers can see two results mixed",
 edits=[("dataset.py", """        result = {key: result[i] for i, key in enumerate(keys)}
""", """        result = dict(zip(keys, result))
        for key in keys:
            self.out[key] = result[key]
""")],
 demo=COMMON + '''
d = at.Dataset(data=rng.standard_normal(300), rate=1.0, taus=[1, 2, 4])
d.compute("adev")
kept = d.out
before = dict(kept)
d.compute("mdev")
check(kept["stat_id"] == "adev" and same(kept["stat"], before["stat"]),
      "a result kept by its reader changed: %s with %s" % (kept["stat_id"], kept["stat"]))
'''),
dict(id="C07-reenter", prop="C07",
 needs="set_input() from another thread while a computation runs, or an input replaced between two reads",
 breaks="rate and data type of the published result are read again after the computation",
 edits=[("dataset.py", """        keys = ["taus", "stat", "stat_err", "stat_n"]
""", """        keys = ("taus", "stat", "stat_err", "stat_n")
"""), ("dataset.py", """        self.out = out
        return result
""", """        out.update({key: self.inp[key] for key in ("rate", "data_type")})
        self.out = out
        return result
""")],
 demo=COMMON + '''
d = at.Dataset(data=rng.standard_normal(100), rate=1.0, data_type="phase", taus=[1, 2])
mod = at.dataset.allantools if hasattr(at.dataset, "allantools") else at
real = mod.adev
def slow(*a, **k):
    r = real(*a, **k)
    d.set_input(rng.standard_normal(50), rate=10.0, data_type="freq")   # what another thread may do now
    return r
mod.adev = slow
try:
    d.compute("adev")
finally:
    mod.adev = real
check(d.out["rate"] == 1.0 and d.out["data_type"] == "phase",
      "result of the 1 Hz phase record is labelled %s Hz %s" % (d.out["rate"], d.out["data_type"]))
'''),
]
