COMMON = '''
import os
import sys
import numpy as np
import allantools as at

def check(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)

rng = np.random.RandomState(7)

def lose(x, *where):
    y = np.array(x, dtype=float)
    y[list(where)] = np.nan
    return y

'''
BUGS = [
dict(id="C14-nancumsum", prop="C14",
 needs="frequency data with samples missing in the middle of the record",
 breaks="a missing frequency sample is integrated as if the clock had had its mean frequency then",
 edits=[("allantools.py", """    phasedata = np.cumsum(freqdata) * dt
""", """    phasedata = np.nancumsum(freqdata) * dt
""")],
 demo=COMMON + '''
y = rng.standard_normal(200)
for f in (at.adev, at.oadev, at.mdev, at.ohdev, at.totdev, at.mtie):
    t, d, e, n = f(lose(y, 90, 91, 92), data_type="freq", rate=1.0, taus=[1, 2, 4])
    check(np.all(np.isnan(d)), "%s of a record with lost samples: %s" % (f.__name__, d))
'''),
dict(id="C14-stream-skip", prop="C14",
 needs="a NaN phase reading in a stream, and enough readings after it for windows without it",
 breaks="OHDEV on the fly leaves out undefined differences but still counts them",
 edits=[("realtime.py", """        self.S[idx] = self.S[idx] + S_new
        self.dev[idx] = numpy.sqrt(
            (1.0/(6.0*""", """        if S_new >= 0:
            self.S[idx] += S_new
        self.dev[idx] = numpy.sqrt(
            (1.0/(6.0*""")],
 demo=COMMON + '''
x = np.cumsum(rng.standard_normal(120))
est = at.ohdev_realtime(afs=[1, 4])
for v in lose(x, 50):
    est.add_phase(v)
t, d, e, n = at.ohdev(lose(x, 50), rate=1.0, data_type="phase", taus=[1, 4])
check(np.all(np.isnan(d)), "batch OHDEV of a record with a lost sample: %s" % d)
check(np.all(np.isnan(est.devs())), "OHDEV on the fly with a lost sample: %s" % est.devs())
'''),
dict(id="C14-hat-clip", prop="C14",
 needs="a three-cornered hat with a lost sample in one of the three records",
 breaks="an unknown variance of the three-cornered hat is reported as zero, a perfect clock",
 edits=[("allantools.py", """    var_a[var_a < 0] = 0  # don't return imaginary deviations (?)
""", """    var_a = np.where(var_a > 0, var_a, 0)  # don't return imaginary deviations (?)
""")],
 demo=COMMON + '''
a, b, c = [np.cumsum(rng.standard_normal(300)) for _ in range(3)]
t, d, e, n = at.three_cornered_hat_phase(lose(a - b, 140), b - c, c - a, 1.0, [1, 2, 4], at.oadev)
check(np.all(np.isnan(d)), "deviation from a record with a lost sample: %s" % d)
t, d, e, n = at.three_cornered_hat_phase(a - b, b - c, c - a, 1.0, [1, 2, 4], at.oadev)
check(np.all(d >= 0), "complete records: %s" % d)
'''),
dict(id="C14-mtie-blocks", prop="C14",
 needs="a phase record longer than one block of windows with a lost sample that no window of the first block holds",
 breaks="the windows are searched in blocks, and a block with a lost sample loses every comparison",
 edits=[("allantools.py", """            win_max = np.max(rw, axis=1)
            win_min = np.min(rw, axis=1)
            tie = win_max - win_min
            dev = np.max(tie)
""", """            dev = None
            for k in range(0, len(rw), 128):  # bound the size of the temporaries
                win_max = np.max(rw[k:k+128], axis=1)
                win_min = np.min(rw[k:k+128], axis=1)
                tie = np.max(win_max - win_min)
                dev = tie if dev is None else max(dev, tie)
""")],
 demo=COMMON + '''
x = np.cumsum(rng.standard_normal(700))
full = at.mtie(x, rate=1.0, taus=[1, 4, 10])[1]
want = [max(np.ptp(x[i:i+m+1]) for i in range(len(x)-m)) for m in (1, 4, 10)]
check(np.allclose(full, want), "complete record: %s instead of %s" % (full, want))
for where in (5, 300, 690):
    d = at.mtie(lose(x, where), rate=1.0, taus=[1, 4, 10])[1]
    check(np.all(np.isnan(d)), "sample %d lost: %s" % (where, d))
'''),
dict(id="C14-adev-valid", prop="C14",
 needs="phase data with a missing sample on the grid of a non-overlapping (or overlapping) Allan deviation",
 breaks="undefined second differences are left out of the sum but not out of the count",
 edits=[("allantools.py", """    v_arr = d2[:n] - 2 * d1[:n] + d0[:n]
    s = np.sum(v_arr * v_arr)

    dev = np.sqrt(s / (2.0*n)) / mj*rate
""", """    v_arr = d2[:n] - 2 * d1[:n] + d0[:n]
    s = np.nansum(v_arr * v_arr)

    dev = np.sqrt(s / (2.0*n)) / mj*rate
""")],
 demo=COMMON + '''
x = np.cumsum(rng.standard_normal(100))
for f in (at.adev, at.oadev):
    d = f(lose(x, 40), rate=1.0, taus=[1, 2, 4])[1]
    check(np.all(np.isnan(d)), "%s of a record with a lost sample: %s" % (f.__name__, d))
'''),
]
