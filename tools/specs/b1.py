COMMON = '''
import sys
import numpy as np
import allantools as at
from allantools import realtime as rt

def check(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)

'''
BUGS = [
dict(id="C01-ohdev-unsorted", prop="C01",
 needs="ohdev_realtime with averaging factors listed in descending order, polled before the largest has enough samples",
 breaks="the update loop stops at the first factor without enough samples, so smaller factors later in the list miss terms",
 edits=[("realtime.py", """            if len(self.x) > 3*af:
                self.update_S(idx)
""", """            if len(self.x) <= 3*af:
                break  # not enough samples yet
            self.update_S(idx)
""")],
 demo=COMMON + '''
rng = np.random.RandomState(5)
x = rng.randn(60).cumsum()
e = rt.ohdev_realtime(afs=[8, 1, 4])
for n, v in enumerate(x, 1):
    e.add_phase(v)
    d = e.devs()
    for k, af in enumerate([8, 1, 4]):
        t = x[3*af:n] - 3*x[2*af:n-af] + 3*x[af:n-2*af] - x[:n-3*af] if n > 3*af else np.array([])
        want = np.sqrt(np.mean(t**2)/6)/af if len(t) else 0.0
        check(abs(d[k]-want) <= 1e-9*max(1, want), "ohdev af=%d n=%d %r %r" % (af, n, d[k], want))
'''),
dict(id="C01-mixed-samples", prop="C01",
 needs="phase samples followed by frequency samples on the same estimator",
 breaks="frequency is integrated into a private running phase that phase samples do not update, so a mixed stream jumps",
 edits=[("realtime.py", """        self.tau0 = tau0                     # time-interval between points
""", """        self.tau0 = tau0                     # time-interval between points
        self.phase = 0.0                     # integrated frequency
"""), ("realtime.py", """        if not self.x:  # empty sequence
            self.add_phase(0)  # initialize
        self.add_phase(self.x[-1] + f*self.tau0)  # integration
""", """        if not self.x:  # empty sequence
            self.add_phase(self.phase)  # initialize
        self.phase += f*self.tau0  # integration
        self.add_phase(self.phase)
""")],
 demo=COMMON + '''
rng = np.random.RandomState(6)
a, b = rng.randn(20), rng.randn(20)
e = rt.oadev_realtime(afs=[1, 3], tau0=0.5)
x = list(a)
for v in a:
    e.add_phase(v)
for f in b:
    e.add_frequency(f)
    x.append(x[-1] + f*0.5)
(t, d, _, _) = at.oadev(np.array(x), rate=2.0, taus=[0.5, 1.5])
check(np.allclose(e.devs(), d, rtol=1e-9), "mixed stream %r %r" % (e.devs(), d))
'''),
dict(id="C01-bounded-history", prop="C01",
 needs="a stream of more than 16384 samples into tdev_realtime",
 breaks="old samples are dropped to bound memory but the number of terms is still taken from the length of the kept history",
 edits=[("realtime.py", """        \"\"\" add new phase point \"\"\"
        self.x.append(xnew)
        if self.auto_afs:
            self.update_af()
        for idx, af in enumerate(self.afs):
            if len(self.x) >= 3*af+1:  # 3n+1 samples measured
""", """        \"\"\" add new phase point \"\"\"
        self.x.append(xnew)
        if self.auto_afs:
            self.update_af()
        keep = max(16384, 3*int(self.afs[-1]) + 2)
        if len(self.x) > keep:  # bound the memory of long streams
            del self.x[:-keep]
        for idx, af in enumerate(self.afs):
            if len(self.x) >= 3*af+1:  # 3n+1 samples measured
""")],
 demo=COMMON + '''
rng = np.random.RandomState(7)
x = rng.randn(20000)
e = rt.tdev_realtime(afs=[1, 2])
for v in x:
    e.add_phase(v)
(t, d, _, _) = at.tdev(x, taus=[1.0, 2.0])
check(np.allclose(e.devs(), d, rtol=1e-6), "long stream %r %r" % (e.devs(), d))
'''),
dict(id="C01-af-width", prop="C01",
 needs="tdev_realtime with an averaging factor of 182 or more",
 breaks="averaging factors are kept as 16-bit integers, so af*af wraps around in the scale factor",
 edits=[("realtime.py", """        self.afs = list(afs)                # averaging factor, tau = af*tau0
        self.auto_afs = auto_afs
""", """        # averaging factor, tau = af*tau0
        self.afs = numpy.array([1] if auto_afs else afs, dtype=numpy.int16)
        self.auto_afs = auto_afs
"""), ("realtime.py", """        if auto_afs:
            self.afs = numpy.array([1])
""", "")],
 demo=COMMON + '''
rng = np.random.RandomState(8)
x = rng.randn(700)
e = rt.tdev_realtime(afs=[1, 190])
for v in x:
    e.add_phase(v)
(t, d, _, _) = at.tdev(x, taus=[1.0, 190.0])
check(np.allclose(e.devs(), d, rtol=1e-7), "large factor %r %r" % (e.devs(), d))
(t, d, _, _) = at.mdev(x, taus=[1.0, 190.0])
check(np.allclose(e.mdev(), d, rtol=1e-7), "large factor mdev %r %r" % (e.mdev(), d))
'''),
dict(id="C02-start-factor", prop="C02",
 needs="auto mode with a factor list whose first entry is not 1",
 breaks="the automatic grid starts from the first factor of the list it should ignore, so factor 1 is missing and the grid is misaligned",
 edits=[("realtime.py", """        if auto_afs:
            self.afs = numpy.array([1])
""", """        if auto_afs:
            self.afs = numpy.array(self.afs[:1])
""")],
 demo=COMMON + '''
for cls in (rt.oadev_realtime, rt.ohdev_realtime, rt.tdev_realtime):
    a, b = cls(auto_afs=True), cls(afs=[3, 7], auto_afs=True)
    rng = np.random.RandomState(9)
    for v in rng.randn(100):
        a.add_phase(v)
        b.add_phase(v)
        check(list(a.taus()) == list(b.taus()), "auto factors depend on the ignored list: %r %r" % (list(a.taus()), list(b.taus())))
        check(list(a.devs()) == list(b.devs()), "auto devs")
'''),
dict(id="C02-grid-digits", prop="C02",
 needs="auto mode with 10 points per decade and more than 2519 samples (or any grid point that needs a third digit)",
 breaks="the grid is rounded to two decimals once, so from the third decade on the factors are not the rounded grid values",
 edits=[("realtime.py", """        self.af_taus = numpy.logspace(0, 1, pts_per_decade+1)[:-1]
        # logspace index, to keep track of afs in auto-af mode
""", """        # one decade of the grid, rounded like the factors made from it
        self.af_taus = numpy.round(numpy.logspace(0, 1, pts_per_decade+1)[:-1], 2)
        # logspace index, to keep track of afs in auto-af mode
""")],
 demo=COMMON + '''
for ppd in (3, 4, 5, 7, 10):
    e = rt.oadev_realtime(auto_afs=True, pts_per_decade=ppd)
    n = 3000
    x = np.random.RandomState(1).randn(n)
    e.x = list(x[:-1])          # same history, without computing every step
    while True:
        k = len(e.afs)
        e.update_af()
        if len(e.afs) == k:
            break
    grid = {1}
    for d in range(5):
        for i in range(ppd):
            grid.add(int(np.round(10.0**d*10**(i/ppd))))
    want = sorted(m for m in grid if 2*m+1 <= n-1)
    check([int(a) for a in e.afs] == want, "grid ppd=%d %r %r" % (ppd, list(e.afs)[-6:], want[-6:]))
'''),
dict(id="C02-tdev-growth", prop="C02",
 needs="tdev in auto mode, a factor activated while the previous one has not reached its first value",
 breaks="a new factor's running sum starts from the previous factor's sum when that is still being filled, so the new deviation is not the batch value",
 edits=[("realtime.py", """        self.S = numpy.append(self.S, 0)
        self.So = numpy.append(self.So, 0)
""", """        grow = numpy.zeros(len(self.afs) - len(self.S))
        if self.So[-1] == 0:  # previous factor still filling up
            grow = grow + self.S[-1]
        self.S = numpy.append(self.S, grow)
        self.So = numpy.append(self.So, numpy.zeros(len(self.afs) - len(self.So)))
""")],
 demo=COMMON + '''
rng = np.random.RandomState(10)
for ppd in (4, 10, 20):
    x = rng.randn(120).cumsum()
    e = rt.tdev_realtime(auto_afs=True, pts_per_decade=ppd)
    for v in x:
        e.add_phase(v)
    d = e.devs()
    for k, af in enumerate(int(a) for a in e.afs):
        if 3*af + 1 > len(x):
            continue
        (t, w, _, _) = at.tdev(x, taus=[float(af)])
        check(abs(w[0]-d[k]) <= 1e-8*max(1, w[0]), "tdev auto ppd=%d af=%d %r %r" % (ppd, af, d[k], w[0]))
'''),
dict(id="C03-shared-taps", prop="C03",
 needs="two Hadamard estimators updated from two threads, one preempted between loading its taps and using them",
 breaks="taps are loaded into one module-level work array shared by all estimators",
 edits=[("realtime.py", """class dev_realtime(object):
    \"\"\" Base-class for real-time statistics \"\"\"
""", """_taps = numpy.zeros(4)  # work array, saves an allocation per update


class dev_realtime(object):
    \"\"\" Base-class for real-time statistics \"\"\"
"""), ("realtime.py", """        S_new = pow(self.x[i] -
                    3*self.x[i-af] +
                    3*self.x[i-2*af] -
                    self.x[i-3*af], 2)
""", """        for k in range(4):
            _taps[k] = self.x[i-k*af]
        S_new = pow(_taps[0] - 3*_taps[1] + 3*_taps[2] - _taps[3], 2)
""")],
 demo=COMMON + '''
import threading
sys.setswitchinterval(1e-6)
xs = [np.random.RandomState(k).randn(6000)*10**k for k in range(4)]

def run(x, out, k):
    e = rt.ohdev_realtime(afs=[1, 2, 5])
    for v in x:
        e.add_phase(v)
    out[k] = e.devs()

alone = {}
for k, x in enumerate(xs):
    run(x, alone, k)
for rep in range(8):
    out = {}
    ts = [threading.Thread(target=run, args=(x, out, k)) for k, x in enumerate(xs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for k in alone:
        check(list(alone[k]) == list(out[k]), "threads disturb each other")
'''),
dict(id="C03-taus-alias", prop="C03",
 needs="a caller that changes the array taus() gave it (e.g. to milliseconds) and later asks for mdev()",
 breaks="taus() hands out the array mdev() scales by",
 edits=[("realtime.py", """        self.tau0 = tau0                     # time-interval between points
""", """        self.tau0 = tau0                     # time-interval between points
        self._taus = None                    # tau of each averaging factor
"""), ("realtime.py", """        return self.tau0*numpy.array(self.afs)
""", """        if self._taus is None or len(self._taus) != len(self.afs):
            self._taus = self.tau0*numpy.array(self.afs)
        return self._taus
"""), ("realtime.py", """        mdev = self.dev.copy()
        for idx, af in enumerate(self.afs):
            mdev[idx] = mdev[idx]*numpy.sqrt(3)/(af*self.tau0)
        return mdev
""", """        mdev = self.dev.copy()
        for idx, tau in enumerate(self.taus()):
            mdev[idx] = mdev[idx]*numpy.sqrt(3)/tau
        return mdev
""")],
 demo=COMMON + '''
e = rt.tdev_realtime(afs=[1, 2])
for v in np.random.RandomState(2).randn(30):
    e.add_phase(v)
before = list(e.mdev())
t = e.taus()
t *= 1000.0
check(list(e.mdev()) == before, "report depends on what the caller did to an earlier one")
check(list(e.taus()) == [1.0, 2.0], "taus changed by the caller")
'''),
dict(id="C03-poll-resync", prop="C03",
 needs="polling a tdev estimator in the middle of a stream, then comparing later reports bit for bit with an unpolled one",
 breaks="mdev() re-derives the running sum from the published deviation, so polling changes later reports",
 edits=[("realtime.py", """        for idx, af in enumerate(self.afs):
            mdev[idx] = mdev[idx]*numpy.sqrt(3)/(af*self.tau0)
        return mdev
""", """        num_pts = len(self.x)
        for idx, af in enumerate(self.afs):
            mdev[idx] = mdev[idx]*numpy.sqrt(3)/(af*self.tau0)
            if num_pts > 3*af:
                # keep the overall sum consistent with what was reported
                self.So[idx] = (mdev[idx]**2)*2.0*(num_pts-3*af+1.0) * \\
                    pow(af, 2)*pow(af*self.tau0, 2)
        return mdev
""")],
 demo=COMMON + '''
for seed in range(20):
    x = np.random.RandomState(seed).randn(200)
    a, b = rt.tdev_realtime(afs=[1, 3, 7], tau0=0.1), rt.tdev_realtime(afs=[1, 3, 7], tau0=0.1)
    for v in x:
        a.add_phase(v)
        b.add_phase(v)
        b.mdev()
    check(list(a.devs()) == list(b.devs()), "polling changed a later report")
'''),
]
