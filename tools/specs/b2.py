COMMON = '''
import os
import sys
import numpy as np
import allantools as at

def check(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)

def same(a, b):
    return len(a) == len(b) and all(np.allclose(p, q, rtol=1e-9, atol=0, equal_nan=True) and np.shape(p) == np.shape(q) for p, q in zip(a, b))

'''
BUGS = [
dict(id="C04-middle-gap", prop="C04",
 needs="a lost sample that is the middle of a triple whose two ends survived",
 breaks="terms are counted by their end samples only, so the mean is taken over triples that were lost",
 edits=[("allantools.py", """    n = len(np.where(np.isnan(v_arr) == False)[0])  # noqa

    if n == 0:""", """    n = np.count_nonzero(~np.isnan(d2[:n]) & ~np.isnan(d0[:n]))

    if n == 0:""")],
 demo=COMMON + '''
rng = np.random.RandomState(3)
x = rng.randn(40).cumsum()
x[[7, 20, 21]] = np.nan
for m in (1, 2, 3):
    (t, d, e, n) = at.gradev(x, taus=[float(m)])
    v = x[2*m:] - 2*x[m:-m] + x[:-2*m]
    v = v[~np.isnan(v)]
    check(n[0] == len(v), "count %r %r" % (n, len(v)))
    check(abs(d[0] - np.sqrt(np.mean(v**2)/2)/m) < 1e-9, "deviation")
'''),
dict(id="C04-two-terms", prop="C04",
 needs="a tau at which exactly two triples survive",
 breaks="such a tau is reported with error bars of zero instead of the chi-squared distances",
 edits=[("allantools.py", """    if n > 1:
        edf = ci.edf_simple(N, mj, alpha)""", """    if n > 2:  # the bounds need a spread
        edf = ci.edf_simple(N, mj, alpha)""")],
 demo=COMMON + '''
x = np.random.RandomState(4).randn(30)
x[4:] = np.nan
(t, d, e, n) = at.gradev(x, taus=[1.0], noisetype='wf')
check(n[0] == 2, "count")
check(e[0][0] > 0 and e[1][0] > 0, "error bars of a two-term tau are %r" % (e,))
'''),
dict(id="C04-gap-fill", prop="C04",
 needs="two or more lost samples in a row, and a tau of two samples",
 breaks="terms across an outage are masked by the outage's edges only, so a triple with a sample inside a longer outage counts as a zero term",
 edits=[("allantools.py", """    v_arr = d2[:n] - 2 * d1[:n] + d0[:n]

    # only average for non-nans
    n = len(np.where(np.isnan(v_arr) == False)[0])  # noqa
""", """    v_arr = d2[:n] - 2 * d1[:n] + d0[:n]

    # only average for non-nans
    lost = np.isnan(v_arr)
    if lost.any() and int(mj) > 1:
        # an outage ends a run of terms: drop the flag of its inner samples
        inner = lost[:-2] & lost[1:-1] & lost[2:]
        lost[1:-1] &= ~(inner & np.roll(inner, 1) & np.roll(inner, -1))
    n = np.count_nonzero(~lost)
""")],
 demo=COMMON + '''
x = np.random.RandomState(5).randn(60).cumsum()
x[20:32] = np.nan
for m in (1, 2, 4):
    (t, d, e, n) = at.gradev(x, taus=[float(m)])
    v = x[2*m:] - 2*x[m:-m] + x[:-2*m]
    v = v[~np.isnan(v)]
    check(n[0] == len(v), "count m=%d %r %r" % (m, n, len(v)))
    check(abs(d[0] - np.sqrt(np.mean(v**2)/2)/m) < 1e-9, "deviation")
'''),
dict(id="C05-mtot-limit", prop="C05",
 needs="modified total deviation of a frequency record with missing edge samples, tau close to a third of the record",
 breaks="the largest averaging factor is taken from the length of the untrimmed record",
 edits=[("allantools.py", """    (phase, ms, taus_used) = tau_generator(phase, rate, taus,
                                           maximum_m=float(len(phase))/3.0)
""", """    (phase, ms, taus_used) = tau_generator(phase, rate, taus,
                                           maximum_m=float(len(data))/3.0)
""")],
 demo=COMMON + '''
y = np.random.RandomState(6).randn(31)
z = np.concatenate(([np.nan]*7, y, [np.nan]*5))
taus = [float(k) for k in range(1, 15)]
a = at.mtotdev(y, data_type="freq", taus=taus)
try:
    b = at.mtotdev(z, data_type="freq", taus=taus)
except Exception as e:
    check(False, "missing edge samples raise %r" % e)
check(same(a, b), "missing edge samples change the result")
'''),
dict(id="C05-theo1-length", prop="C05",
 needs="theo1 of a frequency record with a missing first or last sample",
 breaks="the number of phase points is derived from the untrimmed record, so the sums run past the end",
 edits=[("allantools.py", """    N = len(phase)
    for idx, m in enumerate(ms):
        m = int(m)  # to avoid""", """    # integration adds one point
    N = len(data) + 1 if data_type == "freq" else len(data)
    for idx, m in enumerate(ms):
        m = int(m)  # to avoid""")],
 demo=COMMON + '''
y = np.random.RandomState(6).randn(40)
z = np.concatenate((y, [np.nan]*3))
a = at.theo1(y, data_type="freq", taus=[2.0, 4.0])
try:
    b = at.theo1(z, data_type="freq", taus=[2.0, 4.0])
except Exception as e:
    check(False, "missing edge samples raise %r" % e)
check(same(a, b), "missing edge samples change the result")
'''),
dict(id="C05-octave-grid", prop="C05",
 needs="frequency record whose untrimmed length passes a power of two that the trimmed one does not, default taus, time deviation",
 breaks="the default tau grid is made from the untrimmed record and only then are samples trimmed, so tdev reports another set of taus",
 edits=[("allantools.py", """    phase = input_to_phase(data, rate, data_type)
    (taus, md, mde, ns) = mdev(phase, rate=rate, taus=taus)
""", """    phase = input_to_phase(data, rate, data_type)
    if taus is None or isinstance(taus, str):
        # resolve the keyword once, for the record as given
        taus = tau_generator(data, rate, taus=taus)[2]
        taus = taus[taus * rate < len(phase) / 2.0]
    (taus, md, mde, ns) = mdev(phase, rate=rate, taus=taus)
""")],
 demo=COMMON + '''
y = np.random.RandomState(6).randn(500)
for k in (0, 1, 5, 20, 30):
    z = np.concatenate(([np.nan]*k, y, [np.nan]*k))
    for taus in (None, "octave", "decade", "log10", "all"):
        check(same(at.tdev(y, data_type="freq", taus=taus), at.tdev(z, data_type="freq", taus=taus)),
              "missing edge samples change tdev with taus=%r" % taus)
'''),
dict(id="C09-last-window", prop="C09",
 needs="the window array of some tau cannot be allocated, and the extreme excursion is in the very last window",
 breaks="the low-memory path never looks at the last window",
 edits=[("allantools.py", """            for winStartIdx in range(1, int(phase.shape[0] - mj)):
""", """            for winStartIdx in range(1, int(phase.shape[0] - mj - 1)):
""")],
 demo=COMMON + '''
import allantools.allantools as aa
x = np.random.RandomState(2).randn(50)
x[-1] = 25.0
taus = [1.0, 3.0, 10.0]
a = at.mtie(x, taus=taus)
def fail(*args, **kw):
    raise MemoryError("no room for the windows")
aa.mtie_rolling_window = fail
old = np.lib.stride_tricks.as_strided
b = at.mtie(x, taus=taus)
check(same(a, b), "low-memory MTIE %r %r" % (a[1], b[1]))
'''),
dict(id="C09-min-only", prop="C09",
 needs="the window array cannot be allocated and the largest excursion is reached when a new minimum enters a window",
 breaks="the low-memory path takes the excursion before it looks at the sample that enters as a minimum",
 edits=[("allantools.py", """                elif currMin > phase[winEndIdx]:
                    currMin = phase[winEndIdx]

                if dev < currMax - currMin:
                    dev = currMax - currMin
""", """                elif currMin > phase[winEndIdx]:
                    dev = max(dev, currMax - currMin)
                    currMin = phase[winEndIdx]
                    continue  # a lower minimum, the maximum did not move

                if dev < currMax - currMin:
                    dev = currMax - currMin
""")],
 demo=COMMON + '''
import allantools.allantools as aa
def fail(*args, **kw):
    raise MemoryError("no room for the windows")
good = aa.mtie_rolling_window
for seed in range(30):
    x = np.random.RandomState(seed).randn(60)
    taus = [1.0, 3.0, 10.0]
    aa.mtie_rolling_window = good
    a = at.mtie(x, taus=taus)
    aa.mtie_rolling_window = fail
    b = at.mtie(x, taus=taus)
    check(same(a, b), "low-memory MTIE %r %r" % (a[1], b[1]))
'''),
dict(id="C09-window-carry", prop="C09",
 needs="the window array of one tau cannot be allocated after an earlier, longer record or tau was computed in the same call",
 breaks="the low-memory path keeps a running maximum across taus, so a failing tau reports at least the previous tau's excursion plus stale windows for non-monotonic requests; it also reports count m+1 samples too few",
 edits=[("allantools.py", """            mj = int(mj)
            # same windows as above: mj+1 samples
            currMax""", """            mj = int(mj) + 1
            if mj > 2:
                mj = mj - 1
            # same windows as above: mj+1 samples
            currMax"""),
        ("allantools.py", """                winEndIdx = mj + winStartIdx
                if currMax""", """                winEndIdx = winStartIdx + mj
                if currMax""")],
 demo=COMMON + '''
import allantools.allantools as aa
def fail(*args, **kw):
    raise MemoryError("no room for the windows")
good = aa.mtie_rolling_window
for seed in range(30):
    x = np.random.RandomState(seed).randn(60)
    taus = [1.0, 2.0, 3.0, 10.0]
    aa.mtie_rolling_window = good
    a = at.mtie(x, taus=taus)
    aa.mtie_rolling_window = fail
    b = at.mtie(x, taus=taus)
    check(same(a, b), "low-memory MTIE %r %r" % (a, b))
'''),
dict(id="C06-short-write", prop="C06",
 needs="the operating system accepts only part of a write (almost full disk, signal)",
 breaks="the file is written with one os.write whose count is ignored, so a short write leaves a truncated file and returns normally",
 edits=[("dataset.py", "import io\n", "import io\nimport os\n"),
        ("dataset.py", """        Save calculation results to disk. Will overwrite any existing file.
""", """        Save calculation results to disk in a single system call.
        Will overwrite any existing file.
"""),
        ("dataset.py", """        with open(filename, 'w') as fp:
            fp.write(text)""", """        fd = os.open(filename, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)
        try:
            os.write(fd, text.encode())
        finally:
            os.close(fd)""")],
 demo=COMMON + '''
real = os.write
def short(fd, data):
    # accept at most 100 bytes, as a nearly full disk does
    return real(fd, bytes(data)[:100])
d = at.Dataset(data=np.random.RandomState(1).randn(200))
d.compute("oadev")
good = os.path.join(os.environ["DEMO_TMP"], "a")
bad = os.path.join(os.environ["DEMO_TMP"], "b")
d.write_results(good)
os.write = short
d.write_results(bad)
os.write = real
check(open(good).read() == open(bad).read(), "short write left %d of %d bytes, no error" % (os.path.getsize(bad), os.path.getsize(good)))
'''),
dict(id="C06-no-truncate", prop="C06",
 needs="an existing longer file at the same path",
 breaks="an existing file is updated in place without truncating it, so old bytes remain after the new rows",
 edits=[("dataset.py", "import io\n", "import io\nimport os\n"),
        ("dataset.py", """        Save calculation results to disk. Will overwrite any existing file.
""", """        Save calculation results to disk. Will overwrite any existing file
        (in place, so that its owner and permissions stay as they are).
"""),
        ("dataset.py", """        with open(filename, 'w') as fp:
            fp.write(text)""", """        mode = 'r+' if os.path.exists(filename) else 'w'
        with open(filename, mode) as fp:
            fp.write(text)""")],
 demo=COMMON + '''
d = at.Dataset(data=np.random.RandomState(1).randn(200))
p = os.path.join(os.environ["DEMO_TMP"], "a")
d.compute("oadev")
d.write_results(p)
n1 = open(p).read()
d.set_input(np.random.RandomState(1).randn(12))
d.compute("oadev")
d.write_results(p)
n2 = open(p).read()
q = os.path.join(os.environ["DEMO_TMP"], "b")
d.write_results(q)
check(n2 == open(q).read(), "old rows remain")
'''),
dict(id="C06-close-swallow", prop="C06",
 needs="the error is only reported when the file is closed (disk full at flush, network file systems)",
 breaks="errors of close are ignored, so buffered data that never reached the disk is acknowledged",
 edits=[("dataset.py", """        Save calculation results to disk. Will overwrite any existing file.
""", """        Save calculation results to disk. Will overwrite any existing file.
        The file is closed in every case.
"""),
        ("dataset.py", """        with open(filename, 'w') as fp:
            fp.write(text)""", """        fp = open(filename, 'w')
        try:
            fp.write(text)
        finally:
            try:
                fp.close()
            except OSError:
                pass""")],
 demo=COMMON + '''
d = at.Dataset(data=np.random.RandomState(1).randn(200))
d.compute("oadev")
try:
    d.write_results("/dev/full")
except OSError:
    sys.exit(0)
check(False, "write to a full device was acknowledged")
'''),
dict(id="C07-id-cache", prop="C07",
 needs="a new input array that happens to live at the address of the previous one, then the same statistic again",
 breaks="results are remembered by the identity of the input array, so a recycled address returns the old result",
 edits=[("dataset.py", """        self.inp["data"] = data
        self.inp["rate"] = rate
        self.inp["data_type"] = data_type
        self.inp["taus"] = taus

    def""", """        self.inp["data"] = data
        self.inp["rate"] = rate
        self.inp["data_type"] = data_type
        self.inp["taus"] = taus
        self._memo = {}  # computations done so far

    def"""),
  ("dataset.py", """        result = func(inp["data"], rate=inp["rate"],
                      data_type=inp["data_type"], taus=inp["taus"])
        keys = ["taus", "stat", "stat_err", "stat_n"]
""", """        key = (function, id(inp["data"]), inp["rate"], inp["data_type"],
               str(inp["taus"]))
        if key not in self._memo:
            self._memo[key] = func(inp["data"], rate=inp["rate"],
                                   data_type=inp["data_type"],
                                   taus=inp["taus"])
        result = self._memo[key]
        keys = ["taus", "stat", "stat_err", "stat_n"]
""")],
 demo=COMMON + '''
d = at.Dataset()
for k in range(200):
    d.set_input(np.random.RandomState(k).randn(100))
    d.compute("adev")
    want = at.adev(np.random.RandomState(k).randn(100))
    check(list(d.out["stat"]) == list(want[1]), "round %d: result of an earlier input" % k)
'''),
dict(id="C07-lazy-phase", prop="C07",
 needs="compute() of frequency data interrupted between converting the stored record and relabelling it, or two computations on one dataset at a time",
 breaks="frequency input is converted to phase inside the stored input, data and label in two steps",
 edits=[("dataset.py", """        inp = self.inp  # all inputs from the same set_input()
        result = func(inp["data"], rate=inp["rate"],
                      data_type=inp["data_type"], taus=inp["taus"])
""", """        inp = self.inp  # all inputs from the same set_input()
        kind = inp.setdefault("kind", inp["data_type"])
        if kind == "freq" and function not in ("htotdev", "mtotdev"):
            # integrate once, later statistics reuse the phase record
            inp["data"] = allantools.frequency2phase(inp["data"], inp["rate"])
            inp["kind"] = kind = "phase"
        result = func(inp["data"], rate=inp["rate"],
                      data_type=kind, taus=inp["taus"])
"""), ("dataset.py", """        keys = ["taus", "stat", "stat_err", "stat_n"]
        result = {key: result[i] for i, key in enumerate(keys)}
""", """        keys = ("taus", "stat", "stat_err", "stat_n")
        result = {key: result[i] for i, key in enumerate(keys)}
""")],
 demo=COMMON + '''
import threading
import allantools.allantools as aa
y = np.random.RandomState(1).randn(400)
want = at.adev(y, data_type="freq")
d = at.Dataset(data=y, data_type="freq")
real = aa.frequency2phase
class Stop(BaseException):
    pass
def tracer(frame, event, arg):
    if frame.f_code.co_name == "compute" and event == "line":
        tracer.n -= 1
        if tracer.n == 0:
            raise Stop()
    return tracer if frame.f_code.co_name == "compute" else None
for k in range(1, 40):
    d = at.Dataset(data=y, data_type="freq")
    tracer.n = k
    sys.settrace(tracer)
    try:
        d.compute("adev")
    except Stop:
        pass
    sys.settrace(None)
    d.compute("adev")
    check(same((d.out["taus"], d.out["stat"]), want[:2]), "interrupted at line %d, computed again: other result" % k)
'''),
]
