COMMON = '''
import copy
import os
import pickle
import subprocess
import sys
import numpy as np
import allantools as at

def check(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)

rng = np.random.RandomState(7)

'''
BUGS = [
dict(id="C15-shared-record", prop="C15",
 needs="an estimator copied with copy.deepcopy in mid-stream, after which both the copy and the original get samples",
 breaks="a deep copy shares the sample record with the original, so each sees the other's later samples",
 edits=[("realtime.py", """        self.x = []                         # phase time-series
""", """        self.x = list()                     # phase time-series, append-only
"""), ("realtime.py", """    def taus(self):
        \"\"\" return taus, in unit of seconds \"\"\"
        return self.tau0*numpy.array(self.afs)
""", """    def __deepcopy__(self, memo):
        \"\"\" copy the sums; the record is long and never rewritten \"\"\"
        new = self.__class__.__new__(self.__class__)
        for key, val in self.__dict__.items():
            new.__dict__[key] = val if key == "x" else numpy.copy(val)[()]
        new.afs = self.afs.copy()
        return new

    def taus(self):
        \"\"\" return taus, in unit of seconds \"\"\"
        return numpy.array(self.afs)*self.tau0
""")],
 demo=COMMON + '''
x = np.cumsum(rng.standard_normal(60)).tolist()
y = np.cumsum(rng.standard_normal(60)).tolist()
a, want = at.oadev_realtime(afs=[1, 2, 4]), at.oadev_realtime(afs=[1, 2, 4])
for v in x[:20]:
    a.add_phase(v)
    want.add_phase(v)
b = copy.deepcopy(a)
for u, v in zip(x[20:], y[20:]):
    a.add_phase(u)
    want.add_phase(u)
    b.add_phase(v)
check(np.array_equal(a.devs(), want.devs()), "the copy's samples reached the original")
'''),
dict(id="C15-lock", prop="C15",
 needs="a dataset that is pickled, or deep-copied",
 breaks="a dataset holds a lock, which cannot be pickled or copied, so checkpoints of datasets fail",
 edits=[("dataset.py", """import io

from . import allantools
""", """import io
import threading

from . import allantools
"""), ("dataset.py", """        self.inp["data"] = data
        self.inp["rate"] = rate
        self.inp["data_type"] = data_type
        self.inp["taus"] = taus

    def set_input""", """        self.lock = threading.RLock()  # one computation at a time
        self.inp["data"] = data
        self.inp["rate"] = rate
        self.inp["data_type"] = data_type
        self.inp["taus"] = taus

    def set_input"""), ("dataset.py", """        result = func(inp["data"], rate=inp["rate"],
                      data_type=inp["data_type"], taus=inp["taus"])
        keys""", """        with self.lock:
            result = func(inp["data"], rate=inp["rate"],
                          data_type=inp["data_type"], taus=inp["taus"])
        keys""")],
 demo=COMMON + '''
d = at.Dataset(data=rng.standard_normal(50), rate=2.0)
d.compute("oadev")
try:
    e = pickle.loads(pickle.dumps(d))
    f = copy.deepcopy(d)
except Exception as x:
    check(False, "no checkpoint of a dataset: %r" % x)
for g in (e, f):
    check(np.array_equal(g.out["stat"], d.out["stat"]), "another result")
'''),
dict(id="C15-slim", prop="C15",
 needs="a TDEV estimator with a record longer than its largest window is pickled and goes on after it is loaded",
 breaks="a checkpoint keeps only the newest samples, but the number of samples is part of TDEV's scale",
 edits=[("realtime.py", """        self.So = numpy.zeros(len(self.afs))      # overall sum-of-squares

    def add_phase""", """        self.So = numpy.zeros(len(self.afs))      # overall sum-of-squares

    def __getstate__(self):
        \"\"\" a checkpoint: only the samples that are needed again \"\"\"
        state = self.__dict__.copy()
        if not self.auto_afs:
            state["x"] = self.x[-(3*int(max(self.afs)) + 1):]
        return state

    def add_phase"""), ("realtime.py", """        assert(len(self.x) >= 3*af+1)
        i = len(self.x)-1  # last pt
        # Eqn (12)
        S_new""", """        i = len(self.x)-1  # last pt
        # Eqn (12)
        S_new""")],
 demo=COMMON + '''
x = np.cumsum(rng.standard_normal(80)).tolist()
a = at.tdev_realtime(afs=[1, 3])
for v in x[:40]:
    a.add_phase(v)
b = pickle.loads(pickle.dumps(a))
check(np.array_equal(a.devs(), b.devs()), "another report after loading")
for v in x[40:]:
    a.add_phase(v)
    b.add_phase(v)
check(np.array_equal(a.devs(), b.devs()), "another report some samples after loading: %s %s" % (a.devs(), b.devs()))
'''),
dict(id="C15-filter-memo", prop="C15",
 needs="a noise object that has generated is pickled, loaded in another process, and generates again",
 breaks="the noise filter is kept by the module, but the object remembers across a checkpoint that it is there",
 edits=[("noise_kasdin.py", """class Noise(object):
""", """_filters = {}  # transformed filter coefficients


class Noise(object):
"""), ("noise_kasdin.py", """        self.time_series = np.array([])
""", """        self.filter = None  # key of the filter in use
        self.time_series = np.array([])
"""), ("noise_kasdin.py", """        hfb_fft = np.fft.rfft(hfb)
        # Perform inverse Fourier transform of the product of wfb and hfb FFTs
        time_series = np.fft.irfft(wfb_fft*hfb_fft)[:self.nr]
""", """        if self.filter != (self.nr, self.b):
            self.filter = (self.nr, self.b)
            _filters[self.filter] = np.fft.rfft(hfb)
        # Perform inverse Fourier transform of the product of wfb and hfb FFTs
        time_series = np.fft.irfft(wfb_fft*_filters[self.filter])[:self.nr]
""")],
 demo=COMMON + '''
o = at.Noise(nr=64, qd=1.0, b=-2)
np.random.seed(1)
o.generateNoise()
first = o.time_series.copy()
tmp = os.environ["DEMO_TMP"]
with open(os.path.join(tmp, "noise.pickle"), "wb") as f:
    pickle.dump(o, f)
code = """
import pickle, sys
import numpy as np
with open(sys.argv[1], "rb") as f:
    o = pickle.load(f)
np.random.seed(1)
o.generateNoise()
np.save(sys.argv[2], o.time_series)
"""
rc = subprocess.call([sys.executable, "-c", code, os.path.join(tmp, "noise.pickle"), os.path.join(tmp, "again.npy")])
check(rc == 0, "the loaded noise object does not generate")
check(np.array_equal(np.load(os.path.join(tmp, "again.npy")), first), "another sequence after loading")
'''),
]
