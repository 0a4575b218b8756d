COMMON = '''
import os
import sys
import threading
import numpy as np
import allantools as at
import allantools.allantools as aa
from allantools import ci, noise

def check(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)

'''
BUGS = [
dict(id="C08-chi2-cache", prop="C08",
 needs="two confidence intervals with equal degrees of freedom and confidence factors that agree to two decimals of the quantile, in one process",
 breaks="chi-squared quantiles are remembered under a rounded quantile, so a result depends on what ran before",
 edits=[("ci.py", """def confidence_interval(dev, edf, ci=ONE_SIGMA_CI):
""", """_chi2_cache = {}


def _chi2_ppf(q, edf):
    \"\"\" chi-squared quantile; ppf is slow, so remember the values \"\"\"
    key = ("%.2f" % q, float(edf))
    if key not in _chi2_cache:
        _chi2_cache[key] = scipy.stats.chi2.ppf(q, edf)
    return _chi2_cache[key]


def confidence_interval(dev, edf, ci=ONE_SIGMA_CI):
"""), ("ci.py", """    chi2_l = scipy.stats.chi2.ppf(ci_l, edf)
    chi2_h = scipy.stats.chi2.ppf(ci_h, edf)
""", """    chi2_l = _chi2_ppf(ci_l, edf)
    chi2_h = _chi2_ppf(ci_h, edf)
""")],
 demo=COMMON + '''
a = ci.confidence_interval(1.0, 7.04, 0.68)
b = ci.confidence_interval(1.0, 7.04, 0.683)
check(a != b, "a 68.3 % interval equals an earlier 68 % one")
import scipy.stats
check(abs(a[0] / (7.04 / scipy.stats.chi2.ppf(0.84, 7.04)) ** 0.5 - 1) < 1e-9, "wrong interval")
check(abs(b[0] / (7.04 / scipy.stats.chi2.ppf(0.8415, 7.04)) ** 0.5 - 1) < 1e-9, "wrong interval")
'''),
dict(id="C08-tot-workspace", prop="C08",
 needs="two threads computing the total deviation of records of equal length, one preempted while it fills the extended record",
 breaks="the extended record is kept in a workspace shared by calls of equal length",
 edits=[("allantools.py", """def totdev(data, rate=1.0, data_type="phase", taus=None):
""", """_totdev_work = {}  # extended records, by length


def totdev(data, rate=1.0, data_type="phase", taus=None):
"""), ("allantools.py", """    x = np.zeros((3*N - 4))
    x[0:N-2] = x1
""", """    x = _totdev_work.get(N)
    if x is None:
        _totdev_work.clear()  # keep one
        x = _totdev_work[N] = np.zeros((3*N - 4))
    x[0:N-2] = x1
""")],
 demo=COMMON + '''
sys.setswitchinterval(1e-6)
xs = [np.random.RandomState(k).randn(300) for k in range(4)]
want = [at.totdev(x, taus="all")[1] for x in xs]
bad = []
def run(k):
    for _ in range(15):
        if list(at.totdev(xs[k], taus="all")[1]) != list(want[k]):
            bad.append(k)
for _ in range(4):
    ts = [threading.Thread(target=run, args=(k,)) for k in range(4)]
    [t.start() for t in ts]
    [t.join() for t in ts]
check(not bad, "concurrent total deviations disturb each other")
'''),
dict(id="C08-errstate-leak", prop="C08",
 needs="cancellation (or a failed allocation) inside the degrees-of-freedom formula for white phase noise",
 breaks="numpy's error state is set and restored by hand, so a cancelled call leaves divide errors ignored for the thread",
 edits=[("ci.py", """            with np.errstate(divide='ignore'):
                edf = (N + 1) * (N - 2*m) / (2 * (N - m))
""", """            old = np.seterr(divide='ignore')
            edf = (N + 1) * (N - 2*m) / (2 * (N - m))
            np.seterr(**old)
""")],
 demo=COMMON + '''
import allantools.ci as mod
class Stop(BaseException):
    pass
class N(float):
    """a number whose subtraction inside the formula is interrupted (a signal arrives)"""
    def __sub__(self, other):
        raise Stop()
class Numpy(object):
    float64 = N
    def __getattr__(self, name):
        return getattr(np, name)
old = np.geterr()
mod.np = Numpy()
try:
    mod.edf_simple(100, 2, 2)
except Stop:
    pass
mod.np = np
check(np.geterr() == old, "cancelled call left %r" % np.geterr())
'''),
dict(id="C08-silence-stdout", prop="C08",
 needs="two threads in gradev with an unrecognised-noise warning suppressed, the first one to enter leaves first",
 breaks="standard output is swapped process-wide around the degrees-of-freedom computation, overlapping calls leave it swapped",
 edits=[("allantools.py", """import os
import json
import numpy as np
""", """import contextlib
import io
import os
import json
import numpy as np
"""), ("allantools.py", """        edf = ci.edf_simple(N, mj, alpha)
""", """        with contextlib.redirect_stdout(io.StringIO()):  # no chatter
            edf = ci.edf_simple(N, mj, alpha)
""")],
 demo=COMMON + '''
import allantools.ci as mod
out = sys.stdout
x = np.random.RandomState(1).randn(50)
real = mod.edf_simple
a_in, b_in, a_out = threading.Event(), threading.Event(), threading.Event()
def gate(N, m, alpha):
    if threading.current_thread().name == "A":
        a_in.set()
        b_in.wait(3)
    else:
        b_in.set()
        a_out.wait(3)
    return real(N, m, alpha)
mod.edf_simple = gate
def A():
    at.gradev(x, taus=[1.0])
    a_out.set()
def B():
    a_in.wait(3)
    at.gradev(x, taus=[1.0])
ts = [threading.Thread(target=A, name="A"), threading.Thread(target=B, name="B")]
[t.start() for t in ts]
[t.join() for t in ts]
ok = sys.stdout is out
sys.stdout = out
check(ok, "standard output is still redirected")
'''),
dict(id="C08-tau-inplace", prop="C08",
 needs="a tau list or array that is not in ascending order (e.g. descending) passed to any statistic",
 breaks="the caller's tau list is sorted in place",
 edits=[("allantools.py", """    if isinstance(taus, np.ndarray) or isinstance(taus, list) and len(taus):
        pass
""", """    if isinstance(taus, np.ndarray) or isinstance(taus, list) and len(taus):
        taus.sort()  # ascending
""")],
 demo=COMMON + '''
t = [4.0, 1.0, 2.0]
at.adev(np.random.RandomState(1).randn(50), taus=t)
check(t == [4.0, 1.0, 2.0], "tau list became %r" % t)
'''),
dict(id="C10-zero-seed", prop="C10",
 needs="seed=0",
 breaks="a seed of zero is taken as no seed",
 edits=[("noise.py", """    if seed is not None:
""", """    if seed:
""")],
 demo=COMMON + '''
kw = dict(f_nodes=[], h=[1.0], alpha=[0.0], duration=32, timestep=1.0)
a = noise.timmer_koenig_from_psd(seed=0, **kw)
np.random.randn(7)
b = noise.timmer_koenig_from_psd(seed=0, **kw)
check(list(a) == list(b), "seed 0 does not reproduce")
'''),
dict(id="C10-pool", prop="C10",
 needs="drawing a short record, reseeding, drawing again",
 breaks="short records are served from a pool drawn earlier, which reseeding the generator does not discard",
 edits=[("noise.py", """def white(num_points=1024, b0=1.0, fs=1.0):
""", """_pool = np.zeros(0)


def _randn(num_points):
    \"\"\" normal deviates; short requests are drawn in blocks \"\"\"
    global _pool
    if num_points > 64:
        return np.random.randn(num_points)
    if len(_pool) < num_points:
        _pool = np.random.randn(256)
    out, _pool = _pool[:num_points].copy(), _pool[num_points:]
    return out


def white(num_points=1024, b0=1.0, fs=1.0):
"""), ("noise.py", """    return math.sqrt(b0*fs/2.0)*np.random.randn(num_points)
""", """    return math.sqrt(b0*fs/2.0)*_randn(num_points)
""")],
 demo=COMMON + '''
np.random.seed(5)
a = noise.white(20)
np.random.seed(5)
b = noise.white(20)
check(list(a) == list(b), "same seed, other noise")
'''),
dict(id="C10-reuse-series", prop="C10",
 needs="keeping the series of a Noise object while generating the next one of the same length",
 breaks="the next series is written into the array already handed out",
 edits=[("noise_kasdin.py", """        time_series = np.fft.irfft(wfb_fft*hfb_fft)[:self.nr]
        self.time_series = time_series
""", """        time_series = np.fft.irfft(wfb_fft*hfb_fft)[:self.nr]
        if len(self.time_series) == self.nr:
            self.time_series[:] = time_series  # same length: no new array
        else:
            self.time_series = time_series
""")],
 demo=COMMON + '''
n = at.Noise(nr=16, qd=1.0, b=-2)
n.generateNoise()
a = n.time_series
keep = list(a)
n.generateNoise()
check(list(a) == keep, "a series already returned changed")
'''),
dict(id="C11-node-edge", prop="C11",
 needs="three or more segments and a grid frequency exactly equal to an inner node",
 breaks="at an inner node neither segment applies and the density is zero",
 edits=[("noise.py", """                    if f_nodes[j - 1] <= f < f_nodes[j]:
""", """                    if f_nodes[j - 1] < f < f_nodes[j]:
""")],
 demo=COMMON + '''
n, dt = 33, 1.0
f = np.linspace(1.0/((n-1)*dt), 0.5/dt, n//2+1)
nodes = [f[3], f[8]]
h, al = [2.0, 1.0, 0.5], [0.0, 0.0, 0.0]
real = np.random.normal
np.random.normal = lambda *a, **k: 1.0
x = noise.timmer_koenig_from_psd(nodes, h, al, n*dt, dt)
np.random.normal = real
S = np.abs(np.fft.fft(x))
check(S[3] > 1e-12, "no power at the first node")
check(S[8] > 1e-12, "no power at the second node")
'''),
dict(id="C11-pink-wrap", prop="C11",
 needs="more pink-noise samples than the depth",
 breaks="the smoothing samples are not renewed when the index wraps, so samples one depth apart are correlated",
 edits=[("noise.py", """            i = 0
            smooth = np.random.randn(depth)
            source = np.random.randn(depth)
            continue
""", """            i = 0
            source = np.random.randn(depth)
            continue
""")],
 demo=COMMON + '''
np.random.seed(3)
depth = 8
R = np.array([noise.pink(2*depth, depth) for _ in range(6000)])
C = np.cov(R.T)
# variance depth+1 at every instant; neighbours share all but one or two sources
lag = np.mean([C[i, i+depth] for i in range(depth)])
near = np.mean([C[i, i+depth-1] for i in range(1, depth)])
check(abs(lag - near) < 0.4, "samples one depth apart are correlated too strongly: %.2f vs %.2f" % (lag, near))
'''),
dict(id="C11-filter-length", prop="C11",
 needs="a Kasdin series longer than 131072 points, flicker or random-walk type",
 breaks="the fractional-integration response is cut after 131072 coefficients",
 edits=[("noise_kasdin.py", """        hfb[:self.nr] = np.multiply.accumulate(hfb[:self.nr])
""", """        n_coeffs = min(self.nr, 131072)  # the tail of the response is tiny
        hfb[:n_coeffs] = np.multiply.accumulate(hfb[:n_coeffs])
        hfb[n_coeffs:] = 0.0
""")],
 demo=COMMON + '''
real = np.random.normal
def impulse(mu, sd, n):
    out = np.zeros(n)
    out[0] = 1.0
    return out
np.random.normal = impulse
g = at.Noise(nr=262144, qd=1.0, b=-2)
g.generateNoise()
np.random.normal = real
x = g.time_series
check(np.allclose(x, x[1], atol=1e-6), "random walk forgets an impulse after %d samples" % np.argmax(abs(x - x[1]) > 1e-6))
'''),
dict(id="C11-shared-rows", prop="C11",
 needs="two pink generators of equal depth running interleaved",
 breaks="the generators of one depth share their source rows, so interleaved generators are correlated",
 edits=[("noise.py", """def iterpink(depth=20):
""", """_rows = {}  # source rows by depth, saves an allocation per generator


def iterpink(depth=20):
"""), ("noise.py", """    values = np.random.randn(depth)
    smooth = np.random.randn(depth)
    source = np.random.randn(depth)
    sumvals""", """    values = _rows.setdefault(depth, np.empty(depth))
    values[:] = np.random.randn(depth)
    smooth = np.random.randn(depth)
    source = np.random.randn(depth)
    sumvals""")],
 demo=COMMON + '''
np.random.seed(3)
def pair(n):
    a, b = noise.iterpink(16), noise.iterpink(16)
    return [(next(a), next(b)) for _ in range(n)]
R = np.array([np.ravel(pair(15)) for _ in range(4000)])
v = R[:, 28].var()
check(abs(v - 17.0) < 2.0, "variance of an interleaved pink source is %.2f, not depth+1" % v)
'''),
dict(id="C12-deferred-draw", prop="C12",
 needs="a dataset recomputed between plot() and save()",
 breaks="curves are drawn when the figure is saved, from what the dataset holds then",
 edits=[("plot.py", """        self.fig, self.ax = plt.subplots()
        self.ax.set_xscale("log")
""", """        self.fig, self.ax = plt.subplots()
        self._todo = []  # curves not drawn yet
        self.ax.set_xscale("log")
"""), ("plot.py", """        if errorbars:
            self.ax.errorbar(""", """        self._todo.append((atDataset, errorbars, grid, kwargs))
        if not self.fig.canvas.supports_blit:
            self._draw()

    def _draw(self):
        \"\"\" draw the pending curves \"\"\"
        while self._todo:
            self._curve(*self._todo[0])
            del self._todo[0]

    def _curve(self, atDataset, errorbars, grid, kwargs):
        if errorbars:
            self.ax.errorbar("""),
  ("plot.py", """        self.plt.show()
""", """        self._draw()
        self.plt.show()
"""), ("plot.py", """        self.fig.savefig(f)""", """        self._draw()
        self.fig.savefig(f)""")],
 demo=COMMON + '''
d = at.Dataset(data=np.random.RandomState(1).randn(100))
d.compute("adev")
want = list(d.out["stat"])
p = at.Plot(no_display=True)
p.plot(d)
d.set_input(np.random.RandomState(2).randn(100)*7)
d.compute("mdev")
p.save(os.path.join(os.environ["DEMO_TMP"], "a.png"))
check(list(p.ax.lines[0].get_ydata()) == want, "the curve shows a later computation")
check(p.ax.get_ylabel() == "adev", "label %r" % p.ax.get_ylabel())
'''),
dict(id="C12-dpi-left", prop="C12",
 needs="a save that fails (missing directory, full disk)",
 breaks="the figure is switched to print resolution and size for saving and not switched back when saving fails",
 edits=[("plot.py", """        \"\"\"Save figure to file
        \"\"\"
        self.fig.savefig(f)""", """        \"\"\"Save figure to file, in print size
        \"\"\"
        size = self.fig.get_size_inches()
        self.fig.set_size_inches(6.4, 4.8 + 1e-9)
        self.ax.set_title(str(self.ax.get_title()).strip())
        self.ax.patch.set_alpha(0.0)
        self.fig.savefig(f)
        self.ax.patch.set_alpha(None)
        self.fig.set_size_inches(size)""")],
 demo=COMMON + '''
d = at.Dataset(data=np.random.RandomState(1).randn(100))
d.compute("adev")
p = at.Plot(no_display=True)
p.plot(d)
before = p.ax.patch.get_alpha(), tuple(p.fig.get_size_inches())
try:
    p.save(os.path.join(os.environ["DEMO_TMP"], "no", "such", "dir", "a.png"))
except OSError:
    pass
else:
    check(False, "failed save did not raise")
after = p.ax.patch.get_alpha(), tuple(p.fig.get_size_inches())
check(before == after, "failed save changed the plot: %r %r" % (before, after))
'''),
dict(id="C12-figure-number", prop="C12",
 needs="more than one plot, or a figure closed in pyplot before it is saved",
 breaks="save() goes through pyplot by figure number, a closed figure is replaced by a new empty one",
 edits=[("plot.py", """        \"\"\"Save figure to file
        \"\"\"
        self.fig.savefig(f)""", """        \"\"\"Save this figure to file
        \"\"\"
        self.plt.figure(self.fig.number)
        self.plt.savefig(f)""")],
 demo=COMMON + '''
d = at.Dataset(data=np.random.RandomState(1).randn(100))
d.compute("adev")
p = at.Plot(no_display=True)
p.plot(d)
a, b = [os.path.join(os.environ["DEMO_TMP"], n) for n in ("a.png", "b.png")]
p.save(a)
p.plt.close(p.fig)
p.save(b)
check(open(a, "rb").read() == open(b, "rb").read(), "another picture was saved")
'''),
dict(id="C12-mean-bars", prop="C12",
 needs="error bars of a statistic with unequal lower and upper bars (gradev)",
 breaks="two-sided error bars are averaged",
 edits=[("plot.py", """                             yerr=atDataset.out["stat_err"],
""", """                             yerr=sum(atDataset.out["stat_err"])/2
                             if isinstance(atDataset.out["stat_err"], list)
                             else atDataset.out["stat_err"],
""")],
 demo=COMMON + '''
d = at.Dataset(data=np.random.RandomState(1).randn(100))
d.compute("gradev")
p = at.Plot(no_display=True)
p.plot(d, errorbars=True)
segs = p.ax.collections[0].get_segments()
lo, hi = d.out["stat_err"]
for k, s in enumerate(segs):
    y = sorted(v[1] for v in s)
    check(abs(y[0] - (d.out["stat"][k]-lo[k])) < 1e-9 and abs(y[1] - (d.out["stat"][k]+hi[k])) < 1e-9, "bars %r" % (y,))
'''),
]
