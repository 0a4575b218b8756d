COMMON = '''
import contextlib
import io
import os
import sys
import numpy as np
import allantools as at

def check(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)

'''
BUGS = [
dict(id="C18-unicode-print", prop="C18",
 needs="frequency data to gradev with a standard output that is not UTF-8 (C locale, Windows console, a log file)",
 breaks="a hint printed on the way has Greek letters, so the computation fails where standard output is ASCII only",
 edits=[("allantools.py", """        print("Warning : phase data is preferred as input to gradev()")
""", """        print("Warning : \\u03c3_y(\\u03c4) is best computed from phase data, gradev() got frequency")
""")],
 demo=COMMON + '''
y = np.random.RandomState(3).randn(100)
want = at.gradev(y, data_type="freq")
out = sys.stdout
sys.stdout = io.TextIOWrapper(io.BytesIO(), encoding="ascii")
try:
    got = at.gradev(y, data_type="freq")
    why = None
except Exception as e:
    why = repr(e)
sys.stdout = out
check(why is None, why)
check(np.array_equal(want[1], got[1]), "other result")
'''),
dict(id="C18-assert-grow", prop="C18",
 needs="python -O and an automatic-mode estimator with enough samples for a second averaging factor",
 breaks="the subclass is asked to grow inside an assert statement, which -O removes",
 edits=[("realtime.py", """            self.add_af()  # tell subclass to update internal variables
""", """            # tell subclass to update internal variables
            assert self.add_af(), "estimator did not grow"
"""), ("realtime.py", """    def add_af(self):
        self.S = numpy.append(self.S, 0)


""", """    def add_af(self):
        self.S = numpy.append(self.S, 0)
        return len(self.S)


"""), ("realtime.py", """    def add_af(self):
        self.S = numpy.append(self.S, 0)

    def add_phase""", """    def add_af(self):
        self.S = numpy.append(self.S, 0)
        return len(self.S)

    def add_phase"""), ("realtime.py", """        S = numpy.append(self.S, 0)
        self.So = numpy.append(self.So, 0)
        self.S = S
""", """        S = numpy.append(self.S, 0)
        self.So = numpy.append(self.So, 0)
        self.S = S
        return len(self.S)
""")],
 demo='''
import subprocess
import sys
code = """
import allantools as at
e = at.oadev_realtime(auto_afs=True)
for k in range(60):
    e.add_phase((k * k) % 17 * 1.0)
print(repr([float(d) for d in e.devs()]))
"""
runs = [subprocess.run([sys.executable] + opt + ["-c", code], capture_output=True, text=True) for opt in ([], ["-O"])]
if runs[0].returncode or runs[1].returncode or runs[0].stdout != runs[1].stdout:
    print("BROKEN:", runs[1].stderr[-300:], runs[1].stdout)
    sys.exit(1)
'''),
dict(id="C18-start-dir", prop="C18",
 needs="a program that changes its working directory between making a dataset and writing the results",
 breaks="relative file names are taken from the directory in which the dataset was made, not from the current one",
 edits=[("dataset.py", """        self.inp["data"] = data
""", """        self._dir = os.path.abspath(os.curdir)
        self.inp["data"] = data
"""), ("dataset.py", """        with open(filename, 'w') as fp:
""", """        if not os.path.isabs(filename):
            filename = os.path.join(self._dir, filename)
        with open(filename, 'w') as fp:
"""), ("dataset.py", """        self.inp["rate"] = rate
""", """        self.inp['rate'] = rate
"""), ("dataset.py", "import io\n", "import io\nimport os\n")],
 demo=COMMON + '''
tmp = os.environ["DEMO_TMP"]
a, b = os.path.join(tmp, "a"), os.path.join(tmp, "b")
os.mkdir(a)
os.mkdir(b)
os.chdir(a)
d = at.Dataset(np.arange(40.0) ** 2, 1.0, "phase")
d.compute("adev")
os.chdir(b)
d.write_results("r.txt")
check(os.path.exists(os.path.join(b, "r.txt")), "results file is not in the current directory")
'''),
dict(id="C18-rank-warning", prop="C18",
 needs="a very short series and warnings that are turned into errors or already silenced",
 breaks="a rank warning from the fit is used to decide on the degree, so the result depends on the warning filters",
 edits=[("ci.py", """    p = np.polyfit(t, x, deg)
""", """    with warnings.catch_warnings(record=True) as caught:
        p = np.polyfit(t, x, deg)
    if caught:  # badly conditioned, use a simpler trend
        p = np.polyfit(t, x, 0)
"""), ("ci.py", "import numpy as np\n", "import warnings\nimport numpy as np\n")],
 demo=COMMON + '''
import warnings
from allantools import ci
x = np.array([3.0, 5.0])
want = ci.detrend(x, deg=2)
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    got = ci.detrend(x, deg=2)
check(np.allclose(want, got, atol=1e-9), "detrend %r with silenced warnings, %r otherwise" % (got, want))
'''),
dict(id="C18-main-thread", prop="C18",
 needs="a call from any thread but the main one",
 breaks="the integration is guarded by an alarm signal, which only the main thread may install",
 edits=[("allantools.py", """    adev = np.empty_like(taus, dtype=float)
""", """    adev = np.empty_like(taus, dtype=float)
    old = signal.signal(signal.SIGALRM, signal.SIG_DFL)  # no endless integrals
    signal.alarm(600)
"""), ("allantools.py", """        adev[k] = np.sqrt(2.0 * sigma_y2)

    return adev
""", """        adev[k] = np.sqrt(2.0 * sigma_y2)

    signal.alarm(0)
    signal.signal(signal.SIGALRM, old)
    return adev
"""), ("allantools.py", "import os\n", "import os\nimport signal\n")],
 demo=COMMON + '''
import threading
out = []
def run():
    try:
        out.append(at.psd_piecewise_to_adev([1.0, 2.0], [-1, 0], [0.1], [1.0, 2.0]))
    except Exception as e:
        out.append(e)
t = threading.Thread(target=run)
t.start()
t.join()
check(isinstance(out[0], np.ndarray), repr(out[0]))
'''),
]
