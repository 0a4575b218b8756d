COMMON = '''
import sys
import time
import numpy as np
import allantools as at

def check(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)

def cost(est, add, n, read=False):
    """Seconds of processor time per sample (best of several windows) after n samples."""
    while len(est.x) < n:
        add(0.5)
    best = 9e9
    for _ in range(7):
        t = time.process_time()
        for _ in range(40):
            add(0.25)
            if read:
                est.devs()
        best = min(best, (time.process_time() - t) / 40)
    return best

def grows(make, kind, n, read=False):
    est = make()
    add = getattr(est, kind)
    a = cost(est, add, 200, read)
    # a long record of the same state, without feeding it sample by sample
    est.x.extend([0.5] * n)
    b = cost(est, add, n, read)
    return b > 8 * a, "%.3g s per sample after 200 samples, %.3g s after %d" % (a, b, n)

'''
BUGS = [
dict(id="C17-copy-record", prop="C17",
 needs="a long stream",
 breaks="accepting a sample makes a new list of the whole record, so the work per sample grows with the stream",
 edits=[("realtime.py", """        self.x.append(xnew)
""", """        self.x = self.x + [xnew]
"""), ("realtime.py", """                self.x.pop()
                raise
""", """                self.x = self.x[:-1]
                raise
""")],
 demo=COMMON + '''
bad, what = grows(lambda: at.oadev_realtime(afs=[1]), "add_phase", 2000000)
check(not bad, what)
'''),
dict(id="C17-window-sum", prop="C17",
 needs="a long stream with a time deviation estimator",
 breaks="the whole record is converted to an array for every sample and factor",
 edits=[("realtime.py", """        S_new = (-1*self.x[i-3*af] + 3*self.x[i-2*af] -
                 3*self.x[i-af] + self.x[i])
""", """        x = numpy.array(self.x)
        S_new = (-1*x[i-3*af] + 3*x[i-2*af] -
                 3*x[i-af] + x[i])
""")],
 demo=COMMON + '''
bad, what = grows(lambda: at.tdev_realtime(afs=[1]), "add_phase", 200000)
check(not bad, what)
'''),
dict(id="C17-frequency-origin", prop="C17",
 needs="a long stream of frequency samples",
 breaks="the newest sample is fetched by unpacking the whole record",
 edits=[("realtime.py", """        self.add_phase(self.x[-1] + step)  # integration
""", """        *_, last = self.x
        self.add_phase(last + step)  # integration
""")],
 demo=COMMON + '''
bad, what = grows(lambda: at.ohdev_realtime(afs=[1]), "add_frequency", 2000000)
check(not bad, what)
'''),
dict(id="C17-pink-history", prop="C17",
 needs="a pink-noise generator that is left running",
 breaks="used-up source samples are kept for ever, so a generator that runs on fills the memory",
 edits=[("noise.py", """    smooth = np.random.randn(depth)
    source = np.random.randn(depth)
    sumvals = values.sum()
""", """    smooth = list(np.random.randn(depth))
    source = list(np.random.randn(depth))
    sumvals = values.sum()
"""), ("noise.py", """        if i == depth:
            i = 0
            smooth = np.random.randn(depth)
            source = np.random.randn(depth)
            continue
""", """        if i % depth == 0:
            smooth.extend(np.random.randn(depth))
            source.extend(np.random.randn(depth))
            continue
"""), ("noise.py", """        while not (i >> c) & 1:
""", """        while not ((i % depth) >> c) & 1:
""")],
 demo=COMMON + '''
import tracemalloc
it = at.noise.iterpink(20)
for _ in range(1000):
    next(it)
tracemalloc.start()
for _ in range(50000):
    next(it)
kept = tracemalloc.get_traced_memory()[0]
check(kept < 100000, "%d bytes kept after 50000 samples" % kept)
'''),
]
