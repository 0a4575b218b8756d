COMMON = '''
import sys
import numpy as np
import allantools as at

def check(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)

def same(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=0)

def polls_inside(make, xs, read):
    """Feed xs; at every source line of the package inside a sample read a
    report, as another thread could do just then.  -> (before, inside, after)"""
    est = make()
    out = []
    busy = [False]
    here = []

    def line(frame, event, arg):
        if not busy[0] and "allantools" in frame.f_code.co_filename:
            busy[0] = True
            try:
                here.append(np.array(read(est)))
            finally:
                busy[0] = False
        return line
    for x in xs:
        before = np.array(read(est))
        del here[:]
        sys.settrace(line)
        try:
            est.add_phase(float(x))
        finally:
            sys.settrace(None)
        out.append((before, list(here), np.array(read(est))))
    return out

def whole(out, what):
    for i, (before, inside, after) in enumerate(out):
        for r in inside:
            check(len(r) in (len(before), len(after)), "%s: %d values during sample %d" % (what, len(r), i))
            for k, v in enumerate(r):
                ok = [a[k] for a in (before, after) if k < len(a)] + ([0.0] if k >= len(before) else [])
                check(any(same(v, o) for o in ok), "%s: during sample %d value %d is %r, before and after %s" % (what, i, k, v, ok))

rng = np.random.RandomState(3)
X = np.cumsum(rng.standard_normal(60))

'''
BUGS = [
dict(id="C16-two-step", prop="C16",
 needs="a poll by another thread between two statements of one sample's update",
 breaks="the running sum stands in the published deviation until it is scaled in the next statement",
 edits=[("realtime.py", """        self.S[idx] = self.S[idx] + S_new
        self.dev[idx] = numpy.sqrt(
            (1.0/(6.0*pow(af*self.tau0, 2)*(i+1.0-3*af))) * self.S[idx])
""", """        self.dev[idx] = self.S[idx] = self.S[idx] + S_new
        scale = 1.0/(6.0*pow(af*self.tau0, 2)*(i+1.0-3*af))
        self.dev[idx] = numpy.sqrt(scale * self.dev[idx])
""")],
 demo=COMMON + '''
whole(polls_inside(lambda: at.ohdev_realtime(afs=[1, 3]), X, lambda e: e.devs()), "OHDEV")
'''),
dict(id="C16-growth-copy", prop="C16",
 needs="a poll by another thread while an automatic estimator adds an averaging factor",
 breaks="the array of deviations is published before the old deviations are copied into it",
 edits=[("realtime.py", """            dev = numpy.append(self.dev, 0)  # new dev
""", """            dev, old = numpy.zeros(len(afs)), self.dev  # new dev
"""), ("realtime.py", """            self.dev = dev
""", """            self.dev = dev
            self.dev[:len(old)] = old
""")],
 demo=COMMON + '''
whole(polls_inside(lambda: at.oadev_realtime(auto_afs=True), X, lambda e: e.devs()), "OADEV")
'''),
dict(id="C16-tdev-units", prop="C16",
 needs="a poll by another thread while mdev() is being read, or a cancelled mdev()",
 breaks="mdev() scales the published array itself and scales it back afterwards",
 edits=[("realtime.py", """        mdev = self.dev.copy()
""", """        mdev, tdev = self.dev, self.dev.copy()
"""), ("realtime.py", """            mdev[idx] = mdev[idx]*numpy.sqrt(3)/(af*self.tau0)
        return mdev
""", """            mdev[idx] = mdev[idx]*numpy.sqrt(3)/(af*self.tau0)
        mdev = self.dev.copy()
        self.dev[:] = tdev
        return mdev
""")],
 demo=COMMON + '''
est = at.tdev_realtime(afs=[1, 2, 3])
for x in X:
    est.add_phase(float(x))
want = est.devs()
bad = []

def line(frame, event, arg):
    if frame.f_code.co_name == "mdev" and not same(est.dev, want):
        bad.append(np.array(est.dev))
    return line
sys.settrace(line)
m = est.mdev()
sys.settrace(None)
check(same(m, want * np.sqrt(3) / est.taus()), "mdev %s" % m)
check(not bad, "while mdev() ran the time deviations were %s instead of %s" % (bad[:1], want))
'''),
]
