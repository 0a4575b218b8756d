COMMON = '''
import os
import sys
import numpy as np
import allantools as at
from allantools import realtime

def check(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)

def refuse(f, v, exc=Exception):
    try:
        f(v)
    except exc:
        return
    check(False, "%r was taken" % (v,))

def same(a, b):
    return len(a.taus()) == len(b.taus()) and np.array_equal(a.taus(), b.taus()) and \\
        np.array_equal(a.devs(), b.devs())

def walk(n, seed=1):
    return np.cumsum(np.random.RandomState(seed).standard_normal(n)).tolist()

'''
BUGS = [
dict(id="C13-freq-origin", prop="C13",
 needs="the very first reading is a frequency that is refused, and phase readings follow",
 breaks="a refused first frequency leaves the phase origin 0 in the record as if it had been a sample",
 edits=[("realtime.py", """        step = f*self.tau0 + 0.0
        float(step)  # raises if not a number, before anything is changed
        if not self.x:  # empty sequence
            self.add_phase(0)  # initialize
        self.add_phase(self.x[-1] + step)  # integration
""", """        if len(self.x) == 0:  # empty sequence
            self.add_phase(0.0)  # initialize
        step = f*self.tau0 + 0.0
        float(step)  # raises if not a number
        self.add_phase(self.x[-1] + step)  # integration
""")],
 demo=COMMON + '''
x = [v + 5.0 for v in walk(20)]
for cls in (at.oadev_realtime, at.ohdev_realtime, at.tdev_realtime):
    a, b = cls(afs=[1, 2]), cls(afs=[1, 2])
    refuse(a.add_frequency, None)
    refuse(a.add_frequency, "7 Hz")
    for v in x:
        a.add_phase(v)
        b.add_phase(v)
    check(same(a, b), "a refused frequency changed the deviations of " + cls.__name__)
'''),
dict(id="C13-tdev-count", prop="C13",
 needs="a phase reading refused by a TDEV estimator that has samples, and enough samples after it",
 breaks="TDEV counts its samples itself, before it knows that the reading is accepted",
 edits=[("realtime.py", """        self.So = numpy.zeros(len(self.afs))      # overall sum-of-squares

    def add_phase(self, xnew):
        \"\"\" add new phase point \"\"\"
        self.store(xnew)
""", """        self.So = numpy.zeros(len(self.afs))      # overall sum-of-squares
        self.num_pts = 0                          # samples so far

    def add_phase(self, xnew):
        \"\"\" add new phase point \"\"\"
        self.num_pts += 1
        self.store(xnew)
"""), ("realtime.py", """        num_pts = len(self.x)
        af = self.afs[idx]
        self.dev[idx]""", """        num_pts = self.num_pts
        af = self.afs[idx]
        self.dev[idx]""")],
 demo=COMMON + '''
x = walk(40)
a, b = at.tdev_realtime(afs=[1, 4]), at.tdev_realtime(afs=[1, 4])
for n, v in enumerate(x):
    if n == 9:
        refuse(a.add_phase, None)
    a.add_phase(v)
    b.add_phase(v)
check(same(a, b), "a refused reading changed TDEV")
check(np.array_equal(a.mdev(), b.mdev()), "a refused reading changed MDEV")
'''),
dict(id="C13-af-grid", prop="C13",
 needs="auto mode, and an array growth that fails with MemoryError at the sample that brings a new averaging factor",
 breaks="the position on the averaging-factor grid is advanced before the growth has succeeded, so a factor is lost",
 edits=[("realtime.py", """            afs = numpy.append(self.afs, next_af)  # new AF
            dev = numpy.append(self.dev, 0)  # new dev
            self.add_af()  # tell subclass to update internal variables
""", """            self.af_idx, self.af_decade = next_idx, next_decade
            afs = numpy.append(self.afs, next_af)  # new AF
            dev = numpy.append(self.dev, 0)  # new dev
            self.add_af()  # tell subclass to update internal variables
"""), ("realtime.py", """            self.dev = dev
            self.af_idx = next_idx
            self.af_decade = next_decade
""", """            self.dev = dev
""")],
 demo=COMMON + '''
real = np.append
fail = [0]
def append(*a, **k):
    if fail[0]:
        fail[0] = 0
        raise MemoryError("no memory")
    return real(*a, **k)

x = walk(300)
for cls in (at.oadev_realtime, at.ohdev_realtime, at.tdev_realtime):
    a, b = cls(auto_afs=True), cls(auto_afs=True)
    for n, v in enumerate(x):
        before = len(b.taus())
        b.add_phase(v)
        fail[0] = int(n > 3 and len(b.taus()) > before)
        np.append = append
        try:
            a.add_phase(v)
        except MemoryError:
            a.add_phase(v)      # memory is back
        finally:
            np.append = real
            fail[0] = 0
    check(same(a, b), "a failed growth changed the results of " + cls.__name__)
'''),
]
