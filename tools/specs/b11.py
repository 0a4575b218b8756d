BUGS = [
dict(id="C01-rebase", prop="C01",
 needs="more than a million phase samples with a phase offset on one estimator",
 breaks="the record is rebased to its first sample every 2**20 samples, but the phase samples that follow are not, so the phase jumps",
 edits=[("realtime.py", """        self.dev = numpy.zeros(len(self.afs))    # resulting xDEV
""", """        self.dev = numpy.zeros(len(self.afs))  # resulting xDEV
        self.span = 2**20  # samples after which the record is rebased
"""), ("realtime.py", """        self.x.append(xnew)
""", """        self.x.append(xnew)
        if len(self.x) % self.span == 0:  # keep the numbers small
            first = self.x[0]
            self.x = [v - first for v in self.x]
""")],
 demo='''
import sys
import numpy as np
import allantools as at
x = 5.0 + np.random.RandomState(1).randn(2 ** 20 + 50)
e = at.oadev_realtime([1], 1.0)
for v in x.tolist():
    e.add_phase(v)
want = at.oadev(x, taus=[1.0])[1][0]
if abs(e.devs()[0] / want - 1) > 1e-9:
    print("BROKEN:", e.devs()[0], want)
    sys.exit(1)
'''),
]
