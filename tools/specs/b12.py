BUGS = [
dict(id="C07-keep-last", prop="C07",
 needs="a dataset that has published a result, then a computation whose first deviation is not a number",
 breaks="compute() returns early without publishing a result that is not a number, so out and write_results() still show the previous one",
 edits=[("dataset.py", """        result = {key: result[i] for i, key in enumerate(keys)}
""", """        result = dict(zip(keys, result))
        stat = result["stat"]
        if len(stat) and stat[0] != stat[0]:  # nothing to report
            return result
""")],
 demo='''
import sys
import numpy as np
import allantools as at
x = np.random.RandomState(1).randn(40)
d = at.Dataset(data=x, rate=1.0, taus=[1.0, 2.0])
d.compute("oadev")
x = x.copy()
x[1:] = np.nan
d.set_input(x, rate=1.0, taus=[1.0, 2.0])
d.compute("totdev")
if d.out["stat_id"] != "totdev" or not np.isnan(d.out["stat"][0]):
    print("BROKEN:", d.out)
    sys.exit(1)
'''),
dict(id="C05-long-outage", prop="C05",
 needs="more than 1024 missing samples at one edge of the record",
 breaks="trim_data stops looking after 1024 samples, so the missing samples that remain reach the estimator",
 edits=[("allantools.py", """    while np.isnan(x[first]):
""", """    while first < 1024 and np.isnan(x[first]):
""")],
 demo='''
import sys
import numpy as np
import allantools as at
x = np.random.RandomState(1).randn(200)
want = at.oadev(x, data_type="freq", taus=[1.0])[1]
got = at.oadev(np.concatenate((np.full(3000, np.nan), x)), data_type="freq", taus=[1.0])[1]
if not np.allclose(got, want):
    print("BROKEN:", got, want)
    sys.exit(1)
'''),
dict(id="C11-pink-carry", prop="C11",
 needs="iterpink with more than 128 sources, past 128 samples",
 breaks="the index of the source to renew is limited to 6, so deep sources are never renewed and their low-frequency power is missing",
 edits=[("noise.py", """        while not (i >> c) & 1:
""", """        while c < 6 and not (i >> c) & 1:
""")],
 demo='''
import sys
import numpy as np
import allantools as at
from allantools import noise


# all random numbers 0 except the initial values of the sources, 1, 2, 3, ...
calls = []


def randn(n):
    calls.append(n)
    return np.arange(1.0, n + 1) if len(calls) == 1 else np.zeros(n)


real, np.random.randn = np.random.randn, randn
try:
    it = noise.iterpink(140)
    x = [next(it) for _ in range(135)]
finally:
    np.random.randn = real
if x[128] - x[127] != -8.0:
    print("BROKEN: renewal of the 8th source changes the sum by %g" % (x[128] - x[127]))
    sys.exit(1)
'''),
]
