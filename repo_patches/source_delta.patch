From 2406fc2db92a2b262900a3f508442e0100198f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:22 +0000
Subject: [PATCH 01/28] fix: integrate frequency over the sampling interval in
 real-time estimators

---
 allantools/realtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 50d3eb9..0ffbc17 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -79,7 +79,7 @@ class dev_realtime(object):
         """ add new frequency point, in units of Hz """
         if not self.x:  # empty sequence
             self.add_phase(0)  # initialize
-        self.add_phase(self.x[-1] + f)  # integration
+        self.add_phase(self.x[-1] + f*self.tau0)  # integration
 
     def taus(self):
         """ return taus, in unit of seconds """
-- 
2.43.0


From b0fb8686ba8f1fdaebdae844c2f73bc4225de12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 02/28] fix: size real-time sums by the factors in use, not the
 list ignored in auto mode

---
 allantools/realtime.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 0ffbc17..83bf937 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -46,7 +46,7 @@ class dev_realtime(object):
         self.af_decade = 0    # logspace decade
         if auto_afs:
             self.afs = numpy.array([1])
-        self.dev = numpy.zeros(len(afs))    # resulting xDEV
+        self.dev = numpy.zeros(len(self.afs))    # resulting xDEV
         self.tau0 = tau0                     # time-interval between points
 
     def update_af(self):
@@ -103,7 +103,7 @@ class oadev_realtime(dev_realtime):
         super(oadev_realtime, self).__init__(afs=afs, tau0=tau0,
                                              auto_afs=auto_afs,
                                              pts_per_decade=pts_per_decade)
-        self.S = numpy.zeros(len(afs))      # sum-of-squares
+        self.S = numpy.zeros(len(self.afs))      # sum-of-squares
 
     def add_phase(self, xnew):
         """ add new phase point, in units of seconds """
@@ -139,7 +139,7 @@ class ohdev_realtime(dev_realtime):
         super(ohdev_realtime, self).__init__(afs=afs, tau0=tau0,
                                              auto_afs=auto_afs,
                                              pts_per_decade=pts_per_decade)
-        self.S = numpy.zeros(len(afs))      # sum-of-squares
+        self.S = numpy.zeros(len(self.afs))      # sum-of-squares
 
     def add_af(self):
         self.S = numpy.append(self.S, 0)
@@ -177,8 +177,8 @@ class tdev_realtime(dev_realtime):
         super(tdev_realtime, self).__init__(afs=afs, tau0=tau0,
                                             auto_afs=auto_afs,
                                             pts_per_decade=pts_per_decade)
-        self.S = numpy.zeros(len(afs))      # sum-of-squares
-        self.So = numpy.zeros(len(afs))      # overall sum-of-squares
+        self.S = numpy.zeros(len(self.afs))      # sum-of-squares
+        self.So = numpy.zeros(len(self.afs))      # overall sum-of-squares
 
     def add_phase(self, xnew):
         """ add new phase point """
-- 
2.43.0


From 6bb36c4f62a56a26e20d280c141832979f7d4326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 03/28] fix: no duplicate averaging factors in real-time auto
 mode

---
 allantools/realtime.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 83bf937..7a17443 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -39,7 +39,6 @@ class dev_realtime(object):
         self.x = []                         # phase time-series
         self.afs = afs                      # averaging factor, tau = af*tau0
         self.auto_afs = auto_afs
-        # logscpace will fail at >=6 (?), need to remove duplicates?
         self.af_taus = numpy.logspace(0, 1, pts_per_decade+1)[:-1]
         # logspace index, to keep track of afs in auto-af mode
         self.af_idx = 0
@@ -54,15 +53,17 @@ class dev_realtime(object):
             - check if we can add another AF
             - if yes, add it.
         """
-        next_idx = self.af_idx+1
+        next_idx = self.af_idx
         next_decade = self.af_decade
-        if next_idx == len(self.af_taus):
-            next_idx = 0
-            next_decade = self.af_decade + 1
-
-        # next possible AF:
-        next_af = int(numpy.round(
-            pow(10.0, next_decade) * self.af_taus[next_idx]))
+        next_af = self.afs[-1]
+        # next possible AF, skipping grid points that round to one in use
+        while next_af <= self.afs[-1]:
+            next_idx = next_idx + 1
+            if next_idx == len(self.af_taus):
+                next_idx = 0
+                next_decade = next_decade + 1
+            next_af = int(numpy.round(
+                pow(10.0, next_decade) * self.af_taus[next_idx]))
         if len(self.x) >= (2*next_af+1):  # can compute next AF
             self.afs = numpy.append(self.afs, next_af)  # new AF
             self.add_af()  # tell subclass to update internal variables
-- 
2.43.0


From c950cd3fc51a50c31029eedf15a22906a60757b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 04/28] fix: activate a real-time auto factor before its first
 term, not after

---
 allantools/realtime.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 7a17443..4b87381 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -109,11 +109,11 @@ class oadev_realtime(dev_realtime):
     def add_phase(self, xnew):
         """ add new phase point, in units of seconds """
         self.x.append(xnew)
+        if self.auto_afs:
+            self.update_af()
         for idx, af in enumerate(self.afs):
             if len(self.x) >= (2*af+1):
                 self.update_S(idx)
-        if self.auto_afs:
-            self.update_af()
 
     def update_S(self, idx):
         """ update S, sum-of-squares.
@@ -148,11 +148,11 @@ class ohdev_realtime(dev_realtime):
     def add_phase(self, xnew):
         """ add new phase point """
         self.x.append(xnew)
+        if self.auto_afs:
+            self.update_af()
         for idx, af in enumerate(self.afs):
             if len(self.x) > 3*af:
                 self.update_S(idx)
-        if self.auto_afs:
-            self.update_af()
 
     def update_S(self, idx):
         """ update S, sum-of-squares """
@@ -184,15 +184,14 @@ class tdev_realtime(dev_realtime):
     def add_phase(self, xnew):
         """ add new phase point """
         self.x.append(xnew)
+        if self.auto_afs:
+            self.update_af()
         for idx, af in enumerate(self.afs):
             if len(self.x) >= 3*af+1:  # 3n+1 samples measured
                 self.update_S(idx)
             elif len(self.x) >= 2*af+1:  # 2n+1 samples measured
                 self.update_S3n(idx)
 
-        if self.auto_afs:
-            self.update_af()
-
     def add_af(self):
         self.S = numpy.append(self.S, 0)
         self.So = numpy.append(self.So, 0)
-- 
2.43.0


From 04c5caaafbc2aec878951209604ca5550e8fe592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 05/28] fix: real-time estimators keep their own copy of the
 averaging factors

---
 allantools/realtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 4b87381..614cfbd 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -37,7 +37,7 @@ class dev_realtime(object):
     """ Base-class for real-time statistics """
     def __init__(self, afs=[1], tau0=1.0, auto_afs=False, pts_per_decade=4):
         self.x = []                         # phase time-series
-        self.afs = afs                      # averaging factor, tau = af*tau0
+        self.afs = list(afs)                # averaging factor, tau = af*tau0
         self.auto_afs = auto_afs
         self.af_taus = numpy.logspace(0, 1, pts_per_decade+1)[:-1]
         # logspace index, to keep track of afs in auto-af mode
-- 
2.43.0


From b0080b4db91fcc5c7cf1bedebd00b6bc8b7476ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 06/28] fix: real-time devs() returns a snapshot, not the live
 array

---
 allantools/realtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 614cfbd..4cbb555 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -91,7 +91,7 @@ class dev_realtime(object):
 
     def devs(self):
         """ return deviation """
-        return self.dev
+        return self.dev.copy()
 
 
 class oadev_realtime(dev_realtime):
-- 
2.43.0


From 994c5c3a69bb8e05c9f84c50a43ff3d8abf38726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 07/28] fix: gradev error bars (confidence_interval arguments
 were swapped, so all NaN)

---
 allantools/allantools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 8daffcf..0925768 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1658,7 +1658,8 @@ def calc_gradev_phase(data, rate, mj, stride, confidence, noisetype):
 
     if n > 1:
         edf = ci.edf_simple(N, mj, alpha)
-        deverr = ci.confidence_interval(dev, confidence, edf)
+        (dev_min, dev_max) = ci.confidence_interval(dev, edf, confidence)
+        deverr = [dev - dev_min, dev_max - dev]  # distances from dev
     else:
         deverr = [0, 0]
 
-- 
2.43.0


From 0e482ed87d49156d39c1f610d361d7b124eea510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 08/28] fix: gradev noise types fp, ff and rf select the
 documented alpha

---
 allantools/allantools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 0925768..b0e2cdd 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1652,6 +1652,10 @@ def calc_gradev_phase(data, rate, mj, stride, confidence, noisetype):
     elif noisetype == 'wf':
         alpha = 0
     elif noisetype == 'fp':
+        alpha = 1
+    elif noisetype == 'ff':
+        alpha = -1
+    elif noisetype == 'rf':
         alpha = -2
     else:
         alpha = None
-- 
2.43.0


From 767a6d023c2127358a0d9f40a2e98c9fad563d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:20 +0000
Subject: [PATCH 09/28] fix: edf_simple raised ZeroDivisionError for N == m
 (gradev on a sparse record)

---
 allantools/ci.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index c4fe2bc..7be111c 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -798,12 +798,13 @@ def edf_simple(N, m, alpha):
 
     """
 
-    N = float(N)
-    m = float(m)
+    N = np.float64(N)  # numpy float, so that N == m does not raise
+    m = np.float64(m)
     if alpha in [2, 1, 0, -1, -2]:
         # NIST SP 1065, Table 5
         if alpha == +2:
-            edf = (N + 1) * (N - 2*m) / (2 * (N - m))
+            with np.errstate(divide='ignore'):
+                edf = (N + 1) * (N - 2*m) / (2 * (N - m))
 
         if alpha == 0:
             edf = (((3 * (N - 1) / (2 * m)) - (2 * (N - 2) / N)) *
-- 
2.43.0


From a3c6c8c7ae11f37463f4979d354d50177a9705b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:29 +0000
Subject: [PATCH 10/28] fix: htotdev trims missing edge samples of frequency
 data like the others

---
 allantools/allantools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index b0e2cdd..01a9e22 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1140,7 +1140,7 @@ def htotdev(data, rate=1.0, data_type="phase", taus=None):
         freq = phase2frequency(phase, rate)
     elif data_type == "freq":
         phase = frequency2phase(data, rate)
-        freq = data
+        freq = trim_data(data)
     else:
         raise Exception("unknown data_type: " + data_type)
 
-- 
2.43.0


From a6e832e54858d4fc7fba409bb0658f2be982ab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 11/28] fix: write_results formats everything before it opens
 (and truncates) the file

---
 allantools/dataset.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/allantools/dataset.py b/allantools/dataset.py
index 0c2c505..26bec36 100644
--- a/allantools/dataset.py
+++ b/allantools/dataset.py
@@ -28,6 +28,8 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
 """
 
+import io
+
 from . import allantools
 
 
@@ -166,7 +168,8 @@ class Dataset(object):
         None
         """
 
-        with open(filename, 'w') as fp:
+        # format first: a refused call must not truncate an existing file
+        with io.StringIO() as fp:
             fp.write("# Generated by Allantools {}\n".format(
                 allantools.__version__))
             fp.write("# Input data type: {}\n".format(self.inp["data_type"]))
@@ -206,3 +209,6 @@ class Dataset(object):
                               self.out["stat_err"][i]/2),
                     prec=digits-1,
                 ))
+            text = fp.getvalue()
+        with open(filename, 'w') as fp:
+            fp.write(text)
-- 
2.43.0


From c6ae0078ba6195c87a035c72103e2c4f2595bd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 12/28] fix: write_results supports the two-sided error bars of
 gradev

---
 allantools/dataset.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/allantools/dataset.py b/allantools/dataset.py
index 26bec36..177d18b 100644
--- a/allantools/dataset.py
+++ b/allantools/dataset.py
@@ -197,16 +197,20 @@ class Dataset(object):
                        "{sigma:.{prec}e} "
                        "{maxsigma:.{prec}e} "
                        "\n")
+            stat_err = self.out["stat_err"]
+            if isinstance(stat_err, list):  # gradev: lower and upper bars
+                err_lo, err_hi = stat_err
+            else:
+                err_lo, err_hi = stat_err/2, stat_err/2
             for i in range(len(self.out["taus"])):
                 fp.write(out_fmt.format(
                     af=int(self.out["taus"][i] / self.out["taus"][0]),
                     tau=self.out["taus"][i],
                     n=int(self.out["stat_n"][i]),
                     alpha="NaN",  # Not implemented yet
-                    minsigma=self.out["stat"][i] - self.out["stat_err"][i]/2,
+                    minsigma=self.out["stat"][i] - err_lo[i],
                     sigma=self.out["stat"][i],
-                    maxsigma=(self.out["stat"][i] +
-                              self.out["stat_err"][i]/2),
+                    maxsigma=self.out["stat"][i] + err_hi[i],
                     prec=digits-1,
                 ))
             text = fp.getvalue()
-- 
2.43.0


From cbcea31e9a3d75c53b3c821a3a518542e67d3dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 13/28] fix: Dataset publishes its input and its result in one
 step each

---
 allantools/dataset.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/allantools/dataset.py b/allantools/dataset.py
index 177d18b..9482b30 100644
--- a/allantools/dataset.py
+++ b/allantools/dataset.py
@@ -109,10 +109,11 @@ class Dataset(object):
             Array of tau values, in seconds, for which to compute statistic.
             Optionally set taus=["all"|"octave"|"decade"] for automatic
         """
-        self.inp["data"] = data
-        self.inp["rate"] = rate
-        self.inp["data_type"] = data_type
-        self.inp["taus"] = taus
+        # one assignment, so that an interrupted call changes nothing
+        self.inp = {"data": data,
+                    "rate": rate,
+                    "data_type": data_type,
+                    "taus": taus}
 
     def compute(self, function):
         """Evaluate the passed function with the supplied data.
@@ -141,12 +142,14 @@ class Dataset(object):
             # this should probably raise a custom exception type so
             # it's easier to distinguish from other bad things
             raise RuntimeError("function must be one of the 'dev' functions")
-        result = func(self.inp["data"], rate=self.inp["rate"],
-                      data_type=self.inp["data_type"], taus=self.inp["taus"])
+        inp = self.inp  # all inputs from the same set_input()
+        result = func(inp["data"], rate=inp["rate"],
+                      data_type=inp["data_type"], taus=inp["taus"])
         keys = ["taus", "stat", "stat_err", "stat_n"]
         result = {key: result[i] for i, key in enumerate(keys)}
-        self.out = result.copy()
-        self.out["stat_id"] = function
+        out = result.copy()
+        out["stat_id"] = function
+        self.out = out
         return result
 
     def write_results(self, filename, digits=5, header_params={}):
-- 
2.43.0


From 6022dd315f3fe2360afd0df2ab9d1a82a5cf781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 14/28] fix: results file header describes the input the
 results came from

---
 allantools/dataset.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/allantools/dataset.py b/allantools/dataset.py
index 9482b30..52f1818 100644
--- a/allantools/dataset.py
+++ b/allantools/dataset.py
@@ -86,7 +86,9 @@ class Dataset(object):
                     "stat_err": None,
                     "stat_n": None,
                     "stat_unc": None,
-                    "stat_id": None}
+                    "stat_id": None,
+                    "rate": None,
+                    "data_type": None}
         self.inp["data"] = data
         self.inp["rate"] = rate
         self.inp["data_type"] = data_type
@@ -149,6 +151,8 @@ class Dataset(object):
         result = {key: result[i] for i, key in enumerate(keys)}
         out = result.copy()
         out["stat_id"] = function
+        out["rate"] = inp["rate"]
+        out["data_type"] = inp["data_type"]
         self.out = out
         return result
 
@@ -175,8 +179,8 @@ class Dataset(object):
         with io.StringIO() as fp:
             fp.write("# Generated by Allantools {}\n".format(
                 allantools.__version__))
-            fp.write("# Input data type: {}\n".format(self.inp["data_type"]))
-            fp.write("# Input data rate: {}\n".format(self.inp["rate"]))
+            fp.write("# Input data type: {}\n".format(self.out["data_type"]))
+            fp.write("# Input data rate: {}\n".format(self.out["rate"]))
             for key, val in header_params.items():
                 fp.write("# {}: {}\n".format(key, val))
             # Fields
-- 
2.43.0


From 52b16dd2575035022494034c95ce8fd3ef185541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 15/28] fix: results file averaging factor is tau*rate,
 correctly rounded

---
 allantools/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/dataset.py b/allantools/dataset.py
index 52f1818..8a2512a 100644
--- a/allantools/dataset.py
+++ b/allantools/dataset.py
@@ -211,7 +211,7 @@ class Dataset(object):
                 err_lo, err_hi = stat_err/2, stat_err/2
             for i in range(len(self.out["taus"])):
                 fp.write(out_fmt.format(
-                    af=int(self.out["taus"][i] / self.out["taus"][0]),
+                    af=int(round(self.out["taus"][i] * self.out["rate"])),
                     tau=self.out["taus"][i],
                     n=int(self.out["stat_n"][i]),
                     alpha="NaN",  # Not implemented yet
-- 
2.43.0


From 464165e417703a8b96ad23db024dc49b1b7c2a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 16/28] fix: write_results formats one published result, not
 several reads of it

---
 allantools/dataset.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/allantools/dataset.py b/allantools/dataset.py
index 8a2512a..206ac8e 100644
--- a/allantools/dataset.py
+++ b/allantools/dataset.py
@@ -175,12 +175,13 @@ class Dataset(object):
         None
         """
 
+        out = self.out  # one snapshot: the file is one published result
         # format first: a refused call must not truncate an existing file
         with io.StringIO() as fp:
             fp.write("# Generated by Allantools {}\n".format(
                 allantools.__version__))
-            fp.write("# Input data type: {}\n".format(self.out["data_type"]))
-            fp.write("# Input data rate: {}\n".format(self.out["rate"]))
+            fp.write("# Input data type: {}\n".format(out["data_type"]))
+            fp.write("# Input data rate: {}\n".format(out["rate"]))
             for key, val in header_params.items():
                 fp.write("# {}: {}\n".format(key, val))
             # Fields
@@ -193,9 +194,9 @@ class Dataset(object):
                           tau="Tau",
                           n="N",
                           alpha="alpha",
-                          minsigma="min_" + self.out["stat_id"],
-                          sigma=self.out["stat_id"],
-                          maxsigma="max_" + self.out["stat_id"],
+                          minsigma="min_" + out["stat_id"],
+                          sigma=out["stat_id"],
+                          maxsigma="max_" + out["stat_id"],
                           width=digits + 5
                       )
                      )
@@ -204,20 +205,20 @@ class Dataset(object):
                        "{sigma:.{prec}e} "
                        "{maxsigma:.{prec}e} "
                        "\n")
-            stat_err = self.out["stat_err"]
+            stat_err = out["stat_err"]
             if isinstance(stat_err, list):  # gradev: lower and upper bars
                 err_lo, err_hi = stat_err
             else:
                 err_lo, err_hi = stat_err/2, stat_err/2
-            for i in range(len(self.out["taus"])):
+            for i in range(len(out["taus"])):
                 fp.write(out_fmt.format(
-                    af=int(round(self.out["taus"][i] * self.out["rate"])),
-                    tau=self.out["taus"][i],
-                    n=int(self.out["stat_n"][i]),
+                    af=int(round(out["taus"][i] * out["rate"])),
+                    tau=out["taus"][i],
+                    n=int(out["stat_n"][i]),
                     alpha="NaN",  # Not implemented yet
-                    minsigma=self.out["stat"][i] - err_lo[i],
-                    sigma=self.out["stat"][i],
-                    maxsigma=self.out["stat"][i] + err_hi[i],
+                    minsigma=out["stat"][i] - err_lo[i],
+                    sigma=out["stat"][i],
+                    maxsigma=out["stat"][i] + err_hi[i],
                     prec=digits-1,
                 ))
             text = fp.getvalue()
-- 
2.43.0


From d0bbb4321b21157650be0c9833eead38c5f15926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 17/28] fix: silence quad without editing the process-wide
 warning filters

---
 allantools/allantools.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 01a9e22..2e73009 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -112,10 +112,9 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
 import os
 import json
-import warnings
 import numpy as np
 from scipy import interpolate      # used in psd2allan()
-from scipy.integrate import simpson, quad, IntegrationWarning  # used in psd2allan()
+from scipy.integrate import simpson, quad  # used in psd2allan()
 
 from . import ci  # edf, confidence intervals
 
@@ -1890,9 +1889,10 @@ def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
     hi = []
     integral_values = []
     for i in range(Bi.size):
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore", category=IntegrationWarning)
-            I, _ = quad(lambda z: q(z) * (np.sin(z) ** 4) / (z ** (3.0 + mus[i])), 0.0, np.inf)
+        # full_output: no IntegrationWarning, without touching the
+        # process-wide warning filters
+        I = quad(lambda z: q(z) * (np.sin(z) ** 4) / (z ** (3.0 + mus[i])), 0.0, np.inf,
+                 full_output=1)[0]
         integral_values.append(I)
         hi.append(Bi[i] / (2.0 * I * (np.pi ** mus[i])))
 
@@ -1957,7 +1957,6 @@ def psd_piecewise_to_adev(h, alpha, f_nodes, taus):
     ----------
     NIST [SP1065]_, "Handbook of Frequency Stability Analysis", Eq. (65).
     """
-    #from scipy.integrate import quad, IntegrationWarning
     h = np.asarray(h, dtype=float)
     alpha = np.asarray(alpha, dtype=float)
     f_nodes = np.asarray(f_nodes, dtype=float)
@@ -1973,9 +1972,8 @@ def psd_piecewise_to_adev(h, alpha, f_nodes, taus):
         sigma_y2 = 0.0
         for i in range(h.size):
             factor = h[i] / ((np.pi * tau) ** (alpha[i] + 1.0))
-            with warnings.catch_warnings():
-                warnings.simplefilter("ignore", category=IntegrationWarning)
-                I, _ = quad(integrand, np.pi * tau * edges[i], np.pi * tau * edges[i + 1], args=(alpha[i],))
+            I = quad(integrand, np.pi * tau * edges[i], np.pi * tau * edges[i + 1], args=(alpha[i],),
+                     full_output=1)[0]
             sigma_y2 += factor * I
         adev[k] = np.sqrt(2.0 * sigma_y2)
 
-- 
2.43.0


From 9ea287cfa45daed4d58a2a3bc41ecf886764f807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 18/28] fix: mtie without the window array uses the same
 windows of mj+1 samples

---
 allantools/allantools.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 2e73009..d7a7649 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1447,25 +1447,26 @@ def mtie(data, rate=1.0, data_type="phase", taus=None):
             win_min = np.min(rw, axis=1)
             tie = win_max - win_min
             dev = np.max(tie)
-        except ValueError:
+        except (ValueError, MemoryError):
             if int(mj + 1) < 1:
                 raise ValueError("`window` must be at least 1.")
             if int(mj + 1) > phase.shape[-1]:
                 raise ValueError("`window` is too long.")
 
             mj = int(mj)
-            currMax = np.max(phase[0:mj])
-            currMin = np.min(phase[0:mj])
+            # same windows as above: mj+1 samples
+            currMax = np.max(phase[0:mj + 1])
+            currMin = np.min(phase[0:mj + 1])
             dev = currMax - currMin
             for winStartIdx in range(1, int(phase.shape[0] - mj)):
                 winEndIdx = mj + winStartIdx
                 if currMax == phase[winStartIdx - 1]:
-                    currMax = np.max(phase[winStartIdx:winEndIdx])
+                    currMax = np.max(phase[winStartIdx:winEndIdx + 1])
                 elif currMax < phase[winEndIdx]:
                     currMax = phase[winEndIdx]
 
                 if currMin == phase[winStartIdx - 1]:
-                    currMin = np.min(phase[winStartIdx:winEndIdx])
+                    currMin = np.min(phase[winStartIdx:winEndIdx + 1])
                 elif currMin > phase[winEndIdx]:
                     currMin = phase[winEndIdx]
 
-- 
2.43.0


From 57486932e4e91e3d408f7299f64cea2ecb2eb70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 19/28] fix: mtie without the window array reports NaN for
 records with missing samples

---
 allantools/allantools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index d7a7649..fe9b491 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1472,6 +1472,8 @@ def mtie(data, rate=1.0, data_type="phase", taus=None):
 
                 if dev < currMax - currMin:
                     dev = currMax - currMin
+            if np.isnan(phase).any():
+                dev = np.nan  # as np.max above; comparisons ignore NaN
 
         ncount = phase.shape[0] - mj
         devs[idx] = dev
-- 
2.43.0


From d9dba934ccdee7e46d622b3ab283e1251c348473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 20/28] fix: timmer_koenig_from_psd Hermitian symmetry for odd
 record lengths

---
 allantools/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise.py b/allantools/noise.py
index e66332e..0b841a0 100644
--- a/allantools/noise.py
+++ b/allantools/noise.py
@@ -315,7 +315,7 @@ def timmer_koenig_from_psd(f_nodes, h, alpha, duration, timestep, output='phase'
     for j in range(1, n // 2 + 1):
         X[j] = (np.sqrt(Sx[j]) / 2.0) * (np.random.normal(0, 1) + 1j * np.random.normal(0, 1))
 
-    X[n // 2 + 1:] = np.conj(X[1:n // 2][::-1])
+    X[n // 2 + 1:] = np.conj(X[1:(n + 1) // 2][::-1])
 
     x = np.fft.ifft(X) * np.sqrt((n - 1) / timestep)
     x = x.real
-- 
2.43.0


From dce1cf2429e211cb50be7086d46cdc8674342457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 21/28] fix: timmer_koenig_from_psd density at the last node is
 not zero

---
 allantools/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise.py b/allantools/noise.py
index 0b841a0..0888c29 100644
--- a/allantools/noise.py
+++ b/allantools/noise.py
@@ -295,7 +295,7 @@ def timmer_koenig_from_psd(f_nodes, h, alpha, duration, timestep, output='phase'
     for i, f in enumerate(frequencies):
         if f_nodes.size > 0 and f < f_nodes[0]:
             Sy[i] = h_ext[0] * f ** alpha_ext[0]
-        elif f_nodes.size > 0 and f > f_nodes[-1]:
+        elif f_nodes.size > 0 and f >= f_nodes[-1]:
             Sy[i] = h_ext[-1] * f ** alpha_ext[-1]
         else:
             if f_nodes.size == 0:
-- 
2.43.0


From a0153ab8b714af775709fb8b91d98915a1d39c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:28 +0000
Subject: [PATCH 22/28] fix: Plot.save saves this plot's figure, not pyplot's
 current one

---
 allantools/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/plot.py b/allantools/plot.py
index 85a201e..4d08999 100644
--- a/allantools/plot.py
+++ b/allantools/plot.py
@@ -111,4 +111,4 @@ class Plot(object):
     def save(self, f):
         """Save figure to file
         """
-        self.plt.savefig(f)
+        self.fig.savefig(f)
-- 
2.43.0


From ac749cc1e1a168a03abffd48fc0ff1e16d9f1cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 23/28] fix: write_results refuses unencodable text before it
 truncates the file

---
 allantools/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/allantools/dataset.py b/allantools/dataset.py
index 206ac8e..51e61fa 100644
--- a/allantools/dataset.py
+++ b/allantools/dataset.py
@@ -222,5 +222,7 @@ class Dataset(object):
                     prec=digits-1,
                 ))
             text = fp.getvalue()
+        # likewise for text that the file's encoding cannot represent
+        io.TextIOWrapper(io.BytesIO()).write(text)
         with open(filename, 'w') as fp:
             fp.write(text)
-- 
2.43.0


From 3c9a8ff6c073fdde53ac081a71292565a942ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:48 +0000
Subject: [PATCH 24/28] fix: Plot.plot draws one published result, not several
 reads of it

---
 allantools/plot.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/allantools/plot.py b/allantools/plot.py
index 4d08999..adbca5e 100644
--- a/allantools/plot.py
+++ b/allantools/plot.py
@@ -82,17 +82,18 @@ class Plot(object):
             Plot grid. Defaults to False
 
         """
+        out = atDataset.out  # one snapshot: a curve is one published result
         if errorbars:
-            self.ax.errorbar(atDataset.out["taus"],
-                             atDataset.out["stat"],
-                             yerr=atDataset.out["stat_err"],
+            self.ax.errorbar(out["taus"],
+                             out["stat"],
+                             yerr=out["stat_err"],
                              **kwargs)
         else:
-            self.ax.plot(atDataset.out["taus"],
-                         atDataset.out["stat"],
+            self.ax.plot(out["taus"],
+                         out["stat"],
                          **kwargs)
         self.ax.set_xlabel("Tau")
-        self.ax.set_ylabel(atDataset.out["stat_id"])
+        self.ax.set_ylabel(out["stat_id"])
 
         if grid:
             self.ax.grid(True, which="minor", ls="-", color='0.65')
-- 
2.43.0


From 9a7f97e978c1a376034d3d527235b35542c694ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:58 +0000
Subject: [PATCH 25/28] fix: a reading that is not a number no longer poisons a
 streaming estimator

---
 allantools/realtime.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 4cbb555..01435a9 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -76,11 +76,21 @@ class dev_realtime(object):
             pass
             # print "no new AF "
 
+    def store(self, xnew):
+        """ store new phase point; raises, storing nothing, if it is not
+            a number
+        """
+        xnew = xnew + 0.0
+        float(xnew)
+        self.x.append(xnew)
+
     def add_frequency(self, f):
         """ add new frequency point, in units of Hz """
+        step = f*self.tau0 + 0.0
+        float(step)  # raises if not a number, before anything is changed
         if not self.x:  # empty sequence
             self.add_phase(0)  # initialize
-        self.add_phase(self.x[-1] + f*self.tau0)  # integration
+        self.add_phase(self.x[-1] + step)  # integration
 
     def taus(self):
         """ return taus, in unit of seconds """
@@ -108,7 +118,7 @@ class oadev_realtime(dev_realtime):
 
     def add_phase(self, xnew):
         """ add new phase point, in units of seconds """
-        self.x.append(xnew)
+        self.store(xnew)
         if self.auto_afs:
             self.update_af()
         for idx, af in enumerate(self.afs):
@@ -147,7 +157,7 @@ class ohdev_realtime(dev_realtime):
 
     def add_phase(self, xnew):
         """ add new phase point """
-        self.x.append(xnew)
+        self.store(xnew)
         if self.auto_afs:
             self.update_af()
         for idx, af in enumerate(self.afs):
@@ -183,7 +193,7 @@ class tdev_realtime(dev_realtime):
 
     def add_phase(self, xnew):
         """ add new phase point """
-        self.x.append(xnew)
+        self.store(xnew)
         if self.auto_afs:
             self.update_af()
         for idx, af in enumerate(self.afs):
-- 
2.43.0


From 62853354c7a6f7be94184ef71f13491e35b32558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:55 +0000
Subject: [PATCH 26/28] fix: a failed allocation no longer leaves an auto-mode
 estimator misaligned

---
 allantools/realtime.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 01435a9..9402e40 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -65,11 +65,13 @@ class dev_realtime(object):
             next_af = int(numpy.round(
                 pow(10.0, next_decade) * self.af_taus[next_idx]))
         if len(self.x) >= (2*next_af+1):  # can compute next AF
-            self.afs = numpy.append(self.afs, next_af)  # new AF
+            afs = numpy.append(self.afs, next_af)  # new AF
+            dev = numpy.append(self.dev, 0)  # new dev
             self.add_af()  # tell subclass to update internal variables
             # FIXME: S defined in subclass!
             # self.S = numpy.append(self.S, 0) # new S
-            self.dev = numpy.append(self.dev, 0)  # new dev
+            self.afs = afs
+            self.dev = dev
             self.af_idx = next_idx
             self.af_decade = next_decade
         else:
@@ -77,12 +79,19 @@ class dev_realtime(object):
             # print "no new AF "
 
     def store(self, xnew):
-        """ store new phase point; raises, storing nothing, if it is not
-            a number
+        """ store new phase point, in auto-AF mode also the AF it allows;
+            raises, changing nothing, if it is not a number or memory runs
+            out
         """
         xnew = xnew + 0.0
         float(xnew)
         self.x.append(xnew)
+        if self.auto_afs:
+            try:
+                self.update_af()
+            except MemoryError:
+                self.x.pop()
+                raise
 
     def add_frequency(self, f):
         """ add new frequency point, in units of Hz """
@@ -119,8 +128,6 @@ class oadev_realtime(dev_realtime):
     def add_phase(self, xnew):
         """ add new phase point, in units of seconds """
         self.store(xnew)
-        if self.auto_afs:
-            self.update_af()
         for idx, af in enumerate(self.afs):
             if len(self.x) >= (2*af+1):
                 self.update_S(idx)
@@ -158,8 +165,6 @@ class ohdev_realtime(dev_realtime):
     def add_phase(self, xnew):
         """ add new phase point """
         self.store(xnew)
-        if self.auto_afs:
-            self.update_af()
         for idx, af in enumerate(self.afs):
             if len(self.x) > 3*af:
                 self.update_S(idx)
@@ -194,8 +199,6 @@ class tdev_realtime(dev_realtime):
     def add_phase(self, xnew):
         """ add new phase point """
         self.store(xnew)
-        if self.auto_afs:
-            self.update_af()
         for idx, af in enumerate(self.afs):
             if len(self.x) >= 3*af+1:  # 3n+1 samples measured
                 self.update_S(idx)
@@ -203,8 +206,9 @@ class tdev_realtime(dev_realtime):
                 self.update_S3n(idx)
 
     def add_af(self):
-        self.S = numpy.append(self.S, 0)
+        S = numpy.append(self.S, 0)
         self.So = numpy.append(self.So, 0)
+        self.S = S
 
     def update_S3n(self, idx):
         """ Eqn (13) in Dobrogowski2007 """
-- 
2.43.0


From 79cdac350d4aad50126df332e7965a9b6f61d219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:59 +0000
Subject: [PATCH 27/28] fix: mtie_phase_fast no longer loses a missing sample
 depending on its position

python's max()/min() keep whichever operand comes first when the other is
NaN, so a missing reading either reached the window results or vanished
(and with it a neighbouring valid extreme), depending on its position.
numpy's maximum/minimum propagate it to exactly the windows that hold it.
---
 allantools/allantools.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index fe9b491..1d63f43 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1519,14 +1519,14 @@ def mtie_phase_fast(phase, rate=1.0, data_type="phase", taus=None):
         # print np.max( tie )
         for i in range(imax):
             if k == 1:
-                mtie_max[i, kidx] = max(phase[i], phase[i+1])
-                mtie_min[i, kidx] = min(phase[i], phase[i+1])
+                mtie_max[i, kidx] = np.maximum(phase[i], phase[i+1])
+                mtie_min[i, kidx] = np.minimum(phase[i], phase[i+1])
             else:
                 p = int(pow(2, k-1))
-                mtie_max[i, kidx] = max(mtie_max[i, kidx-1],
-                                        mtie_max[i+p, kidx-1])
-                mtie_min[i, kidx] = min(mtie_min[i, kidx-1],
-                                        mtie_min[i+p, kidx-1])
+                mtie_max[i, kidx] = np.maximum(mtie_max[i, kidx-1],
+                                               mtie_max[i+p, kidx-1])
+                mtie_min[i, kidx] = np.minimum(mtie_min[i, kidx-1],
+                                               mtie_min[i+p, kidx-1])
 
         # for i in range(imax):
             tie[i] = mtie_max[i, kidx] - mtie_min[i, kidx]
-- 
2.43.0


From 1fbfd134e147136d72f9ff13b96b4b0b9cc23ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:25 +0000
Subject: [PATCH 28/28] fix: mdev() no longer fails while another thread's
 sample adds an averaging factor

The factor list grows a moment before the deviations do, so a poll in between
ran past the end of its copy.
---
 allantools/realtime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 9402e40..aef09d8 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -247,7 +247,8 @@ class tdev_realtime(dev_realtime):
     def mdev(self):
         """ scale tdev to output mdev """
         mdev = self.dev.copy()
-        for idx, af in enumerate(self.afs):
+        # a factor that is just being added may not have a deviation yet
+        for idx, af in enumerate(self.afs[:len(mdev)]):
             mdev[idx] = mdev[idx]*numpy.sqrt(3)/(af*self.tau0)
         return mdev
 
-- 
2.43.0

