From 923f8613d0e158692b8303dd4ba8d3b0c233acdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 01/26] fix: real-time statistics in auto-AF mode miss the
 first term of every new AF

A new averaging factor was added after the point that makes its first second
difference available had been processed, so that term was never accumulated:
oadev_realtime divided by one term too many, and tdev_realtime carried a wrong
running sum for ever. Add the new AF before the update loop. Also skip AFs that
round to one already present, and size the result arrays by the AF list used.
---
 allantools/realtime.py | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 50d3eb9..c41e31e 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -46,7 +46,7 @@ class dev_realtime(object):
         self.af_decade = 0    # logspace decade
         if auto_afs:
             self.afs = numpy.array([1])
-        self.dev = numpy.zeros(len(afs))    # resulting xDEV
+        self.dev = numpy.zeros(len(self.afs))    # resulting xDEV
         self.tau0 = tau0                     # time-interval between points
 
     def update_af(self):
@@ -54,15 +54,18 @@ class dev_realtime(object):
             - check if we can add another AF
             - if yes, add it.
         """
-        next_idx = self.af_idx+1
+        next_idx = self.af_idx
         next_decade = self.af_decade
-        if next_idx == len(self.af_taus):
-            next_idx = 0
-            next_decade = self.af_decade + 1
-
-        # next possible AF:
-        next_af = int(numpy.round(
-            pow(10.0, next_decade) * self.af_taus[next_idx]))
+        next_af = self.afs[-1]
+        while next_af <= self.afs[-1]:  # skip AFs that round to a known AF
+            next_idx = next_idx+1
+            if next_idx == len(self.af_taus):
+                next_idx = 0
+                next_decade = next_decade + 1
+
+            # next possible AF:
+            next_af = int(numpy.round(
+                pow(10.0, next_decade) * self.af_taus[next_idx]))
         if len(self.x) >= (2*next_af+1):  # can compute next AF
             self.afs = numpy.append(self.afs, next_af)  # new AF
             self.add_af()  # tell subclass to update internal variables
@@ -103,16 +106,16 @@ class oadev_realtime(dev_realtime):
         super(oadev_realtime, self).__init__(afs=afs, tau0=tau0,
                                              auto_afs=auto_afs,
                                              pts_per_decade=pts_per_decade)
-        self.S = numpy.zeros(len(afs))      # sum-of-squares
+        self.S = numpy.zeros(len(self.afs))      # sum-of-squares
 
     def add_phase(self, xnew):
         """ add new phase point, in units of seconds """
         self.x.append(xnew)
+        if self.auto_afs:
+            self.update_af()  # before the loop: xnew counts for a new AF
         for idx, af in enumerate(self.afs):
             if len(self.x) >= (2*af+1):
                 self.update_S(idx)
-        if self.auto_afs:
-            self.update_af()
 
     def update_S(self, idx):
         """ update S, sum-of-squares.
@@ -139,7 +142,7 @@ class ohdev_realtime(dev_realtime):
         super(ohdev_realtime, self).__init__(afs=afs, tau0=tau0,
                                              auto_afs=auto_afs,
                                              pts_per_decade=pts_per_decade)
-        self.S = numpy.zeros(len(afs))      # sum-of-squares
+        self.S = numpy.zeros(len(self.afs))      # sum-of-squares
 
     def add_af(self):
         self.S = numpy.append(self.S, 0)
@@ -147,11 +150,11 @@ class ohdev_realtime(dev_realtime):
     def add_phase(self, xnew):
         """ add new phase point """
         self.x.append(xnew)
+        if self.auto_afs:
+            self.update_af()  # before the loop: xnew counts for a new AF
         for idx, af in enumerate(self.afs):
             if len(self.x) > 3*af:
                 self.update_S(idx)
-        if self.auto_afs:
-            self.update_af()
 
     def update_S(self, idx):
         """ update S, sum-of-squares """
@@ -177,21 +180,20 @@ class tdev_realtime(dev_realtime):
         super(tdev_realtime, self).__init__(afs=afs, tau0=tau0,
                                             auto_afs=auto_afs,
                                             pts_per_decade=pts_per_decade)
-        self.S = numpy.zeros(len(afs))      # sum-of-squares
-        self.So = numpy.zeros(len(afs))      # overall sum-of-squares
+        self.S = numpy.zeros(len(self.afs))      # sum-of-squares
+        self.So = numpy.zeros(len(self.afs))      # overall sum-of-squares
 
     def add_phase(self, xnew):
         """ add new phase point """
         self.x.append(xnew)
+        if self.auto_afs:
+            self.update_af()  # before the loop: xnew counts for a new AF
         for idx, af in enumerate(self.afs):
             if len(self.x) >= 3*af+1:  # 3n+1 samples measured
                 self.update_S(idx)
             elif len(self.x) >= 2*af+1:  # 2n+1 samples measured
                 self.update_S3n(idx)
 
-        if self.auto_afs:
-            self.update_af()
-
     def add_af(self):
         self.S = numpy.append(self.S, 0)
         self.So = numpy.append(self.So, 0)
-- 
2.43.0


From f60cd08f054498611b4251caa2c1dd7314317593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 02/26] fix: real-time add_frequency() ignores tau0 when
 integrating to phase

The phase step of a frequency sample is f*tau0; without tau0 every deviation
from a frequency stream was wrong by a factor 1/tau0.
---
 allantools/realtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index c41e31e..1932c66 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -79,10 +79,10 @@ class dev_realtime(object):
             # print "no new AF "
 
     def add_frequency(self, f):
-        """ add new frequency point, in units of Hz """
+        """ add new (fractional) frequency point """
         if not self.x:  # empty sequence
             self.add_phase(0)  # initialize
-        self.add_phase(self.x[-1] + f)  # integration
+        self.add_phase(self.x[-1] + f*self.tau0)  # integration
 
     def taus(self):
         """ return taus, in unit of seconds """
-- 
2.43.0


From 88fd9b5481e73c9e58c6f61995646cc447b1c6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 03/26] fix: gradev() error bars

edf and confidence were swapped in the call to confidence_interval() (NaN or
meaningless error bars), the bounds were returned instead of the documented
distances from the estimate, and of the documented noise types 'fp' was mapped
to alpha=-2 while 'ff' and 'rf' were not recognised.
---
 allantools/allantools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 8daffcf..b0e2cdd 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1652,13 +1652,18 @@ def calc_gradev_phase(data, rate, mj, stride, confidence, noisetype):
     elif noisetype == 'wf':
         alpha = 0
     elif noisetype == 'fp':
+        alpha = 1
+    elif noisetype == 'ff':
+        alpha = -1
+    elif noisetype == 'rf':
         alpha = -2
     else:
         alpha = None
 
     if n > 1:
         edf = ci.edf_simple(N, mj, alpha)
-        deverr = ci.confidence_interval(dev, confidence, edf)
+        (dev_min, dev_max) = ci.confidence_interval(dev, edf, confidence)
+        deverr = [dev - dev_min, dev_max - dev]  # distances from dev
     else:
         deverr = [0, 0]
 
-- 
2.43.0


From 8912a62fe23ad427d5f98c1ea3a8b97d5a3c55cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 04/26] fix: edf_simple() for flicker FM at m=1

[Stein1985] has 2(N-2)^2/(2.3N-4.9); without the square the result is below one
degree of freedom for every N.
---
 allantools/ci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index c4fe2bc..6c7cb2e 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -816,7 +816,7 @@ def edf_simple(N, m, alpha):
 
         if alpha == -1:
             if m == 1:
-                edf = 2 * (N - 2)/(2.3 * N - 4.9)
+                edf = 2 * (N - 2)**2/(2.3 * N - 4.9)
             if m >= 2:
                 edf = 5 * N**2 / (4 * m * (N + (3 * m)))
 
-- 
2.43.0


From d0bcf4fe47ed73fb1a5c505f5efed450bcc22ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 05/26] fix: edf_greenhall() rejects alpha=-4 in the table-2
 branch

The table has the row for alpha=-4 (Hadamard, d=3), but the assertion on the row
index stopped at alpha=-3.
---
 allantools/ci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index 6c7cb2e..4c6ff5e 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -687,7 +687,7 @@ def greenhall_table3(alpha, d):
 def greenhall_table2(alpha, d):
     """ Table 2 from [Greenhall2004]_ """
     row_idx = int(-alpha+2)  # map 2-> row0 and -4-> row6
-    assert(row_idx in [0, 1, 2, 3, 4, 5])
+    assert(row_idx in [0, 1, 2, 3, 4, 5, 6])
     col_idx = int(d-1)
     table2 = [
         # alpha = +2:
-- 
2.43.0


From 4a898eb209cc5e01d689c7969ab964d2cdfe63f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:13 +0000
Subject: [PATCH 06/26] fix: rn() and b1() noise-ID ratios for rate != 1

tau is af/rate, not af*rate, and the classical variance in b1() has to be that
of the fractional frequency rate*diff(x), like the Allan variance it is divided
by.
---
 allantools/ci.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index 4c6ff5e..80cb248 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -143,10 +143,10 @@ def rn(x, af, rate):
         ratio of MVAR to AVAR
     """
     (taus, devs, errs, ns) = at.adev(
-        x, taus=[af*rate], data_type='phase', rate=rate)
+        x, taus=[af/float(rate)], data_type='phase', rate=rate)
     oadev_x = devs[0]
     (mtaus, mdevs, errs, ns) = at.mdev(
-        x, taus=[af*rate], data_type='phase', rate=rate)
+        x, taus=[af/float(rate)], data_type='phase', rate=rate)
     mdev_x = mdevs[0]
     return pow(mdev_x/oadev_x, 2)
 
@@ -198,12 +198,12 @@ def b1(x, af, rate):
 
     """
     (taus, devs, errs, ns) = at.adev(
-        x, taus=[af*rate], data_type="phase", rate=rate)
+        x, taus=[af/float(rate)], data_type="phase", rate=rate)
     oadev_x = devs[0]
     avar = pow(oadev_x, 2.0)
 
     # variance of y, at given af
-    y = np.diff(x)
+    y = rate*np.diff(x)
     y_cut = np.array(y[:len(y)-(len(y) % af)])  # cut to length
     assert len(y_cut) % af == 0
     y_shaped = y_cut.reshape((int(len(y_cut)/af), af))
-- 
2.43.0


From e1ee42aee2e000ddcae0e67c6f7c53f57081cd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:13 +0000
Subject: [PATCH 07/26] fix: timmer_koenig_from_psd() for an odd number of
 samples

The mirrored half of the spectrum has one more element when n is odd: n=5 gave a
wrong spectrum and larger odd n raised ValueError.
---
 allantools/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise.py b/allantools/noise.py
index e66332e..0b841a0 100644
--- a/allantools/noise.py
+++ b/allantools/noise.py
@@ -315,7 +315,7 @@ def timmer_koenig_from_psd(f_nodes, h, alpha, duration, timestep, output='phase'
     for j in range(1, n // 2 + 1):
         X[j] = (np.sqrt(Sx[j]) / 2.0) * (np.random.normal(0, 1) + 1j * np.random.normal(0, 1))
 
-    X[n // 2 + 1:] = np.conj(X[1:n // 2][::-1])
+    X[n // 2 + 1:] = np.conj(X[1:(n + 1) // 2][::-1])
 
     x = np.fft.ifft(X) * np.sqrt((n - 1) / timestep)
     x = x.real
-- 
2.43.0


From 17615ccf4df7fab6e2cf57cda87f9c656d9d03f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:13 +0000
Subject: [PATCH 08/26] fix: timmer_koenig_from_psd() drops the PSD at the last
 break frequency

A frequency equal to the last node matched no interval and got Sy=0.
---
 allantools/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise.py b/allantools/noise.py
index 0b841a0..0888c29 100644
--- a/allantools/noise.py
+++ b/allantools/noise.py
@@ -295,7 +295,7 @@ def timmer_koenig_from_psd(f_nodes, h, alpha, duration, timestep, output='phase'
     for i, f in enumerate(frequencies):
         if f_nodes.size > 0 and f < f_nodes[0]:
             Sy[i] = h_ext[0] * f ** alpha_ext[0]
-        elif f_nodes.size > 0 and f > f_nodes[-1]:
+        elif f_nodes.size > 0 and f >= f_nodes[-1]:
             Sy[i] = h_ext[-1] * f ** alpha_ext[-1]
         else:
             if f_nodes.size == 0:
-- 
2.43.0


From 862f2c4fc9412f940d80461b118e2b9b84651f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:13 +0000
Subject: [PATCH 09/26] fix: adev2psd_piecewise_approx() break frequencies

Segments i and i+1 meet at tau[i+1], and continuity of the PSD puts the node at
1/(pi*tau[i+1])*(...). 10*tau[i] is the same only for taus spaced by decades; for
any other spacing the reconstructed PSD was discontinuous. When consecutive
slopes are merged the segment now extends to the last merged tau.
---
 allantools/allantools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index b0e2cdd..c74fa69 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1862,6 +1862,9 @@ def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
             mus.append(mu)
             filtered_adev.append(float(adev[i]))
             filtered_tau.append(float(taus[i]))
+        else:  # same slope: extend the current segment
+            filtered_adev[-1] = float(adev[i])
+            filtered_tau[-1] = float(taus[i])
 
     mus = np.asarray(mus, dtype=float)
     filtered_adev = np.asarray(filtered_adev, dtype=float)
@@ -1912,7 +1915,7 @@ def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
     else:
         f_nodes = np.array(
             [
-                1.0 / (10.0 * np.pi * filtered_tau[i]) *
+                1.0 / (np.pi * filtered_tau[i + 1]) *
                 (integral_values[i] / integral_values[i + 1]) ** (1.0 / (mus[i + 1] - mus[i]))
                 for i in range(mus.size - 1)
             ],
-- 
2.43.0


From c6a47b1c0b6256726bd90a4d64ed1183feb26dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:13 +0000
Subject: [PATCH 10/26] fix: psd_piecewise_to_adev() of a single power law

For one segment adev2psd_piecewise_approx() returns two plotting frequencies;
taking them for break frequencies cut the integral off at the first one.
---
 allantools/allantools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index c74fa69..1ec4619 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1965,6 +1965,8 @@ def psd_piecewise_to_adev(h, alpha, f_nodes, taus):
     alpha = np.asarray(alpha, dtype=float)
     f_nodes = np.asarray(f_nodes, dtype=float)
     taus = np.asarray(taus, dtype=float)
+    if h.size == 1:  # a single power-law has no break frequencies
+        f_nodes = f_nodes[:0]
 
     def integrand(z, a):
         return (np.sin(z) ** 4) / (z ** (2.0 - a))
-- 
2.43.0


From 75730026880a1b346df591fe6c63d04bf4d73cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:13 +0000
Subject: [PATCH 11/26] fix: averaging factor column in Dataset.write_results()

AF is tau/tau0. Dividing by the first tau is wrong when that is not tau0, and
truncating loses one for quotients such as 0.3/0.1.
---
 allantools/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/dataset.py b/allantools/dataset.py
index 0c2c505..f709aa7 100644
--- a/allantools/dataset.py
+++ b/allantools/dataset.py
@@ -196,7 +196,7 @@ class Dataset(object):
                        "\n")
             for i in range(len(self.out["taus"])):
                 fp.write(out_fmt.format(
-                    af=int(self.out["taus"][i] / self.out["taus"][0]),
+                    af=int(round(self.out["taus"][i] * self.inp["rate"])),
                     tau=self.out["taus"][i],
                     n=int(self.out["stat_n"][i]),
                     alpha="NaN",  # Not implemented yet
-- 
2.43.0


From ac8981d1b81401330119c85771bd41354a0e0bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:13 +0000
Subject: [PATCH 12/26] fix: Dataset.write_results() fails on gradev results

gradev() returns separate lower and upper error arrays.
---
 allantools/dataset.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/allantools/dataset.py b/allantools/dataset.py
index f709aa7..863187e 100644
--- a/allantools/dataset.py
+++ b/allantools/dataset.py
@@ -194,15 +194,18 @@ class Dataset(object):
                        "{sigma:.{prec}e} "
                        "{maxsigma:.{prec}e} "
                        "\n")
+            if isinstance(self.out["stat_err"], list):  # lower, upper (gradev)
+                (err_l, err_h) = self.out["stat_err"]
+            else:
+                err_l = err_h = self.out["stat_err"]/2
             for i in range(len(self.out["taus"])):
                 fp.write(out_fmt.format(
                     af=int(round(self.out["taus"][i] * self.inp["rate"])),
                     tau=self.out["taus"][i],
                     n=int(self.out["stat_n"][i]),
                     alpha="NaN",  # Not implemented yet
-                    minsigma=self.out["stat"][i] - self.out["stat_err"][i]/2,
+                    minsigma=self.out["stat"][i] - err_l[i],
                     sigma=self.out["stat"][i],
-                    maxsigma=(self.out["stat"][i] +
-                              self.out["stat_err"][i]/2),
+                    maxsigma=self.out["stat"][i] + err_h[i],
                     prec=digits-1,
                 ))
-- 
2.43.0


From 03eca51e03ee9da2d02068f15a3f29e5074af62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:13 +0000
Subject: [PATCH 13/26] fix: numpy_psd() frequency axis for an odd number of
 samples

The last bin is at f_sample/2 only when the number of samples is even.
---
 allantools/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise.py b/allantools/noise.py
index 0888c29..b43a708 100644
--- a/allantools/noise.py
+++ b/allantools/noise.py
@@ -46,7 +46,7 @@ def numpy_psd(x, f_sample=1.0):
     """
     psd_of_x = ((2.0 / (float(len(x)) * f_sample))
                 * np.abs(np.fft.rfft(x))**2)
-    f_axis = np.linspace(0, f_sample/2.0, len(psd_of_x))  # frequency axis
+    f_axis = np.fft.rfftfreq(len(x), 1.0/f_sample)  # frequency axis
     return f_axis, psd_of_x
 
 
-- 
2.43.0


From cabfa692933fc1c93df4a7e7b64985f42ce72535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:13 +0000
Subject: [PATCH 14/26] fix: htotdev() with leading or trailing NaNs in
 frequency data

All other statistics trim them (issue #60); htotdev() did so only at m=1 and
returned NaN for all longer averaging times.
---
 allantools/allantools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 1ec4619..f5d8259 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1140,7 +1140,7 @@ def htotdev(data, rate=1.0, data_type="phase", taus=None):
         freq = phase2frequency(phase, rate)
     elif data_type == "freq":
         phase = frequency2phase(data, rate)
-        freq = data
+        freq = trim_data(data)  # as in frequency2phase()
     else:
         raise Exception("unknown data_type: " + data_type)
 
-- 
2.43.0


From 38ea1692619c2891b78c7e8ec2a1e4e0e8cbb7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:13 +0000
Subject: [PATCH 15/26] fix: psd2allan() fails for frequency steps that are not
 exact in binary

np.arange() with a float step can return one element too many, which made the
interpolation raise ValueError (e.g. 7 points at 0.3 Hz).
---
 allantools/allantools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index f5d8259..bef34af 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1735,8 +1735,8 @@ def psd2allan(S_y, f=1.0, kind='adev', base=2):
         raise ValueError(np.ndarray)  # raise error
     oversamplingfactor = 4
     df0 = oversamplingfactor * df
-    f0 = np.arange(S_y.size * df0, step=df0)
-    f = np.arange(df, (S_y.size - 1) * df0 + df, df)
+    f0 = df0 * np.arange(S_y.size)
+    f = df * np.arange(1, (S_y.size - 1) * oversamplingfactor + 1)
     S_y = interpolate.interp1d(f0, S_y, kind='cubic')(f)
     f = f / oversamplingfactor
 
-- 
2.43.0


From 615a78e7a4676f6b31ee6f7cc6cd0d26cb909476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:30 +0000
Subject: [PATCH 16/26] fix: confidence_interval_noiseID() edf for frequency
 data

edf_greenhall() takes the number of phase observations, which is one more than
the number of frequency observations.
---
 allantools/ci.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index 80cb248..69f6e72 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -110,20 +110,23 @@ def confidence_interval_noiseID(x, dev, af, dev_type="adev",
         x, int(af), data_type=data_type, dmin=0, dmax=dmax)[0]
 
     # 2) EDF (tes was 'is')
+    num_phase = len(x)  # edf_greenhall() wants the number of phase points
+    if data_type == "freq":
+        num_phase = len(x) + 1
     if dev_type == "adev":
-        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=num_phase,
                             overlapping=False, modified=False)
     elif dev_type == "oadev":
-        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=num_phase,
                             overlapping=True, modified=False)
     elif (dev_type == "mdev") or (dev_type == "tdev"):
-        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=num_phase,
                             overlapping=True, modified=True)
     elif dev_type == "hdev":
-        edf = edf_greenhall(alpha=alpha_int, d=3, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=3, m=af, N=num_phase,
                             overlapping=False, modified=False)
     elif dev_type == "ohdev":
-        edf = edf_greenhall(alpha=alpha_int, d=3, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=3, m=af, N=num_phase,
                             overlapping=True, modified=False)
     else:
         raise NotImplementedError
-- 
2.43.0


From 0f79f1d24738e5e563c86d303280aabd58aa476c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 17/26] fix: gradev() fails when as many samples are present as
 the averaging factor

edf_simple() divided by zero for white PM when m equals the number of
present samples, so a record with gaps could make gradev() raise
ZeroDivisionError instead of returning nan error bars for that tau.
---
 allantools/ci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index 69f6e72..59656a6 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -801,7 +801,7 @@ def edf_simple(N, m, alpha):
 
     """
 
-    N = float(N)
+    N = np.float64(N)  # so that an undefined edf is nan or inf, not an exception
     m = float(m)
     if alpha in [2, 1, 0, -1, -2]:
         # NIST SP 1065, Table 5
-- 
2.43.0


From 77b481a49e99c61ca26ee0c2983ff33ba5193ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 18/26] fix: pdev_from_qd() coefficient for flicker PM

PVAR of flicker PM is 3[ln(16)-1]/(2 pi^2) h_1/tau^2 (Vernotte 2015, Table I);
the misplaced parenthesis gave a 17% too large PDEV.
---
 allantools/noise_kasdin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise_kasdin.py b/allantools/noise_kasdin.py
index ae5f253..7714ffa 100644
--- a/allantools/noise_kasdin.py
+++ b/allantools/noise_kasdin.py
@@ -340,7 +340,7 @@ class Noise(object):
             coeff = 3.0/(2.0*pow(np.pi, 2))  # Vernotte Table I
         elif self.b == -1:
             # D, Flicker PM, tau^-1
-            coeff = (3.0*np.log(16)-1.0)/2.0/pow(np.pi, 2)
+            coeff = 3.0*(np.log(16)-1.0)/2.0/pow(np.pi, 2)
         elif self.b == -2:  # C, white FM,  1/sqrt(tau)
             coeff = 3.0/5.0
         elif self.b == -3:
-- 
2.43.0


From 3b6ed3828566c3adf063b797d284ab36423fd275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 19/26] fix: PSD/ADEV transfer-function integrals over many
 periods

psd_piecewise_to_adev() integrated sin^4(z)/z^(2-alpha) over each segment with
one quad() call. When tau times a break frequency is large the segment spans
many periods and quad() misses the region that matters, e.g.
psd_piecewise_to_adev([1, 10], [-2, -1], [10], [3e4]) was 0. For the same
reason the coefficients from adev2psd_piecewise_approx() were wrong by up to
a factor of 10 for slopes approaching tau^-1 (white/flicker PM). Expand the
powers of sin(z) beyond the first periods.
---
 allantools/allantools.py | 57 +++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index bef34af..d83eee3 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1848,9 +1848,6 @@ def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
     if vt not in ("adev", "hdev"):
         raise ValueError("vartype must be 'adev' or 'hdev'.")
 
-    def q(z):
-        return 1.0 if vt == "adev" else (4.0 / 3.0) * (np.sin(z) ** 2)
-
     # --- match your original filtering of mu segments ---
     mus = []
     filtered_adev = [float(adev[0])]
@@ -1893,9 +1890,7 @@ def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
     hi = []
     integral_values = []
     for i in range(Bi.size):
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore", category=IntegrationWarning)
-            I, _ = quad(lambda z: q(z) * (np.sin(z) ** 4) / (z ** (3.0 + mus[i])), 0.0, np.inf)
+        I = _transfer_integral(0.0, np.inf, -3.0 - mus[i], vt)
         integral_values.append(I)
         hi.append(Bi[i] / (2.0 * I * (np.pi ** mus[i])))
 
@@ -1968,9 +1963,6 @@ def psd_piecewise_to_adev(h, alpha, f_nodes, taus):
     if h.size == 1:  # a single power-law has no break frequencies
         f_nodes = f_nodes[:0]
 
-    def integrand(z, a):
-        return (np.sin(z) ** 4) / (z ** (2.0 - a))
-
     edges = np.concatenate(([0.0], f_nodes, [np.inf]))
     adev = np.empty_like(taus, dtype=float)
 
@@ -1978,14 +1970,53 @@ def psd_piecewise_to_adev(h, alpha, f_nodes, taus):
         sigma_y2 = 0.0
         for i in range(h.size):
             factor = h[i] / ((np.pi * tau) ** (alpha[i] + 1.0))
-            with warnings.catch_warnings():
-                warnings.simplefilter("ignore", category=IntegrationWarning)
-                I, _ = quad(integrand, np.pi * tau * edges[i], np.pi * tau * edges[i + 1], args=(alpha[i],))
+            I = _transfer_integral(np.pi * tau * edges[i], np.pi * tau * edges[i + 1], alpha[i] - 2.0)
             sigma_y2 += factor * I
         adev[k] = np.sqrt(2.0 * sigma_y2)
 
     return adev
-    
+
+
+def _transfer_integral(z0, z1, p, vartype="adev"):
+    """
+    Integral from z0 to z1 of q(z) * sin^4(z) * z^p
+
+    with q(z)=1 (ADEV) and q(z)=(4/3)sin^2(z) (HDEV). Beyond the first few
+    periods the powers of sin(z) are expanded in a constant and cosines, since
+    general-purpose quadrature fails on ranges with many periods.
+    """
+    if vartype == "adev":
+        mean, cosines = 3.0/8.0, ((2, -1.0/2.0), (4, 1.0/8.0))
+    else:
+        mean, cosines = 5.0/12.0, ((2, -5.0/8.0), (4, 1.0/4.0), (6, -1.0/24.0))
+
+    def integrand(z):
+        q = 1.0 if vartype == "adev" else (4.0 / 3.0) * (np.sin(z) ** 2)
+        return q * (np.sin(z) ** 4) * z ** p
+
+    zc = z1  # start of the expanded range
+    if np.isfinite(z1) or p < -1.0:
+        zc = min(max(z0, 10.0 * np.pi), z1)
+
+    with warnings.catch_warnings():
+        warnings.simplefilter("ignore", category=IntegrationWarning)
+        total = 0.0
+        if 0.0 < z0 < 1.0:  # z^(p+4) may rise steeply here, use log(z)
+            zs = min(1.0, zc)
+            total += quad(lambda u: integrand(np.exp(u)) * np.exp(u),
+                          np.log(z0), np.log(zs), epsabs=0.0, limit=100)[0]
+            z0 = zs
+        total += quad(integrand, z0, zc, epsabs=0.0, limit=100)[0]
+        if zc < z1:
+            if p == -1.0:
+                total += mean * np.log(z1 / zc)
+            else:
+                total += mean * (z1 ** (p + 1.0) - zc ** (p + 1.0)) / (p + 1.0)
+            for k, a in cosines:
+                total += a * zc ** p * quad(lambda z: (z / zc) ** p, zc, z1, weight='cos', wvar=k)[0]
+    return total
+
+
 ########################################################################
 #
 #  Various helper functions and utilities
-- 
2.43.0


From 4d026ea9e32fe0f29a028de751224f367b8795bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 20/26] fix: Plot.save() saves the current figure instead of
 its own

With more than one figure open pyplot.savefig() writes whichever figure is
current.
---
 allantools/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/plot.py b/allantools/plot.py
index 85a201e..4d08999 100644
--- a/allantools/plot.py
+++ b/allantools/plot.py
@@ -111,4 +111,4 @@ class Plot(object):
     def save(self, f):
         """Save figure to file
         """
-        self.plt.savefig(f)
+        self.fig.savefig(f)
-- 
2.43.0


From 64148d6d19f03c2c8fe9c9102dcc284b47ff52b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 21/26] fix: Plot.plot() leaves the minor grid on

grid(False) turns off the major grid only, so a plot without grid after one
with grid kept the minor grid lines.
---
 allantools/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/plot.py b/allantools/plot.py
index 4d08999..570b9c7 100644
--- a/allantools/plot.py
+++ b/allantools/plot.py
@@ -98,7 +98,7 @@ class Plot(object):
             self.ax.grid(True, which="minor", ls="-", color='0.65')
             self.ax.grid(True, which="major", ls="-", color='0.25')
         else:
-            self.ax.grid(False)
+            self.ax.grid(False, which="both")
 
     def show(self):
         """Calls matplotlib.pyplot.show()
-- 
2.43.0


From 9fa45bfb6872cb616cc0e87de66a067294cb8709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:40 +0000
Subject: [PATCH 22/26] fix: integer samples wrap around in the deviations

Phase given as an integer array (uint8...int64, e.g. time-stamps in
picoseconds) overflowed silently in the differences and their squares.
---
 allantools/allantools.py | 20 ++++++++++++++++----
 allantools/ci.py         |  2 +-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index d83eee3..2cb9647 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1136,11 +1136,11 @@ def htotdev(data, rate=1.0, data_type="phase", taus=None):
 
     """
     if data_type == "phase":
-        phase = data
+        phase = integers_to_float(data)
         freq = phase2frequency(phase, rate)
     elif data_type == "freq":
         phase = frequency2phase(data, rate)
-        freq = trim_data(data)  # as in frequency2phase()
+        freq = trim_data(integers_to_float(data))  # as in frequency2phase()
     else:
         raise Exception("unknown data_type: " + data_type)
 
@@ -2027,13 +2027,25 @@ def input_to_phase(data, rate, data_type):
     """ Take either phase or frequency as input and return phase
     """
     if data_type == "phase":
-        return data
+        return integers_to_float(data)
     elif data_type == "freq":
         return frequency2phase(data, rate)
     else:
         raise Exception("unknown data_type: " + data_type)
 
 
+def integers_to_float(data):
+    """ Convert integer samples to float
+
+    Differences and squares of integer arrays silently wrap around when they
+    exceed the range of the integer type (e.g. time-stamps in picoseconds)
+    """
+    data = np.asanyarray(data)
+    if data.dtype.kind in "biu":
+        data = data.astype(float)
+    return data
+
+
 def tau_generator(data, rate, taus=None, v=False, even=False, maximum_m=-1):
     """ pre-processing of the tau-list given by the user (Helper function)
 
@@ -2416,7 +2428,7 @@ def phase2frequency(phase, rate):
     y: np.array
         Data array of fractional frequency, length N-1
     """
-    y = rate*np.diff(phase)
+    y = rate*np.diff(integers_to_float(phase))
     return y
 
 
diff --git a/allantools/ci.py b/allantools/ci.py
index 59656a6..b162597 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -206,7 +206,7 @@ def b1(x, af, rate):
     avar = pow(oadev_x, 2.0)
 
     # variance of y, at given af
-    y = rate*np.diff(x)
+    y = at.phase2frequency(x, rate)
     y_cut = np.array(y[:len(y)-(len(y) % af)])  # cut to length
     assert len(y_cut) % af == 0
     y_shaped = y_cut.reshape((int(len(y_cut)/af), af))
-- 
2.43.0


From 356260525187f1f318d666dee09086932c4f8ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:38 +0000
Subject: [PATCH 23/26] fix: taus given in float32 or float16 reduce the
 precision of the results

---
 allantools/allantools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 2cb9647..6c0cb4a 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -2126,7 +2126,7 @@ def tau_generator(data, rate, taus=None, v=False, even=False, maximum_m=-1):
             taus.append(2.0*(1.0/rate)*pow(10.0, k))
             taus.append(4.0*(1.0/rate)*pow(10.0, k))
 
-    data, taus = np.array(data), np.array(taus)
+    data, taus = np.array(data), np.array(taus, dtype=float)
     rate = float(rate)
     m = []  # integer averaging factor. tau = m*tau0
 
-- 
2.43.0


From 84f938678fefe33da4e1b44447d4beb53a5c0aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:14 +0000
Subject: [PATCH 24/26] fix: realtime statistics overflow when samples are
 numpy integers

---
 allantools/realtime.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 1932c66..461f2a3 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -82,8 +82,18 @@ class dev_realtime(object):
         """ add new (fractional) frequency point """
         if not self.x:  # empty sequence
             self.add_phase(0)  # initialize
+        if isinstance(f, numpy.integer):
+            f = float(f)
         self.add_phase(self.x[-1] + f*self.tau0)  # integration
 
+    def append_phase(self, xnew):
+        """ append to phase time-series, without the fixed-width
+            integer types of numpy (their differences may overflow)
+        """
+        if isinstance(xnew, numpy.integer):
+            xnew = float(xnew)
+        self.x.append(xnew)
+
     def taus(self):
         """ return taus, in unit of seconds """
         return self.tau0*numpy.array(self.afs)
@@ -110,7 +120,7 @@ class oadev_realtime(dev_realtime):
 
     def add_phase(self, xnew):
         """ add new phase point, in units of seconds """
-        self.x.append(xnew)
+        self.append_phase(xnew)
         if self.auto_afs:
             self.update_af()  # before the loop: xnew counts for a new AF
         for idx, af in enumerate(self.afs):
@@ -149,7 +159,7 @@ class ohdev_realtime(dev_realtime):
 
     def add_phase(self, xnew):
         """ add new phase point """
-        self.x.append(xnew)
+        self.append_phase(xnew)
         if self.auto_afs:
             self.update_af()  # before the loop: xnew counts for a new AF
         for idx, af in enumerate(self.afs):
@@ -185,7 +195,7 @@ class tdev_realtime(dev_realtime):
 
     def add_phase(self, xnew):
         """ add new phase point """
-        self.x.append(xnew)
+        self.append_phase(xnew)
         if self.auto_afs:
             self.update_af()  # before the loop: xnew counts for a new AF
         for idx, af in enumerate(self.afs):
-- 
2.43.0


From 65a77383d19263dcaa711d48c1ba49cc18c3a63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:20 +0000
Subject: [PATCH 25/26] fix: frequency2fractional overflows for integer arrays
 with a given mean frequency

---
 allantools/allantools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 6c0cb4a..38268be 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -2452,7 +2452,7 @@ def frequency2fractional(frequency, mean_frequency=-1):
         mu = np.mean(frequency)
     else:
         mu = mean_frequency
-    y = [(x-mu)/mu for x in frequency]
+    y = [(x-mu)/mu for x in integers_to_float(frequency)]
     return y
 
 # end of file allantools.py
-- 
2.43.0


From ee620a01fd1abefc9b0f3aeb8fa7c52484723d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:10 +0000
Subject: [PATCH 26/26] fix: realtime deviations overflow when tau0 is a numpy
 integer

---
 allantools/realtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 461f2a3..182ac12 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -47,7 +47,7 @@ class dev_realtime(object):
         if auto_afs:
             self.afs = numpy.array([1])
         self.dev = numpy.zeros(len(self.afs))    # resulting xDEV
-        self.tau0 = tau0                     # time-interval between points
+        self.tau0 = float(tau0)              # time-interval between points
 
     def update_af(self):
         """ used in auto-AF mode,
-- 
2.43.0

