From 477730a811e3551cc60b4dd50c98f27eab83cb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 01/78] fix: wrap the parabolic interpolation around at the
 last delay bin

An interpolated fit whose best bin is the last one indexed past the end of
the chi2 array and raised IndexError. The delay axis is cyclic.
---
 qetpy/core/_fitting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 4c9b45e..e398cea 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -294,8 +294,11 @@ class OptimumFilter(object):
 
         sf = 1 / (2 * delta**2)
 
-        a = sf * (vals[bestind + 1] - 2 * vals[bestind] + vals[bestind - 1])
-        b = sf * delta * (vals[bestind + 1] - vals[bestind - 1])
+        # the delay axis is cyclic, as is indexing with -1
+        nextind = (bestind + 1) % len(vals)
+
+        a = sf * (vals[nextind] - 2 * vals[bestind] + vals[bestind - 1])
+        b = sf * delta * (vals[nextind] - vals[bestind - 1])
         c = sf * 2 * delta**2 * vals[bestind]
 
         if t_interp is None:
-- 
2.43.0


From 69e3002dca9049f103a173a621fe351b573e973d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 02/78] fix: round the first pulse's time to its bin in the
 pileup fits

t1 = k / fs gives t1 * fs just below k for many (k, fs), so that truncation
took the filtered signal of the wrong bin for the chi2.
---
 qetpy/core/_fitting.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index e398cea..965047d 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -690,10 +690,10 @@ class OptimumFilter(object):
 
         a2s = self.signalfilt_td - a1 * templatefilt_td / self.norm
 
-        if t1<0:
-            t1ind = int(t1 * self.fs + self.nbins)
-        else:
-            t1ind = int(t1 * self.fs)
+        # round, as t1 * fs can be just below the integer bin number
+        t1ind = int(np.round(t1 * self.fs))
+        if t1ind < 0:
+            t1ind += self.nbins
 
         # do a1 part of chi2
         chit = (
@@ -1297,10 +1297,10 @@ def ofamp_pileup(signal, template, inputpsd, fs, a1=None, t1=None,
     # first fitting part of chi2
     chit = (a1**2 + a2s**2) * norm + 2 * a1 * a2s * templatefilt_td
 
-    if t1<0:
-        t1ind = int(t1 * fs + nbins)
-    else:
-        t1ind = int(t1 * fs)
+    # round, as t1 * fs can be just below the integer bin number
+    t1ind = int(np.round(t1 * fs))
+    if t1ind < 0:
+        t1ind += nbins
 
     # last part of chi2
     chil = (
-- 
2.43.0


From 06ba3720f5659a4964b386070fdd5e22ed5ff95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 03/78] fix: normalise the coincident amplitudes of the
 stationary pileup fit

At zero relative delay the two amplitudes share the best single-pulse
amplitude; they were divided by the filter norm once too often.
---
 qetpy/core/_fitting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 965047d..c8fa58a 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -830,8 +830,8 @@ class OptimumFilter(object):
         ) / denom[1:]
 
         # calculate the zero freq bins to avoid divide by zero
-        a1s[0] = self.signalfilt_td[0] / (2 * self.norm)
-        a2s[0] = self.signalfilt_td[0] / (2 * self.norm)
+        a1s[0] = self.signalfilt_td[0] / 2
+        a2s[0] = self.signalfilt_td[0] / 2
 
         # signal part of chi^2
         if self.chi0 is None:
@@ -1428,8 +1428,8 @@ def ofamp_pileup_stationary(signal, template, inputpsd, fs, coupling='AC',
     ) / denom[1:]
 
     # calculate the zero freq bins to avoid divide by zero
-    a1s[0] = signalfilt_td[0] / (2 * norm**2)
-    a2s[0] = signalfilt_td[0] / (2 * norm**2)
+    a1s[0] = signalfilt_td[0] / (2 * norm)
+    a2s[0] = signalfilt_td[0] / (2 * norm)
 
     # signal part of chi^2
     chi0 = np.real(np.dot(v.conjugate() / psd, v)) * df
-- 
2.43.0


From 249abae48f3320566647dd5f76d3d0f2aa9d55bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 04/78] fix: return the no-pulse answer when a window allows no
 delay

ofamp, ofamp_pileup and the stationary pileup fits indexed with NaN and
raised IndexError when the requested window left no delay to choose from;
OptimumFilter.ofamp_withdelay already returns zero amplitude and shift.
---
 qetpy/core/_fitting.py | 54 +++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index c8fa58a..130f91d 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -865,10 +865,17 @@ class OptimumFilter(object):
         )
 
         # get best fit values
-        a1 = a1s[bestind]
-        a2 = a2s[bestind]
-        chi2 = chi[bestind]
-        t2 = self.times[bestind]
+        if np.isnan(bestind):
+            # no time shift is allowed
+            a1 = self.signalfilt_td[0]
+            a2 = 0.0
+            chi2 = self.chi0 - a1**2 * self.norm
+            t2 = 0.0
+        else:
+            a1 = a1s[bestind]
+            a2 = a2s[bestind]
+            chi2 = chi[bestind]
+            t2 = self.times[bestind]
 
         return a1, a2, t2, chi2
 
@@ -1137,9 +1144,15 @@ def ofamp(signal, template, inputpsd, fs, withdelay=True, coupling='AC',
             chi, nconstrain=nconstrain, lgcoutsidewindow=lgcoutsidewindow,
         )
 
-        amp = np.diag(amps[:, bestind])
-        chi2 = np.diag(chi[:, bestind])
-        t0 = (bestind - nbins//2) / fs
+        if np.any(np.isnan(bestind)):
+            # no time shift is allowed
+            amp = np.zeros(len(chi0))
+            chi2 = chi0
+            t0 = np.zeros(len(chi0))
+        else:
+            amp = np.diag(amps[:, bestind])
+            chi2 = np.diag(chi[:, bestind])
+            t0 = (bestind - nbins//2) / fs
 
     else:
         # compute OF amplitude no delay
@@ -1321,9 +1334,15 @@ def ofamp_pileup(signal, template, inputpsd, fs, a1=None, t1=None,
     )
 
     # get best fit values
-    a2 = a2s[bestind]
-    chi2 = chi[bestind]
-    t2 = times[bestind]
+    if np.isnan(bestind):
+        # no time shift is allowed
+        a2 = 0.0
+        t2 = 0.0
+        chi2 = chi0 + a1**2 * norm - 2 * a1 * signalfilt_td[t1ind] * norm
+    else:
+        a2 = a2s[bestind]
+        chi2 = chi[bestind]
+        t2 = times[bestind]
 
     return a1, t1, a2, t2, chi2
 
@@ -1453,10 +1472,17 @@ def ofamp_pileup_stationary(signal, template, inputpsd, fs, coupling='AC',
     )
 
     # get best fit values
-    a1 = a1s[bestind]
-    a2 = a2s[bestind]
-    chi2 = chi[bestind]
-    t2 = times[bestind]
+    if np.isnan(bestind):
+        # no time shift is allowed
+        a1 = signalfilt_td[0] / norm
+        a2 = 0.0
+        chi2 = chi0 - a1**2 * norm
+        t2 = 0.0
+    else:
+        a1 = a1s[bestind]
+        a2 = a2s[bestind]
+        chi2 = chi[bestind]
+        t2 = times[bestind]
 
     return a1, a2, t2, chi2
 
-- 
2.43.0


From 86e0b4a8d51be9e27072e44d754d5b8503e0d6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 05/78] fix: get_muon_cut used an undefined array

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 9065e4a..81e463e 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -800,7 +800,7 @@ def get_muon_cut(traces, thresh_pct = 0.95, nsatbins = 600):
         peak_loc = np.argmax(trace)
         # check that the peak is saturated (this should be true for muons that saturate the
         # detector or muon that rail the amplifier) 
-        if ((peak_loc + int(nsatbins)) < arr.shape[-1]):
+        if ((peak_loc + int(nsatbins)) < traces.shape[-1]):
             if (trace[peak_loc+int(nsatbins)] >= trace_max*thresh_pct):
                 muon_cut[ii] = True                    
     return muon_cut
-- 
2.43.0


From d27381e19e43c9928d63679e0d010cea28764379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 06/78] fix: raise ValueError for an unknown outlier algorithm

---
 qetpy/cut/_cut.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 81e463e..8b3056b 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -456,7 +456,7 @@ def pileupcut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, removemean
     elif outlieralgo=="iterstat":
         cpileup = iterstat(abs(amps), cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
 
     return cpileup
 
@@ -537,7 +537,7 @@ def slopecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=Fal
     elif outlieralgo=="iterstat":
         cslope = iterstat(slopes[czeromeanslopeinds], cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
     cslopeinds = czeromeanslopeinds[cslope]
 
     cslopetot = np.ones(len(traces), dtype=bool)
@@ -599,7 +599,7 @@ def baselinecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=
     elif outlieralgo=="iterstat":
         cbaseline = iterstat(tracebegin, cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
 
     return cbaseline
 
@@ -654,7 +654,7 @@ def chi2cut(traces, fs=625e3, outlieralgo="iterstat", nsig=2):
     elif outlieralgo=="iterstat":
         cchi2 = iterstat(chi2, cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
 
     return cchi2
 
-- 
2.43.0


From bde0352d42ce5e0a7bbe8d010988e29ebafcc981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 07/78] fix: slopecut never cut any trace

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 8b3056b..4843cfa 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -540,7 +540,7 @@ def slopecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=Fal
         raise ValueError("Unknown outlier algorithm inputted.")
     cslopeinds = czeromeanslopeinds[cslope]
 
-    cslopetot = np.ones(len(traces), dtype=bool)
+    cslopetot = np.zeros(len(traces), dtype=bool)
     cslopetot[cslopeinds] = True
 
     return cslopetot
-- 
2.43.0


From ef184be208ad44373c1ad325832f3958ba27fc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 08/78] fix: symmetrizedist did not flip mostly positive values

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 4843cfa..3ecc561 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -357,7 +357,7 @@ def symmetrizedist(vals):
 
     # if most vals are positive, flip the sign of them so we can use the same code for both negative and positive vals
     if valsmean>0.0:
-        vals= vals
+        vals = -vals
 
     # choose symmetric upper and lower bounds for histogram to make the middle bin centered on zero (since we want zero mean)
     histupr=max(vals)
-- 
2.43.0


From bcb5473f4e108faa18ef3ac8444e8adaab14448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 09/78] fix: pileupcut modified the traces it was given

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 3ecc561..9140390 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -443,7 +443,7 @@ def pileupcut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, removemean
 
     if removemeans:
         mean = np.mean(traces, axis=1)
-        traces -= mean[:, np.newaxis]
+        traces = traces - mean[:, np.newaxis]
 
     amps = np.zeros(len(traces))
 
-- 
2.43.0


From f6dc71879bda6cb42db060c1508de64a1d0790c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 10/78] fix: removeoutliers ran one iteration more than maxiter

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 9140390..9a06b13 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -43,7 +43,7 @@ def removeoutliers(x, maxiter=20, skewtarget=0.05):
         dist=np.min([abs(min(dmed)),abs(max(dmed))])
         inds=inds & (abs(dmed) < dist)
         sk=skew(x[inds])
-        if(i > maxiter):
+        if(i >= maxiter):
             break
         i+=1
 
-- 
2.43.0


From 2c6ffc2d47e9ad6c974ccf598278614069047537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 11/78] fix: itercov ran two iterations more than maxiter

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 9a06b13..a7f3482 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -321,7 +321,7 @@ def itercov(*args, nsigma=2.75, threshold=None, maxiter=15, frac_err=1e-3):
         else:
             nstable += 1
 
-        if nstable >= 2 or jj > maxiter:
+        if nstable >= 2 or jj + 1 >= maxiter:
             keepgoing = False
 
         mean_last = mean_this
-- 
2.43.0


From 4cfaa64fa045ac53c0c547592a293cc2a2a74b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 12/78] fix: autocuts failed when a stage rejected every trace

---
 qetpy/cut/_cut.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index a7f3482..7edd9c2 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -426,7 +426,7 @@ def pileupcut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, removemean
 
     """
 
-    nbin = len(traces[0])
+    nbin = traces.shape[-1]
     ind_trigger = round(nbin/2)
     time = 1.0/fs*(np.arange(1, nbin+1)-ind_trigger)
     lgc_b0 = time < 0.0
@@ -494,7 +494,7 @@ def slopecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=Fal
 
     """
 
-    nbin = len(traces[0])
+    nbin = traces.shape[-1]
     tracebegin = np.zeros(len(traces))
     traceend = np.zeros(len(traces))
 
@@ -574,7 +574,7 @@ def baselinecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=
 
     """
 
-    nbin = len(traces[0])
+    nbin = traces.shape[-1]
     tracebegin = np.zeros(len(traces))
 
     # number of periods and bins in period to determine where to calculate slopes and baselines
@@ -628,7 +628,7 @@ def chi2cut(traces, fs=625e3, outlieralgo="iterstat", nsig=2):
 
     """
 
-    nbin = len(traces[0])
+    nbin = traces.shape[-1]
     ind_trigger = round(nbin/2)
     time = 1.0/fs*(np.arange(1, nbin+1)-ind_trigger)
     lgc_b0 = time < 0.0
-- 
2.43.0


From 875a7f1a3e706427f5feeef3a61117e472bb6f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 13/78] fix: count whole periods in the cuts without rounding
 down exact multiples

---
 qetpy/cut/_cut.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 7edd9c2..6aaebc0 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -499,7 +499,7 @@ def slopecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=Fal
     traceend = np.zeros(len(traces))
 
     # number of periods and bins in period to determine where to calculate slopes and baselines
-    nperiods = np.floor((nbin/fs)*sgfreq)
+    nperiods = np.floor(nbin*sgfreq/fs)
     binsinperiod = fs/sgfreq
 
     if is_didv:
@@ -578,7 +578,7 @@ def baselinecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=
     tracebegin = np.zeros(len(traces))
 
     # number of periods and bins in period to determine where to calculate slopes and baselines
-    nperiods = np.floor((nbin/fs)*sgfreq)
+    nperiods = np.floor(nbin*sgfreq/fs)
     binsinperiod = fs/sgfreq
 
     if is_didv:
-- 
2.43.0


From 59bbe1d14a08e2ec366f8de8a9cbba1be3a4ea1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 14/78] fix: resample to a multiple of the whole denominator,
 not of its smallest prime

---
 qetpy/utils/_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 627b0e4..d2cefe1 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -104,17 +104,19 @@ def resample_factors(fs, sgfreq):
 
     rfacs = factorrat(S(int(fs)) / int(sgfreq))
     numer = [key for key in rfacs if rfacs[key] > 0]
-    denom = [key for key in rfacs if rfacs[key] < 0]
+    denom = [key**-rfacs[key] for key in rfacs if rfacs[key] < 0]
 
     if len(denom)==0:
         return 1, 1
 
     down = np.multiply.reduce(numer)
-    up = round(down / min(denom)) * min(denom)
+    # `up` must be a multiple of the full denominator of `fs`/`sgfreq`
+    multiple = np.multiply.reduce(denom)
+    up = round(down / multiple) * multiple
 
-    # round up if `sgfreq` is prime (otherwise would return 0)
+    # round up if `sgfreq` is large (otherwise would return 0)
     if up==0:
-        up = np.ceil(down / min(denom)).astype(int) * min(denom)
+        up = multiple
 
     return int(up), int(down)
 
-- 
2.43.0


From cfa887a383bdfba5dd01e8ab584a17db99d3696b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 15/78] fix: keep zeros and single values in make_decreasing

---
 qetpy/utils/_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index d2cefe1..06fb0fd 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -238,16 +238,18 @@ def make_decreasing(y, x=None):
     if x is None:
         x = np.arange(len(y))
 
-    y_dec = np.zeros(len(y))
-    y_dec[0] = y[0]
+    interp_inds = np.zeros(len(y), dtype=bool)
+    interp_inds[0] = True
     last_val = y[0]
 
     for ii, val in enumerate(y):
         if (last_val > val):
             last_val = y[ii]
-            y_dec[ii] = y[ii]
+            interp_inds[ii] = True
 
-    interp_inds = y_dec!=0
+    if interp_inds.sum() == 1:
+        # nothing to interpolate between
+        return np.full(len(y), y[0], dtype=float)
 
     f = interpolate.interp1d(
         x[interp_inds], y[interp_inds], fill_value="extrapolate",
-- 
2.43.0


From abc03f5b9e1dd3b44c5be8834c8fa28f99681bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 16/78] fix: count whole periods in calc_offset without
 rounding down exact multiples

---
 qetpy/utils/_utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 06fb0fd..e63f784 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -290,8 +290,7 @@ def calc_offset(x, fs=1.0, sgfreq=100.0, is_didv=False):
     """
 
     if is_didv:
-        period =  1.0 / sgfreq
-        period_bins = period * fs
+        period_bins = fs / sgfreq
         n_periods = int(x.shape[-1] / period_bins)
         x = x[..., :int(n_periods * period_bins)]
 
-- 
2.43.0


From c3db943e36969e0e3578ba8bc410b6147fdc37f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 17/78] fix: align_traces ignored its filter arguments

---
 qetpy/utils/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index e63f784..4b169d9 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -425,7 +425,7 @@ def align_traces(traces, lgcjustshifts=False, n_cut=5000, cut_off_freq=5000.0,
 
     # Filter and truncate all traces to speed up.
     traces_filt = lowpassfilter(
-        traces[:, :n_cut], cut_off_freq=5000, fs=625e3,
+        traces[:, :n_cut], cut_off_freq=cut_off_freq, fs=fs,
     )
     traces_temp = traces_filt - np.mean(traces_filt, axis=-1, keepdims=True)
     traces_norm = traces_temp / (np.amax(traces_temp, axis=-1, keepdims=True))
-- 
2.43.0


From b2d2d087abb814716c729be3cdbcaea278966772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 18/78] fix: join pre- and post-pulse baselines along the time
 axis

---
 qetpy/utils/_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 4b169d9..4d651eb 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -610,7 +610,9 @@ def energy_absorbed(trace, ioffset, qetbias, rload, rsh, fs=None,
         else:
             raise ValueError('Must provide indbasepre or baseline')
         if indbasepost is not None:
-            base_traces = np.hstack((base_traces, trace[..., indbasepost:]))
+            base_traces = np.concatenate(
+                (base_traces, trace[..., indbasepost:]), axis=-1,
+            )
         baseline = np.mean(base_traces, axis=-1, keepdims=True)
 
     baseline_p0 = powertrace_simple(baseline, ioffset, qetbias, rload, rsh)
-- 
2.43.0


From d4a8f6f6e1ba25e9a1b25bfa4e9c40d0724f74fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 19/78] fix: count whole periods in calc_offset exactly for
 fractional period lengths

---
 qetpy/utils/_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 4d651eb..9354558 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -290,9 +290,8 @@ def calc_offset(x, fs=1.0, sgfreq=100.0, is_didv=False):
     """
 
     if is_didv:
-        period_bins = fs / sgfreq
-        n_periods = int(x.shape[-1] / period_bins)
-        x = x[..., :int(n_periods * period_bins)]
+        n_periods = int(x.shape[-1] * sgfreq / fs)
+        x = x[..., :int(n_periods * fs / sgfreq)]
 
     offset = np.mean(np.mean(x, axis=-1), axis=0)
     std = np.std(np.mean(x, axis=-1), axis=0) / np.sqrt(x.shape[0])
-- 
2.43.0


From cbc7a042ada3092acab0be892e7e5f4fed6cd3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 20/78] fix: gen_noise replaced the zero-frequency bin of the
 caller's psd

---
 qetpy/core/_noise.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index 19d59ef..b82b665 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -148,6 +148,8 @@ def gen_noise(psd, fs=1.0, ntraces=1):
     """
     
     if np.isinf(psd[0]):
+        # do not modify the inputted psd
+        psd = np.array(psd)
         psd[0] = 0
     
     traces = np.zeros((ntraces, len(psd)))
-- 
2.43.0


From 0fd6380a2c282e8642fb096d38dacd2a2db8692e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 21/78] fix: Noise.calculate_psd doubled the zero and Nyquist
 frequencies

---
 qetpy/core/_noise.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index b82b665..b89b234 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -310,7 +310,12 @@ class Noise(object):
         psd = np.mean(psd_chan, axis = 0)*2.0/(traceshape[2]*self.fs) 
         real_psd = np.mean(real_psd_chan, axis = 0)*2.0/(traceshape[2]*self.fs)
         imag_psd = np.mean(imag_psd_chan, axis = 0)*2.0/(traceshape[2]*self.fs)  
-      
+
+        # the zero and Nyquist frequencies have no negative counterpart
+        nopartner = [0, -1] if traceshape[2] % 2 == 0 else [0]
+        for arr in (psd, real_psd, imag_psd):
+            arr[:, nopartner] /= 2.0
+
         self.psd = psd
         self.real_psd = real_psd
         self.imag_psd = imag_psd
-- 
2.43.0


From 315a3df034140b1ee855b6a2fdf92561096d2c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 22/78] fix: results of the previous traces survived
 Noise.remove_trace_slope

---
 qetpy/core/_noise.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index b89b234..cd456dc 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -282,7 +282,20 @@ class Noise(object):
                 tracenoslope[itrace][ichan] = self.traces[itrace][ichan] - s*self.time
         
         self.traces = tracenoslope
-        
+
+        # results calculated from the previous traces no longer apply
+        self.psd = None
+        self.real_psd = None
+        self.imag_psd = None
+        self.corrcoeff = None
+        self.uncorrnoise = None
+        self.corrnoise = None
+        self.real_csd = None
+        self.imag_csd = None
+        self.real_csd_std = None
+        self.imag_csd_std = None
+        self.csd = None
+
     def calculate_psd(self): 
         """
         Calculates the psd for each channel in traces. Stores psd in self.psd
-- 
2.43.0


From 7e9581d14038237ab31018fb0aab9bd670849c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 23/78] fix: Noise.plot_reim_psd ignored its arguments

---
 qetpy/core/_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index cd456dc..27d3868 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -456,7 +456,7 @@ class Noise(object):
 
         """
         
-        utils.plot_reim_psd(self, lgcsave = False, savepath = None)
+        utils.plot_reim_psd(self, lgcsave, savepath)
         
     def plot_corrcoeff(self, lgcsmooth = True, nwindow = 7,lgcsave = False, savepath = None):
         """
-- 
2.43.0


From a67f4f3d15dfebafa79b6bacc0f2c7c649b05b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 24/78] fix: compare_noise used an attribute that Noise does
 not have

---
 qetpy/plotting/_noise_plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/plotting/_noise_plotting.py b/qetpy/plotting/_noise_plotting.py
index 6861f85..3bbd908 100644
--- a/qetpy/plotting/_noise_plotting.py
+++ b/qetpy/plotting/_noise_plotting.py
@@ -474,8 +474,8 @@ def compare_noise(arr, channels, lgcdecorrelatednoise=False, lgcsave=False, save
                 plt.ylabel(r'Input Referenced Noise [A/$\sqrt{\mathrm{Hz}}$]')
                 plt.grid(which = 'both')
                 for ii in range(len(arr)):
-                    if chan in arr[ii].chann_dict:
-                        chan_index = arr[ii].chann_dict[chan] #check that the channel is in the noise object before plotting
+                    if chan in arr[ii].chandict:
+                        chan_index = arr[ii].chandict[chan] #check that the channel is in the noise object before plotting
                         #plot the de correlated noise if desired
                         if lgcdecorrelatednoise:
                             #check that de correlated noise has been calculated
-- 
2.43.0


From 519e487071eb55d56405562c9f0a310c5b21c7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 25/78] fix: compare strings by value in plot_noise_sim

---
 qetpy/plotting/_noise_plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/plotting/_noise_plotting.py b/qetpy/plotting/_noise_plotting.py
index 3bbd908..0193081 100644
--- a/qetpy/plotting/_noise_plotting.py
+++ b/qetpy/plotting/_noise_plotting.py
@@ -545,25 +545,25 @@ def plot_noise_sim(f, psd, noise_sim, istype, qetbias, lgcsave=False, figsavepat
 
     """
 
-    if istype is 'current':
+    if istype == 'current':
         fig, ax = _plot_ti_noise(f, psd, noise_sim, xlims, ylims)
         if lgcsave:
             fig.savefig(figsavepath+f'current_qetbias{qetbias*1e6:.3f}muA.png', bbox_inches='tight')
         else:
             return fig, ax 
-    elif istype is 'power':
+    elif istype == 'power':
         fig, ax = _plot_tp_noise(f, psd, noise_sim, xlims, ylims)
         if lgcsave:
             fig.savefig(figsavepath+f'power_noise_qetbias{qetbias*1e6:.3f}muA.png', bbox_inches='tight')
         else:
             return fig, ax 
-    elif istype is 'sc':
+    elif istype == 'sc':
         fig, ax = _plot_sc_noise(f, psd, noise_sim, qetbias, xlims, ylims)    
         if lgcsave:
             plt.savefig(f'{figsavepath}SC_noise_qetbias{qetbias*1e6:.3f}muA.png')
         else:
             return fig, ax 
-    elif istype is 'normal':
+    elif istype == 'normal':
         fig, ax = _plot_n_noise(f, psd, noise_sim, qetbias, xlims, ylims)    
         if lgcsave:
             plt.savefig(f'{figsavepath}normal_noise_qetbias{qetbias*1e6:.3f}muA.png')
-- 
2.43.0


From 26d115c14975b77e20d7fed6e8bba7e8445c47df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 26/78] fix: calc_psd folded the wrong axis of arrays with more
 than two dimensions

---
 qetpy/core/_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index 27d3868..bd60d50 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -78,7 +78,7 @@ def calc_psd(x, fs=1.0, folded_over=True):
             
         # multiply the necessary frequencies by two (zeroth frequency should be the same, as
         # should the last frequency when x.shape[-1] is odd)
-        psd[1:x.shape[-1]//2+1 - (x.shape[-1]+1)%2] *= 2.0
+        psd[..., 1:x.shape[-1]//2+1 - (x.shape[-1]+1)%2] *= 2.0
         f = rfftfreq(x.shape[-1], d=1.0/fs)
     else:
         # if folded_over = False, we calculate the Fourier Transform for all frequencies
-- 
2.43.0


From 754924161c3c5b4fa5f27723e5addc2aaa40763a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:33 +0000
Subject: [PATCH 27/78] fix: of_nsmb_setup failed for a single background
 template

---
 qetpy/core/_of_nsmb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index c361bf0..b85af9c 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -284,7 +284,7 @@ def of_nsmb_setup(stemplatet, btemplatet, psd, fs):
                 P[jr,jc,:] = P[jc,jr,:]
    
     # invert the background-background matrix
-    B = np.squeeze(B)
+    B = B[:,:,0]
     iB = np.linalg.pinv(B)
     
     bitcomb = [list(i) for i in itertools.product([0,1],repeat=nsb)]
-- 
2.43.0


From 98c78ecf28f99bb9d8e303ebb7f6939f44feb43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:33 +0000
Subject: [PATCH 28/78] fix: constrained nsmb fits failed when a single
 template is left

---
 qetpy/core/_of_nsmb.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index b85af9c..bfc81ee 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -149,7 +149,7 @@ def of_nsmb_getPt(Pfs, P, combind=2**20, bindelay=0, bitcomb=None, bitmask=None)
     nsbmask = np.sum(bitmask)
     
     # get indices of the nonzero elements in the mask
-    indexbitmask = np.squeeze(np.nonzero(bitmask)) 
+    indexbitmask = np.nonzero(bitmask)[0]
         
     try:
         Pmask = P[np.ix_(indexbitmask[0:ns], indexbitmask[0:nsbmask])]
@@ -449,7 +449,7 @@ def of_mb(pulset, phi, sbtemplatef, sbtemplate, iB, B, psddnu, fs, ns, nb, lfind
     bitcombfitBackground = 1 - bitcomb_forcezero
 
     numBCon = np.sum(bitcombfitBackground)
-    indexBitMaskBackground = np.squeeze(np.nonzero(bitcombfitBackground))
+    indexBitMaskBackground = np.nonzero(bitcombfitBackground)[0]
 
     tempBackgroundSum  = backgroundsum[np.ix_(indexBitMaskBackground)]
 
@@ -875,7 +875,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
         Pt_tsetMask, iPt_tsetMask = of_nsmb_getPt(Pfs, P, combind=None,
                                         bindelay=ii,bitcomb=bitcomb,bitmask=bitcombfit_it1)
         # select the elements that are not zero
-        indexBitMask = np.squeeze(np.nonzero(bitcombfit_it1))
+        indexBitMask = np.nonzero(bitcombfit_it1)[0]
         
         qt_tsetMask = qt_tset[np.ix_(indexBitMask)]
         # redo fit in collapsed space
@@ -913,7 +913,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
             Pt_tsetMask, iPt_tsetMask = of_nsmb_getPt(Pfs, P, combind=None,
                                             bindelay=ii,bitcomb=bitcomb,bitmask=bitcombfit_it2)
             # select the elements that are not zero
-            indexBitMask = np.squeeze(np.nonzero(bitcombfit_it2))
+            indexBitMask = np.nonzero(bitcombfit_it2)[0]
             
             qt_tsetMask = qt_tset[np.ix_(indexBitMask)]
             a_tsetMask = np.matmul(iPt_tsetMask,qt_tsetMask)
@@ -939,7 +939,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
             Pt_tsetMask, iPt_tsetMask = of_nsmb_getPt(Pfs, P, combind=None,
                                         bindelay=ii,bitcomb=bitcomb,bitmask=bitcombfit_it3)
             # select the elements that are not zero
-            indexBitMask = np.squeeze(np.nonzero(bitcombfit_it3))
+            indexBitMask = np.nonzero(bitcombfit_it3)[0]
 
             qt_tsetMask = qt_tset[np.ix_(indexBitMask)]
             a_tsetMask = np.matmul(iPt_tsetMask,qt_tsetMask)
-- 
2.43.0


From 0ecb19017e9461b4e92ad5d77e58d6ee68cb91b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:33 +0000
Subject: [PATCH 29/78] fix: of_nsmb modified the caller's window

---
 qetpy/core/_of_nsmb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index bfc81ee..683a045 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -567,7 +567,8 @@ def of_nsmb(pulset, phi, sbtemplatef, sbtemplate, iPt, psddnu, fs, indwindow_nsm
 
     """
 
-    indwindow = indwindow_nsmb[0]
+    # work on a copy, the window is not to be modified for the caller
+    indwindow = np.array(indwindow_nsmb[0])
 
     # === Input Dimensions ===
     pulset = np.expand_dims(pulset,1)
-- 
2.43.0


From c09905fa6555e1a8cd83232b692b5e9c866ce4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:33 +0000
Subject: [PATCH 30/78] fix: of_nsmb_con failed for a window of a single bin

---
 qetpy/core/_of_nsmb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index 683a045..fee6244 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -996,7 +996,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
     
 
     for iwin in range(ncwindow):
-        indwindow = np.squeeze(indwindow_nsmb[iwin+1]) # indwindow_nsmb[1] is the first index window        
+        indwindow = np.ravel(indwindow_nsmb[iwin+1]) # indwindow_nsmb[1] is the first index window        
         chi2min_cwindow[iwin] = np.amin(chi2newroll[indwindow])
         ind_tdel_smNew = np.argmin(chi2newroll[indwindow])
         ind_tdel_New=indwindow[ind_tdel_smNew]
-- 
2.43.0


From 8ecd39b63cddb244c2092f1fb27fb66f6b371e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:33 +0000
Subject: [PATCH 31/78] fix: of_nsmb_con failed to interpolate minima at the
 edges of the trace

---
 qetpy/core/_of_nsmb.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index fee6244..3358bbe 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -958,7 +958,8 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
         chi2new[ii] = chi2base-chi2t0setMask
         
         
-    indwindow = indwindow_nsmb[0]
+    # delays wrap around the end of the trace, as in of_nsmb
+    indwindow = np.mod(indwindow_nsmb[0], nt)
     chi2new = np.squeeze(chi2new)
     chi2min= np.amin(chi2new[indwindow])
     ind_tdel_smNew = np.argmin(chi2new[indwindow])
@@ -971,11 +972,13 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
     # such that tdelmin[0] is the template start time (in the middle of the trace)
     tdelmin = ((ind_tdel_New) - nt*(ind_tdel_New>nt/2))*dt
     bitcombfitFinal = np.squeeze(bitcombfitVec[:,ind_tdel_New])
-    timearray_chi2 = np.arange(nt)*dt 
-    time_chi2min_interp, chi2min_interp, amincon_int = _interpchi2(ind_tdel_New,
-                                                                       chi2new,
-                                                                       a_tsetnew[0,:],
-                                                                       timearray_chi2)
+    # the delay is periodic: interpolate with the periodic neighbors, which also
+    # exist when the minimum is the first or the last bin
+    ind_interp = int(ind_tdel_New[0]) + np.arange(-1, 2)
+    time_chi2min_interp, chi2min_interp, amincon_int = _interpchi2(1,
+                                                                       chi2new[ind_interp%nt],
+                                                                       a_tsetnew[0,ind_interp%nt],
+                                                                       ind_interp*dt)
 
     tdelmin_interp = (time_chi2min_interp - nt*dt*(time_chi2min_interp>(nt*dt/2)))
     
-- 
2.43.0


From cd9eaa32d5824435153916c03013d2010452bcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:33 +0000
Subject: [PATCH 32/78] fix: slope templates failed for lengths where arange
 has one more entry

---
 qetpy/core/_of_nsmb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index 3358bbe..9c4da92 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -1196,7 +1196,7 @@ def get_slope_dc_template_nsmb(nbin):
     backgroundtemplates = np.ones((nbin,2))
     
     # construct the sloped background
-    backgroundtemplates[:,-2] = np.arange(0,1,1/nbin)
+    backgroundtemplates[:,-2] = np.arange(nbin)/nbin
     
     backgroundtemplatesshifts = np.empty((2))
     backgroundtemplatesshifts[:] = np.nan
@@ -1294,7 +1294,7 @@ def maketemplate_ttlfit_nsmb(template, fs, ttlrate, lgcconstrainpolarity=False,
                 backgroundpolarityconstraint[ii] = -1
             
     # construct the sloped background for the second to last template
-    backgroundtemplates[:,-2] = np.arange(0,1,1/nbin)
+    backgroundtemplates[:,-2] = np.arange(nbin)/nbin
 
     # the slope and dc background don't have a bin shift,
     # so set these values to nan
-- 
2.43.0


From 86e8914ddcd66648645a41c2a6d2be140a66487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:39 +0000
Subject: [PATCH 33/78] fix: constrained nsmb fits could return amplitudes of
 the excluded polarity

---
 qetpy/core/_of_nsmb.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index 9c4da92..e357f84 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -448,19 +448,23 @@ def of_mb(pulset, phi, sbtemplatef, sbtemplate, iB, B, psddnu, fs, ns, nb, lfind
     # background templates that will not be forced to zero
     bitcombfitBackground = 1 - bitcomb_forcezero
 
-    numBCon = np.sum(bitcombfitBackground)
-    indexBitMaskBackground = np.nonzero(bitcombfitBackground)[0]
+    # repeat the fit until none of the fitted amplitudes is in the disallowed region
+    refit = True
+    while refit:
+        indexBitMaskBackground = np.nonzero(bitcombfitBackground)[0]
 
-    tempBackgroundSum  = backgroundsum[np.ix_(indexBitMaskBackground)]
+        B_Mask = B[np.ix_(indexBitMaskBackground, indexBitMaskBackground)]
+        iB_Mask = np.linalg.pinv(B_Mask)
 
-    B_Mask = B[np.ix_(indexBitMaskBackground, indexBitMaskBackground)]
-    iB_Mask = np.linalg.pinv(B_Mask)
+        # background only fit with only the masked backgrounds active    
+        bOnlyAConMask = iB_Mask@backgroundsum[np.ix_(indexBitMaskBackground)]
 
-    # background only fit with only the masked backgrounds active    
-    bOnlyAConMask = iB_Mask@backgroundsum[np.ix_(indexBitMaskBackground)]
+        bOnlyACon = np.zeros((nsb-ns,1))
+        bOnlyACon[np.ix_(indexBitMaskBackground)] = bOnlyAConMask
 
-    bOnlyACon = np.zeros((nsb-ns,1))
-    bOnlyACon[np.ix_(indexBitMaskBackground)] = bOnlyAConMask
+        bitcombfitnew = 1 - _index_disallowed(bOnlyACon, bkgpolarityconstraint)
+        refit = not np.array_equal(bitcombfitnew, bitcombfitBackground)
+        bitcombfitBackground = bitcombfitnew
 
     # calc chi2 of constrained background only fit
     bestFitBOnlyCon = btemplate@bOnlyACon
@@ -927,13 +931,14 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
 
         ######
         # check if any amplitudes are in disallowed region
-        # set to zero if so
+        # set to zero if so, and repeat since the new fit
+        # can move other amplitudes into the disallowed region
         ######
 
         bitcomb_forcezero = _index_disallowed(a_tsetnew[:,ii], sbpolcon)
         bitcombfit_it3 = 1 - bitcomb_forcezero
         
-        if (np.array_equal(bitcombfit_it2, bitcombfit_it3)==False):
+        while (np.array_equal(bitcombfit, bitcombfit_it3)==False):
 
             bitcombfit = bitcombfit_it3
 
@@ -950,6 +955,9 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
             # reset the a_tsetnew vector
             a_tsetnew[:,ii]=np.squeeze(a_tsetnewonet)
 
+            bitcomb_forcezero = _index_disallowed(a_tsetnew[:,ii], sbpolcon)
+            bitcombfit_it3 = 1 - bitcomb_forcezero
+
         #save the bitcombfit array
         bitcombfitVec[:,ii]= bitcombfit
             
-- 
2.43.0


From 57d6c01357b8517f2fc5143ddf5e67292d6cc825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:39 +0000
Subject: [PATCH 34/78] fix: rounding lost one of the templates of
 maketemplate_ttlfit_nsmb

---
 qetpy/core/_of_nsmb.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index e357f84..b4685be 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -1262,16 +1262,12 @@ def maketemplate_ttlfit_nsmb(template, fs, ttlrate, lgcconstrainpolarity=False,
     
     nbin = len(template)
 
-    # time between ttl triggers
-    ttltimeBetween = 1/ttlrate
-
     # bins between ttl triggers
-    ttlbinsbetween = ttltimeBetween*fs
+    ttlbinsbetween = fs/ttlrate
 
-    # how many ttl triggers in the trace
-    tLengthTrace = nbin/fs
-    
-    nTTLs = int(tLengthTrace/ttltimeBetween)
+    # how many ttl triggers in the trace (calculated such that
+    # rounding does not lose a trigger of a whole number of periods)
+    nTTLs = int(nbin*ttlrate/fs)
 
     # shift the template back by nTTLs/2*ttlbinsbetween bins
     #
-- 
2.43.0


From 866ad60ff59c32d9bb7d3e80710eb4c2a311242e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:39 +0000
Subject: [PATCH 35/78] fix: wide notch windows reached beyond the end of the
 trace

---
 qetpy/core/_of_nsmb.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index b4685be..288954e 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -1321,9 +1321,8 @@ def maketemplate_ttlfit_nsmb(template, fs, ttlrate, lgcconstrainpolarity=False,
                                      np.arange(int(backgroundtemplateshifts[ii]-lowind),
                                                int(backgroundtemplateshifts[ii]+highind+1))))
 
-    # if values of restrictind are negative wrap them around to the end of the window
-    lgcneg = restrictind<0
-    restrictind[lgcneg] = len(template)+restrictind[lgcneg]
+    # wrap values beyond the edges of the window around
+    restrictind = np.mod(restrictind, len(template))
 
     # delete the restrictedind from indwindow
     indwindow = np.delete(indwindowfull,restrictind)
-- 
2.43.0


From 0f4c8f530c48f88392d24e9b070dfd374ac34f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:21 +0000
Subject: [PATCH 36/78] fix: IV reported the fitted resistance as its own error

---
 qetpy/core/_iv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index e2af134..ed3a0dc 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -297,7 +297,7 @@ class IV(object):
         self.ioff = ioff[:,:,0]
         self.ioff_err = ioff_err[:,:,0]
         self.rfit = rfit[:,:,0]
-        self.rfit_err = rfit[:,:,0]
+        self.rfit_err = rfit_err[:,:,0]
         self.rnorm = rnorm[:,:,0]
         self.rnorm_err = rnorm_err[:,:,0]
 
-- 
2.43.0


From 9f62360b72448d034db2d95b9765035ed46c5cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:21 +0000
Subject: [PATCH 37/78] fix: IV left a load resistance given per bias point
 unset

---
 qetpy/core/_iv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index ed3a0dc..392fbc8 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -216,7 +216,11 @@ class IV(object):
             self.rload = np.swapaxes(np.tile(rload.transpose(),(niters,1,1)),0,-1)
             self.rload_err = np.swapaxes(np.tile(rload_err.transpose(),(niters,1,1)),0,-1)
 
-        elif rload.shape!=(ntemps,nch,niters):
+        elif rload.shape==(ntemps,nch,niters):
+            self.rload = rload
+            self.rload_err = rload_err
+
+        else:
             raise ValueError("the shape of rload doesn't match the data")
         
         self.chan_names = chan_names
-- 
2.43.0


From 79db8bb03ed6ba63cb042802a162797aacce2159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:21 +0000
Subject: [PATCH 38/78] fix: the normal branch lost its last point when all of
 the data are normal

---
 qetpy/core/_iv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index 392fbc8..e04cc0f 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -67,9 +67,10 @@ def _findnormalinds(vb, dites, dites_err, tol=10):
         red_chi2 = np.sum(((_fitfunc(vb[inds],*x)-dites[inds])/dites_err[inds])**2)/(end_ind-len(x))
         
         if red_chi2>tol:
+            end_ind-=1
             keepgoing = False
     
-    normalinds = range(0,end_ind-1)
+    normalinds = range(0,end_ind)
     
     return normalinds
 
-- 
2.43.0


From ddb2566c57c67a9628bc50d4eb8cba2fd6b8a48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:49 +0000
Subject: [PATCH 39/78] fix: IBIS failed for a scalar rp_guess with 1- or
 2-dimensional data

---
 qetpy/core/_ibis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 58967eb..a209bdf 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -206,8 +206,8 @@ class IBIS(object):
         self.ibias_err = np.reshape(ibias_err, (ntemps, nch, niters))
 
         if np.isscalar(rp_guess):
-            self.rp_guess = np.ones_like(dites)*rp_guess
-            self.rp_err_guess = np.ones_like(dites)*rp_err_guess
+            self.rp_guess = np.ones_like(self.dites)*rp_guess
+            self.rp_err_guess = np.ones_like(self.dites)*rp_err_guess
 
         elif rp_guess.shape==(nch,):
             self.rp_guess = np.tile(
-- 
2.43.0


From c3982a6f45dde03b77d7406ee431a1d5464f107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:49 +0000
Subject: [PATCH 40/78] fix: IBIS left rp_guess unset when it is given per bias
 point

---
 qetpy/core/_ibis.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index a209bdf..33678e0 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -227,7 +227,11 @@ class IBIS(object):
                 np.tile(rp_err_guess.transpose(), (niters,1,1)), 0, -1,
             )
 
-        elif rp_guess.shape!=(ntemps,nch,niters):
+        elif rp_guess.shape==(ntemps,nch,niters):
+            self.rp_guess = rp_guess
+            self.rp_err_guess = rp_err_guess
+
+        else:
             raise ValueError("the shape of rp_guess doesn't match the data")
 
         self.chan_names = chan_names
@@ -640,14 +644,14 @@ class IBIS(object):
                     cov[2,2] = self.dites_err[t,ch, ii]**2
                     cov[3,3] = self.ioff_err[t, ch]**2
                     cov[4,4] = self.rsh_err**2
-                    cov[5,5] = self.rp_err[t, ch]**2
+                    cov[5,5] = rp_err[t, ch, ii]**2
                     self.r0[t, ch, ii] = IBIS._rtes(
                         self.ibias[t, ch, ii],
                         self.ibias_off[t, ch],
                         self.rsh,
                         self.dites[t, ch, ii],
                         self.ioff[t, ch],
-                        self.rp[t, ch],
+                        rp[t, ch, ii],
                     )
                     self.r0_err[t, ch, ii] = IBIS._rtes_err(
                         self.ibias[t, ch, ii],
@@ -655,7 +659,7 @@ class IBIS(object):
                         self.rsh,
                         self.dites[t, ch, ii],
                         self.ioff[t, ch],
-                        self.rp[t, ch],
+                        rp[t, ch, ii],
                         cov,
                     )
                     self.ptes[t, ch, ii] = IBIS._ptes(
@@ -664,7 +668,7 @@ class IBIS(object):
                         self.rsh,
                         self.dites[t, ch, ii],
                         self.ioff[t, ch],
-                        self.rp[t, ch],
+                        rp[t, ch, ii],
                     )
                     self.ptes_err[t, ch, ii] = IBIS._ptes_err(
                         self.ibias[t, ch, ii],
@@ -672,7 +676,7 @@ class IBIS(object):
                         self.rsh,
                         self.dites[t, ch, ii],
                         self.ioff[t, ch],
-                        self.rp[t, ch],
+                        rp[t, ch, ii],
                         cov,
                     )
 
-- 
2.43.0


From 1ce94c4a1d678f7849c2bb46a4bcf220c417b332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:49 +0000
Subject: [PATCH 41/78] fix: IBIS squared the variance of the slopes in the
 errors of rfit and rp

---
 qetpy/core/_ibis.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 33678e0..d11429e 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -478,7 +478,7 @@ class IBIS(object):
                 covout = jac.dot(xcov.dot(jac.transpose()))
                 rfit[t, ch] = xout[1] * self.rsh
                 rfit_err[t, ch] = np.sqrt(
-                    (self.rsh * covout[1,1])**2 + (xout[1] * self.rsh_err)**2,
+                    self.rsh**2 * covout[1,1] + (xout[1] * self.rsh_err)**2,
                 )
                 
         # Do SC fit
@@ -511,9 +511,7 @@ class IBIS(object):
                     covout = jac.dot(xcov.dot(jac.transpose()))
                     rp[t, ch] = xout[1] * self.rsh - self.rsh
                     rp_err[t, ch] = np.sqrt(
-                        (
-                            self.rsh * covout[1,1]
-                        )**2 + (
+                        self.rsh**2 * covout[1,1] + (
                             (xout[1] - 1) * self.rsh_err
                         )**2,
                     )
-- 
2.43.0


From 0011e991a6dec8df57c046b9fa8fd45b4b49809c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:08 +0000
Subject: [PATCH 42/78] fix: IBIS left out a slope in the error of the current
 offset

---
 qetpy/core/_ibis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index d11429e..5d15d95 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -577,7 +577,7 @@ class IBIS(object):
                     int_n[t, ch, 0] - int_sc[t, ch, 0]
                 ) / (
                     slope_sc[t, ch, 0] - slope_n[t, ch, 0]
-                ) + (
+                ) + slope_n[t, ch, 0] * (
                     int_n[t, ch, 0] - int_sc[t, ch, 0]
                 ) / (
                     (slope_sc[t, ch, 0] - slope_n[t, ch, 0])**2
-- 
2.43.0


From 22af773dd431b7ee4aa51b4264e1a8cd5e435e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:08 +0000
Subject: [PATCH 43/78] fix: IBIS offset errors without a superconducting fit
 were those of an undone fit

---
 qetpy/core/_ibis.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 5d15d95..dfcca17 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -600,6 +600,11 @@ class IBIS(object):
                 covout = jac_int.dot(cov_int.dot(jac_int.transpose()))
                 ioff_err[t,ch] = np.sqrt(np.sum(covout))
 
+        if not self.fitsc:
+            # the offsets are the normal intercept and zero
+            ioff_err = int_n_err
+            ibias_off_err = np.zeros_like(int_n_err)
+
         # if yoff and xoff are specified, use these instead of the
         # calculated values
         if yoff is None:
-- 
2.43.0


From 8e99caf56fbe7671da681ab8f3d6b8bb7dc32fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:08 +0000
Subject: [PATCH 44/78] fix: IBIS.analyze failed for the documented scalar yoff
 and xoff

---
 qetpy/core/_ibis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index dfcca17..a15dcfa 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -610,13 +610,13 @@ class IBIS(object):
         if yoff is None:
             ioff = int_point_y
         else:
-            ioff = yoff
-            ioff_err = yoff_err
+            ioff = np.ones_like(int_n) * yoff
+            ioff_err = np.ones_like(int_n) * yoff_err
         if xoff is None:
             ibias_off = int_point_x
         else:
-            ibias_off = xoff
-            ibias_off_err = xoff_err
+            ibias_off = np.ones_like(int_n) * xoff
+            ibias_off_err = np.ones_like(int_n) * xoff_err
 
         self.slope_n = slope_n
         self.slope_sc = slope_sc
-- 
2.43.0


From fcc0059b1ce7280f12dbda6dcadae8ede841d1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:08 +0000
Subject: [PATCH 45/78] fix: IBIS truncated resistances and powers to integers
 for integer currents

---
 qetpy/core/_ibis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index a15dcfa..c27406a 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -254,10 +254,10 @@ class IBIS(object):
         self.vb_err = None
         self.ites = None
         self.ites_err = None
-        self.r0 = np.zeros_like(self.dites)
-        self.r0_err = np.zeros_like(self.dites)
-        self.ptes = np.zeros_like(self.dites)
-        self.ptes_err = np.zeros_like(self.dites)
+        self.r0 = np.zeros(self.dites.shape)
+        self.r0_err = np.zeros(self.dites.shape)
+        self.ptes = np.zeros(self.dites.shape)
+        self.ptes_err = np.zeros(self.dites.shape)
 
     @staticmethod
     def _fitfunc(x, b, m):
-- 
2.43.0


From 27bbd502c780257b6207f055ba7104a1dde534e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:49 +0000
Subject: [PATCH 46/78] fix: errors of the IV and IBIS line fits were lost when
 the intercept is near zero

---
 qetpy/core/_ibis.py | 26 ++++++++++++++++++++++++++
 qetpy/core/_iv.py   | 25 +++++++++++++++++++++++--
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index c27406a..f09fb0d 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -283,6 +283,30 @@ class IBIS(object):
         linfunc = m*x + b
         return linfunc
 
+    @staticmethod
+    def _fitjac(x, b, m):
+        """
+        Derivatives of the straight line with respect to its intercept
+        and slope.
+
+        Parameters
+        ----------
+        x : array_like
+            x-values of the data.
+        b : float
+            y-intercept of line.
+        m : float
+            slope of line.
+
+        Returns
+        -------
+        jac : ndarray
+            The derivatives, with shape (len(x), 2).
+
+        """
+
+        return np.vstack((np.ones(len(x)), x)).transpose()
+
     @staticmethod
     def _rtes(ibias, ibias_off, rsh, dites, ioff, rp):
         """
@@ -463,6 +487,7 @@ class IBIS(object):
                     self.dites[t, ch, self.normalinds],
                     sigma=self.dites_err[t, ch, self.normalinds],
                     absolute_sigma=True,
+                    jac=IBIS._fitjac,
                 )
 
                 slope_n[t, ch] = x[1]
@@ -492,6 +517,7 @@ class IBIS(object):
                             self.dites[t, ch, self.scinds],
                             sigma=self.dites_err[t, ch, self.scinds],
                             absolute_sigma=True,
+                            jac=IBIS._fitjac,
                         )
                     except ValueError:
                         raise ValueError(
diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index e04cc0f..a922c2c 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -35,6 +35,27 @@ def _fitfunc(x, b, m):
     linfunc = m*x + b
     return linfunc
 
+def _fitjac(x, b, m):
+    """
+    Derivatives of the straight line with respect to its intercept and slope
+
+    Parameters
+    ----------
+    x : array_like
+        x-values of the data
+    b : float
+        y-intercept of line
+    m : float
+        slope of line
+
+    Returns
+    -------
+    jac : ndarray
+        The derivatives, with shape (len(x), 2)
+    """
+
+    return np.vstack((np.ones(len(x)), x)).transpose()
+
 def _findnormalinds(vb, dites, dites_err, tol=10):
     """
     Function to determine the indices of the normal data in an IV curve
@@ -63,7 +84,7 @@ def _findnormalinds(vb, dites, dites_err, tol=10):
         end_ind+=1
         inds = range(0,end_ind)
         
-        x = curve_fit(_fitfunc, vb[inds], dites[inds], sigma=dites_err[inds], absolute_sigma=True)[0]
+        x = curve_fit(_fitfunc, vb[inds], dites[inds], sigma=dites_err[inds], absolute_sigma=True, jac=_fitjac)[0]
         red_chi2 = np.sum(((_fitfunc(vb[inds],*x)-dites[inds])/dites_err[inds])**2)/(end_ind-len(x))
         
         if red_chi2>tol:
@@ -268,7 +289,7 @@ class IV(object):
                     normalinds = self.normalinds
                     
                 x, xcov = curve_fit(_fitfunc, self.vb[t, ch, normalinds], self.dites[t, ch, normalinds],
-                                    sigma=self.dites_err[t, ch, normalinds], absolute_sigma=True)
+                                    sigma=self.dites_err[t, ch, normalinds], absolute_sigma=True, jac=_fitjac)
 
                 jac = np.zeros((2,2))
                 jac[0,0] = 1
-- 
2.43.0


From b84786b32dd2efa5504aa518ba961ae866ac4ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 47/78] fix: processtraces lost a whole period of the square
 wave to rounding

---
 qetpy/core/didv/_base_didv.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 792bf49..8f529c8 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -957,8 +957,7 @@ class _BaseDIDV(object):
 
         # figure out how many didv periods are in the trace, including
         # the time offset
-        period = 1.0/self._sgfreq
-        nperiods = np.floor(nbinsraw*dt/period)
+        nperiods = nbinsraw // (self._fs/self._sgfreq)
 
         # find which indices to keep in order to have an
         # integer number of periods
-- 
2.43.0


From f75af70dff44d87e38c371c45660852885f0e565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 48/78] fix: dIdV processing failed when flat parts of the
 periods differ by a bin

---
 qetpy/core/didv/_base_didv.py | 4 +++-
 qetpy/core/didv/_didv.py      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 8f529c8..8c018b3 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -986,7 +986,9 @@ class _BaseDIDV(object):
                 (float(i) + 0.48) * period_unscaled
             ) + int(self._dt0 * self._fs)
             flatindstemp.append(range(flatindlow, flatindhigh))
-        flatinds = np.array(flatindstemp).flatten()
+        flatinds = np.array(
+            [ind for inds in flatindstemp for ind in inds], dtype=int,
+        )
 
         self._flatinds = flatinds[np.logical_and(
             flatinds > 0, flatinds < nbins,
diff --git a/qetpy/core/didv/_didv.py b/qetpy/core/didv/_didv.py
index e54e886..195cba8 100644
--- a/qetpy/core/didv/_didv.py
+++ b/qetpy/core/didv/_didv.py
@@ -109,7 +109,9 @@ def didvinitfromdata(tmean, didvmean, didvstd, offset, offset_err, fs, sgfreq,
             (float(i) + 0.48) * didvobj._fs / didvobj._sgfreq
         ) + int(didvobj._dt0 * didvobj._fs)
         flatindstemp.append(range(flatindlow, flatindhigh))
-    flatinds = np.array(flatindstemp).flatten()
+    flatinds = np.array(
+        [ind for inds in flatindstemp for ind in inds], dtype=int,
+    )
 
     didvobj._flatinds = flatinds[np.logical_and(
         flatinds > 0, flatinds < nbins,
-- 
2.43.0


From 74b646b3cf30d192ef356779798fb5a4d715bbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 49/78] fix: processing dIdV traces again added another half
 period to the time offset

---
 qetpy/core/didv/_base_didv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 8c018b3..edad1de 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -475,6 +475,7 @@ class _BaseDIDV(object):
         self._dutycycle = dutycycle
         self._add180phase = add180phase
         self._dt0 = dt0
+        self._dt0_guess = dt0
 
         self._freq = None
         self._time = None
@@ -951,7 +952,7 @@ class _BaseDIDV(object):
         # add half a period of the square wave frequency to the
         # initial offset if add180phase is True
         if (self._add180phase):
-            self._dt0 = self._dt0 + 1/(2*self._sgfreq)
+            self._dt0 = self._dt0_guess + 1/(2*self._sgfreq)
 
         self._time = bins*dt - self._dt0
 
-- 
2.43.0


From 3aed5f69c21800d5c317fa147c31b975a4df5ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 50/78] fix: dIdV fit with priors added the half period of
 add180phase twice

---
 qetpy/core/didv/_didv_priors.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/qetpy/core/didv/_didv_priors.py b/qetpy/core/didv/_didv_priors.py
index 15dead3..bb8edd2 100644
--- a/qetpy/core/didv/_didv_priors.py
+++ b/qetpy/core/didv/_didv_priors.py
@@ -255,7 +255,6 @@ class DIDVPriors(_BaseDIDV, _PlotDIDV):
             self._sgfreq,
             self._sgamp,
             self._rsh,
-            add180phase=self._add180phase,
             dt0=self._dt0,
             rp=priors[1] if priors[1] != 0 else 0.01,
             r0=priors[2] if priors[2] != 0 else 0.1,
-- 
2.43.0


From 9f5c7cff6bd76939b2f75a293bfd6fc33fb941f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 51/78] fix: high harmonics of the dIdV square wave were lost
 for large time offsets

---
 qetpy/core/didv/_base_didv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index edad1de..0ac4724 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -583,7 +583,7 @@ class _BaseDIDV(object):
         tracelength = len(x)
 
         # get the frequencies for a DFT, based on the sample rate of the data
-        dx = x[1]-x[0]
+        dx = (x[-1]-x[0])/(len(x)-1)
         freq = fftfreq(len(x), d=dx)
 
         # didv of fit in frequency space
@@ -638,7 +638,7 @@ class _BaseDIDV(object):
 
         # get the frequencies for a DFT,
         # based on the sample rate of the data
-        dx = x[1]-x[0]
+        dx = (x[-1]-x[0])/(len(x)-1)
         freq = fftfreq(len(x), d=dx)
 
         # FFT of the trace
-- 
2.43.0


From 2c615be9814bf9c838722d5157f59b26732de111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 52/78] fix: dIdV traces without any signal between the
 harmonics were dropped

---
 qetpy/core/didv/_base_didv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 0ac4724..b27e307 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -678,7 +678,7 @@ class _BaseDIDV(object):
 
         # deconvolve the trace from the square wave to get the didv in
         # frequency space
-        dvdi = (sf/st)
+        dvdi = np.divide(sf, st, out=np.zeros_like(sf), where=(sf!=0))
 
         # set values that are within floating point error of zero to
         # 1.0 + 1.0j (we will give these values virtually infinite error, so
-- 
2.43.0


From 9e76af635a59f5d8d708d3a317011eeb6129ff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 53/78] fix: dIdV fits failed for a time offset of zero

---
 qetpy/core/didv/_didv.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/didv/_didv.py b/qetpy/core/didv/_didv.py
index 195cba8..e1d4543 100644
--- a/qetpy/core/didv/_didv.py
+++ b/qetpy/core/didv/_didv.py
@@ -255,6 +255,12 @@ class DIDV(_BaseDIDV, _PlotDIDV):
                 (np.inf, np.inf, np.inf, np.inf, np.inf, np.inf, np.inf),
             )
 
+        # characteristic scale of each parameter, a time offset of zero
+        # has none and uses that of the fast time constant
+        x_scale = np.abs(p0)
+        if x_scale[-1] == 0:
+            x_scale[-1] = tau20
+
         def _residual(params):
             """
             Define a residual for the nonlinear least squares
@@ -303,7 +309,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
                 loss='linear',
                 max_nfev=1000,
                 verbose=0,
-                x_scale=np.abs(p0),
+                x_scale=x_scale,
             )
             # res2 assumes loop gain < 1, where B>0 and tauI>0
             res2 = least_squares(
@@ -313,7 +319,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
                 loss='linear',
                 max_nfev=1000,
                 verbose=0,
-                x_scale=np.abs(p0),
+                x_scale=x_scale,
             )
             # check which loop gain cases gave the better fit
             if (res1['cost'] < res2['cost']):
@@ -329,7 +335,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
                 loss='linear',
                 max_nfev=1000,
                 verbose=0,
-                x_scale=np.abs(p0),
+                x_scale=x_scale,
             )
         else:
             #assume loop gain > 1, where B<0 and tauI<0
@@ -340,7 +346,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
                 loss='linear',
                 max_nfev=1000,
                 verbose=0,
-                x_scale=np.abs(p0),
+                x_scale=x_scale,
             )
 
         popt = res['x']
-- 
2.43.0


From a6ca52230866a60197b6f875c72a4049afd63f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:17 +0000
Subject: [PATCH 54/78] fix: dIdV fall times could be far from the poles of the
 fitted admittance

---
 qetpy/core/didv/_base_didv.py | 36 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index b27e307..9318d17 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -1,7 +1,7 @@
 import warnings
 import numpy as np
 from numpy import pi
-from scipy.optimize import least_squares, fsolve
+from scipy.optimize import least_squares
 from scipy.fftpack import fft, ifft, fftfreq
 
 from qetpy.utils import resample_data
@@ -899,33 +899,25 @@ class _BaseDIDV(object):
             # two pole fall times for didv is different than tau1, tau2
             A, B, tau1, tau2, dt = params
 
-            def twopoleequations(p):
-                taup,taum = p
-                eq1 = taup+taum - A/(A+B)*(tau1+tau2)
-                eq2 = taup*taum-A/(A+B)*tau1*tau2
-                return (eq1, eq2)
-
-            taup, taum = fsolve(twopoleequations ,(tau1, tau2))
-            falltimes = np.array([taup, taum])
+            # the fall times are the roots of a quadratic equation
+            falltimes = np.roots([
+                A+B,
+                -A*(tau1+tau2),
+                A*tau1*tau2,
+            ])
 
         elif len(params)==7:
             # three pole fall times for didv is different
             # than tau1, tau2, tau3
             A, B, C, tau1, tau2, tau3, dt = params
 
-            def threepoleequations(p):
-                taup, taum, taun = p
-                eq1 = taup+taum+taun-(
-                    A*tau1+A*(1.0-C)*tau2+(A+B)*tau3
-                )/(A*(1.0-C)+B)
-                eq2 = taup*taum+taup*taun+taum*taun - (
-                    tau1*tau2+tau1*tau3+tau2*tau3
-                )*A/(A*(1.0-C)+B)
-                eq3 = taup*taum*taun - tau1*tau2*tau3*A/(A*(1.0-C)+B)
-                return (eq1, eq2, eq3)
-
-            taup, taum, taun = fsolve(threepoleequations, (tau1, tau2, tau3))
-            falltimes = np.array([taup, taum, taun])
+            # the fall times are the roots of a cubic equation
+            falltimes = np.roots([
+                A*(1.0-C)+B,
+                -(A*tau1+A*(1.0-C)*tau2+(A+B)*tau3),
+                A*(tau1*tau2+tau1*tau3+tau2*tau3),
+                -A*tau1*tau2*tau3,
+            ])
 
         else:
             print("Wrong number of input parameters, returning zero...")
-- 
2.43.0


From 638de293b257104f17af5cb804a8ee0848957352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 55/78] fix: tightly known priors of dIdV fits could be ignored

---
 qetpy/core/didv/_didv_priors.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/didv/_didv_priors.py b/qetpy/core/didv/_didv_priors.py
index bb8edd2..c883c0b 100644
--- a/qetpy/core/didv/_didv_priors.py
+++ b/qetpy/core/didv/_didv_priors.py
@@ -355,12 +355,18 @@ class DIDVPriors(_BaseDIDV, _PlotDIDV):
 
         guess_new = [g if p == 0 else p for g, p in zip(guess, priors)]
 
+        # the parameters differ by many orders of magnitude, such that
+        # the covariance must be scaled to have a meaningful inverse
+        scale = np.sqrt(np.diag(priorscov))
+        scale = np.where(scale > 0, scale, 1)
+        scale = np.outer(scale, scale)
+
         params, cov, cost = DIDVPriors._fitdidv(
             self._freq[fit_freqs],
             self._didvmean[fit_freqs] * self._rsh,
             poles,
             priors,
-            np.linalg.pinv(priorscov),
+            np.linalg.pinv(priorscov / scale) / scale,
             p0=guess_new,
             yerr=self._didvstd[fit_freqs] * self._rsh,
         )
-- 
2.43.0


From 757152f34749cd08af705a407687908ace004669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 56/78] fix: errors of dIdV fits came from derivatives with too
 large steps

---
 qetpy/core/didv/_didv.py | 53 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/qetpy/core/didv/_didv.py b/qetpy/core/didv/_didv.py
index e1d4543..67cfa34 100644
--- a/qetpy/core/didv/_didv.py
+++ b/qetpy/core/didv/_didv.py
@@ -300,11 +300,61 @@ class DIDV(_BaseDIDV, _PlotDIDV):
             z1d[1:z1d.size:2] = diff.imag*weights.imag
             return z1d
 
+        def _jacobian(params):
+            """
+            Derivatives of the residual. The time constants are much
+            smaller than the steps used for numerical derivatives.
+
+            """
+
+            iw = 2.0j*np.pi*freq
+            one = np.ones_like(iw)
+
+            if (poles==1):
+                A, tau2, dt = params
+                z = DIDV._onepoleimpedance(freq, A, tau2)
+                dz = [one + iw*tau2, A*iw]
+            elif (poles==2):
+                A, B, tau1, tau2, dt = params
+                z = DIDV._twopoleimpedance(freq, A, B, tau1, tau2)
+                d1 = one + iw*tau1
+                dz = [one + iw*tau2, 1/d1, -B*iw/d1**2, A*iw]
+            elif (poles==3):
+                A, B, C, tau1, tau2, tau3, dt = params
+                z = DIDV._threepoleimpedance(
+                    freq, A, B, C, tau1, tau2, tau3,
+                )
+                d3 = one + iw*tau3
+                d1 = one + iw*tau1 - C/d3
+                dz = [
+                    one + iw*tau2,
+                    1/d1,
+                    B/(d1**2*d3),
+                    -B*iw/d1**2,
+                    A*iw,
+                    -B*C*iw/(d1*d3)**2,
+                ]
+
+            delay = np.exp(-iw*dt)
+            dci = [-delay/z**2*dzi for dzi in dz] + [-iw*delay/z]
+
+            if (yerr is None):
+                weights = 1.0+1.0j
+            else:
+                weights = 1.0/yerr.real+1.0j/yerr.imag
+
+            jac = np.zeros((freq.size*2, len(params)), dtype=np.float64)
+            for ii, dcii in enumerate(dci):
+                jac[0::2, ii] = -dcii.real*weights.real
+                jac[1::2, ii] = -dcii.imag*weights.imag
+            return jac
+
         if isloopgainsub1 is None:
             # res1 assumes loop gain > 1, where B<0 and tauI<0
             res1 = least_squares(
                 _residual,
                 p0,
+                jac=_jacobian,
                 bounds=bounds1,
                 loss='linear',
                 max_nfev=1000,
@@ -315,6 +365,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
             res2 = least_squares(
                 _residual,
                 p02,
+                jac=_jacobian,
                 bounds=bounds2,
                 loss='linear',
                 max_nfev=1000,
@@ -331,6 +382,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
             res = least_squares(
                 _residual,
                 p02,
+                jac=_jacobian,
                 bounds=bounds2,
                 loss='linear',
                 max_nfev=1000,
@@ -342,6 +394,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
             res = least_squares(
                 _residual,
                 p0,
+                jac=_jacobian,
                 bounds=bounds1,
                 loss='linear',
                 max_nfev=1000,
-- 
2.43.0


From fbf1469d69c261529f268ae887dfac67657dd012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 57/78] fix: loadfromdidv compared noise types by identity

---
 qetpy/sim/_sim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qetpy/sim/_sim.py b/qetpy/sim/_sim.py
index d7a3a14..02a7381 100644
--- a/qetpy/sim/_sim.py
+++ b/qetpy/sim/_sim.py
@@ -97,7 +97,7 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
 
     """
 
-    if noisetype is "superconducting":
+    if noisetype == "superconducting":
         fitresult = DIDVobj.fitresult(1)
         if 'smallsignalparams' in fitresult:
             key = 'smallsignalparams'
@@ -112,7 +112,7 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
         loopgain = 0
         tau0 = 0
         G = 0
-    elif noisetype is "normal":
+    elif noisetype == "normal":
         raise ValueError('Please specify rnormal.')
         fitresult = DIDVobj.fitresult(1)
         if 'smallsignalparams' in fitresult:
@@ -128,7 +128,7 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
         loopgain = 0
         tau0 = 0
         G = 0
-    elif noisetype is "transition":
+    elif noisetype == "transition":
         fitresult = DIDVobj.fitresult(2)
         if 'smallsignalparams' in fitresult:
             key = 'smallsignalparams'
-- 
2.43.0


From 49ebe32f4a9cf3472e9cbe42d620a64f0f50b8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 58/78] fix: loadfromdidv refused normal noise even with
 rnormal

---
 qetpy/sim/_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qetpy/sim/_sim.py b/qetpy/sim/_sim.py
index 02a7381..78ff35a 100644
--- a/qetpy/sim/_sim.py
+++ b/qetpy/sim/_sim.py
@@ -113,7 +113,8 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
         tau0 = 0
         G = 0
     elif noisetype == "normal":
-        raise ValueError('Please specify rnormal.')
+        if rnormal is None:
+            raise ValueError('Please specify rnormal.')
         fitresult = DIDVobj.fitresult(1)
         if 'smallsignalparams' in fitresult:
             key = 'smallsignalparams'
-- 
2.43.0


From 30afe621ac0b89e1ef762add6f0d89d07285ef43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 59/78] fix: energy_res_estimate was wrong for two-sided psds

---
 qetpy/sim/_sim.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/qetpy/sim/_sim.py b/qetpy/sim/_sim.py
index 78ff35a..0818737 100644
--- a/qetpy/sim/_sim.py
+++ b/qetpy/sim/_sim.py
@@ -33,9 +33,18 @@ def energy_res_estimate(freqs, tau_collect, Sp, collection_eff):
 
     """
 
+    # frequencies may be in the order of a DFT
+    order = np.argsort(freqs)
+    freqs = np.asarray(freqs)[order]
+    Sp = np.asarray(Sp)[order]
+
+    # a two-sided psd has half of the power at each frequency, and is
+    # integrated over the negative frequencies as well
+    norm = 0.5 if np.any(freqs < 0) else 2
+
     omega = 2*np.pi*freqs
     single_pole = collection_eff/(1.+ omega*tau_collect*1j)
-    integrand = 2*np.abs(single_pole)**2/(np.pi*Sp)
+    integrand = norm*np.abs(single_pole)**2/(np.pi*Sp)
     energy_res = np.sqrt(1/np.trapz(integrand, x = omega))/constants.e
 
     return energy_res
-- 
2.43.0


From 0a182c75b6438cf8c349d94536daa64c79745fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 60/78] fix: dIdV fits whose parameters cannot be told apart
 raised LinAlgError

---
 qetpy/core/didv/_didv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/didv/_didv.py b/qetpy/core/didv/_didv.py
index 67cfa34..d7c1dc9 100644
--- a/qetpy/core/didv/_didv.py
+++ b/qetpy/core/didv/_didv.py
@@ -413,7 +413,11 @@ class DIDV(_BaseDIDV, _PlotDIDV):
         # take matrix product of transpose of jac and jac, take the inverse
         # to get the analytic covariance matrix
         pcovinv = np.dot(res["jac"].transpose(), res["jac"])
-        pcov = np.linalg.inv(pcovinv)
+        try:
+            pcov = np.linalg.inv(pcovinv)
+        except np.linalg.LinAlgError:
+            # some parameters cannot be told apart
+            pcov = np.full(pcovinv.shape, np.inf)
 
         return popt, pcov, cost
 
-- 
2.43.0


From f3af5b17fd5974e32008e468e24a38121b7d9e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 61/78] fix: muon tail fits used derivatives with too large
 steps

---
 qetpy/core/_fitting.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 130f91d..be4df8e 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -2509,6 +2509,32 @@ class MuonTailFit(object):
         z1d[1:z1d.size:2] = delta.imag / self.error
         return z1d
 
+    def _jacobian(self, params):
+        """
+        Function to calculate the derivatives of the weighted residuals
+        with respect to the fit parameters.
+
+        Parameters
+        ----------
+        params : tuple
+            Tuple containing fit parameters
+
+        Returns
+        -------
+        jac : ndarray
+            Array containing the derivatives, with the real and the
+            imaginary part of each frequency bin as in `residuals`.
+        """
+
+        A, tau = params
+        omega = 2 * np.pi * self.freqs
+        pole = 1 / (1 + omega * tau * 1j)
+        derivs = np.array([tau * pole, A * pole**2]).T * np.sqrt(self.df)
+        jac = np.zeros((self.data.size * 2, 2), dtype=np.float64)
+        jac[0::2] = -derivs.real / self.error[:, np.newaxis]
+        jac[1::2] = -derivs.imag / self.error[:, np.newaxis]
+        return jac
+
     def calcchi2(self, model):
         """
         Function to calculate the chi square
@@ -2572,7 +2598,7 @@ class MuonTailFit(object):
             x0=p0,
             bounds=bounds,
             x_scale=np.abs(p0),
-            jac='3-point',
+            jac=self._jacobian,
             loss='linear',
             xtol=2.3e-16,
             ftol=2.3e-16,
-- 
2.43.0


From 1a7cc26e817c971f338479ed0416f46a5e84bbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 62/78] fix: twopole had the wrong sign for rise times longer
 than fall times

---
 qetpy/core/_fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index be4df8e..f84e917 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -1944,8 +1944,8 @@ class OFnonlin(object):
             delta = tau_r - tau_f
             rat = tau_r / tau_f
             amp = A / (rat**(-tau_r / delta) - rat**(-tau_f / delta))
-            pulse = amp * np.abs(
-                tau_r-tau_f
+            pulse = amp * (
+                tau_f - tau_r
             ) / (
                 1 + omega * tau_f * 1j
             ) / (
-- 
2.43.0


From 9c63e4f9836e614ceec57de7406ec6dcf5cdc9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 63/78] fix: pulse models in time domain could start a bin
 early

---
 qetpy/core/_fitting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index f84e917..49659e4 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -1803,7 +1803,7 @@ class OFnonlin(object):
         ) - (
             (A + B + C) * (np.exp(-self.time / tau_r))
         )
-        return shift(pulse, int(t0 * self.fs))
+        return shift(pulse, int(round(t0 * self.fs)))
 
     def threepole(self, A, B, tau_r, tau_f1, tau_f2, t0):
         """
@@ -1902,7 +1902,7 @@ class OFnonlin(object):
         ) - (
             (A + B) * (np.exp(-self.time / tau_r))
         )
-        return shift(pulse, int(t0 * self.fs))
+        return shift(pulse, int(round(t0 * self.fs)))
 
 
     def twopole(self, A, tau_r, tau_f, t0):
@@ -2011,7 +2011,7 @@ class OFnonlin(object):
                 A * (np.exp(-self.time / tau_r))
             )
 
-        return shift(pulse, int(t0 * self.fs))
+        return shift(pulse, int(round(t0 * self.fs)))
 
 
     def onepole(self, A, tau_f, t0):
-- 
2.43.0


From 81de4a10506a86d25d0ac46191a1866c119399bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 64/78] fix: fit_falltimes did a one-pole fit for unsupported
 numbers of poles

---
 qetpy/core/_fitting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 49659e4..efa4236 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -2176,10 +2176,13 @@ class OFnonlin(object):
         ------
         ValueError
             if length of guess does not match the number of parameters
-            needed in fit
+            needed in fit, or if `npolefit` is not supported
 
         """
 
+        if npolefit not in (1, 2, 3, 4):
+            raise ValueError("npolefit must be 1, 2, 3, or 4.")
+
         self.data = np.fft.fft(pulse) / self.norm
         self.error = np.sqrt(self.psd / errscale)
 
-- 
2.43.0


From 391443b0ed42779b729fdf192ec99861318d4eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 65/78] fix: guess of fit_falltimes failed for early maxima and
 for low sampling rates

---
 qetpy/core/_fitting.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index efa4236..aed5e71 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -2247,13 +2247,14 @@ class OFnonlin(object):
                 templateforguess = pulse
 
             maxind = np.argmax(templateforguess)
+            minind = max(maxind - 7, 0)
 
             if (self.npolefit==4):
                 # guesses need to be tuned depending
                 # on the detector being analyzed.
                 # good guess for t0 particularly important to provide
                 Aguess = np.mean(
-                    templateforguess[maxind - 7:maxind + 7]
+                    templateforguess[minind:maxind + 7]
                 ) * ampscale
                 Bguess = Aguess / 3
                 Cguess = Aguess / 3
@@ -2264,7 +2265,7 @@ class OFnonlin(object):
                 t0guess = maxind / self.fs
             elif (self.npolefit==3):
                 Aguess = np.mean(
-                    templateforguess[maxind - 7:maxind + 7]
+                    templateforguess[minind:maxind + 7]
                 ) * ampscale
                 Bguess = Aguess / 3
                 tauriseguess = 20e-6
@@ -2273,10 +2274,10 @@ class OFnonlin(object):
                 t0guess = maxind / self.fs
             else:
                 ampguess = np.mean(
-                    templateforguess[maxind-7:maxind+7]
+                    templateforguess[minind:maxind + 7]
                 ) * ampscale
                 tauval = 0.37 * ampguess
-                endt_val = int(300e-6 * self.fs)
+                endt_val = max(int(300e-6 * self.fs), 1)
                 tauind = np.argmin(
                     np.abs(
                         pulse[maxind + 1:maxind + 1 + endt_val] - tauval
-- 
2.43.0


From 4468f67f513f143143a8d3e1241525bb1a9d8b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 66/78] fix: fit_falltimes failed for negative amplitude
 guesses and for a start time of zero

---
 qetpy/core/_fitting.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index aed5e71..2063124 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -2288,6 +2288,8 @@ class OFnonlin(object):
                 t0guess = maxind / self.fs
 
 
+        lgcdefaultbounds = bounds is None
+
         if (self.npolefit==4):
             self.dof = 8
             p0 = (Aguess, Bguess, Cguess, tauriseguess, taufall1guess,
@@ -2334,11 +2336,17 @@ class OFnonlin(object):
                 bounds = (boundslower, boundsupper)
 
 
+        if lgcdefaultbounds:
+            # the amplitudes can be negative
+            bounds = (np.minimum(*bounds), np.maximum(*bounds))
+
+        p0 = np.asarray(p0)
+
         result = least_squares(
             self.residuals,
             x0=p0,
             bounds=bounds,
-            x_scale=p0,
+            x_scale=np.where(p0 == 0, 1 / self.fs, np.abs(p0)),
             jac='3-point',
             loss='linear',
             xtol=2.3e-16,
-- 
2.43.0


From 71922fb554c735064a0409f75700295ee4b5d87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 67/78] fix: errors of pulse fits came from derivatives with
 too large steps

---
 qetpy/core/_fitting.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 2063124..41a3ca5 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -1611,6 +1611,22 @@ def chi2_nopulse(signal, inputpsd, fs, coupling="AC"):
     return chi2_0
 
 
+def _covfromjac(jac):
+    """
+    Helper function to calculate the covariance matrix of fit
+    parameters, which may differ by many orders of magnitude, from the
+    Jacobian of the weighted residuals.
+
+    """
+
+    curvature = np.dot(np.transpose(jac), jac)
+    scale = np.sqrt(curvature.diagonal())
+    scale = np.where(scale > 0, scale, 1)
+    scale = np.outer(scale, scale)
+
+    return np.linalg.pinv(curvature / scale) / scale
+
+
 class OFnonlin(object):
     """
     This class provides the user with a non-linear optimum filter to
@@ -2398,8 +2414,15 @@ class OFnonlin(object):
                 )
             )
 
-        jac = result['jac']
-        cov = np.linalg.pinv(np.dot(np.transpose(jac), jac))
+        # the steps of the optimizer are not small compared to the time
+        # constants, calculate the derivatives at the minimum accurately
+        steps = 1e-5 * np.where(variables == 0, 1, np.abs(variables))
+        steps[-1] = 1e-5 / self.fs
+        jac = np.array([
+            (self.residuals(variables + dx) - self.residuals(variables - dx))
+            / (2 * step) for dx, step in zip(np.diag(steps), steps)
+        ]).T
+        cov = _covfromjac(jac)
         errors = np.sqrt(cov.diagonal())
 
         if lgcplot:
@@ -2618,8 +2641,7 @@ class MuonTailFit(object):
         variables = result['x']
         chi2 = self.calcchi2(self.muontailfcn(*variables))
 
-        jac = result['jac']
-        cov = np.linalg.pinv(np.dot(np.transpose(jac), jac))
+        cov = _covfromjac(result['jac'])
         errors = np.sqrt(cov.diagonal())
 
         if lgcfullrtn:
-- 
2.43.0


From ff547854ab7ffa4d360b524f886aeb2783f24b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:03 +0000
Subject: [PATCH 68/78] fix: selections of curves to plot may be numpy arrays

---
 qetpy/core/didv/_plot_didv.py    |  6 +++---
 qetpy/plotting/_ibis_plotting.py | 12 ++++++------
 qetpy/plotting/_iv_plotting.py   | 12 ++++++------
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/qetpy/core/didv/_plot_didv.py b/qetpy/core/didv/_plot_didv.py
index a7369e3..b34eba5 100644
--- a/qetpy/core/didv/_plot_didv.py
+++ b/qetpy/core/didv/_plot_didv.py
@@ -43,7 +43,7 @@ class _PlotDIDV(object):
     def _plot_time_domain(self, poles):
         """Helper function for plotting the fits in time domain."""
 
-        if poles == "all":
+        if isinstance(poles, str) and poles == "all":
             poleslist = np.array([1, 2, 3])
         else:
             poleslist = np.array(poles)
@@ -296,7 +296,7 @@ class _PlotDIDV(object):
     def _plot_freq_domain(self, function, poles):
         """Helper method for plotting data in frequency domain."""
         
-        if poles == "all":
+        if isinstance(poles, str) and poles == "all":
             poleslist = np.array([1, 2, 3])
         else:
             poleslist = np.array(poles)
@@ -521,7 +521,7 @@ class _PlotDIDV(object):
 
         """
         
-        if poles == "all":
+        if isinstance(poles, str) and poles == "all":
             poleslist = np.array([1, 2, 3])
         else:
             poleslist = np.array(poles)
diff --git a/qetpy/plotting/_ibis_plotting.py b/qetpy/plotting/_ibis_plotting.py
index 856cab3..dca9e3c 100644
--- a/qetpy/plotting/_ibis_plotting.py
+++ b/qetpy/plotting/_ibis_plotting.py
@@ -33,14 +33,14 @@ def _plot_iv(IVobject, temps="all", chans="all", showfit=True, lgcsave=False, sa
     ntemps, nch, niters = IVobject.dites.shape
     chan_names = IVobject.chan_names
     
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
         
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
@@ -114,14 +114,14 @@ def _plot_rv(IVobject, temps="all", chans="all", lgcsave=False, savepath="", sav
     ntemps, nch, niters = IVobject.r0.shape
     chan_names = IVobject.chan_names
     
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
         
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
@@ -186,14 +186,14 @@ def _plot_pv(IVobject,  temps="all", chans="all", lgcsave=False, savepath="", sa
     ntemps, nch, niters = IVobject.ptes.shape
     chan_names = IVobject.chan_names
     
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
         
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
diff --git a/qetpy/plotting/_iv_plotting.py b/qetpy/plotting/_iv_plotting.py
index 27ef5c7..a40e587 100644
--- a/qetpy/plotting/_iv_plotting.py
+++ b/qetpy/plotting/_iv_plotting.py
@@ -38,14 +38,14 @@ def plot_iv(IVobject, temps="all", chans="all", showfit=True, lgcsave=False, sav
     ntemps, nch, niters = IVobject.dites.shape
     chan_names = IVobject.chan_names
 
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
 
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
@@ -137,14 +137,14 @@ def plot_rv(IVobject, temps="all", chans="all", lgcsave=False, savepath="", save
     ntemps, nch, niters = IVobject.r0.shape
     chan_names = IVobject.chan_names
 
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
 
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
@@ -222,14 +222,14 @@ def plot_pv(IVobject, temps="all", chans="all", lgcsave=False, savepath="", save
     ntemps, nch, niters = IVobject.ptes.shape
     chan_names = IVobject.chan_names
 
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
 
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
-- 
2.43.0


From f6a4dd8dd1e7e4f546b84db7c64a4736df034114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:03 +0000
Subject: [PATCH 69/78] fix: IV and IBIS curves can be saved to a file

---
 qetpy/core/_ibis.py | 9 +++------
 qetpy/core/_iv.py   | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index f09fb0d..a57fd9a 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -750,7 +750,7 @@ class IBIS(object):
 
         """
 
-        fig, ax = utils._plot_iv(
+        return utils._plot_iv(
             self,
             temps=temps,
             chans=chans,
@@ -759,7 +759,6 @@ class IBIS(object):
             savepath=savepath,
             savename=savename,
         )
-        return fig, ax
 
     def plot_rv(self, temps="all", chans="all", lgcsave=False, savepath="",
                 savename=""):
@@ -787,7 +786,7 @@ class IBIS(object):
 
         """
 
-        fig, ax = utils._plot_rv(
+        return utils._plot_rv(
             self,
             temps=temps,
             chans=chans,
@@ -795,7 +794,6 @@ class IBIS(object):
             savepath=savepath,
             savename=savename,
         )
-        return fig, ax
 
     def plot_pv(self, temps="all", chans="all", lgcsave=False, savepath="",
                 savename=""):
@@ -822,7 +820,7 @@ class IBIS(object):
 
         """
 
-        fig, ax = utils._plot_pv(
+        return utils._plot_pv(
             self,
             temps=temps,
             chans=chans,
@@ -830,7 +828,6 @@ class IBIS(object):
             savepath=savepath,
             savename=savename,
         )
-        return fig, ax
 
     def plot_all_curves(self, temps="all", chans="all", showfit=True,
                         lgcsave=False, savepath="", savename=""):
diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index a922c2c..1f4c1d2 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -349,9 +349,8 @@ class IV(object):
             Name to append to the plot file name, if saving
         """
         
-        fig, ax = utils.plot_iv(self, temps=temps, chans=chans, showfit=showfit, lgcsave=lgcsave, 
+        return utils.plot_iv(self, temps=temps, chans=chans, showfit=showfit, lgcsave=lgcsave, 
                         savepath=savepath, savename=savename)
-        return fig, ax
         
     def plot_rv(self, temps="all", chans="all", lgcsave=False, savepath="", savename=""):
         """
@@ -373,9 +372,8 @@ class IV(object):
             Name to append to the plot file name, if saving
         """
         
-        fig, ax = utils.plot_rv(self, temps=temps, chans=chans, lgcsave=lgcsave, 
+        return utils.plot_rv(self, temps=temps, chans=chans, lgcsave=lgcsave, 
                         savepath=savepath, savename=savename)
-        return fig, ax
         
     def plot_pv(self, temps="all", chans="all", lgcsave=False, savepath="", savename=""):
         """
@@ -397,9 +395,8 @@ class IV(object):
             Name to append to the plot file name, if saving
         """
         
-        fig, ax = utils.plot_pv(self, temps=temps, chans=chans, lgcsave=lgcsave, 
+        return utils.plot_pv(self, temps=temps, chans=chans, lgcsave=lgcsave, 
                         savepath=savepath, savename=savename)
-        return fig, ax
         
     def plot_all_curves(self, temps="all", chans="all", showfit=True, lgcsave=False, savepath="", savename=""):
         """
-- 
2.43.0


From 2a2c86d84cc424326d93c2681bd60ddc3c7c5dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:03 +0000
Subject: [PATCH 70/78] fix: the fit is drawn for IV curves with padded bias
 points

---
 qetpy/plotting/_ibis_plotting.py | 6 +++---
 qetpy/plotting/_iv_plotting.py   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/qetpy/plotting/_ibis_plotting.py b/qetpy/plotting/_ibis_plotting.py
index dca9e3c..cf7c8c2 100644
--- a/qetpy/plotting/_ibis_plotting.py
+++ b/qetpy/plotting/_ibis_plotting.py
@@ -65,12 +65,12 @@ def _plot_iv(IVobject, temps="all", chans="all", showfit=True, lgcsave=False, sa
                         xerr=IVobject.vb_err[t, ch]*1e6,
                          linestyle='None', color='k')
             if showfit:
-                maxind = np.argmax(abs(IVobject.vb[t, ch]))
+                maxind = np.nanargmax(abs(IVobject.vb[t, ch]))
                 
                 if IVobject.vb[t, ch, maxind] > 0:
-                    vbfit = np.linspace(0, max(IVobject.vb[t,ch]*1e6), num=10)
+                    vbfit = np.linspace(0, np.nanmax(IVobject.vb[t,ch]*1e6), num=10)
                 else:
-                    vbfit = np.linspace(min(IVobject.vb[t,ch]*1e6), 0, num=10)
+                    vbfit = np.linspace(np.nanmin(IVobject.vb[t,ch]*1e6), 0, num=10)
                     
                 ax.plot(vbfit, 1.0/(IVobject.rfit[t, ch])*vbfit, color=ch_colors[it*len(chrange) + ich], alpha=0.1)
 
diff --git a/qetpy/plotting/_iv_plotting.py b/qetpy/plotting/_iv_plotting.py
index a40e587..c925d9f 100644
--- a/qetpy/plotting/_iv_plotting.py
+++ b/qetpy/plotting/_iv_plotting.py
@@ -83,12 +83,12 @@ def plot_iv(IVobject, temps="all", chans="all", showfit=True, lgcsave=False, sav
                 color='k',
             )
             if showfit:
-                maxind = np.argmax(abs(IVobject.vb[t, ch]))
+                maxind = np.nanargmax(abs(IVobject.vb[t, ch]))
 
                 if IVobject.vb[t, ch, maxind] > 0:
-                    vbfit = np.linspace(0, max(IVobject.vb[t,ch]*1e6), num=10)
+                    vbfit = np.linspace(0, np.nanmax(IVobject.vb[t,ch]*1e6), num=10)
                 else:
-                    vbfit = np.linspace(min(IVobject.vb[t,ch]*1e6), 0, num=10)
+                    vbfit = np.linspace(np.nanmin(IVobject.vb[t,ch]*1e6), 0, num=10)
 
                 ax.plot(
                     vbfit,
-- 
2.43.0


From 31fe6ce4457213179bb137d05d3ca867f59b755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 71/78] fix: plotting simulated noise leaves the simulation
 unchanged

---
 qetpy/plotting/_noise_plotting.py | 42 +++++++++++++++----------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/qetpy/plotting/_noise_plotting.py b/qetpy/plotting/_noise_plotting.py
index 0193081..179fdc4 100644
--- a/qetpy/plotting/_noise_plotting.py
+++ b/qetpy/plotting/_noise_plotting.py
@@ -598,7 +598,6 @@ def _plot_ti_noise(f, psd, noise_sim, xlims, ylims):
 
     freqs = f[1:]
     psd = psd[1:]
-    noise_sim.freqs = freqs
 
     fig, ax = plt.subplots(figsize=(11, 6))
     if xlims is not None:
@@ -613,36 +612,36 @@ def _plot_ti_noise(f, psd, noise_sim, xlims, ylims):
     ax.set_title(f"Current Noise For $R_0$ : {noise_sim.r0*1e3:.2f} $m\Omega$")
 
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_ites())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_ites(freqs))),
         color='#1f77b4',
         linewidth=1.5,
         label='TES Johnson Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_iload())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_iload(freqs))),
         color='#ff7f0e',
         linewidth=1.5,
         label='Load Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_itfn())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_itfn(freqs))),
         color='#2ca02c',
         linewidth=1.5,
         label='TFN Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_itot())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_itot(freqs))),
         color='#d62728',
         linewidth=1.5,
         label='Total Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_isquid())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_isquid(freqs))),
         color='#9467bd',
         linewidth=1.5,
         label='Squid+Electronics Noise',
@@ -686,7 +685,6 @@ def _plot_tp_noise(f, psd, noise_sim, xlims, ylims):
 
     freqs = f[1:]
     psd = psd[1:]
-    noise_sim.freqs = freqs
 
     fig, ax = plt.subplots(figsize=(11, 6))
     if xlims is not None:
@@ -701,36 +699,36 @@ def _plot_tp_noise(f, psd, noise_sim, xlims, ylims):
     ax.set_title(f"Power Noise For $R_0$ : {noise_sim.r0*1e3:.2f} $m\Omega$")
 
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_ptes())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_ptes(freqs))),
         color='#1f77b4',
         linewidth=1.5,
         label='TES Johnson Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_pload())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_pload(freqs))),
         color='#ff7f0e',
         linewidth=1.5,
         label='Load Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_ptfn())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_ptfn(freqs))),
         color='#2ca02c',
         linewidth=1.5,
         label='TFN Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_ptot())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_ptot(freqs))),
         color='#d62728',
         linewidth=1.5,
         label='Total Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_psquid())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_psquid(freqs))),
         color='#9467bd',
         linewidth=1.5,
         label='Squid+Electronics Noise',
-- 
2.43.0


From 369a8ca757caa0a1bf33bced9e70e0862167b7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 72/78] fix: plots of pulse fits show the pulse for short
 traces

---
 qetpy/plotting/_fitting_plotting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qetpy/plotting/_fitting_plotting.py b/qetpy/plotting/_fitting_plotting.py
index ed8228e..904916c 100644
--- a/qetpy/plotting/_fitting_plotting.py
+++ b/qetpy/plotting/_fitting_plotting.py
@@ -54,9 +54,12 @@ def plotnonlin(OFnonlinOBJ, pulse, params, errors):
 
     nbaseline = int(OFnonlinOBJ.fs * t0) - 1000
     if nbaseline > 0:
-        pulse = pulse - np.mean(pulse[:nbaseline])
+        baseline = pulse[:nbaseline]
     else:
-        pulse = pulse - np.mean(pulse[nbaseline + 10000:])
+        baseline = pulse[nbaseline + 10000:]
+    if len(baseline) == 0: # the trace is short
+        baseline = pulse[:max(t0ind, 1)]
+    pulse = pulse - np.mean(baseline)
 
     f = OFnonlinOBJ.freqs
     cf = f > 0
-- 
2.43.0


From a26f2d2d1053be7b75a7a70c4cb37845b235b245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 73/78] fix: close-up of a pulse that starts near the beginning
 of the trace

---
 qetpy/plotting/_fitting_plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qetpy/plotting/_fitting_plotting.py b/qetpy/plotting/_fitting_plotting.py
index 904916c..3d6abd9 100644
--- a/qetpy/plotting/_fitting_plotting.py
+++ b/qetpy/plotting/_fitting_plotting.py
@@ -46,7 +46,8 @@ def plotnonlin(OFnonlinOBJ, pulse, params, errors):
     ## get indices to define window ##
     t0ind = int(t0 * OFnonlinOBJ.fs) #location of timeoffset
 
-    nmin = t0ind - int(5 * tau_r * OFnonlinOBJ.fs) # 5 risetimes before offset
+    # 5 risetimes before offset
+    nmin = max(t0ind - int(5 * tau_r * OFnonlinOBJ.fs), 0)
     if (OFnonlinOBJ.npolefit==3 or OFnonlinOBJ.npolefit==4):
         nmax = t0ind + int(9 * tau_f1 * OFnonlinOBJ.fs) # 9 falltimes after offset
     else:
-- 
2.43.0


From 42800c5578ec450f4710cb1a7546287c87917fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:02 +0000
Subject: [PATCH 74/78] fix: shift no longer truncates integer arrays

---
 qetpy/utils/_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 9354558..f54897b 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -47,9 +47,12 @@ def shift(arr, num, fill_value=0):
 
     """
 
-    result = np.empty_like(arr)
+    # integer arrays cannot hold interpolated values or any fill_value
+    arr = np.asarray(arr)
+    dtype = np.result_type(arr, float)
 
     if float(num).is_integer():
+        result = np.empty(arr.shape, dtype=dtype)
         num = int(num) # force num to int type for slicing
 
         if num > 0:
@@ -62,7 +65,7 @@ def shift(arr, num, fill_value=0):
             result[:] = arr
     else:
         result = ndimage.shift(
-            arr, num, order=1, mode='constant', cval=fill_value,
+            arr, num, output=dtype, order=1, mode='constant', cval=fill_value,
         )
 
     return result
-- 
2.43.0


From 44827ec9742aae57b6691ed085e6ef22465bce5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:02 +0000
Subject: [PATCH 75/78] fix: fill_negatives no longer truncates interpolated
 values

---
 qetpy/utils/_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index f54897b..ea28f51 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -347,6 +347,10 @@ def fill_negatives(arr):
 
     """
 
+    if np.issubdtype(arr.dtype, np.integer):
+        # interpolated values are not integers
+        arr = arr.astype(float)
+
     zeros = np.array(arr <= 0)
     inds_zero = np.where(zeros)[0]
     inds_not_zero = np.where(~zeros)[0]
-- 
2.43.0


From 8bd824e4e87f2a8016c34fc1c1e070e6d5616454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:02 +0000
Subject: [PATCH 76/78] fix: align_traces masks the ends of integer traces

---
 qetpy/utils/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index ea28f51..4cd26e1 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -442,7 +442,7 @@ def align_traces(traces, lgcjustshifts=False, n_cut=5000, cut_off_freq=5000.0,
     orig = np.argmax(signal.fftconvolve(t1,t1[::-1],mode = 'full'))
 
     # initialize empty array to store the aligned traces
-    traces_aligned = np.zeros_like(traces)
+    traces_aligned = np.zeros(traces.shape)
     shifts = np.zeros(traces.shape[0])
 
     for ii in range(traces.shape[0]):
@@ -455,7 +455,7 @@ def align_traces(traces, lgcjustshifts=False, n_cut=5000, cut_off_freq=5000.0,
         shifts[ii] = t2_shift
         if not lgcjustshifts:
             traces_aligned[ii] = ndimage.shift(
-                traces[ii], t2_shift, cval=np.nan,
+                traces[ii], t2_shift, output=float, cval=np.nan,
             )
 
     if lgcjustshifts:
-- 
2.43.0


From db32fbef301e5edb2668c66a370c95108c8c3103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:02 +0000
Subject: [PATCH 77/78] fix: foldpsd accepts integer PSDs

---
 qetpy/core/_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index bd60d50..6d5aa2b 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -34,7 +34,7 @@ def foldpsd(psd, fs):
             
     """
     
-    psd_folded = np.copy(psd[:len(psd)//2+1])
+    psd_folded = np.array(psd[:len(psd)//2+1], dtype=float)
     psd_folded[1:len(psd)//2+(len(psd))%2] *= 2.0
     f = rfftfreq(len(psd),d=1.0/fs)
     
-- 
2.43.0


From d890e499721b91e81d25537937453fe104f57ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:52 +0000
Subject: [PATCH 78/78] fix: itercov no longer inverts the covariance of too
 few events

---
 qetpy/cut/_cut.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 6aaebc0..7a634bb 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -301,9 +301,10 @@ def itercov(*args, nsigma=2.75, threshold=None, maxiter=15, frac_err=1e-3):
         mask = mask & np.all(np.abs(delta) < std_last[:, np.newaxis] * threshold, axis=0)
         nmask = np.sum(mask)
 
-        if nmask <= 1:
+        # the covariance of so few events would be singular
+        if nmask <= ndim:
             warnings.warn(
-                "The number of events passing iterative cut via itercov is <= 1. "
+                "The number of events passing iterative cut via itercov is <= the number of dimensions. "
                 "Iteration not converging properly. Returning simple mean and cov. "
                 "No data will be cut."
             )
-- 
2.43.0

