From f65108e7cb1a5dfc3b072e19baaddd8a199b52e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 01/29] fix: disper crashed for the documented deep (h=inf) and
 shallow (h<0) water options

---
 deltares_wave_toolbox/cores/core_dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_dispersion.py b/deltares_wave_toolbox/cores/core_dispersion.py
index c03a5f7..02575ab 100644
--- a/deltares_wave_toolbox/cores/core_dispersion.py
+++ b/deltares_wave_toolbox/cores/core_dispersion.py
@@ -81,7 +81,7 @@ def disper(w: NDArray[float64], h: float, g: float = 9.81):
             arg[iq] = -c[iq] / b[iq]
             q = q + arg
 
-    k = np.sign(w) * q / h
+        k = np.sign(w) * q / h
 
     ik = np.isnan(k)
     k[ik] = np.zeros(np.size(k[ik]))
-- 
2.43.0


From 2109707668a896735f1de6013f18a473a04d7145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 02/29] fix: disper returned a wrong wave number for very long
 waves (w^2 h / g < 1e-8)

---
 deltares_wave_toolbox/cores/core_dispersion.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_dispersion.py b/deltares_wave_toolbox/cores/core_dispersion.py
index 02575ab..5c68bf0 100644
--- a/deltares_wave_toolbox/cores/core_dispersion.py
+++ b/deltares_wave_toolbox/cores/core_dispersion.py
@@ -62,9 +62,10 @@ def disper(w: NDArray[float64], h: float, g: float = 9.81):
         # --- Standard (nonlinear) dispersion relation for depths 0 < h < inf
         w2 = (w**2) * h / g
 
-        ielem = np.nonzero(w2 < 1.0e-8)
+        # avoid division by zero for w = 0, for which sign(w) yields k = 0 below
+        ielem = np.nonzero(w2 == 0)
         w2[ielem] = 1e-8
-        q = w2 / (1 - np.exp(-(w2 ** (5 / 4)))) ** (2 / 5)
+        q = w2 / (-np.expm1(-(w2 ** (5 / 4)))) ** (2 / 5)
 
         idxs = [1, 2]
         for j in idxs:
-- 
2.43.0


From 5269e117752df346aae6440e363663007a16104f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 03/29] fix: uniform-step check accepted axes whose step
 decreases

---
 deltares_wave_toolbox/cores/core_engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_engine.py b/deltares_wave_toolbox/cores/core_engine.py
index 9bf0937..bcfd2f6 100644
--- a/deltares_wave_toolbox/cores/core_engine.py
+++ b/deltares_wave_toolbox/cores/core_engine.py
@@ -67,7 +67,9 @@ def monotonic_increasing_constant_step(x: ArrayLike) -> bool:
         True when vector is monotonic increasing with constant step size
     """
     xDiff = np.diff(x)
-    isUniform = bool(np.all((xDiff - xDiff[0]) < 1000000 * sys.float_info.epsilon))
+    isUniform = bool(
+        np.all(np.abs(xDiff - xDiff[0]) < 1000000 * sys.float_info.epsilon)
+    )
     xMonotonic = bool(np.all(xDiff > 0))
 
     return xMonotonic and isUniform
-- 
2.43.0


From 612fe359ca17357ea9272b1c9c48863138c1d00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 04/29] fix: uniform time axes with a large initial time were
 rejected as non-uniform

---
 deltares_wave_toolbox/cores/core_engine.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_engine.py b/deltares_wave_toolbox/cores/core_engine.py
index bcfd2f6..f8640c7 100644
--- a/deltares_wave_toolbox/cores/core_engine.py
+++ b/deltares_wave_toolbox/cores/core_engine.py
@@ -67,9 +67,12 @@ def monotonic_increasing_constant_step(x: ArrayLike) -> bool:
         True when vector is monotonic increasing with constant step size
     """
     xDiff = np.diff(x)
-    isUniform = bool(
-        np.all(np.abs(xDiff - xDiff[0]) < 1000000 * sys.float_info.epsilon)
+    # allow for the rounding of the values of x themselves, which dominates for axes
+    # with a large offset (for example, a time axis in seconds since an epoch)
+    tolerance = 1000000 * sys.float_info.epsilon + 4 * np.spacing(
+        np.max(np.abs(x)).astype(float)
     )
+    isUniform = bool(np.all(np.abs(xDiff - xDiff[0]) < tolerance))
     xMonotonic = bool(np.all(xDiff > 0))
 
     return xMonotonic and isUniform
-- 
2.43.0


From ce23f537e52cbdc4683d6b11e5ec095d146946a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 05/29] fix: wave statistics of a record without waves raised
 instead of returning the documented zeros

---
 deltares_wave_toolbox/cores/core_time.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_time.py b/deltares_wave_toolbox/cores/core_time.py
index a706487..56aed6d 100644
--- a/deltares_wave_toolbox/cores/core_time.py
+++ b/deltares_wave_toolbox/cores/core_time.py
@@ -56,6 +56,10 @@ def sort_wave_params(
     hWave = core_engine.convert_to_array_type(hWave)
     tWave = core_engine.convert_to_array_type(tWave)
 
+    # --- If there are no waves, return to calling function
+    if hWave.size == 0 and tWave.size == 0:
+        return np.empty(0), np.empty(0)
+
     # Check on input arguments
     # --- Check whether the size of the input arguments is identical
     is1d_array = core_engine.is1darray(hWave)
@@ -73,15 +77,6 @@ def sort_wave_params(
             "InputError", "Input arrays hWave and tWave have different length"
         )
 
-    # --- Number of waves
-    nWave = len(hWave)
-
-    # --- If there are no waves, return to calling function
-    hWaveSorted = np.empty((0, 0))
-    tWaveSorted = np.empty((0, 0))
-    if nWave < 1:
-        return hWaveSorted, tWaveSorted
-
     # Computational core
     # --- Sort the wave height in descending order
     iSorted = np.argsort(hWave)[
@@ -261,13 +256,14 @@ def highest_waves_params(
     tWaveSorted = core_engine.convert_to_array_type(tWaveSorted)
 
     # Perform checks on the input arguments
-    is1d_array = core_engine.is1darray(hWaveSorted)
+    # --- (arrays without any elements are allowed: there are no waves)
+    is1d_array = hWaveSorted.size == 0 or core_engine.is1darray(hWaveSorted)
     if not is1d_array:
         raise ValueError(
             "highest_waves_params: Input error: Input arrays hWaveSorted is not 1D"
         )
 
-    is1d_array = core_engine.is1darray(tWaveSorted)
+    is1d_array = tWaveSorted.size == 0 or core_engine.is1darray(tWaveSorted)
     if not is1d_array:
         raise ValueError(
             "highest_waves_params: Input error: Input arrays tWaveSorted is not 1D"
@@ -350,7 +346,8 @@ def exceedance_wave_height(hWaveSorted: NDArray[float64], excPerc: float) -> flo
     hWaveSorted = core_engine.convert_to_array_type(hWaveSorted)
 
     # Perform checks on the input arguments
-    is1d_array = core_engine.is1darray(hWaveSorted)
+    # --- (an array without any elements is allowed: there are no waves)
+    is1d_array = hWaveSorted.size == 0 or core_engine.is1darray(hWaveSorted)
     if not is1d_array:
         raise ValueError(
             "exceedance_wave_height: Input error: Input arrays hWaveSorted is not 1D"
-- 
2.43.0


From 7aac77c19e249a24112d44fad90ddd8fcea9b7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 06/29] fix: frequency_averaging truncated the averages of
 integer-valued spectra

---
 deltares_wave_toolbox/cores/core_spectral.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 5989527..0ce095a 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -79,7 +79,9 @@ def frequency_averaging(
 
     # --- Initialize arrays
     f_coarse = np.zeros(len(f[0:nCoarse]))
-    sVarDens_coarse = np.zeros(len(f_coarse), dtype=type(sVarDens[0]))
+    sVarDens_coarse = np.zeros(
+        len(f_coarse), dtype=np.result_type(sVarDens.dtype, float64)
+    )
 
     # --- Perform the averaging
     for iFreq in np.arange(0, nCoarse):  # before np.arange(0,nCoarse)
-- 
2.43.0


From e3da526af121fa568b6bf687a675fc2644614c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 07/29] fix: synthesised time axis could end one step after
 tEnd due to rounding

---
 deltares_wave_toolbox/cores/core_spectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 0ce095a..e60d06c 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -664,7 +664,7 @@ def spectrum2timeseries(
             "compute_spectrum_freq_series: Input error: array sizes differ in dimension"
         )
 
-    t = np.arange(tInit, tEnd + dt, dt)
+    t = np.arange(tInit, tEnd + dt / 2, dt)
 
     nTime = len(t)
     nTimeEven = int(2 * np.ceil(nTime / 2))
-- 
2.43.0


From f640b0f991101ffe8b6b514f9d46fea7b892c07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 08/29] fix: get_spectrum raised for series shorter than half
 the default segment length

---
 deltares_wave_toolbox/series.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/series.py b/deltares_wave_toolbox/series.py
index 0b3574c..b9a6bc6 100644
--- a/deltares_wave_toolbox/series.py
+++ b/deltares_wave_toolbox/series.py
@@ -436,7 +436,8 @@ class Series(WaveHeights):
         """
 
         if use_dfDesired:
-            nperseg = np.round((1 / self.dt) / dfDesired).astype(int)
+            # a segment cannot be longer than the series itself
+            nperseg = min(np.round((1 / self.dt) / dfDesired).astype(int), self.nt)
             noverlap = np.round(nperseg / 2).astype(int)
 
         [f, S] = core_spectral.compute_spectrum_welch_wrapper(
-- 
2.43.0


From 5dc2f86e20d4f51bca9840b447a89d80b71c8301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 09/29] fix: band filter dropped the highest frequency
 component inside the band

---
 deltares_wave_toolbox/cores/core_spectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index e60d06c..f666b8b 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -853,7 +853,7 @@ def applybandfilter(
     elif fhigh >= f[-1]:
         ihigh = Nf
     else:
-        ihigh = np.where(f < fhigh)[0][-1]
+        ihigh = np.where(f < fhigh)[0][-1] + 1
 
     # --- Initialize
     zFreq = np.zeros(len(xFreq)).astype(complex)
-- 
2.43.0


From a2fc4e77fa7b6d93afca08301884a5cb805e11a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 10/29] fix: compute_moment ignored a frequency limit when only
 one of the two was given

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index b284fcb..caa548a 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -238,10 +238,14 @@ def compute_moment(
     integrand = freq ** (m) * spec
 
     # --- Depending on number of input arguments, compute the moment integral
-    if fmin == -1.0 or fmax == -1.0:  # integrate over all values in freq interval.
+    if fmin == -1.0 and fmax == -1.0:  # integrate over all values in freq interval.
         moment = integrate.simpson(integrand, x=freq)
     else:  # integrate over all values in sub interval.
-        # fmin and fmax are given
+        # fmin and/or fmax are given, use the limit of the axis for the other one
+        if fmin == -1.0:
+            fmin = f[0]
+        if fmax == -1.0:
+            fmax = f[-1]
         fminn = fmin
         if m < 0 and f[0] == 0:
             if fmin == 0:
-- 
2.43.0


From 53357b613f724af41857c8eecadadd68ff813e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 11/29] fix: Tps of a spectrum with its peak at an edge could
 be negative, or an array instead of a scalar

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index caa548a..43eaf98 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -660,10 +660,10 @@ def compute_tps(f: NDArray[float64], sVarDens: NDArray[float64]) -> float:
         # --- nF > 2 - default situation
         if nmax == 1:
             # --- nmax = 1
-            jmax = imax
-            if imax == 0:
+            jmax = imax[0]
+            if jmax == 0:
                 jmax = 1
-            elif imax == nF - 1:
+            elif jmax == nF - 1:
                 jmax = nF - 2
 
             # --- Find polynomial coefficients
@@ -677,9 +677,9 @@ def compute_tps(f: NDArray[float64], sVarDens: NDArray[float64]) -> float:
             # --- Compute Fps
             if a < 0.0:
                 Fps = -b / (2 * a)
-            else:
+            if a >= 0.0 or Fps < ff[0] or Fps > ff[2]:
                 # Exceptional situation; can only occur if imax=1 or imax=nF
-                Fps = f[imax]
+                Fps = f[imax[0]]
             Tps = 1.0 / Fps
 
         elif nmax == 2:
@@ -715,7 +715,7 @@ def compute_tps(f: NDArray[float64], sVarDens: NDArray[float64]) -> float:
         # --- nF = 2: two points
         if nmax == 1:
             # nmax = 1
-            Tps = 1 / f[imax]
+            Tps = 1 / f[imax[0]]
         else:
             # nmax = 2
             favg = 0.5 * (f[0] + f[1])
-- 
2.43.0


From 66ce3ef8e2fedc937448553187c4f043870d0dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 12/29] fix: steepness and HF/LF parameters used cached values
 computed for other frequency limits

---
 deltares_wave_toolbox/spectrum.py | 33 ++++++++++---------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/deltares_wave_toolbox/spectrum.py b/deltares_wave_toolbox/spectrum.py
index 7edb495..83a1b46 100644
--- a/deltares_wave_toolbox/spectrum.py
+++ b/deltares_wave_toolbox/spectrum.py
@@ -120,8 +120,7 @@ class Spectrum:
             Hm0
         """
         if fmin == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
+            self.get_Tmm10()
             fmin = 0.45 / self.Tmm10
 
             warnings.warn(
@@ -156,8 +155,7 @@ class Spectrum:
             Hm0
         """
         if fmax == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
+            self.get_Tmm10()
             fmax = 0.45 / self.Tmm10
 
             warnings.warn(
@@ -270,8 +268,7 @@ class Spectrum:
             Tmm10
         """
         if fmin == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
+            self.get_Tmm10()
             fmin = 0.45 / self.Tmm10
 
             warnings.warn(
@@ -306,8 +303,7 @@ class Spectrum:
             Tmm10
         """
         if fmax == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
+            self.get_Tmm10()
             fmax = 0.45 / self.Tmm10
 
             warnings.warn(
@@ -383,11 +379,8 @@ class Spectrum:
         float
             s0p
         """
-        if not hasattr(self, "Hm0"):
-            self.get_Hm0(fmin=fmin, fmax=fmax)
-
-        if not hasattr(self, "Tps"):
-            self.get_Tps(fmin=fmin, fmax=fmax)
+        self.get_Hm0(fmin=fmin, fmax=fmax)
+        self.get_Tps(fmin=fmin, fmax=fmax)
 
         self.s0p = 2 * np.pi * self.Hm0 / (g * self.Tps**2)
         return self.s0p
@@ -414,11 +407,8 @@ class Spectrum:
         float
             smm10
         """
-        if not hasattr(self, "Hm0"):
-            self.get_Hm0(fmin=fmin, fmax=fmax)
-
-        if not hasattr(self, "Tmm10"):
-            self.get_Tmm10(fmin=fmin, fmax=fmax)
+        self.get_Hm0(fmin=fmin, fmax=fmax)
+        self.get_Tmm10(fmin=fmin, fmax=fmax)
 
         self.smm10 = 2 * np.pi * self.Hm0 / (g * self.Tmm10**2)
         return self.smm10
@@ -446,11 +436,8 @@ class Spectrum:
         float
             smm10_HF
         """
-        if not hasattr(self, "Hm0_HF"):
-            self.get_Hm0_HF(fmin=fmin, fmax=fmax)
-
-        if not hasattr(self, "Tmm10_HF"):
-            self.get_Tmm10_HF(fmin=fmin, fmax=fmax)
+        self.get_Hm0_HF(fmin=fmin, fmax=fmax)
+        self.get_Tmm10_HF(fmin=fmin, fmax=fmax)
 
         self.smm10_HF = 2 * np.pi * self.Hm0_HF / (g * self.Tmm10_HF**2)
         return self.smm10_HF
-- 
2.43.0


From f3f7d2ebffe7d649e2b762491df7d39c4ed75fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 13/29] fix: wave decomposition accepted gauge weights outside
 [0, 1]

---
 deltares_wave_toolbox/cores/core_wave_decomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wave_decomposition.py b/deltares_wave_toolbox/cores/core_wave_decomposition.py
index e8e4630..b42faeb 100644
--- a/deltares_wave_toolbox/cores/core_wave_decomposition.py
+++ b/deltares_wave_toolbox/cores/core_wave_decomposition.py
@@ -110,7 +110,7 @@ def decompose_linear_ZS(
     ), "ZS: input error: Dimensions of x_loc and t do not correspond."
     # --- Values of w_loc should be between 0 and 1
     assert (
-        min(w_loc) > 0 or max(w_loc) <= 1
+        min(w_loc) >= 0 and max(w_loc) <= 1
     ), "ZS: input error: Values of w_loc must be between 0 and 1."
 
     w_loc_sum = sum(w_loc)
-- 
2.43.0


From 93a0b5af715c7e66c77b0c480df420d043159dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 14/29] fix: decompose_linear_ZS_series padded missing gauges
 with zeros instead of reporting them

---
 deltares_wave_toolbox/cores/core_wave_decomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wave_decomposition.py b/deltares_wave_toolbox/cores/core_wave_decomposition.py
index b42faeb..7292e42 100644
--- a/deltares_wave_toolbox/cores/core_wave_decomposition.py
+++ b/deltares_wave_toolbox/cores/core_wave_decomposition.py
@@ -275,7 +275,7 @@ def decompose_linear_ZS_series(
 
         if i == 0:
             t = series_object.time
-            xTime = np.zeros((len(t), len(x_loc)))
+            xTime = np.zeros((len(t), len(Series_objects)))
 
         xTime[:, i] = series_object.xTime
 
-- 
2.43.0


From f5c9bcbfe902d5c5ebb60d6ef4cf1f286aad9a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 15/29] fix: coherence averaged the magnitude of the
 cross-spectrum, so that unrelated signals were coherent

---
 deltares_wave_toolbox/cores/core_spectral.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index f666b8b..2c060c1 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -212,13 +212,13 @@ def coherence(
         coh2 : NDArray[float64]
             coherence (magnitude-squared coherence)
     """
-    # --- Compute auto-spectral and cross-spectral (absolute value) densities
-    #     on original frequency axis
+    # --- Compute auto-spectral and (complex) cross-spectral densities on
+    #     original frequency axis
     #     Note: Normalisation factors (2 / (df * Ntime * Ntime)) may be omitted,
     #     since they cancel out
     S11 = abs(xFreq1 * np.conj(xFreq1))
     S22 = abs(xFreq2 * np.conj(xFreq2))
-    S12 = abs(xFreq1 * np.conj(xFreq2))
+    S12 = xFreq1 * np.conj(xFreq2)
 
     # --- Apply band averaging
     f_coh2, S11_b = frequency_averaging(f, S11, dfDesired)
@@ -236,7 +236,7 @@ def coherence(
     S22_b[ismall] = small_number
 
     # --- Compute coherence
-    coh2 = (S12_b) ** 2 / (S11_b * S22_b)
+    coh2 = abs(S12_b) ** 2 / (S11_b * S22_b)
 
     return f_coh2, coh2
 
-- 
2.43.0


From f58abd8ac9f25df833785e53a4271f162f64e0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 16/29] fix: Series accepted time axes that are not increasing

---
 deltares_wave_toolbox/series.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_wave_toolbox/series.py b/deltares_wave_toolbox/series.py
index b9a6bc6..9c45ccc 100644
--- a/deltares_wave_toolbox/series.py
+++ b/deltares_wave_toolbox/series.py
@@ -319,6 +319,7 @@ class Series(WaveHeights):
         xTime, xSize = core_engine.convert_to_vector(xTime)
 
         assert tSize[0] == xSize[0], "Input error: array sizes differ in dimension"
+        assert np.all(np.diff(time) > 0), "Input error: time is not increasing"
         assert np.var(np.diff(time)) < np.mean(
             np.diff(time) / 100
         ), "Input error: time step is not equidistant"
-- 
2.43.0


From c5fcf537f3a86df9df6a72eaae5d4f3d0f8ddda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 17/29] fix: spectrum2timeseries could not handle a spectrum
 given as a column vector

---
 deltares_wave_toolbox/cores/core_spectral.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 2c060c1..1492d80 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -652,14 +652,14 @@ def spectrum2timeseries(
 
     """
     f, fSize = core_engine.convert_to_vector(f)
-    xFreq, xFreqSize = core_engine.convert_to_vector(sVarDens)
+    sVarDens, sVarDensSize = core_engine.convert_to_vector(sVarDens)
 
-    if fSize[1] > 1 or xFreqSize[1] > 1:
+    if fSize[1] > 1 or sVarDensSize[1] > 1:
         raise ValueError(
             "compute_spectrum_freq_series: Input error: input should be 1d arrays"
         )
 
-    if not (fSize[0] == xFreqSize[0]):
+    if not (fSize[0] == sVarDensSize[0]):
         raise ValueError(
             "compute_spectrum_freq_series: Input error: array sizes differ in dimension"
         )
-- 
2.43.0


From c8ebddad223010f653e842edbb1df5a1a643ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 18/29] fix: moments and theoretical spectra raised for
 integer-valued frequencies

Numpy integers cannot be raised to a negative power.
---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index 43eaf98..3468fd0 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -225,6 +225,9 @@ def compute_moment(
     if not (fSize[0] == SSize[0]):
         raise ValueError("compute_moment: Input error: array sizes differ in dimension")
 
+    # --- Integers cannot be raised to a negative power
+    f = f.astype(float64)
+
     # --- Remove the possible situation that f=0 in combination with m<0. This
     #     would lead to division by zero
     if m < 0 and f[0] == 0:
@@ -372,7 +375,7 @@ def create_spectrum_jonswap(
     # --- Evaluate variance density spectrum, for the moment omitting the
     #     weighting
     for iff in np.arange(0, nf):
-        f_i = f[iff]
+        f_i = float(f[iff])  # integers cannot be raised to a negative power
 
         # --- Consider only f_i > 0.
         #     For f_i <=0, the variance density is kept equal to zero
-- 
2.43.0


From a8bc2aba3b55badee70198d64573c35cc1daa3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:34 +0000
Subject: [PATCH 19/29] fix: the f^-5 tail of the fourth moment divided by zero

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index 3468fd0..5ce5455 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -270,9 +270,12 @@ def compute_moment(
             #    C determined by power and spec(end)
             power = -5  # Power of high-frequency tail
             C = spec[len(spec) - 1] / (freq[len(freq) - 1] ** power)
-            moment2 = (C / (m + power + 1)) * (
-                fmax ** (m + power + 1) - freq[len(freq) - 1] ** (m + power + 1)
-            )
+            if m + power + 1 == 0:
+                moment2 = C * np.log(fmax / freq[len(freq) - 1])
+            else:
+                moment2 = (C / (m + power + 1)) * (
+                    fmax ** (m + power + 1) - freq[len(freq) - 1] ** (m + power + 1)
+                )
             # Add the two moments
             moment = moment1 + moment2
     return moment
-- 
2.43.0


From 2dd6ce821f1f1dc99fe67d592fb9b96e5e56d2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:40 +0000
Subject: [PATCH 20/29] fix: TpD was NaN for a spectral peak of a single bin

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index 5ce5455..7bf32b2 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -591,6 +591,10 @@ def tpd(f: NDArray[float64], sVarDens: NDArray[float64]) -> float:
     temp = f[itemp]
     fp_limits = [min(temp), max(temp)]
 
+    #  --- an interval of a single frequency has no area: use the period of that frequency.
+    if fp_limits[0] == fp_limits[1]:
+        return 1.0 / fp_limits[0]
+
     #  --- compute zeroth and first moment for selected frequency interval.
     m0 = compute_moment(f, sVarDens, 0, fp_limits[0], fp_limits[1])
     m1 = compute_moment(f, sVarDens, 1, fp_limits[0], fp_limits[1])
-- 
2.43.0


From 07c45c3462b6d969aa944794ed9ffee68279ca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 21/29] fix: uniform axes in single precision were rejected as
 non-uniform

---
 deltares_wave_toolbox/cores/core_engine.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_engine.py b/deltares_wave_toolbox/cores/core_engine.py
index f8640c7..d0ad33c 100644
--- a/deltares_wave_toolbox/cores/core_engine.py
+++ b/deltares_wave_toolbox/cores/core_engine.py
@@ -68,10 +68,12 @@ def monotonic_increasing_constant_step(x: ArrayLike) -> bool:
     """
     xDiff = np.diff(x)
     # allow for the rounding of the values of x themselves, which dominates for axes
-    # with a large offset (for example, a time axis in seconds since an epoch)
-    tolerance = 1000000 * sys.float_info.epsilon + 4 * np.spacing(
-        np.max(np.abs(x)).astype(float)
-    )
+    # with a large offset (for example, a time axis in seconds since an epoch) or
+    # stored in single precision
+    xMax = np.max(np.abs(x))
+    if not isinstance(xMax, np.floating):
+        xMax = xMax.astype(float)
+    tolerance = 1000000 * sys.float_info.epsilon + 4 * np.spacing(xMax)
     isUniform = bool(np.all(np.abs(xDiff - xDiff[0]) < tolerance))
     xMonotonic = bool(np.all(xDiff > 0))
 
-- 
2.43.0


From 17a34ca7861bb0227027abaa28a36bb6db953a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:56 +0000
Subject: [PATCH 22/29] fix: zero crossings of records of small integers
 overflow

The difference of two samples was computed in the type of the record, and
wraps around for 16-bit counts of opposite sign: the crossing time lies
outside its interval and making a Series may raise.
---
 deltares_wave_toolbox/cores/core_time.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_time.py b/deltares_wave_toolbox/cores/core_time.py
index 56aed6d..cacd68f 100644
--- a/deltares_wave_toolbox/cores/core_time.py
+++ b/deltares_wave_toolbox/cores/core_time.py
@@ -154,6 +154,10 @@ def determine_zero_crossing(
             "sort_wave_params: Input error: Input arrays t and x have different length"
         )
 
+    # --- Differences of small integers (for example, 16-bit counts) may overflow
+    if xTime.dtype.kind in "iu":
+        xTime = xTime.astype(float64)
+
     # Computational core
     nWave = -1
     tCross = np.empty((0, 0))
-- 
2.43.0


From 2441caf4be81a2f6d94cb75d9a44345206d2138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:56 +0000
Subject: [PATCH 23/29] fix: Hrms of integer wave heights overflows

The squares were computed in the type of the heights and wrap around, for
16-bit heights already above 181.
---
 deltares_wave_toolbox/series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/series.py b/deltares_wave_toolbox/series.py
index 9c45ccc..f744412 100644
--- a/deltares_wave_toolbox/series.py
+++ b/deltares_wave_toolbox/series.py
@@ -60,7 +60,7 @@ class WaveHeights:
             Hrms
 
         """
-        return np.sqrt(np.mean(self.hwave**2))
+        return np.sqrt(np.mean(np.square(self.hwave, dtype=float64)))
 
     def get_Hmax(self) -> float64:
         """Return maximum wave height
-- 
2.43.0


From 9a847c21ca7e65fe808c82a2adcb1ddac7c0f2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:56 +0000
Subject: [PATCH 24/29] fix: density from coefficients on an integer frequency
 axis overflows

The product of frequency step and squared number of samples was computed in
the type of the frequency axis, and wraps around (16-bit: 182 samples,
32-bit: 46341 samples).
---
 deltares_wave_toolbox/cores/core_spectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 1492d80..3ad176b 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -595,7 +595,7 @@ def compute_spectrum_freq_series(
         )
 
     # --- Transform to frequency domain
-    df = f[1] - f[0]
+    df = float(f[1] - f[0])
     sFine = np.real(2 * xFreq * np.conj(xFreq) / (df * Ntime * Ntime))
 
     # --- Perform averaging
-- 
2.43.0


From 5b576449d0f4a5caee4abbdfe83edf69a8766d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 25/29] fix: no NaN from the tail of a spectrum that ends in
 zero

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index 7bf32b2..479ae70 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -270,7 +270,10 @@ def compute_moment(
             #    C determined by power and spec(end)
             power = -5  # Power of high-frequency tail
             C = spec[len(spec) - 1] / (freq[len(freq) - 1] ** power)
-            if m + power + 1 == 0:
+            if C == 0:
+                # no tail (an infinite integral times zero would give NaN)
+                moment2 = 0.0
+            elif m + power + 1 == 0:
                 moment2 = C * np.log(fmax / freq[len(freq) - 1])
             else:
                 moment2 = (C / (m + power + 1)) * (
-- 
2.43.0


From d18d61ef7f4319f7f24b590f8f8662d81066dca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 26/29] fix: accept numpy integers as upper limit of a moment

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index 479ae70..4e415a5 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -227,6 +227,7 @@ def compute_moment(
 
     # --- Integers cannot be raised to a negative power
     f = f.astype(float64)
+    fmax = float(fmax)
 
     # --- Remove the possible situation that f=0 in combination with m<0. This
     #     would lead to division by zero
-- 
2.43.0


From 37f41d2f6a5854d2926e3d586180942fe6d7da9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:36 +0000
Subject: [PATCH 27/29] fix: decreasing axes of unsigned integers were accepted

---
 deltares_wave_toolbox/cores/core_engine.py | 4 +++-
 deltares_wave_toolbox/series.py            | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_engine.py b/deltares_wave_toolbox/cores/core_engine.py
index d0ad33c..627358c 100644
--- a/deltares_wave_toolbox/cores/core_engine.py
+++ b/deltares_wave_toolbox/cores/core_engine.py
@@ -66,7 +66,9 @@ def monotonic_increasing_constant_step(x: ArrayLike) -> bool:
     bool
         True when vector is monotonic increasing with constant step size
     """
-    xDiff = np.diff(x)
+    x = np.asarray(x)
+    # differences of unsigned integers cannot be negative
+    xDiff = np.diff(x.astype(float) if x.dtype.kind == "u" else x)
     # allow for the rounding of the values of x themselves, which dominates for axes
     # with a large offset (for example, a time axis in seconds since an epoch) or
     # stored in single precision
diff --git a/deltares_wave_toolbox/series.py b/deltares_wave_toolbox/series.py
index f744412..f20271e 100644
--- a/deltares_wave_toolbox/series.py
+++ b/deltares_wave_toolbox/series.py
@@ -319,7 +319,11 @@ class Series(WaveHeights):
         xTime, xSize = core_engine.convert_to_vector(xTime)
 
         assert tSize[0] == xSize[0], "Input error: array sizes differ in dimension"
-        assert np.all(np.diff(time) > 0), "Input error: time is not increasing"
+        # differences of unsigned integers cannot be negative
+        isUnsigned = time.dtype.kind == "u"
+        assert np.all(
+            np.diff(time.astype(float64) if isUnsigned else time) > 0
+        ), "Input error: time is not increasing"
         assert np.var(np.diff(time)) < np.mean(
             np.diff(time) / 100
         ), "Input error: time step is not equidistant"
-- 
2.43.0


From 2a997f7360a40b2db6d001645cdbe972d717b09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:37 +0000
Subject: [PATCH 28/29] fix: wave decomposition with unsigned integer weights
 or positions

---
 deltares_wave_toolbox/cores/core_wave_decomposition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_wave_decomposition.py b/deltares_wave_toolbox/cores/core_wave_decomposition.py
index 7292e42..4e78c8a 100644
--- a/deltares_wave_toolbox/cores/core_wave_decomposition.py
+++ b/deltares_wave_toolbox/cores/core_wave_decomposition.py
@@ -87,6 +87,9 @@ def decompose_linear_ZS(
     """
 
     # --- Some checks on input
+    # --- Differences of unsigned integers cannot be negative
+    x_loc = np.asarray(x_loc, dtype=float64)
+    w_loc = np.asarray(w_loc, dtype=float64)
 
     # --- Check whether input arrays are consistent in the sense that they
     #     share the same number of locations
-- 
2.43.0


From 20fb1a38cdc658b7e483172a1b939d958a59f042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:37 +0000
Subject: [PATCH 29/29] fix: wave number of angular frequencies given as small
 integers

---
 deltares_wave_toolbox/cores/core_dispersion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_dispersion.py b/deltares_wave_toolbox/cores/core_dispersion.py
index 5c68bf0..7b992e9 100644
--- a/deltares_wave_toolbox/cores/core_dispersion.py
+++ b/deltares_wave_toolbox/cores/core_dispersion.py
@@ -48,6 +48,9 @@ def disper(w: NDArray[float64], h: float, g: float = 9.81):
     # check if radial frequency is single value or of type array, if of type single value
     # convert to array to ensure this function can handle single values as well as arrays.
     w = core_engine.convert_to_array_type(w)
+    if w.dtype.kind in "iu":
+        # squares of small integers may overflow
+        w = w.astype(float64)
 
     # if not (isinstance(w,np.ndarray)):
     #   w = w*np.ones(1)
-- 
2.43.0

