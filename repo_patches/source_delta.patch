From 75e19fb62a935701163c580c6c79baa9c067e6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 01/16] fix: disper returns the deep and shallow water wave
 number instead of raising

---
 deltares_wave_toolbox/cores/core_dispersion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_dispersion.py b/deltares_wave_toolbox/cores/core_dispersion.py
index c03a5f7..b507adb 100644
--- a/deltares_wave_toolbox/cores/core_dispersion.py
+++ b/deltares_wave_toolbox/cores/core_dispersion.py
@@ -81,9 +81,9 @@ def disper(w: NDArray[float64], h: float, g: float = 9.81):
             arg[iq] = -c[iq] / b[iq]
             q = q + arg
 
-    k = np.sign(w) * q / h
+        k = np.sign(w) * q / h
 
-    ik = np.isnan(k)
-    k[ik] = np.zeros(np.size(k[ik]))
+        ik = np.isnan(k)
+        k[ik] = np.zeros(np.size(k[ik]))
 
     return k
-- 
2.43.0


From c1c57e714771fcaec2db8c300c6231fd2a5dc2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 02/16] fix: constant step check also rejects steps smaller
 than the first one

---
 deltares_wave_toolbox/cores/core_engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_engine.py b/deltares_wave_toolbox/cores/core_engine.py
index 9bf0937..2854e46 100644
--- a/deltares_wave_toolbox/cores/core_engine.py
+++ b/deltares_wave_toolbox/cores/core_engine.py
@@ -67,7 +67,7 @@ def monotonic_increasing_constant_step(x: ArrayLike) -> bool:
         True when vector is monotonic increasing with constant step size
     """
     xDiff = np.diff(x)
-    isUniform = bool(np.all((xDiff - xDiff[0]) < 1000000 * sys.float_info.epsilon))
+    isUniform = bool(np.all(np.abs(xDiff - xDiff[0]) < 1000000 * sys.float_info.epsilon))
     xMonotonic = bool(np.all(xDiff > 0))
 
     return xMonotonic and isUniform
-- 
2.43.0


From bc31b6117fc31279d40b8e146e634bfb8d5434a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 03/16] fix: spectrum parameters no longer depend on limits
 used in earlier calls

---
 deltares_wave_toolbox/spectrum.py | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/deltares_wave_toolbox/spectrum.py b/deltares_wave_toolbox/spectrum.py
index 7edb495..881fca5 100644
--- a/deltares_wave_toolbox/spectrum.py
+++ b/deltares_wave_toolbox/spectrum.py
@@ -120,8 +120,7 @@ class Spectrum:
             Hm0
         """
         if fmin == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
+            self.get_Tmm10()
             fmin = 0.45 / self.Tmm10
 
             warnings.warn(
@@ -156,8 +155,7 @@ class Spectrum:
             Hm0
         """
         if fmax == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
+            self.get_Tmm10()
             fmax = 0.45 / self.Tmm10
 
             warnings.warn(
@@ -270,8 +268,7 @@ class Spectrum:
             Tmm10
         """
         if fmin == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
+            self.get_Tmm10()
             fmin = 0.45 / self.Tmm10
 
             warnings.warn(
@@ -306,8 +303,7 @@ class Spectrum:
             Tmm10
         """
         if fmax == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
+            self.get_Tmm10()
             fmax = 0.45 / self.Tmm10
 
             warnings.warn(
@@ -383,11 +379,9 @@ class Spectrum:
         float
             s0p
         """
-        if not hasattr(self, "Hm0"):
-            self.get_Hm0(fmin=fmin, fmax=fmax)
+        self.get_Hm0(fmin=fmin, fmax=fmax)
 
-        if not hasattr(self, "Tps"):
-            self.get_Tps(fmin=fmin, fmax=fmax)
+        self.get_Tps(fmin=fmin, fmax=fmax)
 
         self.s0p = 2 * np.pi * self.Hm0 / (g * self.Tps**2)
         return self.s0p
@@ -414,11 +408,9 @@ class Spectrum:
         float
             smm10
         """
-        if not hasattr(self, "Hm0"):
-            self.get_Hm0(fmin=fmin, fmax=fmax)
+        self.get_Hm0(fmin=fmin, fmax=fmax)
 
-        if not hasattr(self, "Tmm10"):
-            self.get_Tmm10(fmin=fmin, fmax=fmax)
+        self.get_Tmm10(fmin=fmin, fmax=fmax)
 
         self.smm10 = 2 * np.pi * self.Hm0 / (g * self.Tmm10**2)
         return self.smm10
@@ -446,11 +438,9 @@ class Spectrum:
         float
             smm10_HF
         """
-        if not hasattr(self, "Hm0_HF"):
-            self.get_Hm0_HF(fmin=fmin, fmax=fmax)
+        self.get_Hm0_HF(fmin=fmin, fmax=fmax)
 
-        if not hasattr(self, "Tmm10_HF"):
-            self.get_Tmm10_HF(fmin=fmin, fmax=fmax)
+        self.get_Tmm10_HF(fmin=fmin, fmax=fmax)
 
         self.smm10_HF = 2 * np.pi * self.Hm0_HF / (g * self.Tmm10_HF**2)
         return self.smm10_HF
-- 
2.43.0


From 84ce6657199fb211239fbc188bc86898b10bc1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 04/16] fix: sorting waves keeps the order of waves with equal
 height

---
 deltares_wave_toolbox/cores/core_time.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_time.py b/deltares_wave_toolbox/cores/core_time.py
index a706487..44d1fa2 100644
--- a/deltares_wave_toolbox/cores/core_time.py
+++ b/deltares_wave_toolbox/cores/core_time.py
@@ -84,9 +84,8 @@ def sort_wave_params(
 
     # Computational core
     # --- Sort the wave height in descending order
-    iSorted = np.argsort(hWave)[
-        ::-1
-    ]  # term [::-1] reverses the array, meaning descending order.
+    #     A stable sort keeps waves of equal height in their original order.
+    iSorted = np.argsort(-hWave, kind="stable")
     hWaveSorted = hWave[iSorted]
     # --- Sort the wave periods
     tWaveSorted = tWave[iSorted]
-- 
2.43.0


From b6714b8aa8f0e29ddc670aeb4535bc6229b45576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 05/16] fix: band filter keeps the first and last component
 inside its band

---
 deltares_wave_toolbox/cores/core_spectral.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 5989527..64cf37e 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -839,7 +839,7 @@ def applybandfilter(
 
     # --- Find index in frequency array corresponding to flow
     if flow <= f[0]:
-        ilow = 1
+        ilow = 0
     elif flow >= f[-1]:
         ilow = Nf
     else:
@@ -847,11 +847,11 @@ def applybandfilter(
 
     # --- Find index in frequency array corresponding to fhigh
     if fhigh <= f[0]:
-        ihigh = 1
+        ihigh = 0
     elif fhigh >= f[-1]:
         ihigh = Nf
     else:
-        ihigh = np.where(f < fhigh)[0][-1]
+        ihigh = np.where(f < fhigh)[0][-1] + 1
 
     # --- Initialize
     zFreq = np.zeros(len(xFreq)).astype(complex)
-- 
2.43.0


From cfd61d4a60181b0983e2ef340725d1d8a5e4b2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 06/16] fix: compute_moment uses a single given frequency limit

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index b284fcb..49280c4 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -237,6 +237,12 @@ def compute_moment(
     # --- Compute the integrand, that is the product of f^m * S
     integrand = freq ** (m) * spec
 
+    # --- If only one of the limits is given, the other one is the end of the axis
+    if fmin == -1.0 and fmax != -1.0:
+        fmin = f[0]
+    elif fmax == -1.0 and fmin != -1.0:
+        fmax = f[-1]
+
     # --- Depending on number of input arguments, compute the moment integral
     if fmin == -1.0 or fmax == -1.0:  # integrate over all values in freq interval.
         moment = integrate.simpson(integrand, x=freq)
-- 
2.43.0


From a352e20c225a97b38e11e8d03da5d64501c0e1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 07/16] fix: wave statistics of a record without waves are
 empty or zero

---
 deltares_wave_toolbox/cores/core_time.py | 56 +++++++++++-------------
 1 file changed, 26 insertions(+), 30 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_time.py b/deltares_wave_toolbox/cores/core_time.py
index 44d1fa2..d4302e1 100644
--- a/deltares_wave_toolbox/cores/core_time.py
+++ b/deltares_wave_toolbox/cores/core_time.py
@@ -56,6 +56,10 @@ def sort_wave_params(
     hWave = core_engine.convert_to_array_type(hWave)
     tWave = core_engine.convert_to_array_type(tWave)
 
+    # --- If there are no waves, return to calling function
+    if hWave.size == 0 and tWave.size == 0:
+        return np.empty((0, 0)), np.empty((0, 0))
+
     # Check on input arguments
     # --- Check whether the size of the input arguments is identical
     is1d_array = core_engine.is1darray(hWave)
@@ -73,15 +77,6 @@ def sort_wave_params(
             "InputError", "Input arrays hWave and tWave have different length"
         )
 
-    # --- Number of waves
-    nWave = len(hWave)
-
-    # --- If there are no waves, return to calling function
-    hWaveSorted = np.empty((0, 0))
-    tWaveSorted = np.empty((0, 0))
-    if nWave < 1:
-        return hWaveSorted, tWaveSorted
-
     # Computational core
     # --- Sort the wave height in descending order
     #     A stable sort keeps waves of equal height in their original order.
@@ -259,6 +254,18 @@ def highest_waves_params(
     hWaveSorted = core_engine.convert_to_array_type(hWaveSorted)
     tWaveSorted = core_engine.convert_to_array_type(tWaveSorted)
 
+    # --- Input parameter fracP should be between 0 and 1
+    if fracP < 0 or fracP > 1:
+        raise ValueError(
+            "highest_waves_params: Input error: Input parameter fracP should be between 0 and 1 "
+        )
+
+    # --- If there are no waves, return to calling function
+    hFracP = 0.0
+    tFracP = 0.0
+    if hWaveSorted.size == 0 and tWaveSorted.size == 0:
+        return hFracP, tFracP
+
     # Perform checks on the input arguments
     is1d_array = core_engine.is1darray(hWaveSorted)
     if not is1d_array:
@@ -279,20 +286,8 @@ def highest_waves_params(
             "highest_waves_params: Input error: Input arrays tWaveSorted and hWaveSorted have different length"
         )
 
-    # --- Input parameter fracP should be between 0 and 1
-    if fracP < 0 or fracP > 1:
-        raise ValueError(
-            "highest_waves_params: Input error: Input parameter fracP should be between 0 and 1 "
-        )
-
-    # --- If there are no waves, return to calling function
-    hFracP = 0.0
-    tFracP = 0.0
-
     # --- Number of waves
     nWave = len(hWaveSorted)
-    if nWave < 1:
-        return hFracP, tFracP
 
     # --- Check whether hWaveSorted is indeed sorted
     issorted = (hWaveSorted == np.sort(hWaveSorted)[::-1]).all()
@@ -348,13 +343,6 @@ def exceedance_wave_height(hWaveSorted: NDArray[float64], excPerc: float) -> flo
     """
     hWaveSorted = core_engine.convert_to_array_type(hWaveSorted)
 
-    # Perform checks on the input arguments
-    is1d_array = core_engine.is1darray(hWaveSorted)
-    if not is1d_array:
-        raise ValueError(
-            "exceedance_wave_height: Input error: Input arrays hWaveSorted is not 1D"
-        )
-
     # Check on input arguments
     # --- Input parameter excPerc should not exceed 100 (100%) or be smaller than 0
     isvalid_range = excPerc > 100 or excPerc < 0
@@ -365,10 +353,18 @@ def exceedance_wave_height(hWaveSorted: NDArray[float64], excPerc: float) -> flo
 
     # --- If there are no waves, return to calling function
     hExcPerc = 0.0
+    if hWaveSorted.size == 0:
+        return hExcPerc
+
+    # Perform checks on the input arguments
+    is1d_array = core_engine.is1darray(hWaveSorted)
+    if not is1d_array:
+        raise ValueError(
+            "exceedance_wave_height: Input error: Input arrays hWaveSorted is not 1D"
+        )
+
     # --- Number of waves
     nWave = len(hWaveSorted)
-    if nWave < 1:
-        return hExcPerc
 
     # --- Check whether hWaveSorted is indeed sorted
     issorted = (hWaveSorted == np.sort(hWaveSorted)[::-1]).all()
-- 
2.43.0


From 2d71259a26be9ed6d23926f4c49b619348ecae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 08/16] fix: equidistance check of a series no longer depends
 on the unit of time

---
 deltares_wave_toolbox/series.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deltares_wave_toolbox/series.py b/deltares_wave_toolbox/series.py
index 0b3574c..d95b4fe 100644
--- a/deltares_wave_toolbox/series.py
+++ b/deltares_wave_toolbox/series.py
@@ -319,8 +319,8 @@ class Series(WaveHeights):
         xTime, xSize = core_engine.convert_to_vector(xTime)
 
         assert tSize[0] == xSize[0], "Input error: array sizes differ in dimension"
-        assert np.var(np.diff(time)) < np.mean(
-            np.diff(time) / 100
+        assert np.std(np.diff(time)) < np.mean(
+            np.diff(time) / 10
         ), "Input error: time step is not equidistant"
 
         self.time = time
-- 
2.43.0


From 7d6940e9950851da2312a270659c08079b812e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 09/16] fix: band averages of an integer spectrum are no longer
 truncated

---
 deltares_wave_toolbox/cores/core_spectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 64cf37e..c43921b 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -79,7 +79,7 @@ def frequency_averaging(
 
     # --- Initialize arrays
     f_coarse = np.zeros(len(f[0:nCoarse]))
-    sVarDens_coarse = np.zeros(len(f_coarse), dtype=type(sVarDens[0]))
+    sVarDens_coarse = np.zeros(len(f_coarse), dtype=np.result_type(sVarDens, float))
 
     # --- Perform the averaging
     for iFreq in np.arange(0, nCoarse):  # before np.arange(0,nCoarse)
-- 
2.43.0


From b6ccb12ea2d5083c0eb5ead8c2f097faa72b2253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 10/16] fix: moments and parametric spectra accept an integer
 frequency axis

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index 49280c4..05ffb5d 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -227,6 +227,7 @@ def compute_moment(
 
     # --- Remove the possible situation that f=0 in combination with m<0. This
     #     would lead to division by zero
+    f = f.astype(float)
     if m < 0 and f[0] == 0:
         freq = f[1:]
         spec = sVarDens[1:]
@@ -374,7 +375,7 @@ def create_spectrum_jonswap(
     # --- Evaluate variance density spectrum, for the moment omitting the
     #     weighting
     for iff in np.arange(0, nf):
-        f_i = f[iff]
+        f_i = float(f[iff])
 
         # --- Consider only f_i > 0.
         #     For f_i <=0, the variance density is kept equal to zero
-- 
2.43.0


From 72c4ebbce6a1a7657f3526ec5047e407af9e0195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 11/16] fix: smoothed peak period is a scalar for every
 spectrum

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index 05ffb5d..e30657b 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -682,7 +682,7 @@ def compute_tps(f: NDArray[float64], sVarDens: NDArray[float64]) -> float:
                 Fps = -b / (2 * a)
             else:
                 # Exceptional situation; can only occur if imax=1 or imax=nF
-                Fps = f[imax]
+                Fps = f[imax[0]]
             Tps = 1.0 / Fps
 
         elif nmax == 2:
@@ -718,7 +718,7 @@ def compute_tps(f: NDArray[float64], sVarDens: NDArray[float64]) -> float:
         # --- nF = 2: two points
         if nmax == 1:
             # nmax = 1
-            Tps = 1 / f[imax]
+            Tps = 1 / f[imax[0]]
         else:
             # nmax = 2
             favg = 0.5 * (f[0] + f[1])
-- 
2.43.0


From b91dd5f9095c765715b8963c7b10f5417be42ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 12/16] fix: spectrum2timeseries accepts column vectors

---
 deltares_wave_toolbox/cores/core_spectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index c43921b..9f4f0f8 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -650,7 +650,7 @@ def spectrum2timeseries(
 
     """
     f, fSize = core_engine.convert_to_vector(f)
-    xFreq, xFreqSize = core_engine.convert_to_vector(sVarDens)
+    sVarDens, xFreqSize = core_engine.convert_to_vector(sVarDens)
 
     if fSize[1] > 1 or xFreqSize[1] > 1:
         raise ValueError(
-- 
2.43.0


From 36e9ce1cc205be428886279821e9e7c12893a883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 13/16] fix: coherence averages the complex cross spectrum
 before taking its modulus

---
 deltares_wave_toolbox/cores/core_spectral.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 9f4f0f8..48fa9ea 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -210,13 +210,13 @@ def coherence(
         coh2 : NDArray[float64]
             coherence (magnitude-squared coherence)
     """
-    # --- Compute auto-spectral and cross-spectral (absolute value) densities
+    # --- Compute auto-spectral (absolute value) and cross-spectral densities
     #     on original frequency axis
     #     Note: Normalisation factors (2 / (df * Ntime * Ntime)) may be omitted,
     #     since they cancel out
     S11 = abs(xFreq1 * np.conj(xFreq1))
     S22 = abs(xFreq2 * np.conj(xFreq2))
-    S12 = abs(xFreq1 * np.conj(xFreq2))
+    S12 = xFreq1 * np.conj(xFreq2)
 
     # --- Apply band averaging
     f_coh2, S11_b = frequency_averaging(f, S11, dfDesired)
@@ -234,7 +234,7 @@ def coherence(
     S22_b[ismall] = small_number
 
     # --- Compute coherence
-    coh2 = (S12_b) ** 2 / (S11_b * S22_b)
+    coh2 = abs(S12_b) ** 2 / (S11_b * S22_b)
 
     return f_coh2, coh2
 
-- 
2.43.0


From f5c29a573fa26fb660e019acd00069279b57819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 14/16] fix: gauge weights outside 0 to 1 are rejected

---
 deltares_wave_toolbox/cores/core_wave_decomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wave_decomposition.py b/deltares_wave_toolbox/cores/core_wave_decomposition.py
index e8e4630..b42faeb 100644
--- a/deltares_wave_toolbox/cores/core_wave_decomposition.py
+++ b/deltares_wave_toolbox/cores/core_wave_decomposition.py
@@ -110,7 +110,7 @@ def decompose_linear_ZS(
     ), "ZS: input error: Dimensions of x_loc and t do not correspond."
     # --- Values of w_loc should be between 0 and 1
     assert (
-        min(w_loc) > 0 or max(w_loc) <= 1
+        min(w_loc) >= 0 and max(w_loc) <= 1
     ), "ZS: input error: Values of w_loc must be between 0 and 1."
 
     w_loc_sum = sum(w_loc)
-- 
2.43.0


From 83ebdb99f80676e9b6eaa89330ba6df3052b49de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 15/16] fix: decomposition rejects a number of series that
 differs from the locations

---
 deltares_wave_toolbox/cores/core_wave_decomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wave_decomposition.py b/deltares_wave_toolbox/cores/core_wave_decomposition.py
index b42faeb..7292e42 100644
--- a/deltares_wave_toolbox/cores/core_wave_decomposition.py
+++ b/deltares_wave_toolbox/cores/core_wave_decomposition.py
@@ -275,7 +275,7 @@ def decompose_linear_ZS_series(
 
         if i == 0:
             t = series_object.time
-            xTime = np.zeros((len(t), len(x_loc)))
+            xTime = np.zeros((len(t), len(Series_objects)))
 
         xTime[:, i] = series_object.xTime
 
-- 
2.43.0


From 45b4f831b04332a8d8b94c67913c6bbcb9a1f48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 16/16] fix: band filter keeps the last component when the
 lower limit equals its frequency

---
 deltares_wave_toolbox/cores/core_spectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 48fa9ea..665a82d 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -840,7 +840,7 @@ def applybandfilter(
     # --- Find index in frequency array corresponding to flow
     if flow <= f[0]:
         ilow = 0
-    elif flow >= f[-1]:
+    elif flow > f[-1]:
         ilow = Nf
     else:
         ilow = np.where(f < flow)[0][-1] + 1
-- 
2.43.0

