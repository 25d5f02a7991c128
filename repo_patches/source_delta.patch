From 1479a1950186364972d23587645a0fe296d9d133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 01/29] fix: disper no longer crashes for deep (h=inf) and
 shallow (h<0) water

---
 deltares_wave_toolbox/cores/core_dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_dispersion.py b/deltares_wave_toolbox/cores/core_dispersion.py
index c03a5f7..02575ab 100644
--- a/deltares_wave_toolbox/cores/core_dispersion.py
+++ b/deltares_wave_toolbox/cores/core_dispersion.py
@@ -81,7 +81,7 @@ def disper(w: NDArray[float64], h: float, g: float = 9.81):
             arg[iq] = -c[iq] / b[iq]
             q = q + arg
 
-    k = np.sign(w) * q / h
+        k = np.sign(w) * q / h
 
     ik = np.isnan(k)
     k[ik] = np.zeros(np.size(k[ik]))
-- 
2.43.0


From 3947dbc0d4ba2638971527577c01c251ad40773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 02/29] fix: disper solves the dispersion relation for very
 long waves too

---
 deltares_wave_toolbox/cores/core_dispersion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_dispersion.py b/deltares_wave_toolbox/cores/core_dispersion.py
index 02575ab..41de79a 100644
--- a/deltares_wave_toolbox/cores/core_dispersion.py
+++ b/deltares_wave_toolbox/cores/core_dispersion.py
@@ -62,9 +62,10 @@ def disper(w: NDArray[float64], h: float, g: float = 9.81):
         # --- Standard (nonlinear) dispersion relation for depths 0 < h < inf
         w2 = (w**2) * h / g
 
-        ielem = np.nonzero(w2 < 1.0e-8)
-        w2[ielem] = 1e-8
-        q = w2 / (1 - np.exp(-(w2 ** (5 / 4)))) ** (2 / 5)
+        # a zero frequency would give 0 / 0 here; its wave number is set to
+        # zero by the factor sign(w) below
+        w2[w2 == 0] = 1.0
+        q = w2 / (-np.expm1(-(w2 ** (5 / 4)))) ** (2 / 5)
 
         idxs = [1, 2]
         for j in idxs:
-- 
2.43.0


From 4ccd71e30b58f7114de0957d60f5ce13063ee413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 03/29] fix: frequency_averaging does not truncate averages of
 integer input

---
 deltares_wave_toolbox/cores/core_spectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 5989527..f12fc3a 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -79,7 +79,7 @@ def frequency_averaging(
 
     # --- Initialize arrays
     f_coarse = np.zeros(len(f[0:nCoarse]))
-    sVarDens_coarse = np.zeros(len(f_coarse), dtype=type(sVarDens[0]))
+    sVarDens_coarse = np.zeros(len(f_coarse), dtype=np.result_type(sVarDens, float))
 
     # --- Perform the averaging
     for iFreq in np.arange(0, nCoarse):  # before np.arange(0,nCoarse)
-- 
2.43.0


From aa52b7aa4b5536960332dc1a5c24af2e1a24c0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 04/29] fix: the uniform-axis check also rejects steps that
 become smaller

---
 deltares_wave_toolbox/cores/core_engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_engine.py b/deltares_wave_toolbox/cores/core_engine.py
index 9bf0937..2854e46 100644
--- a/deltares_wave_toolbox/cores/core_engine.py
+++ b/deltares_wave_toolbox/cores/core_engine.py
@@ -67,7 +67,7 @@ def monotonic_increasing_constant_step(x: ArrayLike) -> bool:
         True when vector is monotonic increasing with constant step size
     """
     xDiff = np.diff(x)
-    isUniform = bool(np.all((xDiff - xDiff[0]) < 1000000 * sys.float_info.epsilon))
+    isUniform = bool(np.all(np.abs(xDiff - xDiff[0]) < 1000000 * sys.float_info.epsilon))
     xMonotonic = bool(np.all(xDiff > 0))
 
     return xMonotonic and isUniform
-- 
2.43.0


From 25d51f29a6ba4229bbb6b6309a1cafe77ecdb1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 05/29] fix: the uniform-axis check allows for rounding of axes
 that start far from zero

---
 deltares_wave_toolbox/cores/core_engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_engine.py b/deltares_wave_toolbox/cores/core_engine.py
index 2854e46..45cfb61 100644
--- a/deltares_wave_toolbox/cores/core_engine.py
+++ b/deltares_wave_toolbox/cores/core_engine.py
@@ -67,7 +67,8 @@ def monotonic_increasing_constant_step(x: ArrayLike) -> bool:
         True when vector is monotonic increasing with constant step size
     """
     xDiff = np.diff(x)
-    isUniform = bool(np.all(np.abs(xDiff - xDiff[0]) < 1000000 * sys.float_info.epsilon))
+    tolerance = sys.float_info.epsilon * max(1000000, 4 * np.max(np.abs(x)))
+    isUniform = bool(np.all(np.abs(xDiff - xDiff[0]) < tolerance))
     xMonotonic = bool(np.all(xDiff > 0))
 
     return xMonotonic and isUniform
-- 
2.43.0


From 173d1a6f4fd9697bbc484a53e55b87de823b2b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 06/29] fix: sorting waves of equal height is repeatable

---
 deltares_wave_toolbox/cores/core_time.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_time.py b/deltares_wave_toolbox/cores/core_time.py
index a706487..fad02fc 100644
--- a/deltares_wave_toolbox/cores/core_time.py
+++ b/deltares_wave_toolbox/cores/core_time.py
@@ -84,9 +84,10 @@ def sort_wave_params(
 
     # Computational core
     # --- Sort the wave height in descending order
-    iSorted = np.argsort(hWave)[
-        ::-1
-    ]  # term [::-1] reverses the array, meaning descending order.
+    #     (terms [::-1] reverse the arrays, meaning descending order; waves of
+    #     equal height keep their relative order, so that sorting again changes
+    #     nothing)
+    iSorted = len(hWave) - 1 - np.argsort(hWave[::-1], kind="stable")[::-1]
     hWaveSorted = hWave[iSorted]
     # --- Sort the wave periods
     tWaveSorted = tWave[iSorted]
-- 
2.43.0


From 73aa4d84bcf7170d9b6d674a6fda3851aa033bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 07/29] fix: a record without waves gives zero wave parameters
 instead of an error

---
 deltares_wave_toolbox/cores/core_time.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_time.py b/deltares_wave_toolbox/cores/core_time.py
index fad02fc..9d2287b 100644
--- a/deltares_wave_toolbox/cores/core_time.py
+++ b/deltares_wave_toolbox/cores/core_time.py
@@ -59,11 +59,11 @@ def sort_wave_params(
     # Check on input arguments
     # --- Check whether the size of the input arguments is identical
     is1d_array = core_engine.is1darray(hWave)
-    if not is1d_array:
+    if not is1d_array and hWave.size > 0:
         raise ValueError("sort_wave_params: Input error, Input arrays hWave is not 1D")
 
     is1d_array = core_engine.is1darray(tWave)
-    if not is1d_array:
+    if not is1d_array and tWave.size > 0:
         raise ValueError("sort_wave_params: Input error, Input array tWave is not 1D")
 
     # --- Check whether number of elements in input arguments is identical
@@ -263,13 +263,13 @@ def highest_waves_params(
 
     # Perform checks on the input arguments
     is1d_array = core_engine.is1darray(hWaveSorted)
-    if not is1d_array:
+    if not is1d_array and hWaveSorted.size > 0:
         raise ValueError(
             "highest_waves_params: Input error: Input arrays hWaveSorted is not 1D"
         )
 
     is1d_array = core_engine.is1darray(tWaveSorted)
-    if not is1d_array:
+    if not is1d_array and tWaveSorted.size > 0:
         raise ValueError(
             "highest_waves_params: Input error: Input arrays tWaveSorted is not 1D"
         )
@@ -352,7 +352,7 @@ def exceedance_wave_height(hWaveSorted: NDArray[float64], excPerc: float) -> flo
 
     # Perform checks on the input arguments
     is1d_array = core_engine.is1darray(hWaveSorted)
-    if not is1d_array:
+    if not is1d_array and hWaveSorted.size > 0:
         raise ValueError(
             "exceedance_wave_height: Input error: Input arrays hWaveSorted is not 1D"
         )
-- 
2.43.0


From 17e47c2a4eca91ab3354267d3323b3245ab38491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 08/29] fix: get_spectrum works for records shorter than half a
 segment

---
 deltares_wave_toolbox/series.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_wave_toolbox/series.py b/deltares_wave_toolbox/series.py
index 0b3574c..cf8793e 100644
--- a/deltares_wave_toolbox/series.py
+++ b/deltares_wave_toolbox/series.py
@@ -437,6 +437,7 @@ class Series(WaveHeights):
 
         if use_dfDesired:
             nperseg = np.round((1 / self.dt) / dfDesired).astype(int)
+            nperseg = min(nperseg, self.nt)
             noverlap = np.round(nperseg / 2).astype(int)
 
         [f, S] = core_spectral.compute_spectrum_welch_wrapper(
-- 
2.43.0


From eeab14af21e4d33e9687cc13e799ca9b0ebfc814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 09/29] fix: synthesised time axis ends at the requested end
 time

---
 deltares_wave_toolbox/cores/core_spectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index f12fc3a..b64f0d6 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -662,7 +662,7 @@ def spectrum2timeseries(
             "compute_spectrum_freq_series: Input error: array sizes differ in dimension"
         )
 
-    t = np.arange(tInit, tEnd + dt, dt)
+    t = np.arange(tInit, tEnd + dt / 2, dt)
 
     nTime = len(t)
     nTimeEven = int(2 * np.ceil(nTime / 2))
-- 
2.43.0


From 1817154f6bda5c96ef7414068f8654cdd252db52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 10/29] fix: spectrum2timeseries accepts a column vector like
 the other functions

---
 deltares_wave_toolbox/cores/core_spectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index b64f0d6..3a4dbf7 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -650,7 +650,7 @@ def spectrum2timeseries(
 
     """
     f, fSize = core_engine.convert_to_vector(f)
-    xFreq, xFreqSize = core_engine.convert_to_vector(sVarDens)
+    sVarDens, xFreqSize = core_engine.convert_to_vector(sVarDens)
 
     if fSize[1] > 1 or xFreqSize[1] > 1:
         raise ValueError(
-- 
2.43.0


From 694c5034c09208c61d924195b239bb133ef1ef5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 11/29] fix: band filter keeps the highest frequency component
 below the upper limit

---
 deltares_wave_toolbox/cores/core_spectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 3a4dbf7..7c686d6 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -851,7 +851,7 @@ def applybandfilter(
     elif fhigh >= f[-1]:
         ihigh = Nf
     else:
-        ihigh = np.where(f < fhigh)[0][-1]
+        ihigh = np.where(f < fhigh)[0][-1] + 1
 
     # --- Initialize
     zFreq = np.zeros(len(xFreq)).astype(complex)
-- 
2.43.0


From 1d92deb22a0d9ad3426e29cdab06307bd93ddf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 12/29] fix: compute_moment honours a limit that is given
 without the other one

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index b284fcb..5b07021 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -238,10 +238,14 @@ def compute_moment(
     integrand = freq ** (m) * spec
 
     # --- Depending on number of input arguments, compute the moment integral
-    if fmin == -1.0 or fmax == -1.0:  # integrate over all values in freq interval.
+    if fmin == -1.0 and fmax == -1.0:  # integrate over all values in freq interval.
         moment = integrate.simpson(integrand, x=freq)
     else:  # integrate over all values in sub interval.
-        # fmin and fmax are given
+        # fmin and/or fmax are given
+        if fmin == -1.0:
+            fmin = f[0]
+        if fmax == -1.0:
+            fmax = f[-1]
         fminn = fmin
         if m < 0 and f[0] == 0:
             if fmin == 0:
-- 
2.43.0


From 5527f0d650387beb186b41d7edd4883b33cc35c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 13/29] fix: moments and JONSWAP spectra accept integer
 frequencies

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index 5b07021..191fc26 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -225,6 +225,9 @@ def compute_moment(
     if not (fSize[0] == SSize[0]):
         raise ValueError("compute_moment: Input error: array sizes differ in dimension")
 
+    # --- Negative powers are not defined for integer arrays
+    f = f.astype(float)
+
     # --- Remove the possible situation that f=0 in combination with m<0. This
     #     would lead to division by zero
     if m < 0 and f[0] == 0:
@@ -372,7 +375,7 @@ def create_spectrum_jonswap(
     # --- Evaluate variance density spectrum, for the moment omitting the
     #     weighting
     for iff in np.arange(0, nf):
-        f_i = f[iff]
+        f_i = float(f[iff])
 
         # --- Consider only f_i > 0.
         #     For f_i <=0, the variance density is kept equal to zero
-- 
2.43.0


From 5eccf9fae809a4be480cdb8b37a55a94d1b9824f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 14/29] fix: tpd is the peak period when one frequency holds
 the whole peak

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index 191fc26..662f12a 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -588,6 +588,10 @@ def tpd(f: NDArray[float64], sVarDens: NDArray[float64]) -> float:
     temp = f[itemp]
     fp_limits = [min(temp), max(temp)]
 
+    # --- a single frequency: the moments below are zero
+    if fp_limits[0] == fp_limits[1]:
+        return 1 / fp_limits[0]
+
     #  --- compute zeroth and first moment for selected frequency interval.
     m0 = compute_moment(f, sVarDens, 0, fp_limits[0], fp_limits[1])
     m1 = compute_moment(f, sVarDens, 1, fp_limits[0], fp_limits[1])
-- 
2.43.0


From cd63150c5084a930c8f2851401d4f062d5e3949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 15/29] fix: smoothed peak of a spectrum that peaks at its
 first or last frequency

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index 662f12a..f0042a0 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -682,11 +682,12 @@ def compute_tps(f: NDArray[float64], sVarDens: NDArray[float64]) -> float:
             a = p[0]
             b = p[1]
             # --- Compute Fps
-            if a < 0.0:
+            if a < 0.0 and ff[0] <= -b / (2 * a) <= ff[2]:
                 Fps = -b / (2 * a)
             else:
                 # Exceptional situation; can only occur if imax=1 or imax=nF
-                Fps = f[imax]
+                # (no maximum, or a maximum outside the frequency range)
+                Fps = f[imax[0]]
             Tps = 1.0 / Fps
 
         elif nmax == 2:
-- 
2.43.0


From 52e895356e4b7506c69322a08fe6009591a2cf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 16/29] fix: compute_tps returns a number for a spectrum of two
 frequencies

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index f0042a0..c93476d 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -723,7 +723,7 @@ def compute_tps(f: NDArray[float64], sVarDens: NDArray[float64]) -> float:
         # --- nF = 2: two points
         if nmax == 1:
             # nmax = 1
-            Tps = 1 / f[imax]
+            Tps = 1 / f[imax[0]]
         else:
             # nmax = 2
             favg = 0.5 * (f[0] + f[1])
-- 
2.43.0


From 6b52daa0aae2c380d1c455f264fc2487680f7922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 17/29] fix: Series rejects a non-equidistant time axis at any
 time scale

---
 deltares_wave_toolbox/series.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/deltares_wave_toolbox/series.py b/deltares_wave_toolbox/series.py
index cf8793e..833da8b 100644
--- a/deltares_wave_toolbox/series.py
+++ b/deltares_wave_toolbox/series.py
@@ -319,8 +319,9 @@ class Series(WaveHeights):
         xTime, xSize = core_engine.convert_to_vector(xTime)
 
         assert tSize[0] == xSize[0], "Input error: array sizes differ in dimension"
-        assert np.var(np.diff(time)) < np.mean(
-            np.diff(time) / 100
+        timeStep = np.diff(time)
+        assert (
+            np.all(timeStep > 0) and np.var(timeStep) < (np.mean(timeStep) / 10) ** 2
         ), "Input error: time step is not equidistant"
 
         self.time = time
-- 
2.43.0


From aca5ad5f058989ea3f2f1ac62f23432787df5909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 18/29] fix: decomposition rejects gauge weights outside [0, 1]

---
 deltares_wave_toolbox/cores/core_wave_decomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wave_decomposition.py b/deltares_wave_toolbox/cores/core_wave_decomposition.py
index e8e4630..b42faeb 100644
--- a/deltares_wave_toolbox/cores/core_wave_decomposition.py
+++ b/deltares_wave_toolbox/cores/core_wave_decomposition.py
@@ -110,7 +110,7 @@ def decompose_linear_ZS(
     ), "ZS: input error: Dimensions of x_loc and t do not correspond."
     # --- Values of w_loc should be between 0 and 1
     assert (
-        min(w_loc) > 0 or max(w_loc) <= 1
+        min(w_loc) >= 0 and max(w_loc) <= 1
     ), "ZS: input error: Values of w_loc must be between 0 and 1."
 
     w_loc_sum = sum(w_loc)
-- 
2.43.0


From 44df084e7d56009c54906bbc551c385c1aeebe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 19/29] fix: decomposition of Series rejects a missing gauge
 signal

---
 deltares_wave_toolbox/cores/core_wave_decomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wave_decomposition.py b/deltares_wave_toolbox/cores/core_wave_decomposition.py
index b42faeb..7292e42 100644
--- a/deltares_wave_toolbox/cores/core_wave_decomposition.py
+++ b/deltares_wave_toolbox/cores/core_wave_decomposition.py
@@ -275,7 +275,7 @@ def decompose_linear_ZS_series(
 
         if i == 0:
             t = series_object.time
-            xTime = np.zeros((len(t), len(x_loc)))
+            xTime = np.zeros((len(t), len(Series_objects)))
 
         xTime[:, i] = series_object.xTime
 
-- 
2.43.0


From 7127022dd4f29b1b737af2ebae6f92d3c10af473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 20/29] fix: wave steepness uses the frequency limits of its
 own call, not those of an earlier one

---
 deltares_wave_toolbox/spectrum.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/deltares_wave_toolbox/spectrum.py b/deltares_wave_toolbox/spectrum.py
index 7edb495..640dd12 100644
--- a/deltares_wave_toolbox/spectrum.py
+++ b/deltares_wave_toolbox/spectrum.py
@@ -383,11 +383,8 @@ class Spectrum:
         float
             s0p
         """
-        if not hasattr(self, "Hm0"):
-            self.get_Hm0(fmin=fmin, fmax=fmax)
-
-        if not hasattr(self, "Tps"):
-            self.get_Tps(fmin=fmin, fmax=fmax)
+        self.get_Hm0(fmin=fmin, fmax=fmax)
+        self.get_Tps(fmin=fmin, fmax=fmax)
 
         self.s0p = 2 * np.pi * self.Hm0 / (g * self.Tps**2)
         return self.s0p
@@ -414,11 +411,8 @@ class Spectrum:
         float
             smm10
         """
-        if not hasattr(self, "Hm0"):
-            self.get_Hm0(fmin=fmin, fmax=fmax)
-
-        if not hasattr(self, "Tmm10"):
-            self.get_Tmm10(fmin=fmin, fmax=fmax)
+        self.get_Hm0(fmin=fmin, fmax=fmax)
+        self.get_Tmm10(fmin=fmin, fmax=fmax)
 
         self.smm10 = 2 * np.pi * self.Hm0 / (g * self.Tmm10**2)
         return self.smm10
@@ -446,11 +440,8 @@ class Spectrum:
         float
             smm10_HF
         """
-        if not hasattr(self, "Hm0_HF"):
-            self.get_Hm0_HF(fmin=fmin, fmax=fmax)
-
-        if not hasattr(self, "Tmm10_HF"):
-            self.get_Tmm10_HF(fmin=fmin, fmax=fmax)
+        self.get_Hm0_HF(fmin=fmin, fmax=fmax)
+        self.get_Tmm10_HF(fmin=fmin, fmax=fmax)
 
         self.smm10_HF = 2 * np.pi * self.Hm0_HF / (g * self.Tmm10_HF**2)
         return self.smm10_HF
-- 
2.43.0


From 436b2af2dafb4424b1a1477e981c692e2dec9699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 21/29] fix: default cutoff of the high and low frequency parts
 does not depend on earlier calls

---
 deltares_wave_toolbox/spectrum.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/deltares_wave_toolbox/spectrum.py b/deltares_wave_toolbox/spectrum.py
index 640dd12..42dc3a2 100644
--- a/deltares_wave_toolbox/spectrum.py
+++ b/deltares_wave_toolbox/spectrum.py
@@ -120,9 +120,7 @@ class Spectrum:
             Hm0
         """
         if fmin == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
-            fmin = 0.45 / self.Tmm10
+            fmin = 0.45 / self.get_Tmm10()
 
             warnings.warn(
                 "Cutoff frequency fmin not set, using default value of 0.45 / Tmm10",
@@ -156,9 +154,7 @@ class Spectrum:
             Hm0
         """
         if fmax == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
-            fmax = 0.45 / self.Tmm10
+            fmax = 0.45 / self.get_Tmm10()
 
             warnings.warn(
                 "Cutoff frequency fmax not set, using default value of 0.45 / Tmm10",
@@ -270,9 +266,7 @@ class Spectrum:
             Tmm10
         """
         if fmin == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
-            fmin = 0.45 / self.Tmm10
+            fmin = 0.45 / self.get_Tmm10()
 
             warnings.warn(
                 "Cutoff frequency fmin not set, using default value of 0.45 / Tmm10",
@@ -306,9 +300,7 @@ class Spectrum:
             Tmm10
         """
         if fmax == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
-            fmax = 0.45 / self.Tmm10
+            fmax = 0.45 / self.get_Tmm10()
 
             warnings.warn(
                 "Cutoff frequency fmax not set, using default value of 0.45 / Tmm10",
-- 
2.43.0


From 6be37d907f4505b5ebbe88c904e9259740226bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 22/29] fix: tpd checks its input for a single-frequency peak
 too

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index c93476d..abd1346 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -588,14 +588,14 @@ def tpd(f: NDArray[float64], sVarDens: NDArray[float64]) -> float:
     temp = f[itemp]
     fp_limits = [min(temp), max(temp)]
 
-    # --- a single frequency: the moments below are zero
-    if fp_limits[0] == fp_limits[1]:
-        return 1 / fp_limits[0]
-
     #  --- compute zeroth and first moment for selected frequency interval.
     m0 = compute_moment(f, sVarDens, 0, fp_limits[0], fp_limits[1])
     m1 = compute_moment(f, sVarDens, 1, fp_limits[0], fp_limits[1])
 
+    # --- a single frequency: the moments are zero
+    if fp_limits[0] == fp_limits[1]:
+        return 1 / fp_limits[0]
+
     # --- calculate TpD based on spectral moments.
     return m0 / m1
 
-- 
2.43.0


From 6fef122746866e7126ec8bde9fc9871a33e61631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 23/29] fix: Series rejects a long time axis with a missing
 sample

---
 deltares_wave_toolbox/series.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/series.py b/deltares_wave_toolbox/series.py
index 833da8b..a4017fe 100644
--- a/deltares_wave_toolbox/series.py
+++ b/deltares_wave_toolbox/series.py
@@ -321,7 +321,9 @@ class Series(WaveHeights):
         assert tSize[0] == xSize[0], "Input error: array sizes differ in dimension"
         timeStep = np.diff(time)
         assert (
-            np.all(timeStep > 0) and np.var(timeStep) < (np.mean(timeStep) / 10) ** 2
+            np.all(timeStep > 0)
+            and np.var(timeStep) < (np.mean(timeStep) / 10) ** 2
+            and np.all(np.abs(timeStep - np.mean(timeStep)) < np.mean(timeStep) / 2)
         ), "Input error: time step is not equidistant"
 
         self.time = time
-- 
2.43.0


From 194a79bd2808b6e0e3d9172088f51b09b0c23175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:11 +0000
Subject: [PATCH 24/29] fix: integer input does not overflow or wrap around

---
 deltares_wave_toolbox/cores/core_engine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_engine.py b/deltares_wave_toolbox/cores/core_engine.py
index 45cfb61..d90771d 100644
--- a/deltares_wave_toolbox/cores/core_engine.py
+++ b/deltares_wave_toolbox/cores/core_engine.py
@@ -24,6 +24,10 @@ def convert_to_array_type(x: ArrayLike) -> NDArray[Any]:
         x = np.asarray([x])
     elif not isinstance(x, np.ndarray):
         x = np.asarray(x)
+
+    # integers would overflow in products and differences, unsigned ones wrap around
+    if np.issubdtype(x.dtype, np.integer):
+        x = x.astype(float)
     return x
 
 
-- 
2.43.0


From f29cb155d8d03a8e583e329df3c9ad522a071b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:12 +0000
Subject: [PATCH 25/29] fix: axis check and nearest index of unsigned integer
 arrays

---
 deltares_wave_toolbox/cores/core_engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_engine.py b/deltares_wave_toolbox/cores/core_engine.py
index d90771d..618a734 100644
--- a/deltares_wave_toolbox/cores/core_engine.py
+++ b/deltares_wave_toolbox/cores/core_engine.py
@@ -70,6 +70,7 @@ def monotonic_increasing_constant_step(x: ArrayLike) -> bool:
     bool
         True when vector is monotonic increasing with constant step size
     """
+    x = convert_to_array_type(x)
     xDiff = np.diff(x)
     tolerance = sys.float_info.epsilon * max(1000000, 4 * np.max(np.abs(x)))
     isUniform = bool(np.all(np.abs(xDiff - xDiff[0]) < tolerance))
@@ -128,6 +129,6 @@ def approx_array_index(array: ArrayLike, user_value: float) -> int:
     int
         index value of array value closest to the user specified value
     """
-    array = np.asarray(array)
+    array = convert_to_array_type(array)
     idx = (np.abs(array - user_value)).argmin()
     return int(idx)
-- 
2.43.0


From c22d69340164dc07f315e4097f1fb7d1c6b5ae7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:12 +0000
Subject: [PATCH 26/29] fix: decomposition rejects decreasing unsigned gauge
 positions

---
 deltares_wave_toolbox/cores/core_wave_decomposition.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_wave_toolbox/cores/core_wave_decomposition.py b/deltares_wave_toolbox/cores/core_wave_decomposition.py
index 7292e42..1a98ef1 100644
--- a/deltares_wave_toolbox/cores/core_wave_decomposition.py
+++ b/deltares_wave_toolbox/cores/core_wave_decomposition.py
@@ -93,6 +93,7 @@ def decompose_linear_ZS(
     Ntime = 0
     Nloc = 0
     Ntime, Nloc = xTime.shape
+    x_loc = np.asarray(x_loc, dtype=float)
     Nloc2 = len(x_loc)
     Nloc3 = len(w_loc)
 
-- 
2.43.0


From bac78bfd39904bf07698d9f73876bd8b2d05e75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:12 +0000
Subject: [PATCH 27/29] fix: coherence and segment-averaged spectrum of narrow
 integer signals

---
 deltares_wave_toolbox/cores/core_spectral.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 7c686d6..e5ee189 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -214,6 +214,8 @@ def coherence(
     #     on original frequency axis
     #     Note: Normalisation factors (2 / (df * Ntime * Ntime)) may be omitted,
     #     since they cancel out
+    xFreq1 = core_engine.convert_to_array_type(xFreq1)
+    xFreq2 = core_engine.convert_to_array_type(xFreq2)
     S11 = abs(xFreq1 * np.conj(xFreq1))
     S22 = abs(xFreq2 * np.conj(xFreq2))
     S12 = abs(xFreq1 * np.conj(xFreq2))
@@ -787,6 +789,7 @@ def compute_spectrum_welch_wrapper(
             1D array containing variance density spectrum of the signal [m^2/Hz]
 
     """
+    xTime = core_engine.convert_to_array_type(xTime)
     if nperseg == 0:
         nperseg = None
     if noverlap == 0:
-- 
2.43.0


From f0a622c1250d2aaf8350049f19e496e13c75ec8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:03 +0000
Subject: [PATCH 28/29] fix: decomposition accepts unsigned integer gauge
 weights

---
 deltares_wave_toolbox/cores/core_wave_decomposition.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_wave_toolbox/cores/core_wave_decomposition.py b/deltares_wave_toolbox/cores/core_wave_decomposition.py
index 1a98ef1..ec04a77 100644
--- a/deltares_wave_toolbox/cores/core_wave_decomposition.py
+++ b/deltares_wave_toolbox/cores/core_wave_decomposition.py
@@ -94,6 +94,7 @@ def decompose_linear_ZS(
     Nloc = 0
     Ntime, Nloc = xTime.shape
     x_loc = np.asarray(x_loc, dtype=float)
+    w_loc = np.asarray(w_loc, dtype=float)
     Nloc2 = len(x_loc)
     Nloc3 = len(w_loc)
 
-- 
2.43.0


From 44afab498f9623f7c43eaea62d213bab6554bea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 29/29] fix: zero crossings of a record with sampling jitter
 lie on the line between their samples

---
 deltares_wave_toolbox/cores/core_time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_time.py b/deltares_wave_toolbox/cores/core_time.py
index 9d2287b..fa600f2 100644
--- a/deltares_wave_toolbox/cores/core_time.py
+++ b/deltares_wave_toolbox/cores/core_time.py
@@ -163,7 +163,6 @@ def determine_zero_crossing(
     # Computational core
     nWave = -1
     tCross = np.empty((0, 0))
-    dt = t[1] - t[0]
     nTime = len(t)
 
     # --- Loop over all time levels, to determine zero-crossings
@@ -176,6 +175,7 @@ def determine_zero_crossing(
 
                 # --- Determine time level of zero-crossing by means of linear
                 #     interpolation
+                dt = t[iTime + 1] - t[iTime]
                 tCrossing = t[iTime] + dt * xTime[iTime] / (
                     xTime[iTime] - xTime[iTime + 1]
                 )
@@ -190,6 +190,7 @@ def determine_zero_crossing(
 
                 # --- Determine time level of zero-crossing by means of linear
                 #     interpolation
+                dt = t[iTime + 1] - t[iTime]
                 tCrossing = t[iTime] + dt * xTime[iTime] / (
                     xTime[iTime] - xTime[iTime + 1]
                 )
-- 
2.43.0

