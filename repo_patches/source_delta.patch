From 865815dc3c3e00b7d136c0893c6df01d582a81d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:02 +0000
Subject: [PATCH 01/24] fix: draw EEMD trial noise in the parent so parallel
 trials differ

---
 PyEMD/EEMD.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/PyEMD/EEMD.py b/PyEMD/EEMD.py
index e4ebe2b..138b616 100644
--- a/PyEMD/EEMD.py
+++ b/PyEMD/EEMD.py
@@ -196,7 +196,9 @@ class EEMD:
             map_pool = pool.map
         else:
             map_pool = map
-        all_IMFs = map_pool(self._trial_update, range(self.trials))
+        # Draw noise in this process, because workers only hold copies of the same generator's state.
+        noises = (self.generate_noise(self._scale, self._N) for _ in range(self.trials))
+        all_IMFs = map_pool(self._trial_update, noises)
 
         if self.parallel:
             pool.close()
@@ -229,12 +231,8 @@ class EEMD:
 
         return self.E_IMF
 
-    def _trial_update(self, trial) -> Tuple[np.ndarray, Optional[np.ndarray]]:
-        """A single trial evaluation, i.e. EMD(signal + noise).
-
-        *Note*: Although `trial` argument isn't used it's needed for the (multiprocessing) map method.
-        """
-        noise = self.generate_noise(self._scale, self._N)
+    def _trial_update(self, noise: np.ndarray) -> Tuple[np.ndarray, Optional[np.ndarray]]:
+        """A single trial evaluation, i.e. EMD(signal + noise)."""
         imfs = self.emd(self._S + noise, self._T, self.max_imf)
         trend = None
         if self.separate_trends:
-- 
2.43.0


From 5a98f577e3be7c4a803b617eec6af35f5203a6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:26 +0000
Subject: [PATCH 02/24] fix: compute EEMD noise amplitude in float so integer
 signals do not overflow

---
 PyEMD/EEMD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/EEMD.py b/PyEMD/EEMD.py
index 138b616..6895b5f 100644
--- a/PyEMD/EEMD.py
+++ b/PyEMD/EEMD.py
@@ -182,7 +182,7 @@ class EEMD:
         if T is None:
             T = get_timeline(len(S), S.dtype)
 
-        scale = self.noise_width * np.abs(np.max(S) - np.min(S))
+        scale = self.noise_width * (float(np.max(S)) - float(np.min(S)))
         self._S = S
         self._T = T
         self._N = len(S)
-- 
2.43.0


From 6e5f4c047dfc21798d38ca43379f854a567c82ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:53 +0000
Subject: [PATCH 03/24] fix: make get_timeline exact for float dtypes with few
 mantissa bits

---
 PyEMD/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/PyEMD/utils.py b/PyEMD/utils.py
index ed91a26..f5d7e78 100644
--- a/PyEMD/utils.py
+++ b/PyEMD/utils.py
@@ -21,7 +21,9 @@ def get_timeline(range_max: int, dtype: Optional[np.dtype] = None) -> np.ndarray
 
     """
     timeline = np.arange(0, range_max, dtype=dtype)
-    if timeline[-1] != range_max - 1:
+    is_float = np.issubdtype(timeline.dtype, np.floating)
+    exact = range_max <= 2 ** (np.finfo(timeline.dtype).nmant + 1) if is_float else timeline[-1] == range_max - 1
+    if not exact:
         inclusive_dtype = smallest_inclusive_dtype(timeline.dtype, range_max)
         timeline = np.arange(0, range_max, dtype=inclusive_dtype)
     return timeline
@@ -49,10 +51,11 @@ def smallest_inclusive_dtype(ref_dtype: np.dtype, ref_value) -> np.dtype:
 
     # Float path
     if np.issubdtype(ref_dtype, np.floating):
+        # Every integer up to 2**(nmant + 1) has an exact representation
         for dtype in [np.float16, np.float32, np.float64]:
-            if ref_value < np.finfo(dtype).max:
+            if ref_value <= 2 ** (np.finfo(dtype).nmant + 1):
                 return dtype
-        max_val = np.finfo(np.float64).max
+        max_val = 2 ** (np.finfo(np.float64).nmant + 1)
         raise ValueError("Requested too large integer range. Exceeds max( float64 ) == '{}.".format(max_val))
 
     raise ValueError("Unsupported dtype '{}'. Only intX and floatX are supported.".format(ref_dtype))
-- 
2.43.0


From fcc45ff14775889ce7f916cb5090da31b6913d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:02 +0000
Subject: [PATCH 04/24] fix: CEEMDAN of a constant signal divides by zero and
 returns NaN

---
 PyEMD/CEEMDAN.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyEMD/CEEMDAN.py b/PyEMD/CEEMDAN.py
index 0761bfa..c259c2c 100644
--- a/PyEMD/CEEMDAN.py
+++ b/PyEMD/CEEMDAN.py
@@ -218,6 +218,8 @@ class CEEMDAN:
             CEEMDAN components.
         """
         scale_s = np.std(S)
+        if scale_s == 0:  # Constant signal has no scale
+            scale_s = 1.0
         S = S / scale_s
 
         # Define all noise
-- 
2.43.0


From 18524a7d8a59d768b0f953664d958c1817fa0c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:36 +0000
Subject: [PATCH 05/24] fix: get_imfs_and_trend fails when there are no IMFs

---
 PyEMD/EMD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 7a82403..d12ac38 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -954,7 +954,7 @@ class EMD:
             raise ValueError("No IMF found. Please, run EMD method or its variant first.")
 
         imfs, residue = self.get_imfs_and_residue()
-        if np.allclose(residue, 0):
+        if len(imfs) > 0 and np.allclose(residue, 0):
             return imfs[:-1].copy(), imfs[-1].copy()
         else:
             return imfs, residue
-- 
2.43.0


From 94acc22bb69b1beaf946f2d4ade82a228f6aafee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:36 +0000
Subject: [PATCH 06/24] fix: plateau at the second sample is dropped as if it
 started the signal

---
 PyEMD/EMD.py                 | 2 +-
 PyEMD/EMD_matlab.py          | 2 +-
 PyEMD/experimental/jitemd.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index d12ac38..603145a 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -646,7 +646,7 @@ class EMD:
             debs = np.nonzero(dd == 1)[0]
             fins = np.nonzero(dd == -1)[0]
 
-            if len(debs) > 0 and debs[0] == 1:
+            if len(debs) > 0 and debs[0] == 0:
                 if len(debs) > 1:
                     debs, fins = debs[1:], fins[1:]
                 else:
diff --git a/PyEMD/EMD_matlab.py b/PyEMD/EMD_matlab.py
index 30530e5..5e1bd5f 100644
--- a/PyEMD/EMD_matlab.py
+++ b/PyEMD/EMD_matlab.py
@@ -352,7 +352,7 @@ class EMD:
             dd = np.diff(np.append(np.append(0, bad), 0))
             debs = np.nonzero(dd == 1)[0]
             fins = np.nonzero(dd == -1)[0]
-            if debs[0] == 1:
+            if debs[0] == 0:
                 if len(debs) > 1:
                     debs, fins = debs[1:], fins[1:]
                 else:
diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index efdc10d..3c8b4be 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -191,7 +191,7 @@ def _find_extrema_simple(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
         dd = nb_diff(np.append(np.append(0, same_values), 0))
         _left_idx = np.nonzero(dd == 1)[0]
         _right_idx = np.nonzero(dd == -1)[0]
-        if _left_idx[0] == 1:
+        if _left_idx[0] == 0:
             _left_idx = _left_idx[1:]
             _right_idx = _right_idx[1:]
 
-- 
2.43.0


From 7bcca2aee9eb4dd067268f0268b265f3b72493f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:36 +0000
Subject: [PATCH 07/24] fix: plot_imfs fails when there is a single row to plot

---
 PyEMD/visualisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/visualisation.py b/PyEMD/visualisation.py
index eb6578e..59ea762 100644
--- a/PyEMD/visualisation.py
+++ b/PyEMD/visualisation.py
@@ -59,7 +59,7 @@ class Visualisation(object):
         fig, axes = plt.subplots(num_rows, 1, figsize=(self.PLOT_WIDTH, num_rows * self.PLOT_HEIGHT_PER_IMF))
 
         if num_rows == 1:
-            axes = list(axes)
+            axes = fig.axes
 
         axes[0].set_title("Time series")
 
-- 
2.43.0


From 55207634df6070210006c4180648ddd6d73b40a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:36 +0000
Subject: [PATCH 08/24] fix: JitEMD trend must be one-dimensional like other
 components

---
 PyEMD/experimental/jitemd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index 3c8b4be..b2b28b2 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -74,7 +74,7 @@ class JitEMD:
             config=self.config,
         )
         self.imfs = imfs[:-1, :]
-        self.residue = imfs[-1:, :]
+        self.residue = imfs[-1]
         return imfs
 
     def __call__(self, s, t, max_imf=-1):
-- 
2.43.0


From 4834238b2e5d577dd740465cc0b9f0f8be324607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:21 +0000
Subject: [PATCH 09/24] fix: a posteriori white-noise test ignores the energy
 of the rescaling IMF

---
 PyEMD/checks.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/PyEMD/checks.py b/PyEMD/checks.py
index 8818d11..7efa795 100644
--- a/PyEMD/checks.py
+++ b/PyEMD/checks.py
@@ -116,16 +116,17 @@ def whitenoise_check(IMFs: np.ndarray, test_name: str = "aposteriori", rescaling
         scaling_imf_energy_density = math.log(energy(IMFs[rescaling_imf - 1]) / N)
 
         k = abs(stats.norm.ppf((1 - alpha) / 2))
-        up_limit = -scaling_imf_mean_period + (k * math.sqrt(2 / N) * math.exp(scaling_imf_mean_period) / 2)
+        up_limit = -scaling_imf_mean_period + (k * (math.sqrt(2 / N) * math.exp(scaling_imf_mean_period / 2)))
 
-        scaling_factor = math.exp(up_limit)
+        # Shift which puts the rescaling IMF exactly on its upper confidence limit
+        scaling_shift = up_limit - scaling_imf_energy_density
 
         for idx, imf in enumerate(IMFs):
             log_T = math.log(mean_period(imf))
             if idx != rescaling_imf - 1:
-                scaled_energy_density = math.log((energy(imf) / N) / scaling_factor)
+                scaled_energy_density = math.log(energy(imf) / N) + scaling_shift
             else:
-                scaled_energy_density = math.log(scaling_factor)
+                scaled_energy_density = up_limit
 
             sig_aposteriori = significance_aposteriori(scaled_energy_density, log_T, N, alpha)
 
-- 
2.43.0


From 4ca770d9a1836203097cf139ed03eadbbcaea605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:44 +0000
Subject: [PATCH 10/24] fix: parabolic extrema are lost to cancellation on long
 time axes

---
 PyEMD/EMD.py                 | 28 +++++++++-------------------
 PyEMD/experimental/jitemd.py | 28 +++++++++-------------------
 2 files changed, 18 insertions(+), 38 deletions(-)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 603145a..1a2d134 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -571,9 +571,6 @@ class EMD:
 
             indzer = np.sort(np.append(indzer, indz))
 
-        dt = float(T[1] - T[0])
-        scale = 2.0 * dt * dt
-
         idx = self._not_duplicate(S)
         T = T[idx]
         S = S[idx]
@@ -583,26 +580,19 @@ class EMD:
         # n - next
         Tp, T0, Tn = T[:-2], T[1:-1], T[2:]
         Sp, S0, Sn = S[:-2], S[1:-1], S[2:]
-        # a = Sn + Sp - 2*S0
-        # b = 2*(Tn+Tp)*S0 - ((Tn+T0)*Sp+(T0+Tp)*Sn)
-        # c = Sp*T0*Tn -2*Tp*S0*Tn + Tp*T0*Sn
-        TnTp, T0Tn, TpT0 = Tn - Tp, T0 - Tn, Tp - T0
-        scale = Tp * Tn * Tn + Tp * Tp * T0 + T0 * T0 * Tn - Tp * Tp * Tn - Tp * T0 * T0 - T0 * Tn * Tn
-
-        a = T0Tn * Sp + TnTp * S0 + TpT0 * Sn
-        b = (S0 - Sn) * Tp**2 + (Sn - Sp) * T0**2 + (Sp - S0) * Tn**2
-        c = T0 * Tn * T0Tn * Sp + Tn * Tp * TnTp * S0 + Tp * T0 * TpT0 * Sn
-
-        a = a / scale
-        b = b / scale
-        c = c / scale
+        # Parabola is spanned in coordinates relative to (T0, S0), i.e. S - S0 = a*(T-T0)**2 + b*(T-T0),
+        # since powers of T cancel catastrophically far away from zero.
+        hp, hn = Tp - T0, Tn - T0
+        slope_p, slope_n = (Sp - S0) / hp, (Sn - S0) / hn
+        a = (slope_p - slope_n) / (hp - hn)
+        b = slope_p - a * hp
         a[a == 0] = 1e-14
-        tVertex = -0.5 * b / a
+        tVertex = T0 - 0.5 * b / a
         idx = (tVertex < T0 + 0.5 * (Tn - T0)) & (tVertex >= T0 - 0.5 * (T0 - Tp))
 
-        a, b, c = a[idx], b[idx], c[idx]
+        a, b, S0 = a[idx], b[idx], S0[idx]
         tVertex = tVertex[idx]
-        sVertex = a * tVertex * tVertex + b * tVertex + c
+        sVertex = S0 - 0.25 * b * b / a
 
         local_max_pos, local_max_val = tVertex[a < 0], sVertex[a < 0]
         local_min_pos, local_min_val = tVertex[a > 0], sVertex[a > 0]
diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index b2b28b2..f3e369a 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -248,9 +248,6 @@ def _find_extrema_parabol(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
 
         indzer = np.sort(np.append(indzer, indz))
 
-    dt = float(T[1] - T[0])
-    scale = 2.0 * dt * dt
-
     idx = _not_duplicate(S)
     T = T[idx]
     S = S[idx]
@@ -260,26 +257,19 @@ def _find_extrema_parabol(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
     # n - next
     Tp, T0, Tn = T[:-2], T[1:-1], T[2:]
     Sp, S0, Sn = S[:-2], S[1:-1], S[2:]
-    # a = Sn + Sp - 2*S0
-    # b = 2*(Tn+Tp)*S0 - ((Tn+T0)*Sp+(T0+Tp)*Sn)
-    # c = Sp*T0*Tn -2*Tp*S0*Tn + Tp*T0*Sn
-    TnTp, T0Tn, TpT0 = Tn - Tp, T0 - Tn, Tp - T0
-    scale = Tp * Tn * Tn + Tp * Tp * T0 + T0 * T0 * Tn - Tp * Tp * Tn - Tp * T0 * T0 - T0 * Tn * Tn
-
-    a = T0Tn * Sp + TnTp * S0 + TpT0 * Sn
-    b = (S0 - Sn) * Tp**2 + (Sn - Sp) * T0**2 + (Sp - S0) * Tn**2
-    c = T0 * Tn * T0Tn * Sp + Tn * Tp * TnTp * S0 + Tp * T0 * TpT0 * Sn
-
-    a = a / scale
-    b = b / scale
-    c = c / scale
+    # Parabola is spanned in coordinates relative to (T0, S0), i.e. S - S0 = a*(T-T0)**2 + b*(T-T0),
+    # since powers of T cancel catastrophically far away from zero.
+    hp, hn = Tp - T0, Tn - T0
+    slope_p, slope_n = (Sp - S0) / hp, (Sn - S0) / hn
+    a = (slope_p - slope_n) / (hp - hn)
+    b = slope_p - a * hp
     a[a == 0] = 1e-14
-    tVertex = -0.5 * b / a
+    tVertex = T0 - 0.5 * b / a
     idx = np.logical_and(tVertex < T0 + 0.5 * (Tn - T0), tVertex >= T0 - 0.5 * (T0 - Tp))
 
-    a, b, c = a[idx], b[idx], c[idx]
+    a, b, S0 = a[idx], b[idx], S0[idx]
     tVertex = tVertex[idx]
-    sVertex = a * tVertex * tVertex + b * tVertex + c
+    sVertex = S0 - 0.25 * b * b / a
 
     local_max_pos, local_max_val = tVertex[a < 0], sVertex[a < 0]
     local_min_pos, local_min_val = tVertex[a > 0], sVertex[a > 0]
-- 
2.43.0


From 9983b620186e989a202227af9fdf8412de3f605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:56 +0000
Subject: [PATCH 11/24] fix: parabolic detection reports flat steps without a
 turn as extrema

---
 PyEMD/EMD.py                 | 7 ++++++-
 PyEMD/experimental/jitemd.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 1a2d134..60073b5 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -588,7 +588,12 @@ class EMD:
         b = slope_p - a * hp
         a[a == 0] = 1e-14
         tVertex = T0 - 0.5 * b / a
-        idx = (tVertex < T0 + 0.5 * (Tn - T0)) & (tVertex >= T0 - 0.5 * (T0 - Tp))
+
+        # Signal has an extremum where its slope changes the sign. Flat step counts only at its right end,
+        # and only if signal doesn't continue in the same direction (or start with that step).
+        d = np.sign(np.diff(S))
+        before = np.concatenate((np.zeros(1), d))[:-2]
+        idx = np.where(d[:-1] == 0, before, d[:-1]) * d[1:] < 0
 
         a, b, S0 = a[idx], b[idx], S0[idx]
         tVertex = tVertex[idx]
diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index f3e369a..41e893f 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -265,7 +265,12 @@ def _find_extrema_parabol(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
     b = slope_p - a * hp
     a[a == 0] = 1e-14
     tVertex = T0 - 0.5 * b / a
-    idx = np.logical_and(tVertex < T0 + 0.5 * (Tn - T0), tVertex >= T0 - 0.5 * (T0 - Tp))
+
+    # Signal has an extremum where its slope changes the sign. Flat step counts only at its right end,
+    # and only if signal doesn't continue in the same direction (or start with that step).
+    d = np.sign(nb_diff(S))
+    before = np.concatenate((np.zeros(1), d))[:-2]
+    idx = np.where(d[:-1] == 0, before, d[:-1]) * d[1:] < 0
 
     a, b, S0 = a[idx], b[idx], S0[idx]
     tVertex = tVertex[idx]
-- 
2.43.0


From a96fa06a07e1affc86d0e4c3992a90014178f800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:00 +0000
Subject: [PATCH 12/24] fix: JitEMD never returns once MAX_ITERATION is reached

Numba's loop lifting turns the early exit of the sifting loop into an endless loop
in object mode. None of the lifted loops compiles without Python objects anyway.
---
 PyEMD/experimental/jitemd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index 41e893f..48a2488 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -781,6 +781,7 @@ def _normalize_time(t: np.ndarray) -> np.ndarray:
     ),
     nopython=False,
     forceobj=True,
+    looplift=False,
 )
 def emd(
     S: np.ndarray,
-- 
2.43.0


From 1bb08e42c8a1d4a8b9d1bd441237be2562559b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:02 +0000
Subject: [PATCH 13/24] fix: JitEMD fails on all-zero and loses components of
 tiny signals

An all-zero signal has no components so there is no last row to take, and
get_imfs_and_trend dropped the last row whenever its values were close to zero.
---
 PyEMD/experimental/jitemd.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index 48a2488..c80a73f 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -60,8 +60,7 @@ class JitEMD:
         self.residue = None
 
     def get_imfs_and_trend(self):
-        if np.allclose(self.residue, 0):
-            return self.imfs[:-1].copy(), self.imfs[-1].copy()
+        # Last row of the decomposition is always the trend, see `emd` method.
         return self.imfs, self.residue
 
     def emd(self, s, t, max_imf=-1):
@@ -74,7 +73,7 @@ class JitEMD:
             config=self.config,
         )
         self.imfs = imfs[:-1, :]
-        self.residue = imfs[-1]
+        self.residue = imfs[-1] if len(imfs) else np.zeros_like(s)
         return imfs
 
     def __call__(self, s, t, max_imf=-1):
-- 
2.43.0


From f79142e23c22dec9df1525c4903c8ff5383a963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:43 +0000
Subject: [PATCH 14/24] fix: MATLAB-style EMD sifts numerical noise without end

Once the residue is constant up to rounding errors there are always extrema left to sift.
Stop there, as the MATLAB version does (forced stop due to too small amplitude).
---
 PyEMD/EMD_matlab.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyEMD/EMD_matlab.py b/PyEMD/EMD_matlab.py
index 5e1bd5f..f153995 100644
--- a/PyEMD/EMD_matlab.py
+++ b/PyEMD/EMD_matlab.py
@@ -473,6 +473,7 @@ class EMD:
         Res = S.astype(self.DTYPE)
         scale = 1.0
         Res, scaledS = Res / scale, S / scale
+        minAmp = np.max(np.abs(scaledS)) * max(1e-10, 100 * np.finfo(scaledS.dtype).eps)
         imf = np.zeros(len(S), dtype=self.DTYPE)
         imfOld = Res.copy()
 
@@ -530,7 +531,8 @@ class EMD:
                 extNo = len(mP) + len(MP)
                 nzm = len(indzer)
 
-                if extNo > 2:
+                # Too small amplitude means that all that is left to decompose is numerical noise
+                if extNo > 2 and np.ptp(Res) > minAmp:
                     # Plotting. Either into file, or on-screen display.
                     imfOld = imf.copy()
                     imf = imf - self.reduceScale * mean
-- 
2.43.0


From cc0fdaf2cbf6ce75859fb8887f66779f6e642045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:47 +0000
Subject: [PATCH 15/24] fix: BEMD mixes up rows and columns of extrema

Positions are in (x, y) order but they were used as (row, column) indices, so envelopes
were spanned on values of transposed positions and non-square images failed.
---
 PyEMD/BEMD.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PyEMD/BEMD.py b/PyEMD/BEMD.py
index 08e4195..ab4ce85 100644
--- a/PyEMD/BEMD.py
+++ b/PyEMD/BEMD.py
@@ -70,9 +70,10 @@ class BEMD:
         max_env : numpy 2D array
             Top envelope in form of an image.
         """
-        xi, yi = np.meshgrid(np.arange(image.shape[0]), np.arange(image.shape[1]))
-        min_val = image[min_peaks_pos]
-        max_val = image[max_peaks_pos]
+        # Peaks' positions are in (x, y), i.e. (column, row), order
+        xi, yi = np.meshgrid(np.arange(image.shape[1]), np.arange(image.shape[0]))
+        min_val = image[min_peaks_pos[::-1]]
+        max_val = image[max_peaks_pos[::-1]]
         min_env = self.spline_points(min_peaks_pos[0], min_peaks_pos[1], min_val, xi, yi)
         max_env = self.spline_points(max_peaks_pos[0], max_peaks_pos[1], max_val, xi, yi)
         return min_env, max_env
-- 
2.43.0


From 3d1abe8a969c6bb0af5adbe4ec12bacf42a3af68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:59 +0000
Subject: [PATCH 16/24] fix: BEMD loops forever once sifting extracts nothing

When all pixels are both minima and maxima the mean envelope is the image itself.
---
 PyEMD/BEMD.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PyEMD/BEMD.py b/PyEMD/BEMD.py
index ab4ce85..393deaf 100644
--- a/PyEMD/BEMD.py
+++ b/PyEMD/BEMD.py
@@ -269,6 +269,11 @@ class BEMD:
                 notFinished = False
                 break
 
+            # Nothing has been extracted, so next siftings won't extract anything either
+            if np.allclose(imf, 0):
+                notFinished = False
+                break
+
         res = image_s - np.sum(IMF[:imfNo], axis=0)
         if not np.allclose(res, 0):
             IMF = np.vstack((IMF, res[None, :]))
-- 
2.43.0


From 0ed51d2bd083c5d07c33444248d90e47571c6fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:18 +0000
Subject: [PATCH 17/24] fix: EMD2D divides by zero range of a constant image
 and returns NaN

---
 PyEMD/EMD2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyEMD/EMD2d.py b/PyEMD/EMD2d.py
index 2dbf5fb..1630f43 100644
--- a/PyEMD/EMD2d.py
+++ b/PyEMD/EMD2d.py
@@ -295,6 +295,8 @@ class EMD2D:
         image_min, image_max = np.min(image), np.max(image)
         offset = image_min
         scale = image_max - image_min
+        if scale == 0:  # Constant image
+            scale = 1
 
         image_s = (image - offset) / scale
 
-- 
2.43.0


From 1a9d6faeedfc028095837960158b4beb1b905ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:31 +0000
Subject: [PATCH 18/24] fix: EMD2D loops forever once sifting extracts nothing

Periodic images leave a constant residue, whose every pixel is both a minimum and a maximum.
---
 PyEMD/EMD2d.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PyEMD/EMD2d.py b/PyEMD/EMD2d.py
index 1630f43..2582bea 100644
--- a/PyEMD/EMD2d.py
+++ b/PyEMD/EMD2d.py
@@ -372,6 +372,11 @@ class EMD2D:
                 notFinished = False
                 break
 
+            # Nothing has been extracted, so next siftings won't extract anything either
+            if np.allclose(imf, 0):
+                notFinished = False
+                break
+
         res = image_s - np.sum(IMF[:imfNo], axis=0)
         if not np.allclose(res, 0):
             IMF = np.vstack((IMF, res[None, :]))
-- 
2.43.0


From 4145912db92f228c8094074224bb30a751708cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:12 +0000
Subject: [PATCH 19/24] fix: EMD2D range of an integer image overflows its type

---
 PyEMD/EMD2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyEMD/EMD2d.py b/PyEMD/EMD2d.py
index 2582bea..2a6e7bd 100644
--- a/PyEMD/EMD2d.py
+++ b/PyEMD/EMD2d.py
@@ -292,7 +292,8 @@ class EMD2D:
             Set of IMFs in form of numpy array where the first dimension
             relates to IMF's ordinary number.
         """
-        image_min, image_max = np.min(image), np.max(image)
+        # Range of an integer image might not fit into its own type
+        image_min, image_max = float(np.min(image)), float(np.max(image))
         offset = image_min
         scale = image_max - image_min
         if scale == 0:  # Constant image
-- 
2.43.0


From d6aa97ff9278a242d807715e2e169f49f13a4b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:48 +0000
Subject: [PATCH 20/24] fix: plot_imfs draws the residue over the last
 component when the flag is truthy but not True

---
 PyEMD/visualisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/visualisation.py b/PyEMD/visualisation.py
index 59ea762..5aac3b9 100644
--- a/PyEMD/visualisation.py
+++ b/PyEMD/visualisation.py
@@ -52,7 +52,7 @@ class Visualisation(object):
         imfs, residue = self._check_imfs(imfs, residue, include_residue)
 
         num_rows, t_length = imfs.shape
-        num_rows += include_residue is True
+        num_rows += bool(include_residue)
 
         t = t if t is not None else range(t_length)
 
-- 
2.43.0


From 8ce3d4882634c3c8a9021ab063e7e3ef5b3f03bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:47 +0000
Subject: [PATCH 21/24] fix: make jitemd's get_timeline exact for float dtypes
 with few mantissa bits

---
 PyEMD/experimental/jitemd.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index c80a73f..37e347f 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -931,7 +931,9 @@ def get_timeline(range_max: int, dtype: Optional[np.dtype] = None) -> np.ndarray
 
     """
     timeline = np.arange(0, range_max, dtype=dtype)
-    if timeline[-1] != range_max - 1:
+    is_float = np.issubdtype(timeline.dtype, np.floating)
+    exact = range_max <= 2 ** (np.finfo(timeline.dtype).nmant + 1) if is_float else timeline[-1] == range_max - 1
+    if not exact:
         inclusive_dtype = smallest_inclusive_dtype(timeline.dtype, range_max)
         timeline = np.arange(0, range_max, dtype=inclusive_dtype)
     return timeline
@@ -957,12 +959,13 @@ def smallest_inclusive_dtype(ref_dtype: np.dtype, ref_value) -> np.dtype:
         max_val = np.iinfo(np.uint32).max
         raise ValueError("Requested too large integer range. Exceeds max( uint64 ) == '{}.".format(max_val))
 
-    # Integer path
+    # Float path
     if np.issubdtype(ref_dtype, np.floating):
+        # Every integer up to 2**(nmant + 1) has an exact representation
         for dtype in [np.float16, np.float32, np.float64]:
-            if ref_value < np.finfo(dtype).max:
+            if ref_value <= 2 ** (np.finfo(dtype).nmant + 1):
                 return dtype
-        max_val = np.finfo(np.float64).max
+        max_val = 2 ** (np.finfo(np.float64).nmant + 1)
         raise ValueError("Requested too large integer range. Exceeds max( float64 ) == '{}.".format(max_val))
 
     raise ValueError("Unsupported dtype '{}'. Only intX and floatX are supported.".format(ref_dtype))
-- 
2.43.0


From 79ab64c0f40e84d2b3f0275efbd97d1b1248ac49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:10 +0000
Subject: [PATCH 22/24] fix: EMD2D fails on extended precision images and
 rounds in half precision

---
 PyEMD/EMD2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyEMD/EMD2d.py b/PyEMD/EMD2d.py
index 2a6e7bd..4e79d7c 100644
--- a/PyEMD/EMD2d.py
+++ b/PyEMD/EMD2d.py
@@ -299,7 +299,8 @@ class EMD2D:
         if scale == 0:  # Constant image
             scale = 1
 
-        image_s = (image - offset) / scale
+        # Extended precision isn't supported by filters and half precision loses most of the digits
+        image_s = (image.astype(np.float64) - offset) / scale
 
         imf = np.zeros(image.shape)
         imf_old = imf.copy()
-- 
2.43.0


From 857109290e7de3bd9d98416344fc1b6063ad3c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:49 +0000
Subject: [PATCH 23/24] fix: plot_instant_freq uses the high-order scheme for a
 falsy order other than False

---
 PyEMD/visualisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/visualisation.py b/PyEMD/visualisation.py
index 5aac3b9..a5421e5 100644
--- a/PyEMD/visualisation.py
+++ b/PyEMD/visualisation.py
@@ -135,7 +135,7 @@ class Visualisation(object):
     def _calc_inst_freq(self, sig, t, order, alpha):
         """Extracts instantaneous frequency through the Hilbert Transform."""
         inst_phase = self._calc_inst_phase(sig, alpha=alpha)
-        if order is False:
+        if not order:
             inst_freqs = np.diff(inst_phase) / (2 * np.pi * (t[1] - t[0]))
             inst_freqs = np.concatenate((inst_freqs, inst_freqs[:, -1].reshape(inst_freqs[:, -1].shape[0], 1)), axis=1)
         else:
-- 
2.43.0


From 970be164cec458ab7fbf397cfe6dc93331021848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:20 +0000
Subject: [PATCH 24/24] fix: three-knot cubic spline fails on extended
 precision signals

---
 PyEMD/splines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/splines.py b/PyEMD/splines.py
index ea3cec4..56d6137 100644
--- a/PyEMD/splines.py
+++ b/PyEMD/splines.py
@@ -24,7 +24,7 @@ def cubic_spline_3pts(x, y, T):
 
     M = np.array([[m11, m12, m13], [m21, m22, m23], [m31, m32, m33]])
     v = np.array([v1, v2, v3]).T
-    k = np.linalg.solve(M, v)
+    k = np.linalg.solve(M.astype(np.float64), v.astype(np.float64))
 
     a1 = k[0] * x1x0 - y1y0
     b1 = -k[1] * x1x0 + y1y0
-- 
2.43.0

