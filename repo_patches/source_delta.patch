From 65586d5636baf0e4acb107f5dcade179512111b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 01/29] fix: StructureFunction without q=2 sets H to None
 instead of failing

This also made every p-leader analysis with p != 2 fail, since the
estimation of eta_p evaluates the structure function at q=p only.
---
 pymultifracs/structurefunction.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index 53ac51b..8149e86 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -123,6 +123,11 @@ class StructureFunction(MultiResolutionQuantityBase):
             self.intercept[ind_q] = intercept
 
     def _get_H(self):
+
+        # As documented, H is only available if 2 is in q
+        if not np.any(np.asarray(self.q) == 2):
+            return None
+
         return (self.zeta[self.q == 2][0] / 2) - self.gamint
 
     def get_intercept(self):
-- 
2.43.0


From a081440b63246642c92cb7e9147135d8c29366ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 02/29] fix: provide the documented StructureFunction.values

compute_hurst() and Signal.hurst() rely on it and always failed.
---
 pymultifracs/structurefunction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index 8149e86..8e01856 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -67,6 +67,7 @@ class StructureFunction(MultiResolutionQuantityBase):
     j2: int
     weighted: bool
     j: np.array = field(init=False)
+    values: np.array = field(init=False)
     logvalues: np.array = field(init=False)
     zeta: np.array = field(init=False)
     H: np.array = field(init=False)
@@ -97,6 +98,7 @@ class StructureFunction(MultiResolutionQuantityBase):
 
             values[:, ind_j, :] = s_j
 
+        self.values = values
         self.logvalues = np.log2(values)
 
     def _compute_zeta(self, mrq):
-- 
2.43.0


From adbb200ecab66e6e361750f7d95329ade8a297a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 03/29] fix: return eta_p when the p-leader correction is not
 applied

The caller unpacks two values, so the announced fall-back to uncorrected
p-leaders raised a TypeError.
---
 pymultifracs/wavelet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/wavelet.py b/pymultifracs/wavelet.py
index 661f6c9..5a67f37 100644
--- a/pymultifracs/wavelet.py
+++ b/pymultifracs/wavelet.py
@@ -52,7 +52,7 @@ def _correct_leaders(wt_coefs, wt_leaders, p_exp, j1, j2_eff,
         warnings.warn(f"eta(p) = {eta_p} <= 0, p-Leaders correction was not\
                         applied. A smaller value of p (or larger value of\
                         gamint) should be selected.")
-        return wt_leaders
+        return wt_leaders, eta_p
 
     JJ = np.arange(1, max_level + 1)
     J1LF = 1
-- 
2.43.0


From 0f23b7c4e5870c83b257ea5e00c4f000d87423d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 04/29] fix: do not touch the process-wide warning filters in
 fixednanmax

Two threads computing wavelet leaders at the same time could leave all
warnings of the process silenced for good, and hid the warnings of any
other thread in the meantime.
---
 pymultifracs/utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pymultifracs/utils.py b/pymultifracs/utils.py
index 2f9dcd9..0ada192 100644
--- a/pymultifracs/utils.py
+++ b/pymultifracs/utils.py
@@ -5,7 +5,6 @@ Authors: Omar D. Domingues <omar.darwiche-domingues@inria.fr>
 
 from __future__ import print_function
 from __future__ import unicode_literals
-import warnings
 
 import numpy as np
 
@@ -146,7 +145,7 @@ def fixednansum(a, **kwargs):
 
 
 def fixednanmax(a, **kwargs):
-    with warnings.catch_warnings():
-        warnings.simplefilter("ignore")
-        a = np.nanmax(a, **kwargs)
-    return a
+    # Same as np.nanmax, without the warning for all-nan slices. Silencing it
+    # with warnings.catch_warnings() is not an option, since the warning
+    # filters are shared by all threads.
+    return np.fmax.reduce(a, **kwargs)
-- 
2.43.0


From b1ab6c7e5901c2b47649674d57f8968424bc55a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 05/29] fix: bivariate analysis of wavelet coefficients only

With p_exp=None (the default) lwt was never assigned.
---
 pymultifracs/bivariate/bimfa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymultifracs/bivariate/bimfa.py b/pymultifracs/bivariate/bimfa.py
index 7c983b1..0259264 100644
--- a/pymultifracs/bivariate/bimfa.py
+++ b/pymultifracs/bivariate/bimfa.py
@@ -38,6 +38,10 @@ def bivariate_analysis(WT1, WT2, j1, weighted, n_cumul, q1, q2):
 
         lwt = MFractalBiVar(lwt_bisf, lwt_bicm)
 
+    else:
+
+        lwt = None
+
     return MFractalData(dwt, lwt)
 
 
-- 
2.43.0


From 69cdfae9eb7406711a91f7c55f2a3f8037137b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 06/29] fix: use the lower Cholesky factor in gaussian_chol

With the upper factor U, U @ z has covariance U U^T instead of the
requested U^T U.
---
 pymultifracs/simul/pzutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/simul/pzutils.py b/pymultifracs/simul/pzutils.py
index 6f620d6..50bd86e 100644
--- a/pymultifracs/simul/pzutils.py
+++ b/pymultifracs/simul/pzutils.py
@@ -51,6 +51,6 @@ def gaussian_chol(cov, N, R, z=None):
     '''
     if z is None:
         z = np.random.randn(N, R)
-    L = spla.cholesky(spla.toeplitz(cov))
+    L = spla.cholesky(spla.toeplitz(cov), lower=True)
     x = L @ z
     return x
-- 
2.43.0


From 59d8b957afb0d2bb357eeed69d39c5d731b0bb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 07/29] fix: fgn uses the noise supplied in z0 with the default
 method too

---
 pymultifracs/simul/fbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/simul/fbm.py b/pymultifracs/simul/fbm.py
index 4921210..813614a 100644
--- a/pymultifracs/simul/fbm.py
+++ b/pymultifracs/simul/fbm.py
@@ -65,7 +65,7 @@ def fgn(shape, H, sigma=1, dt=None, method='cme', z0=None):
     # fbm = np.cumsum(x[:N, :], axis=0)
 
     if method == 'cme':
-        fgn = gaussian_cme(r, N, R)
+        fgn = gaussian_cme(r, N, R, z0)
     elif method == 'chol':
         fgn = gaussian_chol(r, N, R, z0)
     else:
-- 
2.43.0


From 892a0c9e9f581bf43937a1888145ca28c443fbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 08/29] fix: length of the noise in skewed_mrw

skewness_convolution() expects 2*N samples; with 2*N + 1 the call failed
for every input.
---
 pymultifracs/simul/mrw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/simul/mrw.py b/pymultifracs/simul/mrw.py
index f70fc4d..70069d0 100644
--- a/pymultifracs/simul/mrw.py
+++ b/pymultifracs/simul/mrw.py
@@ -137,7 +137,7 @@ def skewed_mrw(shape, H, lam, L,  K0=1, alpha=1, sigma=1, dt=1, beta=1,
     w = w - np.mean(w, axis=0) - r * lam**2 * np.log(L / dt)
 
     # 2) fGn e
-    e = fgn((2*N + 1, R), H, sigma, dt)
+    e = fgn((2*N, R), H, sigma, dt)
 
     # 3) Correlate components
     past = skewness_convolution(e, K0, alpha, beta, dt)
-- 
2.43.0


From 91f2bc55f4615fba6019b7d63b22bfa432f66504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 09/29] fix: minimal_mf_analysis accepts lists of q and q=None

---
 pymultifracs/mfa.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymultifracs/mfa.py b/pymultifracs/mfa.py
index 697053c..f30efee 100644
--- a/pymultifracs/mfa.py
+++ b/pymultifracs/mfa.py
@@ -154,6 +154,9 @@ def minimal_mf_analysis(wt_coefs, wt_leaders, j2_eff, j1, weighted,
     if q is None:
         q = [2]
 
+    if isinstance(q, list):
+        q = np.array(q)
+
     parameters = {
         'q': q,
         'n_cumul': n_cumul,
-- 
2.43.0


From 1a6d188a3d27f31dd3ec5f3ce36f0923c799da30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 10/29] fix: minimal_mf_analysis of wavelet coefficients only

mf_analysis_full(..., minimal=True) failed with the default p_exp=None.
---
 pymultifracs/mfa.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/mfa.py b/pymultifracs/mfa.py
index f30efee..95ca5f4 100644
--- a/pymultifracs/mfa.py
+++ b/pymultifracs/mfa.py
@@ -168,8 +168,14 @@ def minimal_mf_analysis(wt_coefs, wt_leaders, j2_eff, j1, weighted,
     dwt_struct = StructureFunction.from_dict({'mrq': wt_coefs, **parameters})
     dwt = MFractalVar(dwt_struct, None, None, None)
 
-    lwt_cumul = Cumulants.from_dict({'mrq': wt_leaders, **parameters})
-    lwt = MFractalVar(None, lwt_cumul, None, None)
+    if wt_leaders is not None:
+
+        lwt_cumul = Cumulants.from_dict({'mrq': wt_leaders, **parameters})
+        lwt = MFractalVar(None, lwt_cumul, None, None)
+
+    else:
+
+        lwt = None
 
     return MFractalData(dwt, lwt)
 
-- 
2.43.0


From 0f24f88fa3aa7d5c815312b692bd45cbb0cb181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 11/29] fix: Signal.estimate_wavelet_psd stores its own
 parameters

It overwrote the parameters of the wavelet transform instead, so that
hurst(), hmin() and mf_analysis() failed afterwards, and never reused the
stored PSD.
---
 pymultifracs/signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 53cde98..b37c382 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -113,12 +113,12 @@ class Signal:
 
         if self.wt_psd is None or self.wt_psd_param != param:
 
-            self.wt_param = param
-
             self.wt_psd = wavelet_estimation(self.data, self.fs,
                                              n_moments=n_moments,
                                              j2=j2)
 
+            self.wt_psd_param = param
+
         return self.wt_psd
 
     def estimate_welch_psd(self, n_fft=4096, seg_size=None):
-- 
2.43.0


From 277bc1d0ae05fcba01504e8135ea3bcb5d6fb341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 12/29] fix: Signal records parameters only once the result is
 computed

When a computation failed or was interrupted, the next call with the same
parameters returned the stale result of an earlier one.
---
 pymultifracs/signal.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index b37c382..b4c6f8b 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -127,12 +127,12 @@ class Signal:
 
         if self.welch_psd is None or self.welch_param != param:
 
-            self.welch_param = param
-
             self.welch_psd = welch_estimation(self.data, self.fs,
                                               n_fft=n_fft,
                                               seg_size=seg_size)
 
+            self.welch_param = param
+
         return self.welch_psd
 
     def plot_psd(self, n_fft=4096, seg_size=None, n_moments=2, j2=None):
@@ -162,12 +162,12 @@ class Signal:
 
     def fractal_analysis(self, n_moments=2, freq_band=(0.01, 2)):
 
-        self.fractal_param = FractalParameters(n_moments, freq_band)
         self.estimate_wavelet_psd(n_moments, None)
         self.fractal = estimate_beta(self.wt_psd.freq,
                                      self.wt_psd.psd,
                                      log=self.log,
                                      freq_band=freq_band)
+        self.fractal_param = FractalParameters(n_moments, freq_band)
 
         return self.fractal
 
@@ -175,9 +175,9 @@ class Signal:
 
         if self.wt_param is None or self.wt_param != new_param:
 
-            self.wt_param = new_param
             self.wt_transform = wavelet_analysis(self.data,
-                                                 **self.wt_param._asdict())
+                                                 **new_param._asdict())
+            self.wt_param = new_param
 
         return self.wt_transform
 
-- 
2.43.0


From 9b673618f797b46f80321d63e492e78ec11e484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 13/29] fix: Signal.mf_analysis

It always failed: mf_analysis() takes neither eta_p nor p_exp, and nothing
was assigned to the returned variable when the stored result could be
reused. With save=False the parameters were recorded without the result.
---
 pymultifracs/signal.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index b4c6f8b..bb622e1 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -231,21 +231,23 @@ class Signal:
         if self.multi_fractal is None or not(same_params(self.mf_param,
                                                          new_param)):
 
-            self.mf_param = new_param
-
             multi_fractal = mf_analysis(
-                **self.wt_transform._asdict(),
-                p_exp=self.wt_param.p_exp,
+                self.wt_transform.wt_coefs,
+                self.wt_transform.wt_leaders,
+                self.wt_transform.j2_eff,
                 j1=self.wt_param.j1,
                 weighted=self.wt_param.weighted,
                 q=q,
                 n_cumul=n_cumul
             )
 
-            if save:
-                self.multi_fractal = multi_fractal
+            if not save:
+                return multi_fractal
+
+            self.multi_fractal = multi_fractal
+            self.mf_param = new_param
 
-        return multi_fractal
+        return self.multi_fractal
 
     def hurst(self):
         # TODO store Hurst exponent
-- 
2.43.0


From e054cfada48b2c508440b63a93b65e6a2785efba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 14/29] fix: Signal drops the multifractal results of a
 previous transform

mf_analysis() kept returning them after wavelet_analysis() was run again
with other parameters.
---
 pymultifracs/signal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index bb622e1..beae9c4 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -179,6 +179,10 @@ class Signal:
                                                  **new_param._asdict())
             self.wt_param = new_param
 
+            # Derived from the previous wavelet transform
+            self.multi_fractal = None
+            self.mf_param = None
+
         return self.wt_transform
 
     def wavelet_analysis(self, j1, j2, normalization, gamint, weighted,
-- 
2.43.0


From 157294e508e270f1b8d7a65c9209a491895be535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 15/29] fix: comparison of q values in Signal

Comparing arrays of different lengths or an array with None failed, and an
array modified in place by the caller was mistaken for unchanged.
---
 pymultifracs/signal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index beae9c4..7887531 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -39,9 +39,9 @@ def same_params(old_params, new_params):
         new_param = getattr(new_params, param)
 
         if (isinstance(old_param, np.ndarray)
-           or isinstance(new_params, np.ndarray)):
+           or isinstance(new_param, np.ndarray)):
 
-            same = (old_param == new_param).all()
+            same = np.array_equal(old_param, new_param)
 
         else:
 
@@ -230,7 +230,8 @@ class Signal:
 
         self._check_wt_transform()
 
-        new_param = MFParameters(q, n_cumul)
+        # copy q, which could be modified by the caller later on
+        new_param = MFParameters(None if q is None else np.array(q), n_cumul)
 
         if self.multi_fractal is None or not(same_params(self.mf_param,
                                                          new_param)):
-- 
2.43.0


From 74eb1f00e988011f717e11ce1517d7be6c91c0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 16/29] fix: plot_fractal with array-valued beta

beta is an array of size one, which does not support format codes.
---
 pymultifracs/fractal_analysis.py | 2 +-
 pymultifracs/signal.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/fractal_analysis.py b/pymultifracs/fractal_analysis.py
index af1b8a4..8787c37 100644
--- a/pymultifracs/fractal_analysis.py
+++ b/pymultifracs/fractal_analysis.py
@@ -59,7 +59,7 @@ def plot_fractal(signal, s_freq, log='log2', freq_band=(0.01, 2), n_moments=2,
     # Plot
     freq = [freq_fourier, freq_wavelet]
     psd = [psd_fourier, psd_wavelet]
-    legend = ['Fourier', 'Wavelet', f'Slope: {slope.beta:.2f}']
+    legend = ['Fourier', 'Wavelet', f'Slope: {slope.beta.item():.2f}']
 
     log_plot(freq, psd, legend, slope=[(slope.freq, psd_slope)], log=log,
              lowpass_freq=lowpass_freq)
diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 7887531..360f4a6 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -156,7 +156,7 @@ class Signal:
 
         log_plot([self.welch_psd.freq, self.wt_psd.freq],
                  [self.welch_psd.psd, self.wt_psd.psd],
-                 ['Fourier', 'Wavelet', f'Slope: {self.fractal.beta:.2f}'],
+                 ['Fourier', 'Wavelet', f'Slope: {self.fractal.beta.item():.2f}'],
                  slope=[(self.fractal.freq, psd_slope)],
                  log=self.log)
 
-- 
2.43.0


From 203eb1443bcfd0b2319b598696e5da679d3a76e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 17/29] fix: results stored by Signal keep the q they were
 computed for

They shared the array passed by the caller.
---
 pymultifracs/signal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 360f4a6..849307a 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -156,7 +156,8 @@ class Signal:
 
         log_plot([self.welch_psd.freq, self.wt_psd.freq],
                  [self.welch_psd.psd, self.wt_psd.psd],
-                 ['Fourier', 'Wavelet', f'Slope: {self.fractal.beta.item():.2f}'],
+                 ['Fourier', 'Wavelet',
+                  f'Slope: {self.fractal.beta.item():.2f}'],
                  slope=[(self.fractal.freq, psd_slope)],
                  log=self.log)
 
@@ -231,7 +232,8 @@ class Signal:
         self._check_wt_transform()
 
         # copy q, which could be modified by the caller later on
-        new_param = MFParameters(None if q is None else np.array(q), n_cumul)
+        q = None if q is None else np.array(q)
+        new_param = MFParameters(q, n_cumul)
 
         if self.multi_fractal is None or not(same_params(self.mf_param,
                                                          new_param)):
-- 
2.43.0


From 953d43d9d484db1e9b9170c259dcb052f080b6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 18/29] fix: position of the plots in StructureFunction.plot
 when q=0 is ignored

The axes were counted without q=0 but indexed with it, which failed for
e.g. q=[-2, -1, 0, 1, 2].
---
 pymultifracs/structurefunction.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index 8e01856..ffb97e7 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -146,8 +146,8 @@ class StructureFunction(MultiResolutionQuantityBase):
         Plots the structure functions.
         """
 
-        nrow = min(nrow, len(self.q))
         nq = len(self.q) + (-1 if 0.0 in self.q and ignore_q0 else 0)
+        nrow = min(nrow, max(nq, 1))
 
         if nq > 1:
             plot_dim_1 = nrow
@@ -167,6 +167,7 @@ class StructureFunction(MultiResolutionQuantityBase):
                      r' - structure functions $\log_2(S(j,q))$')
 
         x = self.j
+        ind_ax = 0
         for ind_q, q in enumerate(self.q):
 
             if q == 0.0 and ignore_q0:
@@ -174,7 +175,8 @@ class StructureFunction(MultiResolutionQuantityBase):
 
             y = self.logvalues[ind_q, :]
 
-            ax = axes[ind_q % nrow][ind_q // nrow]
+            ax = axes[ind_ax % nrow][ind_ax // nrow]
+            ind_ax += 1
             ax.plot(x, y, 'r--.')
             ax.set_xlabel('j')
             ax.set_ylabel(f'q = {q:.3f}')
@@ -193,7 +195,7 @@ class StructureFunction(MultiResolutionQuantityBase):
                         linestyle='-', linewidth=2, label=legend)
                 ax.legend()
 
-        for j in range(ind_q + 1, len(axes.flat)):
+        for j in range(ind_ax, len(axes.flat)):
             fig.delaxes(axes[j % nrow][j // nrow])
         plt.draw()
 
-- 
2.43.0


From 6a02dd2390b0408c258b5af66b378c36e50b019f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 19/29] fix: StructureFunction.plot and Cumulants.plot can be
 called again

The subplots were added to those of an earlier plot, which recent versions
of matplotlib refuse.
---
 pymultifracs/cumulants.py         | 1 +
 pymultifracs/structurefunction.py | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/cumulants.py b/pymultifracs/cumulants.py
index e5adbee..5c0e3f4 100644
--- a/pymultifracs/cumulants.py
+++ b/pymultifracs/cumulants.py
@@ -186,6 +186,7 @@ class Cumulants(MultiResolutionQuantityBase):
         fig, axes = plt.subplots(plot_dim_1,
                                  plot_dim_2,
                                  num=fignum,
+                                 clear=True,
                                  squeeze=False)
 
         fig.suptitle(self.formalism + r' - cumulants $C_m(j)$')
diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index ffb97e7..4ead7d6 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -160,8 +160,10 @@ class StructureFunction(MultiResolutionQuantityBase):
         fig, axes = plt.subplots(plot_dim_1,
                                  plot_dim_2,
                                  num=figlabel,
-                                 squeeze=False,
-                                 figsize=figsize)
+                                 clear=True,
+                                 squeeze=False)
+
+        fig.set_size_inches(figsize)
 
         fig.suptitle(self.formalism +
                      r' - structure functions $\log_2(S(j,q))$')
-- 
2.43.0


From fce7ce4252e4f26a10e9c5f90017c31276e7ccbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 20/29] fix: MultifractalSpectrum.plot titles and saves the
 figure of ax

It used the current figure, which can be another one when ax is passed.
---
 pymultifracs/mfspectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/mfspectrum.py b/pymultifracs/mfspectrum.py
index 23c4d13..635f5b4 100644
--- a/pymultifracs/mfspectrum.py
+++ b/pymultifracs/mfspectrum.py
@@ -163,8 +163,8 @@ class MultifractalSpectrum(MultiResolutionQuantityBase):
         ax.set_ylabel('D(h)')
         ax.set_ylim((0, 1.05))
         ax.set_xlim((0, 1.5))
-        plt.suptitle(self.formalism + ' - multifractal spectrum')
+        ax.figure.suptitle(self.formalism + ' - multifractal spectrum')
         plt.draw()
 
         if filename is not None:
-            plt.savefig(filename)
+            ax.figure.savefig(filename)
-- 
2.43.0


From 2a4805bd000a3a9deb000955d9213ec905341e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 21/29] fix: plot_hmin

It unpacked a value it did not ask for, formatted an array, plotted a map
object and evaluated the subscript of its label as a Python expression.
---
 pymultifracs/estimation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pymultifracs/estimation.py b/pymultifracs/estimation.py
index a4f7b89..e81c631 100644
--- a/pymultifracs/estimation.py
+++ b/pymultifracs/estimation.py
@@ -52,7 +52,9 @@ def estimate_hmin(wt_coefs, j1, j2_eff, weighted, warn=True,
 
 def plot_hmin(wt_coefs, j1, j2_eff, weighted, warn=True):
 
-    hmin, intercept, y = estimate_hmin(wt_coefs, j1, j2_eff, weighted, warn)
+    hmin, intercept, y = estimate_hmin(wt_coefs, j1, j2_eff, weighted, warn,
+                                       return_y=True)
+    hmin, intercept = hmin.item(), intercept.item()
     x = np.arange(j1, j2_eff+1)
 
     # plot log_sup_coeffs
@@ -68,9 +70,9 @@ def plot_hmin(wt_coefs, j1, j2_eff, weighted, warn=True):
 
     # plot regression line
     reg_x = [j1, j2_eff]
-    reg_y = map(lambda x: hmin*x + intercept, reg_x)
+    reg_y = [hmin*x + intercept for x in reg_x]
 
-    legend = f'$h_\\mathrm{min}$ = {hmin:.5f}'
+    legend = f'$h_\\mathrm{{min}}$ = {hmin:.5f}'
     plt.plot(reg_x, reg_y, color='k', linestyle='-', linewidth=2, label=legend)
     plt.legend()
     plt.draw()
-- 
2.43.0


From 130f38eb8c0502da69425fd3e010bfa8fe5cc0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 22/29] fix: plot_legendre with current versions of matplotlib

---
 pymultifracs/bivariate/bivariate_cumulants.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index 6190d66..c696a63 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -245,7 +245,7 @@ class BiCumulants(MultiResolutionQuantityBase):
         cmap = cmap or plt.cm.coolwarm  # pylint: disable=no-member
 
         fig = plt.figure(figsize=(10, 10))
-        ax = fig.gca(projection='3d')
+        ax = fig.add_subplot(projection='3d')
 
         h_x = h[L.max(axis=0) >= 0]
         h_y = h[L.max(axis=1) >= 0]
@@ -264,7 +264,8 @@ class BiCumulants(MultiResolutionQuantityBase):
                                vmin=0, vmax=1,
                                rstride=1, cstride=1,
                                facecolors=colors, shade=False, linestyle='-',
-                               edgecolors='black', zorder=1)
+                               zorder=1)
+        surf.set_edgecolor('black')
         ax.set_zlim(0, 1)
         ax.view_init(elev=45)
 
-- 
2.43.0


From 930d1de1480933da0c48e9a5695d217cd4ffa9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 23/29] fix: draw order of plot_multiscale

It followed the order of a set of strings, so that the same data gave
different pictures from one process to the next.
---
 pymultifracs/viz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymultifracs/viz.py b/pymultifracs/viz.py
index 34ae025..779102c 100644
--- a/pymultifracs/viz.py
+++ b/pymultifracs/viz.py
@@ -13,7 +13,8 @@ def plot_multiscale(results, seg2color, ax=None):
 
     ax = plt.gca() if ax is None else ax
 
-    segs = {*results.index.get_level_values(1).unique()}
+    # Not a set, whose order would depend on hash randomization
+    segs = [*results.index.get_level_values(1).unique()]
     subjects = results.index.get_level_values(0).unique()
     n = len(subjects)
 
-- 
2.43.0


From e160679a03d5fc5e9e7546fb0314ced43a0ea12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 24/29] fix: tick labels of log_plot when the zero frequency is
 left out

---
 pymultifracs/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/psd.py b/pymultifracs/psd.py
index 174c06f..d423f4a 100644
--- a/pymultifracs/psd.py
+++ b/pymultifracs/psd.py
@@ -155,7 +155,7 @@ def log_plot(freq_list, psd_list, legend=None, fmt=None, color=None, slope=[],
         if xticks is not None and i == len(freq_list) - 1:
             ax.set_xticks(log_freq)
             ax.set_xticklabels([f'{fr:.2f}' if fr < 1 else f'{fr:.1f}'
-                                for fr in freq])
+                                for fr in freq[freq != 0]])
             # plt.xticks(log_freq, [f'{fr:.2f}' for fr in freq])
 
     if color is None:
-- 
2.43.0


From cae0fc2d46d3261cd24e042b8a19ae0fbb4c6a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:59 +0000
Subject: [PATCH 25/29] fix: start_xvfb uses the requested window size

---
 pymultifracs/viz.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymultifracs/viz.py b/pymultifracs/viz.py
index 779102c..bbe560d 100644
--- a/pymultifracs/viz.py
+++ b/pymultifracs/viz.py
@@ -125,7 +125,9 @@ def start_xvfb(wait=3, window_size=None):
         raise OSError(XVFB_INSTALL_NOTES)
 
     # use current default window size
-    window_size_parm = '%dx%dx24' % tuple(rcParams['window_size'])
+    if window_size is None:
+        window_size = rcParams['window_size']
+    window_size_parm = '%dx%dx24' % tuple(window_size)
     display_num = ':99'
     os.system(f'Xvfb {display_num} -screen 0 {window_size_parm} '
               '> /dev/null 2>&1 &')
-- 
2.43.0


From 4506e3e4a335f1b51633e9f0617ac9ac50d704e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:59 +0000
Subject: [PATCH 26/29] fix: start_xvfb reports that Xvfb could not be started

---
 pymultifracs/viz.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/viz.py b/pymultifracs/viz.py
index bbe560d..9de14ed 100644
--- a/pymultifracs/viz.py
+++ b/pymultifracs/viz.py
@@ -129,8 +129,9 @@ def start_xvfb(wait=3, window_size=None):
         window_size = rcParams['window_size']
     window_size_parm = '%dx%dx24' % tuple(window_size)
     display_num = ':99'
-    os.system(f'Xvfb {display_num} -screen 0 {window_size_parm} '
-              '> /dev/null 2>&1 &')
+    if os.system(f'Xvfb {display_num} -screen 0 {window_size_parm} '
+                 '> /dev/null 2>&1 &'):
+        raise OSError('Xvfb could not be started')
     os.environ['DISPLAY'] = display_num
     if wait:
         time.sleep(wait)
-- 
2.43.0


From 2fec92f2bca5aeb1e2a1a63b92557c57f39981b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:59 +0000
Subject: [PATCH 27/29] fix: provide the documented StructureFunction.nj

---
 pymultifracs/structurefunction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index 4ead7d6..aeaee75 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -77,6 +77,7 @@ class StructureFunction(MultiResolutionQuantityBase):
 
         self.formalism = mrq.formalism
         self.gamint = mrq.gamint
+        self.nj = mrq.nj
         self.nrep = mrq.nrep
         self.j = np.array(list(mrq.values))
 
-- 
2.43.0


From 9acaf240e66a04ad63cdb2ce7c18e465d35b89a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:32 +0000
Subject: [PATCH 28/29] fix: apply no p-leader correction next to a realisation
 without energy

The minimum over the realisations is nan as soon as one of them has an
undefined eta_p, so that the check was passed and leaders of realisations with
eta_p <= 0 were corrected without a warning.
---
 pymultifracs/wavelet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymultifracs/wavelet.py b/pymultifracs/wavelet.py
index 5a67f37..b7d1c7e 100644
--- a/pymultifracs/wavelet.py
+++ b/pymultifracs/wavelet.py
@@ -48,7 +48,8 @@ def _correct_leaders(wt_coefs, wt_leaders, p_exp, j1, j2_eff,
 
     eta_p = _estimate_eta_p(wt_coefs, p_exp, j1, j2_eff, weighted)
 
-    if eta_p.min() <= 0:
+    # a realisation without energy has an undefined eta_p
+    if np.any(eta_p <= 0):
         warnings.warn(f"eta(p) = {eta_p} <= 0, p-Leaders correction was not\
                         applied. A smaller value of p (or larger value of\
                         gamint) should be selected.")
-- 
2.43.0


From 268804009015622bade23b9298fabb5158ed6750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:49 +0000
Subject: [PATCH 29/29] fix: frequencies of the Welch estimate for an odd n_fft

The axis was stretched to end at fs/2, which no odd transform reaches: every
frequency was too high by a factor n_fft / (n_fft - 1).
---
 pymultifracs/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/psd.py b/pymultifracs/psd.py
index d423f4a..70aa0a7 100644
--- a/pymultifracs/psd.py
+++ b/pymultifracs/psd.py
@@ -207,7 +207,7 @@ def welch_estimation(signal, fs, n_fft=4096, seg_size=None):
         n_fft = seg_size
 
     # Frequency
-    freq = fs * np.linspace(0, 0.5, n_fft // 2 + 1)
+    freq = fs * np.fft.rfftfreq(n_fft)
 
     # PSD
     _, psd = welch(signal,
-- 
2.43.0

