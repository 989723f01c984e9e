From 2f24de43ee751e319038439ce83ba1b71b03735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 01/21] fix: H is None when 2 is not among the exponents

The documented behaviour; indexing an empty selection raised IndexError,
which also made p-leaders unusable for any p other than 2.
---
 pymultifracs/structurefunction.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index 53ac51b..960f3cf 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -123,6 +123,10 @@ class StructureFunction(MultiResolutionQuantityBase):
             self.intercept[ind_q] = intercept
 
     def _get_H(self):
+
+        if not np.any(self.q == 2):
+            return None
+
         return (self.zeta[self.q == 2][0] / 2) - self.gamint
 
     def get_intercept(self):
-- 
2.43.0


From 964907a6b7d5b6fe2c5f0166866da1558aff10aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 02/21] fix: return eta_p also when the p-leader correction is
 skipped

The caller unpacks two values, so eta(p) <= 0 ended in a TypeError after
the warning.
---
 pymultifracs/wavelet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/wavelet.py b/pymultifracs/wavelet.py
index 661f6c9..5a67f37 100644
--- a/pymultifracs/wavelet.py
+++ b/pymultifracs/wavelet.py
@@ -52,7 +52,7 @@ def _correct_leaders(wt_coefs, wt_leaders, p_exp, j1, j2_eff,
         warnings.warn(f"eta(p) = {eta_p} <= 0, p-Leaders correction was not\
                         applied. A smaller value of p (or larger value of\
                         gamint) should be selected.")
-        return wt_leaders
+        return wt_leaders, eta_p
 
     JJ = np.arange(1, max_level + 1)
     J1LF = 1
-- 
2.43.0


From 8a0756ddf642e1abaff70de9ea85bbdcc4fe8c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 03/21] fix: store the documented values of the structure
 function

compute_hurst (and Signal.hurst) read them and raised AttributeError.
---
 pymultifracs/structurefunction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index 960f3cf..68e468b 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -97,6 +97,7 @@ class StructureFunction(MultiResolutionQuantityBase):
 
             values[:, ind_j, :] = s_j
 
+        self.values = values
         self.logvalues = np.log2(values)
 
     def _compute_zeta(self, mrq):
-- 
2.43.0


From 4b4f6dbeeb59fa4747c85f36541745d4c5794244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 04/21] fix: set the documented nj of the structure function

It was left an empty dict, unlike in the other estimators.
---
 pymultifracs/structurefunction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index 68e468b..738be75 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -76,6 +76,7 @@ class StructureFunction(MultiResolutionQuantityBase):
 
         self.formalism = mrq.formalism
         self.gamint = mrq.gamint
+        self.nj = mrq.nj
         self.nrep = mrq.nrep
         self.j = np.array(list(mrq.values))
 
-- 
2.43.0


From a73cf38941cbb79989b7bcc58dd8f84296f88c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 05/21] fix: accept lists of exponents in the minimal analysis

As the full analysis does; the default q=[2] raised IndexError.
---
 pymultifracs/mfa.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymultifracs/mfa.py b/pymultifracs/mfa.py
index 697053c..f30efee 100644
--- a/pymultifracs/mfa.py
+++ b/pymultifracs/mfa.py
@@ -154,6 +154,9 @@ def minimal_mf_analysis(wt_coefs, wt_leaders, j2_eff, j1, weighted,
     if q is None:
         q = [2]
 
+    if isinstance(q, list):
+        q = np.array(q)
+
     parameters = {
         'q': q,
         'n_cumul': n_cumul,
-- 
2.43.0


From ca7d075e102afc324dd00cb492b6ec5b127ab9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 06/21] fix: minimal analysis without leaders

p_exp=None is the default of mf_analysis_full, and crashed with minimal=True.
---
 pymultifracs/mfa.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/mfa.py b/pymultifracs/mfa.py
index f30efee..95ca5f4 100644
--- a/pymultifracs/mfa.py
+++ b/pymultifracs/mfa.py
@@ -168,8 +168,14 @@ def minimal_mf_analysis(wt_coefs, wt_leaders, j2_eff, j1, weighted,
     dwt_struct = StructureFunction.from_dict({'mrq': wt_coefs, **parameters})
     dwt = MFractalVar(dwt_struct, None, None, None)
 
-    lwt_cumul = Cumulants.from_dict({'mrq': wt_leaders, **parameters})
-    lwt = MFractalVar(None, lwt_cumul, None, None)
+    if wt_leaders is not None:
+
+        lwt_cumul = Cumulants.from_dict({'mrq': wt_leaders, **parameters})
+        lwt = MFractalVar(None, lwt_cumul, None, None)
+
+    else:
+
+        lwt = None
 
     return MFractalData(dwt, lwt)
 
-- 
2.43.0


From 3b6bcf8602924894c17bcdbf1d7751cda5f7f98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 07/21] fix: bivariate analysis without leaders

lwt was unbound when no leaders were computed.
---
 pymultifracs/bivariate/bimfa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymultifracs/bivariate/bimfa.py b/pymultifracs/bivariate/bimfa.py
index 7c983b1..0259264 100644
--- a/pymultifracs/bivariate/bimfa.py
+++ b/pymultifracs/bivariate/bimfa.py
@@ -38,6 +38,10 @@ def bivariate_analysis(WT1, WT2, j1, weighted, n_cumul, q1, q2):
 
         lwt = MFractalBiVar(lwt_bisf, lwt_bicm)
 
+    else:
+
+        lwt = None
+
     return MFractalData(dwt, lwt)
 
 
-- 
2.43.0


From 360f8279b01dda48c456b47f480715e5d1ff0499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 08/21] fix: use the initial noise z0 of fgn with the cme
 method

It was silently ignored.
---
 pymultifracs/simul/fbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/simul/fbm.py b/pymultifracs/simul/fbm.py
index 4921210..813614a 100644
--- a/pymultifracs/simul/fbm.py
+++ b/pymultifracs/simul/fbm.py
@@ -65,7 +65,7 @@ def fgn(shape, H, sigma=1, dt=None, method='cme', z0=None):
     # fbm = np.cumsum(x[:N, :], axis=0)
 
     if method == 'cme':
-        fgn = gaussian_cme(r, N, R)
+        fgn = gaussian_cme(r, N, R, z0)
     elif method == 'chol':
         fgn = gaussian_chol(r, N, R, z0)
     else:
-- 
2.43.0


From 64504ab937ec561be6ef2bef6d65ffdadecfe37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 09/21] fix: reject unknown synthesis methods in gaussian_w

As fgn does; w was unbound instead.
---
 pymultifracs/simul/mrw.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymultifracs/simul/mrw.py b/pymultifracs/simul/mrw.py
index f70fc4d..5f0d9fc 100644
--- a/pymultifracs/simul/mrw.py
+++ b/pymultifracs/simul/mrw.py
@@ -173,6 +173,8 @@ def gaussian_w(N, R, L, lam, dt=1, method='cme', z0=None):
         w = gaussian_cme(cov, N, R, z0)
     elif method == 'chol':
         w = gaussian_chol(cov, N, R, z0)
+    else:
+        raise ValueError('Unknown synthesis method')
 
     return w
 
-- 
2.43.0


From 5020ecadf55449cfb9e731dcaebdd165832a7f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 10/21] fix: length of the noise of skewed_mrw

skewness_convolution expects 2*N samples; 2*N + 1 never broadcast.
---
 pymultifracs/simul/mrw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/simul/mrw.py b/pymultifracs/simul/mrw.py
index 5f0d9fc..9454921 100644
--- a/pymultifracs/simul/mrw.py
+++ b/pymultifracs/simul/mrw.py
@@ -137,7 +137,7 @@ def skewed_mrw(shape, H, lam, L,  K0=1, alpha=1, sigma=1, dt=1, beta=1,
     w = w - np.mean(w, axis=0) - r * lam**2 * np.log(L / dt)
 
     # 2) fGn e
-    e = fgn((2*N + 1, R), H, sigma, dt)
+    e = fgn((2*N, R), H, sigma, dt)
 
     # 3) Correlate components
     past = skewness_convolution(e, K0, alpha, beta, dt)
-- 
2.43.0


From 0f756230b875f2f6776259c4694a1437931a4cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 11/21] fix: estimate_beta with a zero frequency in the band

Masking the reshaped frequencies raised IndexError.
---
 pymultifracs/fractal_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymultifracs/fractal_analysis.py b/pymultifracs/fractal_analysis.py
index af1b8a4..2ea2afa 100644
--- a/pymultifracs/fractal_analysis.py
+++ b/pymultifracs/fractal_analysis.py
@@ -127,7 +127,7 @@ def estimate_beta(freq, psd, freq_band=(0.01, 2), log='log2'):
     # Band-pass the PSD
 
     support = np.logical_and(freq_band[0] <= freq, freq <= freq_band[1])
-    freq = freq[support].reshape(-1, 1)
+    freq = freq[support]
     psd = psd[support]
 
 # Move this input sanitization to the megfractal package instead
@@ -137,6 +137,7 @@ def estimate_beta(freq, psd, freq_band=(0.01, 2), log='log2'):
 
     # Log the values
     freq, psd = _log_psd(freq, psd, log)
+    freq = freq.reshape(-1, 1)
 
     # Fit ridge regressor
     # regressor = Ridge()
-- 
2.43.0


From ba9ac0276ac1f4123c6eadb22360e4bcd3a2ac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 12/21] fix: record the wavelet PSD parameters under their own
 name

estimate_wavelet_psd overwrote wt_param, the parameters of the wavelet
analysis, so that later multifractal analysis and hurst()/hmin() failed or
used the wrong parameters.
---
 pymultifracs/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 53cde98..485f056 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -113,7 +113,7 @@ class Signal:
 
         if self.wt_psd is None or self.wt_psd_param != param:
 
-            self.wt_param = param
+            self.wt_psd_param = param
 
             self.wt_psd = wavelet_estimation(self.data, self.fs,
                                              n_moments=n_moments,
-- 
2.43.0


From db99fa6da744de6a721c4b0bb1c647a351c6b560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 13/21] fix: arguments passed to mf_analysis by
 Signal.mf_analysis

mf_analysis accepts neither eta_p nor p_exp: every call raised TypeError.
---
 pymultifracs/signal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 485f056..0d5fa67 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -234,8 +234,9 @@ class Signal:
             self.mf_param = new_param
 
             multi_fractal = mf_analysis(
-                **self.wt_transform._asdict(),
-                p_exp=self.wt_param.p_exp,
+                wt_coefs=self.wt_transform.wt_coefs,
+                wt_leaders=self.wt_transform.wt_leaders,
+                j2_eff=self.wt_transform.j2_eff,
                 j1=self.wt_param.j1,
                 weighted=self.wt_param.weighted,
                 q=q,
-- 
2.43.0


From b2c288f21c6704504396c0b46a6db2fbef873cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 14/21] fix: cached result of Signal.mf_analysis

Reusing the saved result raised UnboundLocalError, and after save=False the
saved result was filed under the parameters of the unsaved one.
---
 pymultifracs/signal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 0d5fa67..2d5bfbe 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -231,8 +231,6 @@ class Signal:
         if self.multi_fractal is None or not(same_params(self.mf_param,
                                                          new_param)):
 
-            self.mf_param = new_param
-
             multi_fractal = mf_analysis(
                 wt_coefs=self.wt_transform.wt_coefs,
                 wt_leaders=self.wt_transform.wt_leaders,
@@ -244,9 +242,12 @@ class Signal:
             )
 
             if save:
+                self.mf_param = new_param
                 self.multi_fractal = multi_fractal
 
-        return multi_fractal
+            return multi_fractal
+
+        return self.multi_fractal
 
     def hurst(self):
         # TODO store Hurst exponent
-- 
2.43.0


From f9e13f48866d6a4d4a7894cc489b7febdfe4c5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 15/21] fix: forget saved multifractal results when the wavelet
 analysis changes

Signal.mf_analysis returned results of an earlier wavelet analysis.
---
 pymultifracs/signal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 2d5bfbe..6f5d24a 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -178,6 +178,8 @@ class Signal:
             self.wt_param = new_param
             self.wt_transform = wavelet_analysis(self.data,
                                                  **self.wt_param._asdict())
+            self.mf_param = None
+            self.multi_fractal = None
 
         return self.wt_transform
 
-- 
2.43.0


From 3f777508aed213342e38d7a7f4f37b766ba12d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 16/21] fix: comparison of array parameters in same_params

Arrays of different shapes, or a list followed by an array, raised
ValueError.
---
 pymultifracs/signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 6f5d24a..4865157 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -39,9 +39,9 @@ def same_params(old_params, new_params):
         new_param = getattr(new_params, param)
 
         if (isinstance(old_param, np.ndarray)
-           or isinstance(new_params, np.ndarray)):
+           or isinstance(new_param, np.ndarray)):
 
-            same = (old_param == new_param).all()
+            same = np.array_equal(old_param, new_param)
 
         else:
 
-- 
2.43.0


From 709c4cf0e14bdd91600fbeba720c3d737b6bf139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 17/21] fix: covariance of the Cholesky synthesis

---
 pymultifracs/simul/pzutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/simul/pzutils.py b/pymultifracs/simul/pzutils.py
index 6f620d6..50bd86e 100644
--- a/pymultifracs/simul/pzutils.py
+++ b/pymultifracs/simul/pzutils.py
@@ -51,6 +51,6 @@ def gaussian_chol(cov, N, R, z=None):
     '''
     if z is None:
         z = np.random.randn(N, R)
-    L = spla.cholesky(spla.toeplitz(cov))
+    L = spla.cholesky(spla.toeplitz(cov), lower=True)
     x = L @ z
     return x
-- 
2.43.0


From 777e5b528914c1c71f28797cce8f627a4c6a7d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:36 +0000
Subject: [PATCH 18/21] fix: scale2freq accepts numpy integer scales

---
 pymultifracs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/utils.py b/pymultifracs/utils.py
index 2f9dcd9..b4103c9 100644
--- a/pymultifracs/utils.py
+++ b/pymultifracs/utils.py
@@ -11,7 +11,7 @@ import numpy as np
 
 
 def scale2freq(scale, sfreq):
-    return (3/4) * sfreq * (2 ** -scale)
+    return (3/4) * sfreq * (2.0 ** -scale)
 
 
 def freq2scale(freq, sfreq):
-- 
2.43.0


From 2e7255f904a897a9eec0bbd2022fb7415d56d26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 19/21] fix: the session keeps its own copy of the exponents it
 caches results for

---
 pymultifracs/signal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 4865157..5e478ef 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -1,6 +1,7 @@
 """
 Authors: Merlin Dumeur <merlin@dumeur.net>
 """
+from copy import copy
 from dataclasses import dataclass
 from collections import namedtuple
 
@@ -228,6 +229,7 @@ class Signal:
 
         self._check_wt_transform()
 
+        q = copy(q)  # later changes by the caller must not affect the cache
         new_param = MFParameters(q, n_cumul)
 
         if self.multi_fractal is None or not(same_params(self.mf_param,
-- 
2.43.0


From 0addf13c6c95b46185c5307165f395ad0712fbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:45 +0000
Subject: [PATCH 20/21] fix: the session records parameters only once the
 computation succeeded

---
 pymultifracs/signal.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 5e478ef..c32c85a 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -114,12 +114,12 @@ class Signal:
 
         if self.wt_psd is None or self.wt_psd_param != param:
 
-            self.wt_psd_param = param
-
             self.wt_psd = wavelet_estimation(self.data, self.fs,
                                              n_moments=n_moments,
                                              j2=j2)
 
+            self.wt_psd_param = param
+
         return self.wt_psd
 
     def estimate_welch_psd(self, n_fft=4096, seg_size=None):
@@ -128,12 +128,12 @@ class Signal:
 
         if self.welch_psd is None or self.welch_param != param:
 
-            self.welch_param = param
-
             self.welch_psd = welch_estimation(self.data, self.fs,
                                               n_fft=n_fft,
                                               seg_size=seg_size)
 
+            self.welch_param = param
+
         return self.welch_psd
 
     def plot_psd(self, n_fft=4096, seg_size=None, n_moments=2, j2=None):
@@ -176,9 +176,9 @@ class Signal:
 
         if self.wt_param is None or self.wt_param != new_param:
 
-            self.wt_param = new_param
             self.wt_transform = wavelet_analysis(self.data,
-                                                 **self.wt_param._asdict())
+                                                 **new_param._asdict())
+            self.wt_param = new_param
             self.mf_param = None
             self.multi_fractal = None
 
-- 
2.43.0


From 2398e711bab36ad938ebf08111a430e46e16c02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:56 +0000
Subject: [PATCH 21/21] fix: welch_estimation reported frequencies of an even
 FFT length when the FFT length is odd

---
 pymultifracs/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/psd.py b/pymultifracs/psd.py
index 174c06f..9879950 100644
--- a/pymultifracs/psd.py
+++ b/pymultifracs/psd.py
@@ -207,7 +207,7 @@ def welch_estimation(signal, fs, n_fft=4096, seg_size=None):
         n_fft = seg_size
 
     # Frequency
-    freq = fs * np.linspace(0, 0.5, n_fft // 2 + 1)
+    freq = fs * np.arange(n_fft // 2 + 1) / n_fft
 
     # PSD
     _, psd = welch(signal,
-- 
2.43.0

