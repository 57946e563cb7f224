From 07579fa6974901f2e1ace1fa165cb7bb2d10434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 01/24] fix: p-leader analysis no longer crashes when eta_p <=
 0

---
 pymultifracs/wavelet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/wavelet.py b/pymultifracs/wavelet.py
index 661f6c9..5a67f37 100644
--- a/pymultifracs/wavelet.py
+++ b/pymultifracs/wavelet.py
@@ -52,7 +52,7 @@ def _correct_leaders(wt_coefs, wt_leaders, p_exp, j1, j2_eff,
         warnings.warn(f"eta(p) = {eta_p} <= 0, p-Leaders correction was not\
                         applied. A smaller value of p (or larger value of\
                         gamint) should be selected.")
-        return wt_leaders
+        return wt_leaders, eta_p
 
     JJ = np.arange(1, max_level + 1)
     J1LF = 1
-- 
2.43.0


From c3f1861c6a111be5a5ad660272a3cbe391d3234b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 02/24] fix: bivariate analysis without leaders returns None
 for the leader part

---
 pymultifracs/bivariate/bimfa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymultifracs/bivariate/bimfa.py b/pymultifracs/bivariate/bimfa.py
index 7c983b1..0259264 100644
--- a/pymultifracs/bivariate/bimfa.py
+++ b/pymultifracs/bivariate/bimfa.py
@@ -38,6 +38,10 @@ def bivariate_analysis(WT1, WT2, j1, weighted, n_cumul, q1, q2):
 
         lwt = MFractalBiVar(lwt_bisf, lwt_bicm)
 
+    else:
+
+        lwt = None
+
     return MFractalData(dwt, lwt)
 
 
-- 
2.43.0


From 81fe724ca497f342ff3561e007978cf859be7f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 03/24] fix: the wavelet PSD no longer overwrites the wavelet
 analysis parameters

---
 pymultifracs/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 53cde98..485f056 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -113,7 +113,7 @@ class Signal:
 
         if self.wt_psd is None or self.wt_psd_param != param:
 
-            self.wt_param = param
+            self.wt_psd_param = param
 
             self.wt_psd = wavelet_estimation(self.data, self.fs,
                                              n_moments=n_moments,
-- 
2.43.0


From 4f5faf2fa1458f78735a06165801246126a01468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 04/24] fix: Signal.mf_analysis runs, and its cache follows the
 parameters it depends on

---
 pymultifracs/signal.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 485f056..d58bca4 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -39,9 +39,9 @@ def same_params(old_params, new_params):
         new_param = getattr(new_params, param)
 
         if (isinstance(old_param, np.ndarray)
-           or isinstance(new_params, np.ndarray)):
+           or isinstance(new_param, np.ndarray)):
 
-            same = (old_param == new_param).all()
+            same = np.array_equal(old_param, new_param)
 
         else:
 
@@ -176,6 +176,7 @@ class Signal:
         if self.wt_param is None or self.wt_param != new_param:
 
             self.wt_param = new_param
+            self.multi_fractal = None
             self.wt_transform = wavelet_analysis(self.data,
                                                  **self.wt_param._asdict())
 
@@ -226,26 +227,28 @@ class Signal:
 
         self._check_wt_transform()
 
-        new_param = MFParameters(q, n_cumul)
+        new_param = MFParameters(None if q is None else np.array(q), n_cumul)
 
         if self.multi_fractal is None or not(same_params(self.mf_param,
                                                          new_param)):
 
-            self.mf_param = new_param
-
             multi_fractal = mf_analysis(
-                **self.wt_transform._asdict(),
-                p_exp=self.wt_param.p_exp,
+                self.wt_transform.wt_coefs,
+                self.wt_transform.wt_leaders,
+                self.wt_transform.j2_eff,
                 j1=self.wt_param.j1,
                 weighted=self.wt_param.weighted,
                 q=q,
                 n_cumul=n_cumul
             )
 
-            if save:
-                self.multi_fractal = multi_fractal
+            if not save:
+                return multi_fractal
+
+            self.mf_param = new_param
+            self.multi_fractal = multi_fractal
 
-        return multi_fractal
+        return self.multi_fractal
 
     def hurst(self):
         # TODO store Hurst exponent
-- 
2.43.0


From a93705bbd385637926148a08f301784a31968db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 05/24] fix: StructureFunction.H is None when 2 is not among
 the exponents

---
 pymultifracs/structurefunction.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index 53ac51b..83e3130 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -123,6 +123,10 @@ class StructureFunction(MultiResolutionQuantityBase):
             self.intercept[ind_q] = intercept
 
     def _get_H(self):
+
+        if 2 not in self.q:
+            return None
+
         return (self.zeta[self.q == 2][0] / 2) - self.gamint
 
     def get_intercept(self):
-- 
2.43.0


From bfa827d51d519bc303654fec2cc50bc21fcf450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 06/24] fix: StructureFunction provides the documented values
 and nj

---
 pymultifracs/structurefunction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index 83e3130..af8d90d 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -67,6 +67,7 @@ class StructureFunction(MultiResolutionQuantityBase):
     j2: int
     weighted: bool
     j: np.array = field(init=False)
+    values: np.array = field(init=False)
     logvalues: np.array = field(init=False)
     zeta: np.array = field(init=False)
     H: np.array = field(init=False)
@@ -76,6 +77,7 @@ class StructureFunction(MultiResolutionQuantityBase):
 
         self.formalism = mrq.formalism
         self.gamint = mrq.gamint
+        self.nj = mrq.nj
         self.nrep = mrq.nrep
         self.j = np.array(list(mrq.values))
 
@@ -97,6 +99,7 @@ class StructureFunction(MultiResolutionQuantityBase):
 
             values[:, ind_j, :] = s_j
 
+        self.values = values
         self.logvalues = np.log2(values)
 
     def _compute_zeta(self, mrq):
-- 
2.43.0


From 26cc54e3533d096cb4f98dc791fc79a59a5fe0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 07/24] fix: minimal_mf_analysis accepts omitted and list q,
 and missing leaders

---
 pymultifracs/mfa.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pymultifracs/mfa.py b/pymultifracs/mfa.py
index 697053c..76e7322 100644
--- a/pymultifracs/mfa.py
+++ b/pymultifracs/mfa.py
@@ -154,6 +154,9 @@ def minimal_mf_analysis(wt_coefs, wt_leaders, j2_eff, j1, weighted,
     if q is None:
         q = [2]
 
+    if isinstance(q, list):
+        q = np.array(q)
+
     parameters = {
         'q': q,
         'n_cumul': n_cumul,
@@ -165,6 +168,9 @@ def minimal_mf_analysis(wt_coefs, wt_leaders, j2_eff, j1, weighted,
     dwt_struct = StructureFunction.from_dict({'mrq': wt_coefs, **parameters})
     dwt = MFractalVar(dwt_struct, None, None, None)
 
+    if wt_leaders is None:
+        return MFractalData(dwt, None)
+
     lwt_cumul = Cumulants.from_dict({'mrq': wt_leaders, **parameters})
     lwt = MFractalVar(None, lwt_cumul, None, None)
 
-- 
2.43.0


From c1bbb0cc2616f7f9c5ca0fe3239f1a986176cd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 08/24] fix: plot_hmin draws the regression it estimates

---
 pymultifracs/estimation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymultifracs/estimation.py b/pymultifracs/estimation.py
index a4f7b89..3a84eda 100644
--- a/pymultifracs/estimation.py
+++ b/pymultifracs/estimation.py
@@ -52,7 +52,8 @@ def estimate_hmin(wt_coefs, j1, j2_eff, weighted, warn=True,
 
 def plot_hmin(wt_coefs, j1, j2_eff, weighted, warn=True):
 
-    hmin, intercept, y = estimate_hmin(wt_coefs, j1, j2_eff, weighted, warn)
+    hmin, intercept, y = estimate_hmin(wt_coefs, j1, j2_eff, weighted, warn,
+                                       return_y=True)
     x = np.arange(j1, j2_eff+1)
 
     # plot log_sup_coeffs
@@ -68,9 +69,9 @@ def plot_hmin(wt_coefs, j1, j2_eff, weighted, warn=True):
 
     # plot regression line
     reg_x = [j1, j2_eff]
-    reg_y = map(lambda x: hmin*x + intercept, reg_x)
+    reg_y = [hmin*x + intercept for x in reg_x]
 
-    legend = f'$h_\\mathrm{min}$ = {hmin:.5f}'
+    legend = '$h_\\mathrm{min}$ = ' + ', '.join(f'{h:.5f}' for h in hmin)
     plt.plot(reg_x, reg_y, color='k', linestyle='-', linewidth=2, label=legend)
     plt.legend()
     plt.draw()
-- 
2.43.0


From 20001deb231390cd508acbdd4ce08feb8d4653f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 09/24] fix: gaussian_chol realises the requested covariance

---
 pymultifracs/simul/pzutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/simul/pzutils.py b/pymultifracs/simul/pzutils.py
index 6f620d6..50bd86e 100644
--- a/pymultifracs/simul/pzutils.py
+++ b/pymultifracs/simul/pzutils.py
@@ -51,6 +51,6 @@ def gaussian_chol(cov, N, R, z=None):
     '''
     if z is None:
         z = np.random.randn(N, R)
-    L = spla.cholesky(spla.toeplitz(cov))
+    L = spla.cholesky(spla.toeplitz(cov), lower=True)
     x = L @ z
     return x
-- 
2.43.0


From 50fb8bc7bd6037fffc79ed7369a2d6cbca5998e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 10/24] fix: fgn honours the supplied noise with circulant
 embedding

---
 pymultifracs/simul/fbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/simul/fbm.py b/pymultifracs/simul/fbm.py
index 4921210..813614a 100644
--- a/pymultifracs/simul/fbm.py
+++ b/pymultifracs/simul/fbm.py
@@ -65,7 +65,7 @@ def fgn(shape, H, sigma=1, dt=None, method='cme', z0=None):
     # fbm = np.cumsum(x[:N, :], axis=0)
 
     if method == 'cme':
-        fgn = gaussian_cme(r, N, R)
+        fgn = gaussian_cme(r, N, R, z0)
     elif method == 'chol':
         fgn = gaussian_chol(r, N, R, z0)
     else:
-- 
2.43.0


From 6c20acf5b20cb5fd099cd9d9252850d207bd3676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 11/24] fix: skewed_mrw uses a past as long as its series

---
 pymultifracs/simul/mrw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/simul/mrw.py b/pymultifracs/simul/mrw.py
index f70fc4d..70069d0 100644
--- a/pymultifracs/simul/mrw.py
+++ b/pymultifracs/simul/mrw.py
@@ -137,7 +137,7 @@ def skewed_mrw(shape, H, lam, L,  K0=1, alpha=1, sigma=1, dt=1, beta=1,
     w = w - np.mean(w, axis=0) - r * lam**2 * np.log(L / dt)
 
     # 2) fGn e
-    e = fgn((2*N + 1, R), H, sigma, dt)
+    e = fgn((2*N, R), H, sigma, dt)
 
     # 3) Correlate components
     past = skewness_convolution(e, K0, alpha, beta, dt)
-- 
2.43.0


From bf834c9a901091152080a1354caf07e1caf27b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 12/24] fix: mrw raises ValueError for an unknown synthesis
 method

---
 pymultifracs/simul/mrw.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymultifracs/simul/mrw.py b/pymultifracs/simul/mrw.py
index 70069d0..9454921 100644
--- a/pymultifracs/simul/mrw.py
+++ b/pymultifracs/simul/mrw.py
@@ -173,6 +173,8 @@ def gaussian_w(N, R, L, lam, dt=1, method='cme', z0=None):
         w = gaussian_cme(cov, N, R, z0)
     elif method == 'chol':
         w = gaussian_chol(cov, N, R, z0)
+    else:
+        raise ValueError('Unknown synthesis method')
 
     return w
 
-- 
2.43.0


From 4ac6fa9c484377ffa199440382d144d6b4816300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 13/24] fix: estimate_beta ignores a zero frequency inside the
 band

---
 pymultifracs/fractal_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymultifracs/fractal_analysis.py b/pymultifracs/fractal_analysis.py
index af1b8a4..2ea2afa 100644
--- a/pymultifracs/fractal_analysis.py
+++ b/pymultifracs/fractal_analysis.py
@@ -127,7 +127,7 @@ def estimate_beta(freq, psd, freq_band=(0.01, 2), log='log2'):
     # Band-pass the PSD
 
     support = np.logical_and(freq_band[0] <= freq, freq <= freq_band[1])
-    freq = freq[support].reshape(-1, 1)
+    freq = freq[support]
     psd = psd[support]
 
 # Move this input sanitization to the megfractal package instead
@@ -137,6 +137,7 @@ def estimate_beta(freq, psd, freq_band=(0.01, 2), log='log2'):
 
     # Log the values
     freq, psd = _log_psd(freq, psd, log)
+    freq = freq.reshape(-1, 1)
 
     # Fit ridge regressor
     # regressor = Ridge()
-- 
2.43.0


From 8346c70481e1dc11af0302d94a9bb526bde32918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 14/24] fix: BiStructureFunction accepts orders without 0, 1
 and 2

---
 pymultifracs/bivariate/bivariate_structurefunction.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/bivariate/bivariate_structurefunction.py b/pymultifracs/bivariate/bivariate_structurefunction.py
index e9b5169..c1fd2db 100644
--- a/pymultifracs/bivariate/bivariate_structurefunction.py
+++ b/pymultifracs/bivariate/bivariate_structurefunction.py
@@ -65,12 +65,16 @@ class BiStructureFunction(MultiResolutionQuantityBase):
                         np.nanmean(fast_power(np.abs(mrq1.values[j]), q1)
                                    * fast_power(np.abs(mrq2.values[j]), q2))
 
+        self.logvalues = np.log2(abs_values)
+        self.coherence = None
+
+        if not all(n in q for q in (self.q1, self.q2) for n in (0, 1, 2)):
+            return
+
         self.coherence = (values[self.q1 == 1, self.q2 == 1][0]
                           / np.sqrt((values[self.q1 == 2, self.q2 == 0])
                                     * (values[self.q1 == 0, self.q2 == 2])))[0]
 
-        self.logvalues = np.log2(abs_values)
-
     def _compute_zeta(self):
         """
         Compute the value of the scale function zeta(q_1, q_2) for all q_1, q_2
-- 
2.43.0


From 48bde3c06a41d40edf4fdf9c98f118c3865d561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:05 +0000
Subject: [PATCH 15/24] fix: plot_fractal shows the slope of a one-column PSD

---
 pymultifracs/fractal_analysis.py | 2 +-
 pymultifracs/signal.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/fractal_analysis.py b/pymultifracs/fractal_analysis.py
index 2ea2afa..a292935 100644
--- a/pymultifracs/fractal_analysis.py
+++ b/pymultifracs/fractal_analysis.py
@@ -59,7 +59,7 @@ def plot_fractal(signal, s_freq, log='log2', freq_band=(0.01, 2), n_moments=2,
     # Plot
     freq = [freq_fourier, freq_wavelet]
     psd = [psd_fourier, psd_wavelet]
-    legend = ['Fourier', 'Wavelet', f'Slope: {slope.beta:.2f}']
+    legend = ['Fourier', 'Wavelet', f'Slope: {np.squeeze(slope.beta):.2f}']
 
     log_plot(freq, psd, legend, slope=[(slope.freq, psd_slope)], log=log,
              lowpass_freq=lowpass_freq)
diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index d58bca4..99d4d1d 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -156,7 +156,7 @@ class Signal:
 
         log_plot([self.welch_psd.freq, self.wt_psd.freq],
                  [self.welch_psd.psd, self.wt_psd.psd],
-                 ['Fourier', 'Wavelet', f'Slope: {self.fractal.beta:.2f}'],
+                 ['Fourier', 'Wavelet', f'Slope: {np.squeeze(self.fractal.beta):.2f}'],
                  slope=[(self.fractal.freq, psd_slope)],
                  log=self.log)
 
-- 
2.43.0


From def3ed02ecd2364e2952ee760f072ea4dc57b367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:45 +0000
Subject: [PATCH 16/24] fix: rho_mf of processes whose c20 and c02 differ in
 sign

---
 pymultifracs/bivariate/bivariate_cumulants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index 6190d66..77662b8 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -137,8 +137,8 @@ class BiCumulants(MultiResolutionQuantityBase):
             self.RHO_MF = None
             self.rho_mf = None
         else:
-            self.RHO_MF = (self.C11 / np.abs(np.sqrt(self.C02 * self.C20)))[0]
-            self.rho_mf = -self.c11 / np.abs(np.sqrt(self.c02 * self.c20))
+            self.RHO_MF = (self.C11 / np.sqrt(np.abs(self.C02 * self.C20)))[0]
+            self.rho_mf = -self.c11 / np.sqrt(np.abs(self.c02 * self.c20))
 
     def plot(self):
 
-- 
2.43.0


From 7e08740fdb55e61f96b910e6ed846a44effd8fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:19 +0000
Subject: [PATCH 17/24] fix: welch_estimation's frequency axis for odd n_fft

---
 pymultifracs/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/psd.py b/pymultifracs/psd.py
index 174c06f..9879950 100644
--- a/pymultifracs/psd.py
+++ b/pymultifracs/psd.py
@@ -207,7 +207,7 @@ def welch_estimation(signal, fs, n_fft=4096, seg_size=None):
         n_fft = seg_size
 
     # Frequency
-    freq = fs * np.linspace(0, 0.5, n_fft // 2 + 1)
+    freq = fs * np.arange(n_fft // 2 + 1) / n_fft
 
     # PSD
     _, psd = welch(signal,
-- 
2.43.0


From da1904cd90b0efe1681ad448a1da44e24c648c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:16 +0000
Subject: [PATCH 18/24] fix: a failed analysis of a Signal no longer replaces
 its stored parameters

---
 pymultifracs/signal.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pymultifracs/signal.py b/pymultifracs/signal.py
index 99d4d1d..3a59d97 100644
--- a/pymultifracs/signal.py
+++ b/pymultifracs/signal.py
@@ -113,11 +113,10 @@ class Signal:
 
         if self.wt_psd is None or self.wt_psd_param != param:
 
-            self.wt_psd_param = param
-
             self.wt_psd = wavelet_estimation(self.data, self.fs,
                                              n_moments=n_moments,
                                              j2=j2)
+            self.wt_psd_param = param
 
         return self.wt_psd
 
@@ -127,11 +126,10 @@ class Signal:
 
         if self.welch_psd is None or self.welch_param != param:
 
-            self.welch_param = param
-
             self.welch_psd = welch_estimation(self.data, self.fs,
                                               n_fft=n_fft,
                                               seg_size=seg_size)
+            self.welch_param = param
 
         return self.welch_psd
 
@@ -162,12 +160,12 @@ class Signal:
 
     def fractal_analysis(self, n_moments=2, freq_band=(0.01, 2)):
 
-        self.fractal_param = FractalParameters(n_moments, freq_band)
         self.estimate_wavelet_psd(n_moments, None)
         self.fractal = estimate_beta(self.wt_psd.freq,
                                      self.wt_psd.psd,
                                      log=self.log,
                                      freq_band=freq_band)
+        self.fractal_param = FractalParameters(n_moments, freq_band)
 
         return self.fractal
 
@@ -175,10 +173,10 @@ class Signal:
 
         if self.wt_param is None or self.wt_param != new_param:
 
+            self.wt_transform = wavelet_analysis(self.data,
+                                                 **new_param._asdict())
             self.wt_param = new_param
             self.multi_fractal = None
-            self.wt_transform = wavelet_analysis(self.data,
-                                                 **self.wt_param._asdict())
 
         return self.wt_transform
 
-- 
2.43.0


From 9796b7dab328a44b24f445929ff97ec3d1ce1b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:13 +0000
Subject: [PATCH 19/24] fix: structure function figures when q contains 0

---
 pymultifracs/structurefunction.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pymultifracs/structurefunction.py b/pymultifracs/structurefunction.py
index af8d90d..380cc85 100644
--- a/pymultifracs/structurefunction.py
+++ b/pymultifracs/structurefunction.py
@@ -146,8 +146,8 @@ class StructureFunction(MultiResolutionQuantityBase):
         Plots the structure functions.
         """
 
-        nrow = min(nrow, len(self.q))
         nq = len(self.q) + (-1 if 0.0 in self.q and ignore_q0 else 0)
+        nrow = min(nrow, max(nq, 1))
 
         if nq > 1:
             plot_dim_1 = nrow
@@ -167,6 +167,7 @@ class StructureFunction(MultiResolutionQuantityBase):
                      r' - structure functions $\log_2(S(j,q))$')
 
         x = self.j
+        ind_ax = 0
         for ind_q, q in enumerate(self.q):
 
             if q == 0.0 and ignore_q0:
@@ -174,7 +175,8 @@ class StructureFunction(MultiResolutionQuantityBase):
 
             y = self.logvalues[ind_q, :]
 
-            ax = axes[ind_q % nrow][ind_q // nrow]
+            ax = axes[ind_ax % nrow][ind_ax // nrow]
+            ind_ax += 1
             ax.plot(x, y, 'r--.')
             ax.set_xlabel('j')
             ax.set_ylabel(f'q = {q:.3f}')
@@ -193,7 +195,7 @@ class StructureFunction(MultiResolutionQuantityBase):
                         linestyle='-', linewidth=2, label=legend)
                 ax.legend()
 
-        for j in range(ind_q + 1, len(axes.flat)):
+        for j in range(ind_ax, len(axes.flat)):
             fig.delaxes(axes[j % nrow][j // nrow])
         plt.draw()
 
-- 
2.43.0


From ab1e4c6d83895fd48e8ed8989616bbab562b14f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:13 +0000
Subject: [PATCH 20/24] fix: figure of bivariate cumulants of order 1 only

---
 pymultifracs/bivariate/bivariate_cumulants.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index 77662b8..8562bb6 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -142,7 +142,8 @@ class BiCumulants(MultiResolutionQuantityBase):
 
     def plot(self):
 
-        fig_m, ax = plt.subplots(self.n_cumul, 2, sharex=True, figsize=(12, 7))
+        fig_m, ax = plt.subplots(self.n_cumul, 2, sharex=True, squeeze=False,
+                                 figsize=(12, 7))
 
         j_support = np.arange(self.j1, self.j2 + 1)
 
-- 
2.43.0


From cce1b8fd45a2b0346379f446626924f2d5e3efc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:13 +0000
Subject: [PATCH 21/24] fix: the c11 shown in the figure of the bivariate
 cumulants

---
 pymultifracs/bivariate/bivariate_cumulants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/bivariate/bivariate_cumulants.py b/pymultifracs/bivariate/bivariate_cumulants.py
index 8562bb6..5f1b34d 100644
--- a/pymultifracs/bivariate/bivariate_cumulants.py
+++ b/pymultifracs/bivariate/bivariate_cumulants.py
@@ -188,7 +188,7 @@ class BiCumulants(MultiResolutionQuantityBase):
         plt.plot(j_support, ((j_support * self.slope[1, 1])
                              + self.intercept[1, 1]),
                  **slope_param,
-                 label=f'c11: {self.slope[1, 1]:.2f}')
+                 label=f'c11: {self.log_cumulants[1, 1]:.2f}')
         plt.legend()
         plt.ylabel('$C11$(j)', size='large')
         plt.xlabel('j', size='large')
-- 
2.43.0


From a5bd355f4994ddacabd6495e4a2bca6c1f34af27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:13 +0000
Subject: [PATCH 22/24] fix: figure of bivariate structure functions of a
 single order

---
 pymultifracs/bivariate/bivariate_structurefunction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymultifracs/bivariate/bivariate_structurefunction.py b/pymultifracs/bivariate/bivariate_structurefunction.py
index c1fd2db..0d658da 100644
--- a/pymultifracs/bivariate/bivariate_structurefunction.py
+++ b/pymultifracs/bivariate/bivariate_structurefunction.py
@@ -103,6 +103,7 @@ class BiStructureFunction(MultiResolutionQuantityBase):
     def plot(self):
 
         fig, ax = plt.subplots(len(self.q1), len(self.q2), sharex=True,
+                               squeeze=False,
                                figsize=(len(self.q1) * 5 + 2,
                                         len(self.q2) * 3 + 2))
 
-- 
2.43.0


From 73820bd3fb444ffb2b524002ee89fe960a7e6ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:34 +0000
Subject: [PATCH 23/24] fix: log-volatility of mrw2D was N times too small

---
 pymultifracs/simul/mrw.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymultifracs/simul/mrw.py b/pymultifracs/simul/mrw.py
index 9454921..7cec54f 100644
--- a/pymultifracs/simul/mrw.py
+++ b/pymultifracs/simul/mrw.py
@@ -262,7 +262,9 @@ def mrw2D(shape, H, lam, L,  sigma=1):
     L = np.fft.fft2(corr)
 
     z1 = np.random.randn(N, N, R) + 1j * np.random.randn(N, N, R)
-    w = np.exp(np.real(np.fft.ifft2(z1 * np.sqrt(L[..., None]), axes=(0, 1))))
+    # ifft2 divides by N^2: multiply by N for w to have covariance `corr`
+    w = np.exp(N * np.real(np.fft.ifft2(z1 * np.sqrt(L[..., None]),
+                                        axes=(0, 1))))
 
     # Increment process:
     X = np.random.randn(N, N, R) * w
-- 
2.43.0


From 998d06653f3a49dbf3c6f6916508cc00d1296374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:34 +0000
Subject: [PATCH 24/24] fix: mrw2D ignored sigma

---
 pymultifracs/simul/mrw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymultifracs/simul/mrw.py b/pymultifracs/simul/mrw.py
index 7cec54f..ae13b01 100644
--- a/pymultifracs/simul/mrw.py
+++ b/pymultifracs/simul/mrw.py
@@ -267,7 +267,7 @@ def mrw2D(shape, H, lam, L,  sigma=1):
                                         axes=(0, 1))))
 
     # Increment process:
-    X = np.random.randn(N, N, R) * w
+    X = sigma * np.random.randn(N, N, R) * w
 
     # Fractional integration to produce motion:
     BX = fract_int_2d(X, H + 1)
-- 
2.43.0

