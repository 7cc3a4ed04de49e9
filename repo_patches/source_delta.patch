From 0cad488b2442a68ad8eaae4c934bf43bf4202768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:00 +0000
Subject: [PATCH 01/66] fix: honour metric_call_period instead of calling
 metrics every iteration

---
 src/modopt/opt/algorithms/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/base.py b/src/modopt/opt/algorithms/base.py
index f739106..4a49fc6 100644
--- a/src/modopt/opt/algorithms/base.py
+++ b/src/modopt/opt/algorithms/base.py
@@ -273,7 +273,7 @@ class SetUp(Observable):
                 metric_conditions = (
                     self.idx % self.metric_call_period == 0
                     or self.idx == (max_iter - 1)
-                    or self.converge,
+                    or self.converge
                 )
 
                 if metric_conditions:
-- 
2.43.0


From 331b50d754247e28e24a97bfd9e2f36882d5ee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:00 +0000
Subject: [PATCH 02/66] fix: metric early stopping works for every algorithm,
 with or without a cost

---
 src/modopt/opt/algorithms/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modopt/opt/algorithms/base.py b/src/modopt/opt/algorithms/base.py
index 4a49fc6..2ab2373 100644
--- a/src/modopt/opt/algorithms/base.py
+++ b/src/modopt/opt/algorithms/base.py
@@ -265,6 +265,10 @@ class SetUp(Observable):
             self.idx = idx
             self._update()
 
+            # Early stopping applies with or without a cost function
+            if self.any_convergence_flag():
+                self.converge = True
+
             # Calling metrics every metric_call_period cycle
             # Also calculate at the end (max_iter or at convergence)
             # We do not call metrics if metrics is empty or metric call
-- 
2.43.0


From 916b77a032209e91fc3d20e1a643e4fb1e10cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:00 +0000
Subject: [PATCH 03/66] fix: remove_observer checks the signal with the
 existing method

---
 src/modopt/base/observable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/base/observable.py b/src/modopt/base/observable.py
index bf8371c..5d76f7b 100644
--- a/src/modopt/base/observable.py
+++ b/src/modopt/base/observable.py
@@ -72,7 +72,7 @@ class Observable:
             An obervation function to be removed
 
         """
-        self._is_allowed_event(signal)
+        self._is_allowed_signal(signal)
         self._remove_observer(signal, observer)
 
     def notify_observers(self, signal, **kwargs):
-- 
2.43.0


From 9afcbaa77bc2e5f49e8848288acf0b44f01078f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:00 +0000
Subject: [PATCH 04/66] fix: notify_observers returns True and unlocks when an
 observer raises

---
 src/modopt/base/observable.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/modopt/base/observable.py b/src/modopt/base/observable.py
index 5d76f7b..7f7c609 100644
--- a/src/modopt/base/observable.py
+++ b/src/modopt/base/observable.py
@@ -105,10 +105,14 @@ class Observable:
         for name, key_value in kwargs.items():
             setattr(signal_to_be_notified, name, key_value)
         # Notify all the observers
-        for observer in self._observers[signal]:
-            observer(signal_to_be_notified)
-        # Unlock the notification process
-        self._locked = False
+        try:
+            for observer in self._observers[signal]:
+                observer(signal_to_be_notified)
+        finally:
+            # Unlock the notification process
+            self._locked = False
+
+        return True
 
     def _get_allowed_signals(self):
         """Get allowed signals.
-- 
2.43.0


From b710b6e0bb8a8a73445ce66acb1a14dc8e879e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:42 +0000
Subject: [PATCH 05/66] fix: an observer that removes itself no longer hides
 the next one

---
 src/modopt/base/observable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/base/observable.py b/src/modopt/base/observable.py
index 7f7c609..b34793d 100644
--- a/src/modopt/base/observable.py
+++ b/src/modopt/base/observable.py
@@ -106,7 +106,7 @@ class Observable:
             setattr(signal_to_be_notified, name, key_value)
         # Notify all the observers
         try:
-            for observer in self._observers[signal]:
+            for observer in list(self._observers[signal]):
                 observer(signal_to_be_notified)
         finally:
             # Unlock the notification process
-- 
2.43.0


From 0530cfea491952931d728cb17c8c6f82ca2bddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:42 +0000
Subject: [PATCH 06/66] fix: forward ADMMcostObj keyword options to the parent
 class

---
 src/modopt/opt/algorithms/admm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index b2f4517..6b58508 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -33,7 +33,7 @@ class ADMMcostObj(CostParent):
     """
 
     def __init__(self, cost_funcs, A, B, b, tau, **kwargs):
-        super().__init__(*kwargs)
+        super().__init__(**kwargs)
         self.cost_funcs = cost_funcs
         self.A = A
         self.B = B
-- 
2.43.0


From ad6dc494439c1159668dd50eef8a37cdfac64585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:42 +0000
Subject: [PATCH 07/66] fix: square the residual norm in the ADMM cost, as
 documented

---
 src/modopt/opt/algorithms/admm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index 6b58508..272334a 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -61,7 +61,7 @@ class ADMMcostObj(CostParent):
         xp = get_array_module(u)
         cost = self.cost_funcs[0](u)
         cost += self.cost_funcs[1](v)
-        cost += self.tau * xp.linalg.norm(self.A.op(u) + self.B.op(v) - self.b)
+        cost += self.tau * xp.linalg.norm(self.A.op(u) + self.B.op(v) - self.b) ** 2
         return cost
 
 
-- 
2.43.0


From cc81e9395d6e20d4f1edf600b85b6a5eaad0d4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:42 +0000
Subject: [PATCH 08/66] fix: FastADMM uses its v and tau arguments and reports
 convergence

---
 src/modopt/opt/algorithms/admm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index 272334a..ade4f82 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -283,12 +283,13 @@ class FastADMM(ADMM):
     ):
         super().__init__(
             u=u,
-            v=b,
+            v=v,
             mu=mu,
             A=A,
             B=B,
             b=b,
             optimizers=optimizers,
+            tau=tau,
             cost_funcs=cost_funcs,
             **kwargs,
         )
@@ -337,4 +338,4 @@ class FastADMM(ADMM):
         # Test cost function for convergence.
         if self._cost_func:
             self.converge = self.any_convergence_flag()
-            self.convergd |= self._cost_func.get_cost(self._u_new, self._v_new)
+            self.converge |= self._cost_func.get_cost(self._u_new, self._v_new)
-- 
2.43.0


From a26aefeeae72f46783c1fea11bf669b7cf33371e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:42 +0000
Subject: [PATCH 09/66] fix: FastADMM acceleration and restart follow Algorithm
 8

---
 src/modopt/opt/algorithms/admm.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/modopt/opt/algorithms/admm.py b/src/modopt/opt/algorithms/admm.py
index ade4f82..4121643 100644
--- a/src/modopt/opt/algorithms/admm.py
+++ b/src/modopt/opt/algorithms/admm.py
@@ -316,25 +316,27 @@ class FastADMM(ADMM):
         self._mu_new = self._mu_hat + (tmp + self.B.op(self._v_new) - self.b)
 
         # restarting condition
-        self._c_new = self.xp.linalg.norm(self._mu_new - self._mu_hat)
-        self._c_new += self._tau * self.xp.linalg.norm(
-            self.B.op(self._v_new - self._v_hat),
+        self._c_new = self._tau * (
+            self.xp.linalg.norm(self._mu_new - self._mu_hat) ** 2
+            + self.xp.linalg.norm(self.B.op(self._v_new - self._v_hat)) ** 2
         )
         if self._c_new < self._eta * self._c_old:
-            self._alpha_new = 1 + np.sqrt(1 + 4 * self._alpha_old**2)
-            beta = (self._alpha_new - 1) / self._alpha_old
+            self._alpha_new = (1 + np.sqrt(1 + 4 * self._alpha_old**2)) / 2
+            beta = (self._alpha_old - 1) / self._alpha_new
             self._v_hat = self._v_new + (self._v_new - self._v_old) * beta
             self._mu_hat = self._mu_new + (self._mu_new - self._mu_old) * beta
         else:
             # reboot to old iteration
             self._alpha_new = 1
-            self._v_hat = self._v_old
-            self._mu_hat = self._mu_old
+            self._v_hat = self.xp.copy(self._v_old)
+            self._mu_hat = self.xp.copy(self._mu_old)
             self._c_new = self._c_old / self._eta
 
         self.xp.copyto(self._u_old, self._u_new)
         self.xp.copyto(self._v_old, self._v_new)
         self.xp.copyto(self._mu_old, self._mu_new)
+        self._alpha_old = self._alpha_new
+        self._c_old = self._c_new
         # Test cost function for convergence.
         if self._cost_func:
             self.converge = self.any_convergence_flag()
-- 
2.43.0


From 785a499978cc6d77861bbf295758facec4c74bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:14 +0000
Subject: [PATCH 10/66] fix: FISTA t-sequence halves the whole sum, as in the
 cited algorithms

---
 src/modopt/opt/algorithms/forward_backward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index 31927eb..2ed2f4c 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -276,7 +276,7 @@ class FISTA:
 
         if self.mode == "regular":
             sqrt_part = self.r_lazy * self._t_prev**2 + self.q_lazy
-            self._t_now = self.p_lazy + np.sqrt(sqrt_part) * 0.5
+            self._t_now = (self.p_lazy + np.sqrt(sqrt_part)) * 0.5
 
         elif self.mode == "CD":
             self._t_now = (self._n + self.a_cd - 1) / self.a_cd
-- 
2.43.0


From 8c90863675be30bdc13458ffbaf2640936eeabc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:14 +0000
Subject: [PATCH 11/66] fix: unknown restart strategy raises the intended
 ValueError

---
 src/modopt/opt/algorithms/forward_backward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index 2ed2f4c..031f067 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -104,7 +104,7 @@ class FISTA:
             message = "Restarting strategy must be one of {0}."
             raise ValueError(
                 message.format(
-                    ", ".join(self._restarting_strategies),
+                    ", ".join(map(str, self._restarting_strategies)),
                 ),
             )
         self._t_now = 1.0
-- 
2.43.0


From 983313ed851ccfc93d2496f442c0dcc199e0315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:48 +0000
Subject: [PATCH 12/66] fix: POGM no longer overwrites the array held by the
 gradient operator

---
 src/modopt/opt/algorithms/forward_backward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index 031f067..6e1a411 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -917,7 +917,7 @@ class POGM(SetUp):
         self._sigma = 1.0
         self._t_old = 1.0
         self._grad.get_grad(self._x_old)
-        self._g_old = self._grad.grad
+        self._g_old = self.xp.copy(self._grad.grad)
 
         # Automatically run the algorithm
         if auto_iterate:
-- 
2.43.0


From 42cd8c2773b766fd3fcc107b1d4981c50324549d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:49 +0000
Subject: [PATCH 13/66] fix: accept proximity weights that sum to one up to
 rounding

---
 src/modopt/opt/algorithms/forward_backward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/forward_backward.py b/src/modopt/opt/algorithms/forward_backward.py
index 6e1a411..2ed4450 100644
--- a/src/modopt/opt/algorithms/forward_backward.py
+++ b/src/modopt/opt/algorithms/forward_backward.py
@@ -682,7 +682,7 @@ class GenForwardBackward(SetUp):
 
         expected_weight_sum = 1.0
 
-        if self.xp.sum(weights) != expected_weight_sum:
+        if not self.xp.isclose(self.xp.sum(weights), expected_weight_sum):
             raise ValueError(
                 "Proximity operator weights must sum to 1.0. Current sum of "
                 + f"weights = {self.xp.sum(weights)}",
-- 
2.43.0


From 3e53e91bbb30f2dcd49aea54fda8d68034f416b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:49 +0000
Subject: [PATCH 14/66] fix: k-support prox applies extra_factor when computing
 theta

---
 src/modopt/opt/proximity.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index dea862c..79bde25 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -1237,7 +1237,11 @@ class KSupportNorm(ProximityParent):
         alpha = self._find_alpha(np.abs(input_data.flatten()), extra_factor)
 
         # Computes line 4. in Algorithm 1
-        theta = self._compute_theta(np.abs(input_data.flatten()), alpha)
+        theta = self._compute_theta(
+            np.abs(input_data.flatten()),
+            alpha,
+            extra_factor,
+        )
 
         # Computes line 5. in Algorithm 1.
         rslt = np.nan_to_num(
-- 
2.43.0


From c164ed7369e35dd5a99912e0d1e2ce0d07144ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:25 +0000
Subject: [PATCH 15/66] fix: WaveletTransform passes its boundary mode to the
 CPU operator

---
 src/modopt/opt/linear/wavelet.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index 8012a07..209c213 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -99,7 +99,11 @@ class WaveletTransform(LinearParent):
             )
         elif compute_backend == "numpy" and pywt_available:
             self.operator = CPUWaveletTransform(
-                wavelet_name=wavelet_name, shape=shape, level=level, **kwargs
+                wavelet_name=wavelet_name,
+                shape=shape,
+                level=level,
+                mode=mode,
+                **kwargs,
             )
         else:
             raise ValueError(f"Compute Backend {compute_backend} not available")
-- 
2.43.0


From 8cde4f6f9c37610076eeb2c56200e34328c30d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:25 +0000
Subject: [PATCH 16/66] fix: the wavelet adjoint can be applied before the
 forward transform

---
 src/modopt/opt/linear/wavelet.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index 209c213..b93ee88 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -212,6 +212,9 @@ class CPUWaveletTransform(LinearParent):
         if n_proc < 0:
             n_proc = cpu_count() + self.n_jobs + 1
 
+        # The layout of the coefficients only depends on the shape
+        _, self.coeffs_slices, self.raw_coeffs_shape = self._op(np.zeros(self.shape))
+
     def op(self, data):
         """Define the wavelet operator.
 
@@ -228,14 +231,14 @@ class CPUWaveletTransform(LinearParent):
             the wavelet coefficients.
         """
         if self.n_batch > 1:
-            coeffs, self.coeffs_slices, self.raw_coeffs_shape = zip(
+            coeffs, _, _ = zip(
                 *Parallel(
                     n_jobs=self.n_jobs, backend=self.backend, verbose=self.verbose
                 )(delayed(self._op)(data[i]) for i in np.arange(self.n_batch))
             )
             coeffs = np.asarray(coeffs)
         else:
-            coeffs, self.coeffs_slices, self.raw_coeffs_shape = self._op(data)
+            coeffs, _, _ = self._op(data)
         return coeffs
 
     def _op(self, data):
-- 
2.43.0


From 08ab93128ad99cebbcb1fc9d5825a699e71ae4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:26 +0000
Subject: [PATCH 17/66] fix: multi-channel wavelet transform works (verbose
 option, adjoint arguments)

---
 src/modopt/opt/linear/wavelet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index b93ee88..bce4ba6 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -165,6 +165,7 @@ class CPUWaveletTransform(LinearParent):
         decimated=True,
         backend="threading",
         mode="symmetric",
+        verbose=0,
     ):
         if not pywt_available:
             raise ImportError(
@@ -208,6 +209,7 @@ class CPUWaveletTransform(LinearParent):
             )
             self.n_jobs = 1
         self.backend = backend
+        self.verbose = verbose
         n_proc = self.n_jobs
         if n_proc < 0:
             n_proc = cpu_count() + self.n_jobs + 1
@@ -266,8 +268,7 @@ class CPUWaveletTransform(LinearParent):
             images = Parallel(
                 n_jobs=self.n_jobs, backend=self.backend, verbose=self.verbose
             )(
-                delayed(self._adj_op)(coeffs[i], self.coeffs_shape[i])
-                for i in np.arange(self.n_batch)
+                delayed(self._adj_op)(coeffs[i]) for i in np.arange(self.n_batch)
             )
             images = np.asarray(images)
         else:
-- 
2.43.0


From b570a40cb767e5542faaed2e958590cd151a068a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:26 +0000
Subject: [PATCH 18/66] fix: wavelet adjoint returns data of the operator shape
 for odd dimensions

---
 src/modopt/opt/linear/wavelet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index bce4ba6..0f628da 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -277,13 +277,15 @@ class CPUWaveletTransform(LinearParent):
 
     def _adj_op(self, coeffs):
         """Single coil inverse wavelet transform."""
-        return self.idwt(
+        image = self.idwt(
             pywt.unravel_coeffs(
                 coeffs, self.coeffs_slices, self.raw_coeffs_shape, self._pywt_fun
             ),
             wavelet=self.wavelet,
             mode=self.mode,
         )
+        # PyWavelets pads odd dimensions
+        return image[tuple(slice(0, dim) for dim in self.shape)]
 
 
 class TorchWaveletTransform:
-- 
2.43.0


From b4328242340ff1627167de3b159e9cf6fe79ec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:16 +0000
Subject: [PATCH 19/66] fix: partial SVD thresholding is exact for every rank
 estimate

---
 src/modopt/signal/svd.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index cf14750..c8424e4 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -227,13 +227,20 @@ def svd_thresh_coef_fast(
         The thresholded data (numpy.ndarray) and the estimated rank after
         thresholding (int)
     """
-    if n_vals == -1:
-        n_vals = min(input_data.shape) - 1
+    max_vals = min(input_data.shape)
+    if n_vals is None or n_vals == -1 or not np.any(input_data):
+        n_vals = max_vals
+    n_vals = max(n_vals, 1)
     ok = False
     while not ok:
-        (u_vec, s_values, v_vec) = svds(input_data, k=n_vals)
-        ok = s_values[0] <= threshold or n_vals == min(input_data.shape) - 1
-        n_vals = min(n_vals + extra_vals, *input_data.shape)
+        if n_vals < max_vals:
+            u_vec, s_values, v_vec = svds(input_data, k=n_vals)
+        else:
+            # svds can not compute all the singular values
+            u_vec, s_values, v_vec = calculate_svd(input_data)
+            u_vec, s_values, v_vec = u_vec[:, ::-1], s_values[::-1], v_vec[::-1]
+        ok = n_vals >= max_vals or s_values[0] <= threshold
+        n_vals += extra_vals
 
     s_values = thresh(
         s_values,
-- 
2.43.0


From e5adf4fdb0b9c7f9c1d7dc7424b11e4a2dec9307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:16 +0000
Subject: [PATCH 20/66] fix: svd_thresh_coef no longer modifies the threshold
 array it is given

---
 src/modopt/signal/svd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index c8424e4..84ef906 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -303,7 +303,7 @@ def svd_thresh_coef(input_data, operator, threshold, thresh_type="hard"):
     ti = np.array(
         [np.linalg.norm(elem) for elem in operator(matrix2cube(u_vec, array_shape))]
     )
-    threshold *= np.repeat(ti, a_matrix.shape[1]).reshape(a_matrix.shape)
+    threshold = threshold * np.repeat(ti, a_matrix.shape[1]).reshape(a_matrix.shape)
 
     # Threshold coefficients.
     a_new = thresh(a_matrix, threshold, thresh_type)
-- 
2.43.0


From 61d8c46744e06546a9fdf030cd2966a8154ecc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:16 +0000
Subject: [PATCH 21/66] fix: remove leftover debug output from svd_thresh

---
 src/modopt/signal/svd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index 84ef906..9caa4b3 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -168,7 +168,6 @@ def svd_thresh(input_data, threshold=None, n_pc=None, thresh_type="hard"):
         # Find the required number of principal components if not specified.
         if isinstance(n_pc, type(None)):
             n_pc = find_n_pc(u_vec, factor=0.1)
-            print("xxxx", n_pc, u_vec)
 
         # If the number of PCs is too large use all of the singular values.
         if (isinstance(n_pc, int) and n_pc >= s_values.size) or (
-- 
2.43.0


From 1451529de5a87ce1d282986f35de6c3e5b221708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:16 +0000
Subject: [PATCH 22/66] fix: close_log removes and closes every handler

---
 src/modopt/interface/log.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modopt/interface/log.py b/src/modopt/interface/log.py
index 50c316b..fcafcdd 100644
--- a/src/modopt/interface/log.py
+++ b/src/modopt/interface/log.py
@@ -78,5 +78,6 @@ def close_log(log, verbose=True):
     log.info("The log file has been closed.")
 
     # Remove all handlers from log.
-    for log_handler in log.handlers:
+    for log_handler in list(log.handlers):
         log.removeHandler(log_handler)
+        log_handler.close()
-- 
2.43.0


From aed55fb905a982f9c35fb9ad40862802c443ba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:28 +0000
Subject: [PATCH 23/66] fix: map2cube rejects layouts that do not divide the
 map

---
 src/modopt/base/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/base/transform.py b/src/modopt/base/transform.py
index 25ed102..126d176 100644
--- a/src/modopt/base/transform.py
+++ b/src/modopt/base/transform.py
@@ -113,7 +113,7 @@ def map2cube(data_map, layout):
     cube2map : complimentary function
 
     """
-    if np.all(np.array(data_map.shape) % np.array(layout)):
+    if np.any(np.array(data_map.shape) % np.array(layout)):
         raise ValueError(
             "The desired layout must be a multiple of the number "
             + "pixels in the data map.",
-- 
2.43.0


From 099b49204960a24f742de99075c789852ec33a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:28 +0000
Subject: [PATCH 24/66] fix: matrix2map keeps the data type instead of
 truncating to integers

---
 src/modopt/base/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modopt/base/transform.py b/src/modopt/base/transform.py
index 126d176..587f733 100644
--- a/src/modopt/base/transform.py
+++ b/src/modopt/base/transform.py
@@ -236,7 +236,7 @@ def matrix2map(data_matrix, map_shape):
     layout = np.array(map_shape // np.repeat(image_shape, 2), dtype="int")
 
     # Map objects from matrix
-    data_map = np.zeros(map_shape)
+    data_map = np.zeros(map_shape, dtype=data_matrix.dtype)
 
     temp = data_matrix.reshape(image_shape, image_shape, data_matrix.shape[1])
 
@@ -251,7 +251,7 @@ def matrix2map(data_matrix, map_shape):
         )
         data_map[lower[0] : upper[0], lower[1] : upper[1]] = temp[:, :, i_elem]
 
-    return data_map.astype(int)
+    return data_map
 
 
 def cube2matrix(data_cube):
-- 
2.43.0


From e0a249515a0840b5959da86fa5912c0d62f5c353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:56 +0000
Subject: [PATCH 25/66] fix: PowerMethod uses the random generator it is given

---
 src/modopt/math/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/math/matrix.py b/src/modopt/math/matrix.py
index b200f15..b1de5f5 100644
--- a/src/modopt/math/matrix.py
+++ b/src/modopt/math/matrix.py
@@ -309,7 +309,7 @@ class PowerMethod:
         self._verbose = verbose
         xp, compute_backend = get_backend(compute_backend)
         self.xp = xp
-        self.rng = None
+        self.rng = rng
         self.compute_backend = compute_backend
         if auto_run:
             self.get_spec_rad()
-- 
2.43.0


From 6101065e49a8fc280250c0582337269fb2b63394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:56 +0000
Subject: [PATCH 26/66] fix: call_mr_transform removes its temporary files when
 it fails

---
 src/modopt/signal/wavelet.py | 54 +++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/modopt/signal/wavelet.py b/src/modopt/signal/wavelet.py
index b55b78d..728f689 100644
--- a/src/modopt/signal/wavelet.py
+++ b/src/modopt/signal/wavelet.py
@@ -18,6 +18,7 @@ Sparse2D Repository: https://github.com/CosmoStat/Sparse2D
 import subprocess as sp
 from datetime import datetime
 from os import remove
+from os.path import isfile
 from random import getrandbits
 
 import numpy as np
@@ -143,31 +144,34 @@ def call_mr_transform(
     file_fits = f"{file_name}.fits"
     file_mr = f"{file_name}.mr"
 
-    # Write the input data to a fits file.
-    fits.writeto(file_fits, input_data)
-
-    if isinstance(opt, str):
-        opt = opt.split()
-
-    # Prepare command and execute it
-    command_line = " ".join([executable, *opt, file_fits, file_mr])
-    stdout, _ = execute(command_line)
-
-    # Check for errors
-    if any(word in stdout for word in ("bad", "Error", "Sorry")):
-        remove(file_fits)
-        message = '{0} raised following exception: "{1}"'
-        raise RuntimeError(
-            message.format(executable, stdout.rstrip("\n")),
-        )
-
-    # Retrieve wavelet transformed data.
-    data_trans = fits.getdata(file_mr).astype(input_data.dtype)
-
-    # Remove the temporary files.
-    if remove_files:
-        remove(file_fits)
-        remove(file_mr)
+    try:
+        # Write the input data to a fits file.
+        fits.writeto(file_fits, input_data)
+
+        if isinstance(opt, str):
+            opt = opt.split()
+
+        # Prepare command and execute it
+        command_line = " ".join([executable, *opt, file_fits, file_mr])
+        stdout, _ = execute(command_line)
+
+        # Check for errors
+        if any(word in stdout for word in ("bad", "Error", "Sorry")):
+            remove(file_fits)
+            message = '{0} raised following exception: "{1}"'
+            raise RuntimeError(
+                message.format(executable, stdout.rstrip("\n")),
+            )
+
+        # Retrieve wavelet transformed data.
+        data_trans = fits.getdata(file_mr).astype(input_data.dtype)
+
+    finally:
+        # Remove the temporary files.
+        if remove_files:
+            for temp_file in (file_fits, file_mr):
+                if isfile(temp_file):
+                    remove(temp_file)
 
     # Return the mr_transform results.
     return data_trans
-- 
2.43.0


From 219ace21bb19b24ae22c4e9479b19794498d392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:56 +0000
Subject: [PATCH 27/66] fix: check_npndarray raises its own dtype error message

---
 src/modopt/base/types.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/modopt/base/types.py b/src/modopt/base/types.py
index 9e9a15b..dab99d7 100644
--- a/src/modopt/base/types.py
+++ b/src/modopt/base/types.py
@@ -161,11 +161,7 @@ def check_npndarray(input_obj, dtype=None, writeable=True, verbose=True):
     if (not isinstance(dtype, type(None))) and (
         not np.issubdtype(input_obj.dtype, dtype)
     ):
-        raise (
-            TypeError(
-                f"The numpy array elements are not of type: {dtype}",
-            ),
-        )
+        raise TypeError(f"The numpy array elements are not of type: {dtype}")
 
     if not writeable and verbose and input_obj.flags.writeable:
         warn("Making input data immutable.")
-- 
2.43.0


From 3db779946028a0f0adc951e3a09f0018b011a318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:15 +0000
Subject: [PATCH 28/66] fix: k-support cost uses the split index of its
 definition

---
 src/modopt/opt/proximity.py | 36 +++++-------------------------------
 1 file changed, 5 insertions(+), 31 deletions(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index 79bde25..677a8be 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -1275,38 +1275,12 @@ class KSupportNorm(ProximityParent):
         where :math:`w` is the input ``sorted_data`` and :math:`k \leq d`.
 
         """
-        first_idx = 0
-        last_idx = self._k_value - 1
-        found = False
-        q_val = (first_idx + last_idx) // 2
-        cnt = 0
-
-        # Particular case
-        if (sorted_data.sum() / (self._k_value)) >= sorted_data[0]:
-            found = True
-            q_val = 0
-
-        elif (sorted_data[self._k_value - 1 :].sum()) <= sorted_data[self._k_value - 1]:
-            found = True
-            q_val = self._k_value - 1
-
-        while (
-            not found
-            and not cnt == self._k_value
-            and (first_idx <= last_idx < self._k_value)
-        ):
-            q_val = (first_idx + last_idx) // 2
-            cnt += 1
+        for q_val in range(self._k_value):
             l1_part = sorted_data[q_val:].sum() / (self._k_value - q_val)
-
-            if sorted_data[q_val + 1] <= l1_part <= sorted_data[q_val]:
-                found = True
-
-            else:
-                if sorted_data[q_val] <= l1_part:
-                    last_idx = q_val
-                if l1_part <= sorted_data[q_val + 1]:
-                    first_idx = q_val
+            # The first index for which this holds also satisfies the left
+            # hand side inequality
+            if l1_part >= sorted_data[q_val]:
+                break
 
         return q_val
 
-- 
2.43.0


From a46a69b0cabcfee9d3072a895dd5a3cf3e704537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:42 +0000
Subject: [PATCH 29/66] fix: k-support theta no longer counts an entry twice
 when rounding puts it on the boundary

---
 src/modopt/opt/proximity.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index 677a8be..cefe046 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -991,12 +991,8 @@ class KSupportNorm(ProximityParent):
             np.expand_dims(alpha, -1),
             np.expand_dims(np.abs(input_data), -1).T,
         )
-        theta = np.zeros(alpha_input.shape)
-        alpha_beta = alpha_input - self.beta * extra_factor
-        theta = alpha_beta * ((alpha_beta <= 1) & (alpha_beta >= 0))
-        theta = np.nan_to_num(theta)
-        theta += alpha_input > (self.beta * extra_factor + 1)
-        return theta
+        theta = np.clip(alpha_input - self.beta * extra_factor, 0, 1)
+        return np.nan_to_num(theta)
 
     def _interpolate(self, alpha0, alpha1, sum0, sum1):
         r"""Linear interpolation of alpha (:math:`\alpha`).
-- 
2.43.0


From 43dbfd5950689b24ecde44659e41126397fc2295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:36 +0000
Subject: [PATCH 30/66] fix: partial SVD thresholding works when a complex
 matrix needs all but one value

---
 src/modopt/signal/svd.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index 9caa4b3..d9f4378 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -232,13 +232,14 @@ def svd_thresh_coef_fast(
     n_vals = max(n_vals, 1)
     ok = False
     while not ok:
-        if n_vals < max_vals:
+        if n_vals < max_vals - 1:
             u_vec, s_values, v_vec = svds(input_data, k=n_vals)
         else:
-            # svds can not compute all the singular values
+            # svds can not compute all the singular values (all but one for
+            # complex data)
             u_vec, s_values, v_vec = calculate_svd(input_data)
             u_vec, s_values, v_vec = u_vec[:, ::-1], s_values[::-1], v_vec[::-1]
-        ok = n_vals >= max_vals or s_values[0] <= threshold
+        ok = s_values.size == max_vals or s_values[0] <= threshold
         n_vals += extra_vals
 
     s_values = thresh(
-- 
2.43.0


From bb9c94bdafdfba17fb77c92dfa190e3ec87ae993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:16 +0000
Subject: [PATCH 31/66] fix: positive keeps the structure of nested data and
 accepts nested lists

---
 src/modopt/signal/positivity.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/modopt/signal/positivity.py b/src/modopt/signal/positivity.py
index 8d7aa46..b07fb93 100644
--- a/src/modopt/signal/positivity.py
+++ b/src/modopt/signal/positivity.py
@@ -45,8 +45,13 @@ def pos_recursive(input_data):
         Positive coefficients
 
     """
-    if input_data.dtype == "O":
-        res = np.array([pos_recursive(elem) for elem in input_data], dtype="object")
+    if isinstance(input_data, (list, tuple)):
+        input_data = np.array(input_data, dtype="object")
+
+    if isinstance(input_data, np.ndarray) and input_data.dtype == "O":
+        res = np.empty_like(input_data)
+        for index, elem in np.ndenumerate(input_data):
+            res[index] = pos_recursive(elem)
 
     else:
         res = pos_thresh(input_data)
-- 
2.43.0


From b058bc8da7950a51b8e3de82228914825ad42cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:29 +0000
Subject: [PATCH 32/66] fix: move_to_cpu accepts TensorFlow arrays

The TensorFlow branch read a .data attribute that eager tensors do not have, so every call failed with AttributeError.
---
 src/modopt/base/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/base/backend.py b/src/modopt/base/backend.py
index 485f649..2a65ee5 100644
--- a/src/modopt/base/backend.py
+++ b/src/modopt/base/backend.py
@@ -156,7 +156,7 @@ def move_to_cpu(input_data):
     elif xp == LIBRARIES["cupy"]:
         return input_data.get()
     elif xp == LIBRARIES["tensorflow"]:
-        return input_data.data.numpy()
+        return input_data.numpy()
     raise ValueError("Cannot identify the array type.")
 
 
-- 
2.43.0


From 19c8bca9afc6f9cdf1dd3339bfaf40a78170cfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:29 +0000
Subject: [PATCH 33/66] fix: change_backend can bring CuPy arrays back to NumPy

CuPy refuses implicit conversion by numpy.array; the data has to be fetched with get(), as move_to_cpu does.
---
 src/modopt/base/backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modopt/base/backend.py b/src/modopt/base/backend.py
index 2a65ee5..c9b8bf2 100644
--- a/src/modopt/base/backend.py
+++ b/src/modopt/base/backend.py
@@ -125,6 +125,8 @@ def change_backend(input_data, backend="cupy"):
     txp, target_backend = get_backend(backend)
     if xp == txp:
         return input_data
+    if txp == np:
+        return move_to_cpu(input_data)
     return txp.array(input_data)
 
 
-- 
2.43.0


From d37485d9f0de216ff896c267a32ded221866a384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:29 +0000
Subject: [PATCH 34/66] fix: get_mr_filters returns an object array for trimmed
 filters of different sizes

NumPy refuses to build an array from filters of different sizes; the documented result is an array of dtype object.
---
 src/modopt/signal/wavelet.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/modopt/signal/wavelet.py b/src/modopt/signal/wavelet.py
index 728f689..0806fa6 100644
--- a/src/modopt/signal/wavelet.py
+++ b/src/modopt/signal/wavelet.py
@@ -246,7 +246,13 @@ def get_mr_filters(
     mr_filters = call_mr_transform(fake_data.astype(float), opt=opt)
 
     if trim:
-        mr_filters = np.array([trim_filter(filt) for filt in mr_filters])
+        trimmed = [trim_filter(filt) for filt in mr_filters]
+        if len({filt.shape for filt in trimmed}) > 1:
+            # Filters of different sizes can only be kept in an object array.
+            mr_filters = np.empty(len(trimmed), dtype=object)
+            mr_filters[:] = trimmed
+        else:
+            mr_filters = np.array(trimmed)
 
     # Return filters
     if coarse:
-- 
2.43.0


From 452d69148da2de1d8bc871637c1e76d08f8dc112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:53 +0000
Subject: [PATCH 35/66] fix: the masked SNR only counts errors inside the
 region of interest

The mask was applied to the tested image but not to the reference, so that everything outside the region of interest was counted as error.
---
 src/modopt/math/metrics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modopt/math/metrics.py b/src/modopt/math/metrics.py
index befd4fa..88a1d7f 100644
--- a/src/modopt/math/metrics.py
+++ b/src/modopt/math/metrics.py
@@ -158,6 +158,7 @@ def snr(test, ref, mask=None):
 
     if mask is not None:
         test = mask * test
+        ref = mask * ref
 
     num = np.mean(np.square(test))
     deno = mse(test, ref)
-- 
2.43.0


From fa798e4915e7becd672c3f3d87aa24e34bb811a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:53 +0000
Subject: [PATCH 36/66] fix: masked SNR, PSNR and NRMSE use the same images for
 signal and error

The error term went through mse(), which normalises its arguments again: when the mask hides the brightest pixels the error was computed on stretched images, the signal on the original ones.
---
 src/modopt/math/metrics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modopt/math/metrics.py b/src/modopt/math/metrics.py
index 88a1d7f..e9c6906 100644
--- a/src/modopt/math/metrics.py
+++ b/src/modopt/math/metrics.py
@@ -161,7 +161,7 @@ def snr(test, ref, mask=None):
         ref = mask * ref
 
     num = np.mean(np.square(test))
-    deno = mse(test, ref)
+    deno = np.mean(np.square(test - ref))
 
     return 10.0 * np.log10(num / deno)
 
@@ -197,7 +197,7 @@ def psnr(test, ref, mask=None):
         ref = mask * ref
 
     num = np.max(np.abs(test))
-    deno = mse(test, ref)
+    deno = np.mean(np.square(test - ref))
 
     return 10.0 * np.log10(num / deno)
 
@@ -266,7 +266,7 @@ def nrmse(test, ref, mask=None):
         test = mask * test
         ref = mask * ref
 
-    num = np.sqrt(mse(test, ref))
+    num = np.sqrt(np.mean(np.square(test - ref)))
     deno = np.sqrt(np.mean(np.square(test)))
 
     return num / deno
-- 
2.43.0


From f9a0803aeb5f8df4008ef247c8656303cdbd23d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:34 +0000
Subject: [PATCH 37/66] fix: reweighting uses the modulus of complex data

The conversion to float discarded the imaginary part, so that complex coefficients were weighted by the modulus of their real part only.
---
 src/modopt/opt/reweight.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modopt/opt/reweight.py b/src/modopt/opt/reweight.py
index 4a9bf44..84cfc6c 100644
--- a/src/modopt/opt/reweight.py
+++ b/src/modopt/opt/reweight.py
@@ -82,6 +82,10 @@ class cwbReweight:
 
         self._rw_num += 1
 
+        # Only the modulus matters, complex values must not lose a part.
+        if np.iscomplexobj(input_data):
+            input_data = np.abs(input_data)
+
         input_data = check_float(input_data)
 
         if input_data.shape != self.weights.shape:
-- 
2.43.0


From 1176b5f8a9a611d735f9e3045eca56663b29981a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:48 +0000
Subject: [PATCH 38/66] fix: group LASSO is exact for small groups of double
 precision data

---
 src/modopt/opt/proximity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index cefe046..f9d9bda 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -1374,7 +1374,7 @@ class GroupLASSO(ProximityParent):
 
         """
         norm2 = np.linalg.norm(input_data, axis=0)
-        denominator = np.maximum(norm2, np.finfo(np.float32).eps)
+        denominator = np.maximum(norm2, np.finfo(norm2.dtype).eps)
 
         return input_data * np.maximum(
             0,
-- 
2.43.0


From 2a3bfc3ecb17832f4cbde5008038f7803a5225cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:26 +0000
Subject: [PATCH 39/66] fix: a convergence reported earlier does not end later
 calls of iterate

---
 src/modopt/opt/algorithms/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modopt/opt/algorithms/base.py b/src/modopt/opt/algorithms/base.py
index 2ab2373..bf5a5aa 100644
--- a/src/modopt/opt/algorithms/base.py
+++ b/src/modopt/opt/algorithms/base.py
@@ -263,6 +263,7 @@ class SetUp(Observable):
         """
         for idx in range(max_iter):
             self.idx = idx
+            self.converge = False
             self._update()
 
             # Early stopping applies with or without a cost function
-- 
2.43.0


From 2d64fa94affffafd9b4140427574357c0585ab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:04 +0000
Subject: [PATCH 40/66] fix: projection and orthogonalisation of small integers
 do not overflow

---
 src/modopt/math/matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modopt/math/matrix.py b/src/modopt/math/matrix.py
index b1de5f5..9ec62af 100644
--- a/src/modopt/math/matrix.py
+++ b/src/modopt/math/matrix.py
@@ -158,6 +158,8 @@ def project(u_vec, v_vec):
     (see https://en.wikipedia.org/wiki/Gram%E2%80%93Schmidt_process)
 
     """
+    # Products of small integers (e.g. uint8) would overflow.
+    u_vec = 1.0 * u_vec
     return np.inner(v_vec, u_vec) / np.inner(u_vec, u_vec) * u_vec
 
 
-- 
2.43.0


From bb37490b94425c529254110d166b14fbfecc443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:04 +0000
Subject: [PATCH 41/66] fix: errors and ratios of integer images do not
 overflow

---
 src/modopt/math/stats.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modopt/math/stats.py b/src/modopt/math/stats.py
index 8583a8c..8ba3bce 100644
--- a/src/modopt/math/stats.py
+++ b/src/modopt/math/stats.py
@@ -143,7 +143,8 @@ def mse(data1, data2):
     4.0
 
     """
-    return np.mean((data1 - data2) ** 2)
+    # Differences of integers (e.g. uint8 images) would overflow.
+    return np.mean((1.0 * data1 - data2) ** 2)
 
 
 def psnr(data1, data2, method="starck", max_pix=255):
@@ -202,6 +203,8 @@ def psnr(data1, data2, method="starck", max_pix=255):
 
     """
     if method == "starck":
+        # Differences of integers (e.g. uint8 images) would overflow.
+        data1 = 1.0 * data1
         return 20 * np.log10(
             (data1.shape[0] * np.abs(np.max(data1) - np.min(data1)))
             / np.linalg.norm(data1 - data2),
-- 
2.43.0


From 67a40d30489846261c87946db841fb5ddedb37d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:42 +0000
Subject: [PATCH 42/66] fix: penalties of integer data do not overflow

---
 src/modopt/opt/proximity.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index f9d9bda..313fcb0 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -792,7 +792,8 @@ class Ridge(ProximityParent):
 
         """
         cost_val = np.sum(
-            np.abs(self.weights * self._linear.op(args[0]) ** 2),
+            # Squares of small integers would overflow.
+            np.abs(self.weights * (1.0 * self._linear.op(args[0])) ** 2),
         )
 
         if kwargs.get("verbose"):
@@ -879,7 +880,8 @@ class ElasticNet(ProximityParent):
 
         """
         cost_val = np.sum(
-            np.abs(self.alpha * self._linear.op(args[0]) ** 2)
+            # Squares of small integers would overflow.
+            np.abs(self.alpha * (1.0 * self._linear.op(args[0])) ** 2)
             + np.abs(self.beta * self._linear.op(args[0])),
         )
 
@@ -1299,7 +1301,8 @@ class KSupportNorm(ProximityParent):
             The :math:`k`-support cost component
 
         """
-        data_abs = np.abs(args[0].flatten())
+        # Squares of small integers would overflow.
+        data_abs = np.abs(1.0 * args[0].flatten())
         ix = np.argsort(data_abs)[::-1]
         data_abs = data_abs[ix]  # Sorted absolute value of the data
         q_val = self._find_q(data_abs)
-- 
2.43.0


From a18eb15d31b6f04f7fa95172401786c320880f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:55 +0000
Subject: [PATCH 43/66] fix: set_up_log closes the file of a log that is set up
 again

Setting up an open log again kept the first file handler: every message
was written twice, at two positions of one and the same file.
---
 src/modopt/interface/log.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/modopt/interface/log.py b/src/modopt/interface/log.py
index fcafcdd..4e68b59 100644
--- a/src/modopt/interface/log.py
+++ b/src/modopt/interface/log.py
@@ -50,6 +50,13 @@ def set_up_log(filename, verbose=True):
     # Create log.
     log = logging.getLogger(filename)
     log.setLevel(logging.DEBUG)
+
+    # Close the file of a log that is set up again.
+    for log_handler in list(log.handlers):
+        if isinstance(log_handler, logging.FileHandler):
+            log.removeHandler(log_handler)
+            log_handler.close()
+
     log.addHandler(fh)
 
     # Send opening message.
-- 
2.43.0


From a6c865a921e7f0cc787ed287b5b5f9d43e299cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:55 +0000
Subject: [PATCH 44/66] fix: log files hold no messages of logs whose names
 extend theirs

The logging module takes the dots of a file name for a hierarchy: all that
was written to "a.log.log" also went to "a.log".
---
 src/modopt/interface/log.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modopt/interface/log.py b/src/modopt/interface/log.py
index 4e68b59..5280f68 100644
--- a/src/modopt/interface/log.py
+++ b/src/modopt/interface/log.py
@@ -47,6 +47,9 @@ def set_up_log(filename, verbose=True):
     fh.setLevel(logging.DEBUG)
     fh.setFormatter(formatter)
 
+    # Keep out the messages of logs whose names extend this one ("a.log.b").
+    fh.addFilter(lambda record: record.name == filename)
+
     # Create log.
     log = logging.getLogger(filename)
     log.setLevel(logging.DEBUG)
-- 
2.43.0


From 005e041642f30f9421fbc24a289ad5d2783ed41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:23 +0000
Subject: [PATCH 45/66] fix: SAGA keeps gradients that are not of the type of
 the starting array

The gradient memory had the type of the starting array: gradients were cut
to integers for an integer start and lost their imaginary part for a real one.
---
 src/modopt/opt/algorithms/gradient_descent.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/modopt/opt/algorithms/gradient_descent.py b/src/modopt/opt/algorithms/gradient_descent.py
index 0960be5..7c68da2 100644
--- a/src/modopt/opt/algorithms/gradient_descent.py
+++ b/src/modopt/opt/algorithms/gradient_descent.py
@@ -445,10 +445,10 @@ class SAGAOptGradOpt(GenericGradOpt):
 
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
-        self._grad_memory = np.zeros(
-            (self.epoch_size, *self._x_old.shape),
-            dtype=self._x_old.dtype,
-        )
+        # Gradients are kept as they are: they need not be of the type of x.
+        self._grad_memory = [
+            np.zeros_like(self._x_old) for _ in range(self.epoch_size)
+        ]
 
     def _update_grad_dir(self, grad):
         """SAGA Update gradient direction.
@@ -461,4 +461,4 @@ class SAGAOptGradOpt(GenericGradOpt):
         """
         cycle = self.idx % self.epoch_size
         self._dir_grad = self._dir_grad - self._grad_memory[cycle] + grad
-        self._grad_memory[cycle] = grad
+        self._grad_memory[cycle] = grad.copy()
-- 
2.43.0


From 34c4e0db37348f4e16baca66a26c2e8891e21100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:14 +0000
Subject: [PATCH 46/66] fix: the adjoint of WaveletConvolve for filters of even
 size

Rotating a filter without a central pixel moves its centre by one pixel, so
that adj_op was not the adjoint of op.
---
 src/modopt/opt/linear/wavelet.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index 0f628da..eec0275 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -47,6 +47,13 @@ class WaveletConvolve(LinearParent):
 
     def __init__(self, filters, method="scipy"):
         self._filters = check_float(filters)
+
+        # The rotation of a filter of even size moves its centre by one pixel.
+        even = [1 - size % 2 for size in self._filters.shape[1:]]
+        if any(even) and method != "astropy":
+            # Zeros at the start give it a central pixel, the centre for SciPy.
+            self._filters = np.pad(self._filters, [(0, 0)] + [(k, 0) for k in even])
+
         self.op = lambda input_data: filter_convolve_stack(
             input_data,
             self._filters,
@@ -58,6 +65,14 @@ class WaveletConvolve(LinearParent):
             filter_rot=True,
             method=method,
         )
+        if any(even) and method == "astropy":
+            # Astropy's images are periodic: move the result back.
+            rotated = self.adj_op
+            self.adj_op = lambda input_data: np.roll(
+                rotated(input_data),
+                even,
+                axis=tuple(range(-len(even), 0)),
+            )
 
 
 class WaveletTransform(LinearParent):
-- 
2.43.0


From 0ac8a0aa48251408db3f35965cdbeb3c54c1dc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:35 +0000
Subject: [PATCH 47/66] fix: map2matrix and matrix2map for images and layouts
 that do not fit

map2matrix cut the pixels of images that are not square and of maps that are
not a multiple of the layout; matrix2map left part of such maps empty.
---
 src/modopt/base/transform.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/modopt/base/transform.py b/src/modopt/base/transform.py
index 587f733..c5364a3 100644
--- a/src/modopt/base/transform.py
+++ b/src/modopt/base/transform.py
@@ -152,6 +152,11 @@ def map2matrix(data_map, layout):
     numpy.ndarray
         2D matrix
 
+    Raises
+    ------
+    ValueError
+        For invalid layout
+
     Examples
     --------
     >>> import numpy as np
@@ -171,24 +176,30 @@ def map2matrix(data_map, layout):
     """
     layout = np.array(layout)
 
+    if np.any(np.array(data_map.shape) % layout):
+        raise ValueError(
+            "The desired layout must be a multiple of the number "
+            + "pixels in the data map.",
+        )
+
     # Get the shape of the images
-    image_shape = (np.array(data_map.shape) // layout)[0]
+    image_shape = np.array(data_map.shape) // layout
 
     # Stack objects from map
     data_matrix = []
 
     for i_elem in range(np.prod(layout)):
         lower = (
-            image_shape * (i_elem // layout[1]),
-            image_shape * (i_elem % layout[1]),
+            image_shape[0] * (i_elem // layout[1]),
+            image_shape[1] * (i_elem % layout[1]),
         )
         upper = (
-            image_shape * (i_elem // layout[1] + 1),
-            image_shape * (i_elem % layout[1] + 1),
+            image_shape[0] * (i_elem // layout[1] + 1),
+            image_shape[1] * (i_elem % layout[1] + 1),
         )
         data_matrix.append(
             (data_map[lower[0] : upper[0], lower[1] : upper[1]]).reshape(
-                image_shape**2
+                np.prod(image_shape)
             ),
         )
 
@@ -212,6 +223,11 @@ def matrix2map(data_matrix, map_shape):
     numpy.ndarray
         2D map
 
+    Raises
+    ------
+    ValueError
+        If the map is not made up of square images
+
     Examples
     --------
     >>> import numpy as np
@@ -235,6 +251,11 @@ def matrix2map(data_matrix, map_shape):
     image_shape = np.sqrt(data_matrix.shape[0]).astype(int)
     layout = np.array(map_shape // np.repeat(image_shape, 2), dtype="int")
 
+    if image_shape**2 != data_matrix.shape[0] or np.any(map_shape % image_shape):
+        raise ValueError(
+            "The map shape must be a multiple of the shape of the square images.",
+        )
+
     # Map objects from matrix
     data_map = np.zeros(map_shape, dtype=data_matrix.dtype)
 
-- 
2.43.0


From a898b1ff91c853e48a4129f85bb35475d80a94d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:29 +0000
Subject: [PATCH 48/66] fix: the positive part of negative infinity is zero

The product with a mask made it NaN.
---
 src/modopt/signal/positivity.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modopt/signal/positivity.py b/src/modopt/signal/positivity.py
index b07fb93..1f4ea5f 100644
--- a/src/modopt/signal/positivity.py
+++ b/src/modopt/signal/positivity.py
@@ -26,7 +26,11 @@ def pos_thresh(input_data):
         Positive coefficients
 
     """
-    return input_data * (input_data > 0)
+    # A product with zero would turn negative infinity into NaN.
+    if isinstance(input_data, np.ndarray):
+        return np.maximum(input_data, input_data.dtype.type(0))
+
+    return max(input_data, type(input_data)(0))
 
 
 def pos_recursive(input_data):
-- 
2.43.0


From 90bbab18cb4658e953c684b4dce126fa9105a93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:21 +0000
Subject: [PATCH 49/66] Revert "fix: the adjoint of WaveletConvolve for filters
 of even size"

This reverts commit 34c4e0db37348f4e16baca66a26c2e8891e21100.
---
 src/modopt/opt/linear/wavelet.py | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/src/modopt/opt/linear/wavelet.py b/src/modopt/opt/linear/wavelet.py
index eec0275..0f628da 100644
--- a/src/modopt/opt/linear/wavelet.py
+++ b/src/modopt/opt/linear/wavelet.py
@@ -47,13 +47,6 @@ class WaveletConvolve(LinearParent):
 
     def __init__(self, filters, method="scipy"):
         self._filters = check_float(filters)
-
-        # The rotation of a filter of even size moves its centre by one pixel.
-        even = [1 - size % 2 for size in self._filters.shape[1:]]
-        if any(even) and method != "astropy":
-            # Zeros at the start give it a central pixel, the centre for SciPy.
-            self._filters = np.pad(self._filters, [(0, 0)] + [(k, 0) for k in even])
-
         self.op = lambda input_data: filter_convolve_stack(
             input_data,
             self._filters,
@@ -65,14 +58,6 @@ class WaveletConvolve(LinearParent):
             filter_rot=True,
             method=method,
         )
-        if any(even) and method == "astropy":
-            # Astropy's images are periodic: move the result back.
-            rotated = self.adj_op
-            self.adj_op = lambda input_data: np.roll(
-                rotated(input_data),
-                even,
-                axis=tuple(range(-len(even), 0)),
-            )
 
 
 class WaveletTransform(LinearParent):
-- 
2.43.0


From e657f4d7108c88a5c6965d4c8289f53590c46b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:47 +0000
Subject: [PATCH 50/66] fix: soft thresholding of very small and very large
 data

Results were rounded to 15 decimals and moduli raised to 2e-16: data below
about 1e-13 lost its digits, below 1e-15 it became zero, and double (single)
precision data above 2e293 (3e23) became infinite.
---
 src/modopt/signal/noise.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/modopt/signal/noise.py b/src/modopt/signal/noise.py
index 28307f5..b7f517d 100644
--- a/src/modopt/signal/noise.py
+++ b/src/modopt/signal/noise.py
@@ -176,9 +176,14 @@ def thresh(input_data, threshold, threshold_type="hard"):
         )
 
     if threshold_type == "soft":
-        denominator = xp.maximum(xp.finfo(np.float64).eps, xp.abs(input_data))
-        max_value = xp.maximum((1.0 - threshold / denominator), 0)
+        # Exact for data of any magnitude: nothing is rounded to absolute digits.
+        magnitude = xp.abs(1.0 * input_data)
 
-        return xp.around(max_value * input_data, decimals=15)
+        if xp.iscomplexobj(input_data):
+            sign = input_data / xp.where(magnitude > 0, magnitude, 1.0)
+        else:
+            sign = xp.sign(1.0 * input_data)
+
+        return xp.maximum(magnitude - threshold, 0) * sign
 
     return input_data * (xp.abs(input_data) >= threshold)
-- 
2.43.0


From 816f0c231b02fbee6ca286a702a472ccce561940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:37 +0000
Subject: [PATCH 51/66] fix: costs below 1e-16 are not taken for zero in the
 convergence test

The mean of the latest costs was rounded to 16 decimals: every test on smaller
costs reported convergence, whatever the costs did.
---
 src/modopt/opt/cost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/cost.py b/src/modopt/opt/cost.py
index 37771f1..28835f3 100644
--- a/src/modopt/opt/cost.py
+++ b/src/modopt/opt/cost.py
@@ -122,7 +122,7 @@ class CostParent(abc.ABC):
                 axis=0,
             )
             # Calculate the change across the test list
-            if xp.around(t1, decimals=16):
+            if t1 != 0:
                 cost_diff = xp.linalg.norm(t1 - t2) / xp.linalg.norm(t1)
             else:
                 cost_diff = 0
-- 
2.43.0


From b1e93c1fe579efd7deeb99df0534ded54482d31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:41 +0000
Subject: [PATCH 52/66] fix: group LASSO is exact for groups of any magnitude

Norms were raised to the machine epsilon: groups smaller than that were not shrunk as they should be.
---
 src/modopt/opt/proximity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index 313fcb0..f4d706e 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -1377,7 +1377,7 @@ class GroupLASSO(ProximityParent):
 
         """
         norm2 = np.linalg.norm(input_data, axis=0)
-        denominator = np.maximum(norm2, np.finfo(norm2.dtype).eps)
+        denominator = np.where(norm2 > 0, norm2, 1)
 
         return input_data * np.maximum(
             0,
-- 
2.43.0


From 48ab6e4326b04f5182f484657cbdcce27b684649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:34 +0000
Subject: [PATCH 53/66] fix: the k-support operator on data of small magnitude

The offset that keeps zeros from dividing was absolute: data of about 1e-16
and below was projected wrongly.
---
 src/modopt/opt/proximity.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index f4d706e..4ddc9d9 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -1184,13 +1184,11 @@ class KSupportNorm(ProximityParent):
 
         # Computes the alpha^i points line 1 in Algorithm 1.
         alpha = np.zeros(data_size * 2)
-        data_abs = np.abs(input_data)
-        alpha[:data_size] = (self.beta * extra_factor) / (
-            data_abs + sys.float_info.epsilon
-        )
-        alpha[data_size:] = (self.beta * extra_factor + 1) / (
-            data_abs + sys.float_info.epsilon
-        )
+        data_abs = np.abs(input_data).astype(float)
+        # What keeps zeros from dividing must be small beside the data.
+        epsilon = sys.float_info.epsilon * (np.max(data_abs) or 1.0)
+        alpha[:data_size] = (self.beta * extra_factor) / (data_abs + epsilon)
+        alpha[data_size:] = (self.beta * extra_factor + 1) / (data_abs + epsilon)
         alpha = np.sort(np.unique(alpha))
 
         # Identify points alpha^i and alpha^{i+1} line 2. Algorithm 1
-- 
2.43.0


From 54465a5ad4bc12caa4b9b2a1758edcfc1c495910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:14 +0000
Subject: [PATCH 54/66] fix: warnings given a log are written to that log

---
 src/modopt/interface/errors.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modopt/interface/errors.py b/src/modopt/interface/errors.py
index 84031e3..af432a9 100644
--- a/src/modopt/interface/errors.py
+++ b/src/modopt/interface/errors.py
@@ -42,6 +42,7 @@ def warn(warn_string, log=None):
     # Check if a logging structure is provided.
     if not isinstance(log, type(None)):
         warnings.warn(warn_string, stacklevel=2)
+        log.warning(f"WARNING: {warn_string}")
 
 
 def catch_error(exception, log=None):
-- 
2.43.0


From 5d81afbbfbaa985c6f1d627e7d830498a5dee8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:53 +0000
Subject: [PATCH 55/66] fix: an unset search path does not make is_executable
 fail with KeyError

---
 src/modopt/interface/errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/interface/errors.py b/src/modopt/interface/errors.py
index af432a9..6012182 100644
--- a/src/modopt/interface/errors.py
+++ b/src/modopt/interface/errors.py
@@ -145,7 +145,7 @@ def is_executable(exe_name):
     else:
         res = any(
             is_exe(os.path.join(path, exe_name))
-            for path in os.environ["PATH"].split(os.pathsep)
+            for path in os.get_exec_path()
         )
 
     if not res:
-- 
2.43.0


From 8f3380c591d56d980a51c7be94c9f7395076d6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:08 +0000
Subject: [PATCH 56/66] fix: OWL accepts a single weight and data and weights
 of any shape

---
 src/modopt/opt/proximity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index 4ddc9d9..444d2af 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -629,7 +629,7 @@ class OrderedWeightedL1Norm(ProximityParent):
                 + "documentation for details: "
                 + "https://cea-cosmic.github.io/ModOpt/#optional-packages",
             )
-        if np.max(np.diff(weights)) > 0:
+        if np.any(np.diff(weights.flatten()) > 0):
             raise ValueError("Weights must be non increasing")
         self.weights = weights.flatten()
         if (self.weights < 0).any():
@@ -661,8 +661,8 @@ class OrderedWeightedL1Norm(ProximityParent):
         # Update threshold with extra factor.
         threshold = self.weights * extra_factor
 
-        # Squeezing the data
-        data_squeezed = np.squeeze(input_data)
+        # Flattening the data
+        data_squeezed = np.ravel(input_data)
 
         # Sorting (non increasing order) input vector's absolute values
         data_abs = np.abs(data_squeezed)
@@ -709,7 +709,7 @@ class OrderedWeightedL1Norm(ProximityParent):
 
         """
         cost_val = np.sum(
-            self.weights * np.sort(np.squeeze(np.abs(args[0]))[::-1]),
+            self.weights * np.sort(np.ravel(np.abs(args[0]))[::-1]),
         )
 
         if kwargs.get("verbose"):
-- 
2.43.0


From 1f7d059986ba9e4ee29946dbe424fca525857014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:25 +0000
Subject: [PATCH 57/66] fix: progress bars without a total do not make the
 algorithms fail

---
 src/modopt/opt/algorithms/base.py        | 4 ++--
 src/modopt/opt/algorithms/primal_dual.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modopt/opt/algorithms/base.py b/src/modopt/opt/algorithms/base.py
index bf5a5aa..8bb025a 100644
--- a/src/modopt/opt/algorithms/base.py
+++ b/src/modopt/opt/algorithms/base.py
@@ -289,7 +289,7 @@ class SetUp(Observable):
                     print(" - Converged!")
                 break
 
-            if progbar:
+            if progbar is not None:
                 progbar.update()
 
     def _run_alg(self, max_iter, progbar=None):
@@ -313,7 +313,7 @@ class SetUp(Observable):
         if self.progress and progbar is None:
             with tqdm(total=max_iter) as pb:
                 self._iterations(max_iter, progbar=pb)
-        elif progbar:
+        elif progbar is not None:
             self._iterations(max_iter, progbar=progbar)
         else:
             self._iterations(max_iter)
diff --git a/src/modopt/opt/algorithms/primal_dual.py b/src/modopt/opt/algorithms/primal_dual.py
index fee49a2..57b4716 100644
--- a/src/modopt/opt/algorithms/primal_dual.py
+++ b/src/modopt/opt/algorithms/primal_dual.py
@@ -239,7 +239,7 @@ class Condat(SetUp):
         if not isinstance(self._reweight, type(None)):
             for _ in range(n_rewightings):
                 self._reweight.reweight(self._linear.op(self._x_new))
-                if progbar:
+                if progbar is not None:
                     progbar.reset(total=max_iter)
                 self._run_alg(max_iter, progbar)
 
-- 
2.43.0


From 10edfb6520c40db3ccfc437959a62e1f178c6921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:27 +0000
Subject: [PATCH 58/66] fix: partial SVD thresholding does not fail when ARPACK
 does

---
 src/modopt/signal/svd.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index d9f4378..55e0390 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -8,7 +8,7 @@ This module contains methods for thresholding singular values.
 
 import numpy as np
 from scipy.linalg import svd
-from scipy.sparse.linalg import svds
+from scipy.sparse.linalg import ArpackError, svds
 
 from modopt.base.transform import matrix2cube
 from modopt.interface.errors import warn
@@ -233,7 +233,12 @@ def svd_thresh_coef_fast(
     ok = False
     while not ok:
         if n_vals < max_vals - 1:
-            u_vec, s_values, v_vec = svds(input_data, k=n_vals)
+            try:
+                u_vec, s_values, v_vec = svds(input_data, k=n_vals)
+            except ArpackError:
+                # ARPACK can fail when singular values are repeated
+                n_vals = max_vals
+                continue
         else:
             # svds can not compute all the singular values (all but one for
             # complex data)
-- 
2.43.0


From 706299c5b66d31cc1925afb610cd21413e0a8234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:21 +0000
Subject: [PATCH 59/66] fix: the keyword "auto" is not an operator to warn
 about

---
 src/modopt/opt/algorithms/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/base.py b/src/modopt/opt/algorithms/base.py
index 8bb025a..75488d1 100644
--- a/src/modopt/opt/algorithms/base.py
+++ b/src/modopt/opt/algorithms/base.py
@@ -232,7 +232,8 @@ class SetUp(Observable):
             Algorithm operator to check
 
         """
-        if not isinstance(operator, type(None)):
+        # Neither ``None`` nor the keyword ``"auto"`` are operators.
+        if not isinstance(operator, (type(None), str)):
             tree = [op_obj.__name__ for op_obj in getmro(operator.__class__)]
 
             if not any(parent in tree for parent in self._op_parents):
-- 
2.43.0


From cfdd14d3bf0991765b0fc6f49f4c3c57071ed1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:09 +0000
Subject: [PATCH 60/66] fix: a metric that raises no longer leaves an iteration
 without a value

---
 src/modopt/base/observable.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modopt/base/observable.py b/src/modopt/base/observable.py
index b34793d..5488e8f 100644
--- a/src/modopt/base/observable.py
+++ b/src/modopt/base/observable.py
@@ -245,9 +245,12 @@ class MetricObserver:
             if key_value is not None:
                 kwargs[key_value] = getattr(signal, key)
         kwargs.update(self.cst_kwargs)
+        date = time.time()
+        # The three lists stay in step when the metric raises
+        cv_value = self.metric(**kwargs)
         self.list_iters.append(signal.idx)
-        self.list_dates.append(time.time())
-        self.list_cv_values.append(self.metric(**kwargs))
+        self.list_dates.append(date)
+        self.list_cv_values.append(cv_value)
 
         if self.early_stopping:
             self.is_converge()
-- 
2.43.0


From dc43bdf0e48e8e8c47cc910e0975b2893f0fa8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:44 +0000
Subject: [PATCH 61/66] fix: k-support proximity operator of denormal data

---
 src/modopt/opt/proximity.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/modopt/opt/proximity.py b/src/modopt/opt/proximity.py
index 444d2af..f29e7a8 100644
--- a/src/modopt/opt/proximity.py
+++ b/src/modopt/opt/proximity.py
@@ -1229,15 +1229,15 @@ class KSupportNorm(ProximityParent):
             )
             self._k_value = k_max
 
+        # Theta does not depend on the scale of the data, alpha may overflow
+        data_abs = np.abs(1.0 * input_data.flatten())
+        data_abs = data_abs / (np.max(data_abs) or 1.0)
+
         # Computes line 1., 2. and 3. in Algorithm 1
-        alpha = self._find_alpha(np.abs(input_data.flatten()), extra_factor)
+        alpha = self._find_alpha(data_abs, extra_factor)
 
         # Computes line 4. in Algorithm 1
-        theta = self._compute_theta(
-            np.abs(input_data.flatten()),
-            alpha,
-            extra_factor,
-        )
+        theta = self._compute_theta(data_abs, alpha, extra_factor)
 
         # Computes line 5. in Algorithm 1.
         rslt = np.nan_to_num(
-- 
2.43.0


From 55fde755b3796caf56dea3ffd6294e1accaeccad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:12 +0000
Subject: [PATCH 62/66] fix: external transform with blanks in the path

---
 src/modopt/signal/wavelet.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/modopt/signal/wavelet.py b/src/modopt/signal/wavelet.py
index 0806fa6..0cf2a4d 100644
--- a/src/modopt/signal/wavelet.py
+++ b/src/modopt/signal/wavelet.py
@@ -15,6 +15,7 @@ Sparse2D Repository: https://github.com/CosmoStat/Sparse2D
 
 """
 
+import shlex
 import subprocess as sp
 from datetime import datetime
 from os import remove
@@ -59,7 +60,7 @@ def execute(command_line):
     if not isinstance(command_line, str):
         raise TypeError("Command line must be a string.")
 
-    command = command_line.split()
+    command = shlex.split(command_line)
 
     process = sp.Popen(command, stdout=sp.PIPE, stderr=sp.PIPE)
     stdout, stderr = process.communicate()
@@ -151,8 +152,10 @@ def call_mr_transform(
         if isinstance(opt, str):
             opt = opt.split()
 
-        # Prepare command and execute it
-        command_line = " ".join([executable, *opt, file_fits, file_mr])
+        # Prepare command and execute it (the path may contain blanks)
+        command_line = shlex.join(
+            [executable, *" ".join(opt).split(), file_fits, file_mr],
+        )
         stdout, _ = execute(command_line)
 
         # Check for errors
-- 
2.43.0


From 45386a5c63f325261bb639f9e107aa666099f4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:12 +0000
Subject: [PATCH 63/66] fix: noise with a standard deviation that is a NumPy
 scalar

---
 src/modopt/signal/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/signal/noise.py b/src/modopt/signal/noise.py
index b7f517d..7aec9a2 100644
--- a/src/modopt/signal/noise.py
+++ b/src/modopt/signal/noise.py
@@ -89,7 +89,7 @@ def add_noise(input_data, sigma=1.0, noise_type="gauss", rng=None):
     elif noise_type == "poisson":
         random = rng.poisson(np.abs(input_data))
 
-    if isinstance(sigma, (int, float)):
+    if isinstance(sigma, (int, float, np.integer, np.floating)):
         return input_data + sigma * random
 
     noise = np.array([sig * rand for sig, rand in zip(sigma, random)])
-- 
2.43.0


From ae8ec35ed3c9fead0ec7a89c3855c6a0b6b98205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:12 +0000
Subject: [PATCH 64/66] fix: find_n_pc returns an integer svd_thresh accepts

---
 src/modopt/signal/svd.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/modopt/signal/svd.py b/src/modopt/signal/svd.py
index 55e0390..e71b615 100644
--- a/src/modopt/signal/svd.py
+++ b/src/modopt/signal/svd.py
@@ -67,11 +67,13 @@ def find_n_pc(u_vec, factor=0.5):
     ]
 
     # Return the required number of principal components.
-    return np.sum(
-        [
-            (u_val[tuple(zip(array_shape // 2))] ** 2 <= factor * np.sum(u_val**2),)
-            for u_val in u_auto
-        ]
+    return int(
+        np.sum(
+            [
+                (u_val[tuple(zip(array_shape // 2))] ** 2 <= factor * np.sum(u_val**2),)
+                for u_val in u_auto
+            ]
+        )
     )
 
 
-- 
2.43.0


From ef581c42721eb4a2707f11636f6a383ce8b3d545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:56 +0000
Subject: [PATCH 65/66] fix: adaptive gradient descents with arrays of another
 back end

---
 src/modopt/opt/algorithms/gradient_descent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/gradient_descent.py b/src/modopt/opt/algorithms/gradient_descent.py
index 7c68da2..ee4e328 100644
--- a/src/modopt/opt/algorithms/gradient_descent.py
+++ b/src/modopt/opt/algorithms/gradient_descent.py
@@ -95,7 +95,7 @@ class GenericGradOpt(SetUp):
         self._check_input_data(x)
         self._x_old = np.copy(x)
         self._x_new = np.copy(x)
-        self._speed_grad = np.zeros(x.shape, dtype=float)
+        self._speed_grad = self.xp.zeros(x.shape, dtype=float)
         self._dir_grad = np.zeros_like(x)
         # Set the algorithm operators
         for operator in (grad, prox, cost):
-- 
2.43.0


From 1ca71da0d59dce81e714fcd0f1a195d57d05a1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:37 +0000
Subject: [PATCH 66/66] Revert "fix: adaptive gradient descents with arrays of
 another back end"

This reverts commit ef581c42721eb4a2707f11636f6a383ce8b3d545.
---
 src/modopt/opt/algorithms/gradient_descent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modopt/opt/algorithms/gradient_descent.py b/src/modopt/opt/algorithms/gradient_descent.py
index ee4e328..7c68da2 100644
--- a/src/modopt/opt/algorithms/gradient_descent.py
+++ b/src/modopt/opt/algorithms/gradient_descent.py
@@ -95,7 +95,7 @@ class GenericGradOpt(SetUp):
         self._check_input_data(x)
         self._x_old = np.copy(x)
         self._x_new = np.copy(x)
-        self._speed_grad = self.xp.zeros(x.shape, dtype=float)
+        self._speed_grad = np.zeros(x.shape, dtype=float)
         self._dir_grad = np.zeros_like(x)
         # Set the algorithm operators
         for operator in (grad, prox, cost):
-- 
2.43.0

