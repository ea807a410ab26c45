From 8b96eb7c3c09173f116382397805dcebc07f2e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:18 +0000
Subject: [PATCH 01/21] Guarded simulation hook: execution order of the
 parallel loops of the scan

---
 parallel_control/my_assoc_scan.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/parallel_control/my_assoc_scan.py b/parallel_control/my_assoc_scan.py
index 14600ce..0f9a6a0 100644
--- a/parallel_control/my_assoc_scan.py
+++ b/parallel_control/my_assoc_scan.py
@@ -5,6 +5,19 @@ Simulated associative scan.
 """
 
 import math
+import os
+
+# Simulation hook, inactive unless the environment variable PARCON_SIM is set: a simulator
+# may install a function here which returns the iterations of a parallel loop in the order
+# in which they are to be executed.
+parallel_order = None
+
+
+def _parallel_loop(iterations):
+    """ Iterate over the iterations of a parallel loop. """
+    if parallel_order is not None and os.environ.get('PARCON_SIM'):
+        return parallel_order(iterations)
+    return iterations
 
 
 def my_assoc_scan(op, a, reverse=False):
@@ -39,7 +52,7 @@ def my_assoc_scan(op, a, reverse=False):
     
     # Up pass
     for d in range(log_n):
-        for i in range(0,n,2**(d+1)): # This would be a parallel loop
+        for i in _parallel_loop(range(0,n,2**(d+1))): # This would be a parallel loop
             i1 = i + 2**d - 1
             i2 = i + 2**(d+1) - 1
             
@@ -54,7 +67,7 @@ def my_assoc_scan(op, a, reverse=False):
     
     # Down pass
     for d in reversed(range(log_n)):
-        for i in range(0,n,2**(d+1)): # This would be a parallel loop
+        for i in _parallel_loop(range(0,n,2**(d+1))): # This would be a parallel loop
             i1 = i + 2**d - 1
             i2 = i + 2**(d+1) - 1
         
@@ -69,7 +82,7 @@ def my_assoc_scan(op, a, reverse=False):
                 a[i2] = op(a[i2],t)
                 
     # Extra pass
-    for i in range(n): # This is a parallel loop
+    for i in _parallel_loop(range(n)): # This is a parallel loop
         if a[i] is None:
             a[i] = a0[i]
         elif a0[i] is None:
-- 
2.43.0


From fc4b8b8d3812082c552eb458a1f0a62a4f9b211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 02/21] fix: default cross-cost matrices follow variable output
 dimensions in LQT.checkAndExpand

---
 parallel_control/lqt_np.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parallel_control/lqt_np.py b/parallel_control/lqt_np.py
index b6aa31a..9734e37 100755
--- a/parallel_control/lqt_np.py
+++ b/parallel_control/lqt_np.py
@@ -517,7 +517,10 @@ class LQT:
         if s is None:
             s = np.zeros(udim)
         if M is None:
-            M = np.zeros((rdim, udim))
+            if isinstance(X, list):
+                M = [np.zeros((Xk.shape[0], udim)) for Xk in X]  # r can be variable dimensional
+            else:
+                M = np.zeros((rdim, udim))
 
         # This looks a bit clumsy indeed:
         if not isinstance(F, list):
-- 
2.43.0


From 75b00b08a754047a74adccc141ee2330037a45ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:29 +0000
Subject: [PATCH 03/21] fix: keep the Riccati recursion symmetric so that it
 stays accurate on long horizons with unstable dynamics

---
 parallel_control/lqt_np.py | 3 +++
 parallel_control/lqt_tf.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/parallel_control/lqt_np.py b/parallel_control/lqt_np.py
index 9734e37..c0e728e 100755
--- a/parallel_control/lqt_np.py
+++ b/parallel_control/lqt_np.py
@@ -147,6 +147,7 @@ class LQR:
             Kx = linalg.solve(self.U + self.L.T @ S @ self.L,
                               self.L.T @ S @ self.F, assume_a='pos')
             S = self.F.T @ S @ (self.F - self.L @ Kx) + self.X
+            S = 0.5 * (S + S.T)  # Asymmetric rounding errors would grow with unstable F
             S_list.append(S)
             Kx_list.append(Kx)
 
@@ -360,6 +361,7 @@ class LQR:
             K = linalg.solve(self.U + self.L.T @ S @ self.L,
                              self.L.T @ S @ self.F, assume_a='pos')
             S = self.F.T @ S @ (self.F - self.L @ K) + self.X
+            S = 0.5 * (S + S.T)  # Asymmetric rounding errors would grow with unstable F
 
         return K, S
 
@@ -648,6 +650,7 @@ class LQT:
             S = self.H[k].T @ self.X[k] @ self.H[k] \
                 - self.H[k].T @ self.M[k] @ self.Z[k] @ Kx \
                 + self.F[k].T @ S @ (self.F[k] - self.L[k] @ Kx)
+            S = 0.5 * (S + S.T)  # Asymmetric rounding errors would grow with unstable F
             Kx_list.append(Kx)
             d_list.append(d)
             S_list.append(S)
diff --git a/parallel_control/lqt_tf.py b/parallel_control/lqt_tf.py
index 9825e9d..b27c4cf 100644
--- a/parallel_control/lqt_tf.py
+++ b/parallel_control/lqt_tf.py
@@ -135,6 +135,7 @@ def lqt_seq_backwardpass(Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us):
         d  = tf.linalg.cholesky_solve(CF, tf.expand_dims(rh,-1))[...,0]
         v  = mv(H, mv(X, r), transpose_a=True) + mv(F - mm(L,Kx), v - mv(S, c), transpose_a=True)
         S  = mm(F, mm(S, F - mm(L,Kx)), transpose_a=True) + mm(H, mm(X, H), transpose_a=True)
+        S  = 0.5 * (S + tf.linalg.matrix_transpose(S)) # Asymmetric rounding errors would grow with unstable F
 
         return S, v, Kx, d
 
-- 
2.43.0


From 281688debcd37e1e8d8cf8c876209a2870627a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 04/21] fix: FSC action values are not truncated to the type of
 integer stage costs

---
 parallel_control/fsc_np.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parallel_control/fsc_np.py b/parallel_control/fsc_np.py
index 40c491f..647be14 100755
--- a/parallel_control/fsc_np.py
+++ b/parallel_control/fsc_np.py
@@ -182,7 +182,7 @@ class FSC:
         for k in reversed(range(T)):
             L  = self.L[k]
             f  = self.f[k]
-            Vu = np.zeros_like(L)
+            Vu = np.zeros(L.shape, dtype=np.result_type(L, V))
             for u in range(Vu.shape[1]):
                 Vu[:,u] = L[:,u] + self.gamma * V[f[:,u]]
             u = Vu.argmin(axis=1)
@@ -300,7 +300,7 @@ class FSC:
             V_list.append(V)
             L  = self.L[k]
             f  = self.f[k]
-            Vu = np.zeros_like(L)
+            Vu = np.zeros(L.shape, dtype=np.result_type(L, V))
             for u in range(Vu.shape[1]):
                 Vu[:,u] = L[:,u] + V[f[:,u]]
             u = Vu.argmin(axis=1)
-- 
2.43.0


From ebb1146e6e481d7ad1f19319f6ef4c4ce64c8726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 05/21] fix: FSC.batch_solution finds optima whose cost exceeds
 1e10

---
 parallel_control/fsc_np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/fsc_np.py b/parallel_control/fsc_np.py
index 647be14..bfc0f5d 100755
--- a/parallel_control/fsc_np.py
+++ b/parallel_control/fsc_np.py
@@ -573,7 +573,7 @@ class FSC:
         u_list     = [0] * T
         min_u_list = u_list.copy()
         min_x_list = []
-        min_cost   = 1e10
+        min_cost   = np.inf
 
         udim = self.f[0].shape[1]
         done = False
-- 
2.43.0


From daaade7720a00169ded746f8b24a4712905fb636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 06/21] fix: parallel FSC does not replace finite costs above
 1e20 by its infinity

---
 parallel_control/fsc_np.py | 2 +-
 parallel_control/fsc_tf.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parallel_control/fsc_np.py b/parallel_control/fsc_np.py
index bfc0f5d..587f311 100755
--- a/parallel_control/fsc_np.py
+++ b/parallel_control/fsc_np.py
@@ -15,7 +15,7 @@ from parallel_control.my_assoc_scan import my_assoc_scan
 #
 ##############################################################################
 
-_FSC_NP_INFTY = 1e20 # This is used as "infinity" in computations
+_FSC_NP_INFTY = np.inf # This is used as "infinity" in computations
 
 ##############################################################################
 #
diff --git a/parallel_control/fsc_tf.py b/parallel_control/fsc_tf.py
index f4f77c2..b4748ff 100644
--- a/parallel_control/fsc_tf.py
+++ b/parallel_control/fsc_tf.py
@@ -117,7 +117,7 @@ def fsc_par_backwardpass_init_most(fs, Ls):
     nx = fs.shape[1]
     nu = fs.shape[2]
 
-    Vus = 1e20 * tf.ones((nb, nx, nu, nx), dtype=Ls.dtype) # TODO: Replace the magic constant with a constant
+    Vus = math.inf * tf.ones((nb, nx, nu, nx), dtype=Ls.dtype)
 
     #This is a bit of magic to do this:
     # Vu[x,u,f[x,u]] = L[x,u]
@@ -298,7 +298,7 @@ def fsc_par_fwdbwdpass_init_first(x0, L0):
 
     nx = L0.shape[0]
 
-    V = 1e20 * tf.ones((nx, nx), dtype=L0.dtype) # TODO: Replace the magic constant with a constant or use "inf"
+    V = math.inf * tf.ones((nx, nx), dtype=L0.dtype)
     ind1 = tf.expand_dims(tf.range(nx), -1)
     ind2 = tf.expand_dims(tf.repeat(x0, nx), -1)
     indices = tf.concat([ind1,ind2], -1)
-- 
2.43.0


From b954f2cdd2475a945ce281eb09dd52bc7fea73ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 07/21] fix: TensorFlow FSC accepts max_parallel=1, as needed
 for a single step

---
 parallel_control/fsc_tf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parallel_control/fsc_tf.py b/parallel_control/fsc_tf.py
index b4748ff..92dd39d 100644
--- a/parallel_control/fsc_tf.py
+++ b/parallel_control/fsc_tf.py
@@ -192,7 +192,7 @@ def fsc_par_backwardpass(fs, Ls, LT, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(fsc_par_comb_V_rev,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     Vs = tf.reverse(rev_elems, axis=[0])[..., 0]
 
@@ -273,7 +273,7 @@ def fsc_par_forwardpass(x0, fs, us, max_parallel=10000):
 
     elems = tfp.math.scan_associative(fsc_par_comb_f,
                                       elems,
-                                      max_num_levels=math.ceil(math.log2(max_parallel)))
+                                      max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     min_xs = elems[...,0]
 #    min_us = tf.gather_nd(us, tf.expand_dims(min_xs[:-1],-1), batch_dims=1)
@@ -342,7 +342,7 @@ def fsc_par_fwdbwdpass(x0, fs, Ls, us, Vs, max_parallel=10000):
 
     elems = tfp.math.scan_associative(fsc_par_comb_V,
                                       elems,
-                                      max_num_levels=math.ceil(math.log2(max_parallel)))
+                                      max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     Vfs = elems[:,0,:]
     min_xs = tf.argmin(Vfs + Vs, axis=-1, output_type=fs.dtype)
-- 
2.43.0


From 6f8c8180fb0c78803508edd39a01d136beffa4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 08/21] fix: fscToViterbi does not reverse the caller's lists
 in place

---
 parallel_control/viterbi_np.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/parallel_control/viterbi_np.py b/parallel_control/viterbi_np.py
index 187765a..00526c9 100644
--- a/parallel_control/viterbi_np.py
+++ b/parallel_control/viterbi_np.py
@@ -171,13 +171,8 @@ class Viterbi_np:
             min_x_list: List of states.
             V_list: List of value functions.
         """
-        V_list.reverse()
-        V_list_vit = np.array(V_list[:])
-        V_list.reverse()
-
-        min_x_list.reverse()
-        v_map = np.array(min_x_list[:])
-        min_x_list.reverse()
+        V_list_vit = np.array(V_list[::-1])
+        v_map = np.array(min_x_list[::-1])
 
         return v_map, V_list_vit
 
-- 
2.43.0


From b3c9113ff65a0bcb5b3f73522b7c070cc8a730b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 09/21] fix: TensorFlow Viterbi decoders handle a single
 observation

---
 parallel_control/viterbi_tf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parallel_control/viterbi_tf.py b/parallel_control/viterbi_tf.py
index b7a5156..f99de9b 100644
--- a/parallel_control/viterbi_tf.py
+++ b/parallel_control/viterbi_tf.py
@@ -373,7 +373,7 @@ def viterbi_par_forwardpass(prior, Pi, Po, ys, max_parallel=10000):
     elems1 = viterbi_par_forwardpass_init(prior, Pi, Po, ys)
     elems2 = tfp.math.scan_associative(viterbi_par_comb_V,
                                       elems1,
-                                      max_num_levels=math.ceil(math.log2(max_parallel)))
+                                      max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
     Ls = elems1[1:]
     Vs = elems2[:, 0, :]
 
@@ -428,7 +428,7 @@ def viterbi_par_backwardpass(us, VT, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(viterbi_par_comb_f,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     xs = tf.reverse(rev_elems, axis=[0])[..., 0]
 
@@ -512,7 +512,7 @@ def viterbi_par_bwfwpass(prior, Pi, Po, ys, Vs, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(viterbi_par_comb_V_rev,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     elems = tf.reverse(rev_elems, axis=[0])
 
-- 
2.43.0


From f705d08a76e778309596a606c6dd0361f23b1108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:55 +0000
Subject: [PATCH 10/21] fix: partial condensing handles state costs of low rank

---
 parallel_control/condensing_np.py | 2 +-
 parallel_control/condensing_tf.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parallel_control/condensing_np.py b/parallel_control/condensing_np.py
index d63a09a..49c994c 100644
--- a/parallel_control/condensing_np.py
+++ b/parallel_control/condensing_np.py
@@ -138,7 +138,7 @@ class LQTCondenser:
 
             tmp = np.zeros((rdim+udim)*Nc)
             tmp[0:(rdim*Nc)] = Hbar @ cbar
-            rsstar = linalg.solve(XUMstar, trans.T @ XUbar @ (rsbar - tmp), assume_a='pos')
+            rsstar = linalg.lstsq(XUMstar, trans.T @ XUbar @ (rsbar - tmp))[0] # Consistent, but XUMstar can be singular
 
             Xstar = XUMstar[0:xdim,0:xdim]
             Mstar = XUMstar[0:xdim,xdim:]
diff --git a/parallel_control/condensing_tf.py b/parallel_control/condensing_tf.py
index bb9ae9d..3251a52 100644
--- a/parallel_control/condensing_tf.py
+++ b/parallel_control/condensing_tf.py
@@ -121,7 +121,7 @@ def condense(Fs, cs, Ls, Hs, rs, Xs, Us, Nc):
 
     tmp = tf.concat([mv(Hbar, cbar), tf.zeros((Fs_blocks.shape[0], Lbar.shape[-1]), dtype=Fs_blocks.dtype)], 1)
     tmp = mv(trans, mv(XUbar, rsbar - tmp), transpose_a=True)
-    rsstar = tf.linalg.solve(XUMstar, tf.expand_dims(tmp,-1))[..., 0]
+    rsstar = mv(tf.linalg.pinv(XUMstar), tmp) # Consistent, but XUMstar can be singular
 
     rstar = rsstar[:,0:Fs_blocks.shape[-1]]
     sstar = rsstar[:,Fs_blocks.shape[-1]:]
-- 
2.43.0


From fe4319ee04de90c05c6141970b3dcb9f8594deab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:52 +0000
Subject: [PATCH 11/21] fix: exact Riccati solution of CLQR stays accurate on
 long horizons

---
 parallel_control/clqt_np.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parallel_control/clqt_np.py b/parallel_control/clqt_np.py
index f5fa22c..787b5c2 100644
--- a/parallel_control/clqt_np.py
+++ b/parallel_control/clqt_np.py
@@ -236,9 +236,9 @@ class CLQR:
             n = self.F.shape[0]
             H = np.block([[self.F, -LULT], [-self.X, -self.F.T]])
             Psi = linalg.expm(-dt*H)
-            CD = np.block([[np.eye(n)],[S]])
             for _ in reversed(range(steps)):
-                CD = Psi @ CD
+                # Restart from [I;S] on every step, because [C;D] gets ill-conditioned over a long horizon
+                CD = Psi @ np.block([[np.eye(n)],[S]])
                 S  = linalg.solve(CD[0:n,:], CD[n:,:].T, transposed=True)
                 S = 0.5 * (S + S.T)
                 Kx = ULT @ S
-- 
2.43.0


From 8cc32fdc60367e371b5f9925ffa07b44c84a235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:29 +0000
Subject: [PATCH 12/21] fix: discretisation does not truncate real gains when
 the state matrix is an integer array

---
 parallel_control/disc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parallel_control/disc.py b/parallel_control/disc.py
index 2f14e5f..7f5ff1e 100644
--- a/parallel_control/disc.py
+++ b/parallel_control/disc.py
@@ -31,7 +31,7 @@ def lti_disc(F, L, Qc=None, dt=1.0):
     if np.isscalar(Qc):
         Qc = np.array([[Qc]])
 
-    Phi = np.zeros((2*n,2*n), dtype=F.dtype)
+    Phi = np.zeros((2*n,2*n), dtype=np.result_type(F, L, Qc))
     Phi[ 0:n,  0:n] = F
     Phi[ 0:n,  n: ] = L @ Qc @ L.T
     Phi[n:2*n, n: ] = -F.T
@@ -69,7 +69,7 @@ def lti_disc_u(F, L, G=None, Qc=None, dt=1.0):
 
     m = G.shape[1]
 
-    Psi = np.zeros((n+m,n+m), dtype=F.dtype)
+    Psi = np.zeros((n+m,n+m), dtype=np.result_type(F, G))
     Psi[0:n, 0:n] = F
     Psi[0:n, n: ] = G
 
-- 
2.43.0


From 505f4cfb37150c5049e55f75f9e1cbb7f44eacde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:52 +0000
Subject: [PATCH 13/21] fix: TensorFlow condensing solves the consistent
 singular system without losing accuracy

---
 parallel_control/condensing_tf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parallel_control/condensing_tf.py b/parallel_control/condensing_tf.py
index 3251a52..924dff0 100644
--- a/parallel_control/condensing_tf.py
+++ b/parallel_control/condensing_tf.py
@@ -121,7 +121,10 @@ def condense(Fs, cs, Ls, Hs, rs, Xs, Us, Nc):
 
     tmp = tf.concat([mv(Hbar, cbar), tf.zeros((Fs_blocks.shape[0], Lbar.shape[-1]), dtype=Fs_blocks.dtype)], 1)
     tmp = mv(trans, mv(XUbar, rsbar - tmp), transpose_a=True)
-    rsstar = mv(tf.linalg.pinv(XUMstar), tmp) # Consistent, but XUMstar can be singular
+    # XUMstar @ rsstar = tmp is consistent, but XUMstar can be singular
+    w, V = tf.linalg.eigh(XUMstar)
+    w_min = w.shape[-1] * np.finfo(XUMstar.dtype.as_numpy_dtype).eps * w[..., -1:]
+    rsstar = mv(V, tf.math.divide_no_nan(mv(V, tmp, transpose_a=True), tf.where(w > w_min, w, 0)))
 
     rstar = rsstar[:,0:Fs_blocks.shape[-1]]
     sstar = rsstar[:,Fs_blocks.shape[-1]:]
-- 
2.43.0


From 90009f140c89eeb7daf1fef9917b58ebcba5ac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:42 +0000
Subject: [PATCH 14/21] fix: parareal default number of iterations must be the
 number of blocks

With fewer steps than blocks the default niter=steps stopped before the
iteration had reached the fine solution.
---
 parallel_control/parareal_clqt_np.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parallel_control/parareal_clqt_np.py b/parallel_control/parareal_clqt_np.py
index aa97518..da78ec0 100644
--- a/parallel_control/parareal_clqt_np.py
+++ b/parallel_control/parareal_clqt_np.py
@@ -175,7 +175,7 @@ class Parareal_CLQT_np:
         Parameters:
             blocks: Number of blocks.
             steps: Number of steps per block.
-            niter: Number of Parareal iterations.
+            niter: Number of Parareal iterations, default blocks, which gives the exact solution.
 
         Returns:
             Kx_list: List of control gains.
@@ -184,7 +184,7 @@ class Parareal_CLQT_np:
             v_list: List of value function offsets.
         """
         if niter is None:
-            niter = steps
+            niter = blocks
 
         S_curr_list, v_curr_list = self.initBackwardPass(blocks)
         S_G_list = S_curr_list
@@ -336,14 +336,14 @@ class Parareal_CLQT_np:
             Kx_list: List of control gains.
             d_list: List of control offsets.
             u_zoh: Whether to use zero-order hold for control.
-            niter: Number of iterations.
+            niter: Number of iterations, default blocks, which gives the exact solution.
 
         Returns:
             u_list: List of control inputs.
             x_list: List of states.
         """
         if niter is None:
-            niter = steps
+            niter = blocks
 
         x_curr_list = self.initForwardPass(blocks, x0, Kx_list, d_list, u_zoh=u_zoh)
         x_G_list = x_curr_list
@@ -513,7 +513,7 @@ class Parareal_CLQT_np:
             blocks: Number of blocks.
             steps: Number of steps per block.
             x0: Initial state.
-            niter: Number of Parareal iterations.
+            niter: Number of Parareal iterations, default blocks, which gives the exact solution.
 
         Returns:
             A_list: Dense list of A matrices.
@@ -521,7 +521,7 @@ class Parareal_CLQT_np:
             C_list: Dense list of C matrices.
         """
         if niter is None:
-            niter = steps
+            niter = blocks
 
         A_curr_list, b_curr_list, C_curr_list = self.initFwdBwdPass(blocks, x0)
         A_G_list = A_curr_list
-- 
2.43.0


From c815ebf34cb552483c676ecab5be4d67826f436d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:29 +0000
Subject: [PATCH 15/21] fix: interpolated combination gives NaN for flat cost
 tables

The three-point correction divided zero by zero where the sum of two value
functions is constant around its minimum.
---
 parallel_control/hjb_grid_1d_np.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parallel_control/hjb_grid_1d_np.py b/parallel_control/hjb_grid_1d_np.py
index c77e5c0..52fd35a 100644
--- a/parallel_control/hjb_grid_1d_np.py
+++ b/parallel_control/hjb_grid_1d_np.py
@@ -242,7 +242,9 @@ def combine_V_interp(Vij, Vjk):
     fm1 = jnp.take_along_axis(Vsum, jm1, axis=1)
     fp1 = jnp.take_along_axis(Vsum, jp1, axis=1)
 
-    Vik = fi - (fp1 - fm1)**2 / (fp1 + fm1 - 2.0 * fi + lam) / 8.0
+    den = fp1 + fm1 - 2.0 * fi + lam
+    # Zero curvature means a flat minimum, which needs no correction
+    Vik = fi - jnp.where(den > 0.0, (fp1 - fm1)**2 / jnp.where(den > 0.0, den, 1.0) / 8.0, 0.0)
 #    Vik = fi - (fp1 - fm1) ** 2 / (jnp.abs(fp1 + fm1 - 2.0 * fi) + lam) / 8.0
 
     return Vik[:,0,:]
@@ -267,7 +269,10 @@ def combine_V_interp2(Vij, Vjk):
             jm1 = jnp.abs(j-1) # Converts -1 to 1
             nm1 = f.shape[0]-1
             jp1 = nm1 - jnp.abs(nm1-j-1)  # Converts n to n-2
-            Vik[i,k] = f[j] - (f[jp1] - f[jm1])**2 / (f[jp1] + f[jm1] - 2.0 * f[j] + lam) / 8.0
+            den = f[jp1] + f[jm1] - 2.0 * f[j] + lam
+            Vik[i,k] = f[j]
+            if den > 0.0: # Zero curvature means a flat minimum, which needs no correction
+                Vik[i,k] -= (f[jp1] - f[jm1])**2 / den / 8.0
 #            if j == 0 or j == f.shape[0]-1:
 #                Vik[i,k] = f[j]
 #            else:
-- 
2.43.0


From d389c7cc8f898ec5a34b3c4fff3864eee5af7d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:29 +0000
Subject: [PATCH 16/21] fix: TensorFlow HJB combination for flat tables and
 max_parallel=1

Zero curvature gave NaN, and a parallelism limit of one (a single block)
made the associative scan fail.
---
 parallel_control/hjb_grid_1d_tf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parallel_control/hjb_grid_1d_tf.py b/parallel_control/hjb_grid_1d_tf.py
index 57b50f4..8f02fed 100644
--- a/parallel_control/hjb_grid_1d_tf.py
+++ b/parallel_control/hjb_grid_1d_tf.py
@@ -292,7 +292,9 @@ def combine_V_interp(Vij, Vjk):
     fm1 = tf.gather_nd(VsumT, jTm1, batch_dims=3)
     fp1 = tf.gather_nd(VsumT, jTp1, batch_dims=3)
 
-    return fi - (fp1 - fm1)**2 / (fp1 + fm1 - tf.constant(2.0, dtype=Vij.dtype) * fi + lam) / tf.constant(8.0, dtype=Vij.dtype)
+    # Zero curvature means a flat minimum, which needs no correction
+    den = fp1 + fm1 - tf.constant(2.0, dtype=Vij.dtype) * fi + lam
+    return fi - tf.math.divide_no_nan((fp1 - fm1)**2, den) / tf.constant(8.0, dtype=Vij.dtype)
 
 def combine_V_interp_rev(Vjk, Vij):
     """ Combine two value functions with interpolation in reversed order.
@@ -480,7 +482,7 @@ def par_bw_pass(LT, blocks, fd_x_grid, block_V, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(combine_V_interp_rev,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)), 1))
 
     Vs = tf.reverse(rev_elems, axis=[0])[..., 0]
     return Vs
-- 
2.43.0


From 88c7ac1f28ebf81898bc2147b94435b784a132c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:28 +0000
Subject: [PATCH 17/21] fix: NLQT.iterate overwrote the tracker it was given

Two overlapping iterations on one NLQT mixed up their linearizations, and
the LQT passed by the caller was modified. Iterate on a shallow copy.
---
 parallel_control/nlqt_np.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/parallel_control/nlqt_np.py b/parallel_control/nlqt_np.py
index cb46895..b0f12ae 100644
--- a/parallel_control/nlqt_np.py
+++ b/parallel_control/nlqt_np.py
@@ -10,6 +10,8 @@ Numpy-based Nonlinear (iterated) Linear Quadratic Tracker.
 #
 ###########################################################################
 
+import copy
+
 class NLQT:
 
     def __init__(self,lqt,model):
@@ -22,13 +24,17 @@ class NLQT:
         self.lqt = lqt
         self.model = model
 
-    def linearize(self, u_list, x_list):
+    def linearize(self, u_list, x_list, lqt=None):
         """ Linearize model around trajectory.
 
         Parameters:
             u_list: List of control inputs.
             x_list: List of states.
+            lqt: LQT where the linearization is stored, default self.lqt.
         """
+        if lqt is None:
+            lqt = self.lqt
+
         for k in range(len(u_list)):
             x = x_list[k]
             u = u_list[k]
@@ -41,9 +47,9 @@ class NLQT:
             L = Fu
             c = f - Fx @ x - Fu @ u
 
-            self.lqt.F[k] = F
-            self.lqt.c[k] = c
-            self.lqt.L[k] = L
+            lqt.F[k] = F
+            lqt.c[k] = c
+            lqt.L[k] = L
 
     def iterate(self, u_list, x_list, lqt_method=0):
         """ Iterate the nonlinear linear quadratic tracker.
@@ -57,16 +63,21 @@ class NLQT:
             u_list: List of updated control inputs.
             x_list: List of updated states.
         """
-        self.linearize(u_list, x_list)
+        # The linearization is specific to this iteration, so leave self.lqt as it is
+        lqt = copy.copy(self.lqt)
+        lqt.F = lqt.F[:]
+        lqt.c = lqt.c[:]
+        lqt.L = lqt.L[:]
+        self.linearize(u_list, x_list, lqt)
         if lqt_method == 0:
-            Kx_list, d_list, S_list, v_list = self.lqt.parBackwardPass()
-            u_list, x_list = self.lqt.parForwardPass(x_list[0], Kx_list, d_list)
+            Kx_list, d_list, S_list, v_list = lqt.parBackwardPass()
+            u_list, x_list = lqt.parForwardPass(x_list[0], Kx_list, d_list)
         elif lqt_method == 1:
-            Kx_list, d_list, S_list, v_list = self.lqt.parBackwardPass()
-            u_list, x_list = self.lqt.parFwdBwdPass(x_list[0], Kx_list, d_list, S_list, v_list)
+            Kx_list, d_list, S_list, v_list = lqt.parBackwardPass()
+            u_list, x_list = lqt.parFwdBwdPass(x_list[0], Kx_list, d_list, S_list, v_list)
         else:
-            Kx_list, d_list, S_list, v_list = self.lqt.seqBackwardPass()
-            u_list, x_list = self.lqt.seqForwardPass(x_list[0], Kx_list, d_list)
+            Kx_list, d_list, S_list, v_list = lqt.seqBackwardPass()
+            u_list, x_list = lqt.seqForwardPass(x_list[0], Kx_list, d_list)
         return u_list, x_list
 
     def simulate(self, x0, u_data):
-- 
2.43.0


From b923e9e11a9c3167b00b19e5edb0aa81377f6976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:28 +0000
Subject: [PATCH 18/21] fix: failed condense left the condenser in a mixed
 state

An error during LQTCondenser.condense destroyed the previously condensed
problem, so its solution could not be expanded any more.
---
 parallel_control/condensing_np.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/parallel_control/condensing_np.py b/parallel_control/condensing_np.py
index 49c994c..333eb96 100644
--- a/parallel_control/condensing_np.py
+++ b/parallel_control/condensing_np.py
@@ -54,7 +54,7 @@ class LQTCondenser:
         U = lqt.U[:]
 
         T = len(F)
-        self.T = T
+        T_orig = T
 
         # Append trivial dynamics if needed
         if (T % Nc) != 0:
@@ -72,10 +72,10 @@ class LQTCondenser:
 
         assert Tc * Nc == T, 'T is not divisible by Nc'
 
-        self.Lambda_list = []
-        self.cbar_list = []
-        self.Lbar_list = []
-        self.trans_list = []
+        Lambda_list = []
+        cbar_list = []
+        Lbar_list = []
+        trans_list = []
 
         clqt_F = []
         clqt_c = []
@@ -157,17 +157,16 @@ class LQTCondenser:
             clqt_M.append(Mstar)
             clqt_s.append(sstar)
 
-            self.Lambda_list.append(Lambda)
-            self.Lbar_list.append(Lbar)
-            self.cbar_list.append(cbar)
-            self.trans_list.append(trans)
+            Lambda_list.append(Lambda)
+            Lbar_list.append(Lbar)
+            cbar_list.append(cbar)
+            trans_list.append(trans)
 
         clqt = lqt_np.LQT.checkAndExpand(clqt_F,clqt_L,clqt_X,clqt_U,clqt_XT,clqt_c,clqt_H,clqt_r,clqt_HT,clqt_rT,None,clqt_s,clqt_M,T)
 
-        self.clqt = clqt
-        self.Nc = Nc
-        self.xdim = xdim
-        self.udim = udim
+        # Change the state at once, so that a failed call leaves the previous one usable
+        self.__dict__.update(T=T_orig, clqt=clqt, Nc=Nc, xdim=xdim, udim=udim, Lambda_list=Lambda_list,
+                             cbar_list=cbar_list, Lbar_list=Lbar_list, trans_list=trans_list)
 
         return clqt
 
-- 
2.43.0


From e55f447e553c7563947a21ecf513d0e099d121d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:26 +0000
Subject: [PATCH 19/21] fix: GEModel.genData reseeded the global random
 generator

Use a generator of its own with the same seed; the generated data is
unchanged.
---
 parallel_control/ge_model_np.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parallel_control/ge_model_np.py b/parallel_control/ge_model_np.py
index 52eff21..bbb6917 100644
--- a/parallel_control/ge_model_np.py
+++ b/parallel_control/ge_model_np.py
@@ -76,10 +76,10 @@ class GEModel:
             x_list: State list.
             y_list: Observation list.
         """
-        np.random.seed(self.seed)
+        rng = np.random.RandomState(self.seed)
 
         def categ_rnd(probs, N=1):
-            return np.random.choice(a=probs.shape[0], size=N, p=probs)
+            return rng.choice(a=probs.shape[0], size=N, p=probs)
 
         x_list = np.zeros((T,), dtype=int)
         y_list = np.zeros((T,), dtype=int)
-- 
2.43.0


From 63dd8e620c560e83ac8141e3cc1dd5bcf79f1a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 20/21] fix: time benchmarks with a clock that cannot step

time.time() follows adjustments of the wall clock, so a step during the
measurement gave wrong or negative run times.
---
 experiments-viterbi/run_text_experiments.py   | 16 +++++-----
 experiments-viterbi/run_text_experiments_2.py | 16 +++++-----
 parallel_control/contlin_speedtest.py         | 32 +++++++++----------
 parallel_control/finite_speedtest.py          | 20 ++++++------
 parallel_control/hjb_grid_1d_speedtest.py     | 12 +++----
 parallel_control/linear_speedtest.py          | 32 +++++++++----------
 parallel_control/nonlinear_speedtest.py       | 12 +++----
 parallel_control/viterbi_tf.py                | 28 ++++++++--------
 8 files changed, 84 insertions(+), 84 deletions(-)

diff --git a/experiments-viterbi/run_text_experiments.py b/experiments-viterbi/run_text_experiments.py
index c8ec0ec..f10dbd1 100644
--- a/experiments-viterbi/run_text_experiments.py
+++ b/experiments-viterbi/run_text_experiments.py
@@ -132,10 +132,10 @@ def main(argv):
         print("Running seq_fwbw...")
         with tf.device(device):
             zs_tf, Vs_tf = viterbi_tf.viterbi_seq_fwbw(tf_prior, tf_Pi, tf_Po, tf_ys)
-            tic = time.time()
+            tic = time.perf_counter()
             for i in range(n_iter):
                 zs_tf, Vs_tf = viterbi_tf.viterbi_seq_fwbw(tf_prior, tf_Pi, tf_Po, tf_ys)
-            toc = time.time()
+            toc = time.perf_counter()
             elapsed = (toc - tic) / n_iter
 
         text4 = text_model.indexToText(zs_tf[1:])
@@ -151,10 +151,10 @@ def main(argv):
         print("Running seqpar_fwbw...")
         with tf.device(device):
             zs_tf, Vs_tf = viterbi_tf.viterbi_seqpar_fwbw(tf_prior, tf_Pi, tf_Po, tf_ys)
-            tic = time.time()
+            tic = time.perf_counter()
             for i in range(n_iter):
                 zs_tf, Vs_tf = viterbi_tf.viterbi_seqpar_fwbw(tf_prior, tf_Pi, tf_Po, tf_ys)
-            toc = time.time()
+            toc = time.perf_counter()
             elapsed = (toc - tic) / n_iter
 
         text4 = text_model.indexToText(zs_tf[1:])
@@ -170,10 +170,10 @@ def main(argv):
         print("Running par_fwbw...")
         with tf.device(device):
             zs_tf, Vs_tf = viterbi_tf.viterbi_par_fwbw(tf_prior, tf_Pi, tf_Po, tf_ys)
-            tic = time.time()
+            tic = time.perf_counter()
             for i in range(n_iter):
                 zs_tf, Vs_tf = viterbi_tf.viterbi_par_fwbw(tf_prior, tf_Pi, tf_Po, tf_ys)
-            toc = time.time()
+            toc = time.perf_counter()
             elapsed = (toc - tic) / n_iter
 
         text4 = text_model.indexToText(zs_tf[1:])
@@ -189,10 +189,10 @@ def main(argv):
         print("Running par_fwbwfw...")
         with tf.device(device):
             zs_tf, Vs_tf = viterbi_tf.viterbi_par_fwbwfw(tf_prior, tf_Pi, tf_Po, tf_ys)
-            tic = time.time()
+            tic = time.perf_counter()
             for i in range(n_iter):
                 zs_tf, Vs_tf = viterbi_tf.viterbi_par_fwbwfw(tf_prior, tf_Pi, tf_Po, tf_ys)
-            toc = time.time()
+            toc = time.perf_counter()
             elapsed = (toc - tic) / n_iter
 
         text4 = text_model.indexToText(zs_tf[1:])
diff --git a/experiments-viterbi/run_text_experiments_2.py b/experiments-viterbi/run_text_experiments_2.py
index 4cf7222..7afd489 100644
--- a/experiments-viterbi/run_text_experiments_2.py
+++ b/experiments-viterbi/run_text_experiments_2.py
@@ -141,10 +141,10 @@ def main(argv):
         print("Running seq_fwbw...")
         with tf.device(device):
             zs_tf, Vs_tf = viterbi_tf.viterbi_seq_fwbw(tf_prior, tf_Pi, tf_Po, tf_ys)
-            tic = time.time()
+            tic = time.perf_counter()
             for i in range(n_iter):
                 zs_tf, Vs_tf = viterbi_tf.viterbi_seq_fwbw(tf_prior, tf_Pi, tf_Po, tf_ys)
-            toc = time.time()
+            toc = time.perf_counter()
             elapsed = (toc - tic) / n_iter
 
         text4 = text_model.indexToText(zs_tf[1:])
@@ -160,10 +160,10 @@ def main(argv):
         print("Running seqpar_fwbw...")
         with tf.device(device):
             zs_tf, Vs_tf = viterbi_tf.viterbi_seqpar_fwbw(tf_prior, tf_Pi, tf_Po, tf_ys)
-            tic = time.time()
+            tic = time.perf_counter()
             for i in range(n_iter):
                 zs_tf, Vs_tf = viterbi_tf.viterbi_seqpar_fwbw(tf_prior, tf_Pi, tf_Po, tf_ys)
-            toc = time.time()
+            toc = time.perf_counter()
             elapsed = (toc - tic) / n_iter
 
         text4 = text_model.indexToText(zs_tf[1:])
@@ -179,10 +179,10 @@ def main(argv):
         print("Running par_fwbw...")
         with tf.device(device):
             zs_tf, Vs_tf = viterbi_tf.viterbi_par_fwbw(tf_prior, tf_Pi, tf_Po, tf_ys)
-            tic = time.time()
+            tic = time.perf_counter()
             for i in range(n_iter):
                 zs_tf, Vs_tf = viterbi_tf.viterbi_par_fwbw(tf_prior, tf_Pi, tf_Po, tf_ys)
-            toc = time.time()
+            toc = time.perf_counter()
             elapsed = (toc - tic) / n_iter
 
         text4 = text_model.indexToText(zs_tf[1:])
@@ -198,10 +198,10 @@ def main(argv):
         print("Running par_fwbwfw...")
         with tf.device(device):
             zs_tf, Vs_tf = viterbi_tf.viterbi_par_fwbwfw(tf_prior, tf_Pi, tf_Po, tf_ys)
-            tic = time.time()
+            tic = time.perf_counter()
             for i in range(n_iter):
                 zs_tf, Vs_tf = viterbi_tf.viterbi_par_fwbwfw(tf_prior, tf_Pi, tf_Po, tf_ys)
-            toc = time.time()
+            toc = time.perf_counter()
             elapsed = (toc - tic) / n_iter
 
         text4 = text_model.indexToText(zs_tf[1:])
diff --git a/parallel_control/contlin_speedtest.py b/parallel_control/contlin_speedtest.py
index 171af4e..aaf2276 100644
--- a/parallel_control/contlin_speedtest.py
+++ b/parallel_control/contlin_speedtest.py
@@ -124,10 +124,10 @@ def clqt_seq_bw_speedtest(model, blocks, steps, n_iter=10, device='/CPU:0'):
     print('Running clqt_seq_bw_speedtest on device %s' % device)
     with tf.device(device):
         _ = clqt_seq_bw(blocks, steps, *model)  # Compilation run
-        tic = time.time()
+        tic = time.perf_counter()
         for i in range(n_iter):
             Ss1, vs1, Kxs1, ds1 = clqt_seq_bw(blocks, steps, *model)
-        toc = time.time()
+        toc = time.perf_counter()
         elapsed = (toc - tic) / n_iter
 
     Ss2, vs2, Kxs2, ds2, xs2, us2 = clqt_ref_sol_1(blocks, steps, *model)
@@ -176,10 +176,10 @@ def clqt_seq_bw_fw_speedtest(model, blocks, steps, n_iter=10, device='/CPU:0'):
     print('Running clqt_seq_bw_fw_speedtest on device %s' % device)
     with tf.device(device):
         _ = clqt_seq_bw_fw(blocks, steps, *model)  # Compilation run
-        tic = time.time()
+        tic = time.perf_counter()
         for i in range(n_iter):
             Ss1, vs1, Kxs1, ds1, xs1, us1 = clqt_seq_bw_fw(blocks, steps, *model)
-        toc = time.time()
+        toc = time.perf_counter()
         elapsed = (toc - tic) / n_iter
 
     Ss2, vs2, Kxs2, ds2, xs2, us2 = clqt_ref_sol_1(blocks, steps, *model)
@@ -227,10 +227,10 @@ def clqt_par_bw_speedtest(model, blocks, steps, n_iter=10, device='/CPU:0'):
     print('Running clqt_par_bw_speedtest on device %s' % device)
     with tf.device(device):
         _ = clqt_par_bw(blocks, steps, *model)  # Compilation run
-        tic = time.time()
+        tic = time.perf_counter()
         for i in range(n_iter):
             Ss1, vs1, Kxs1, ds1 = clqt_par_bw(blocks, steps, *model)
-        toc = time.time()
+        toc = time.perf_counter()
         elapsed = (toc - tic) / n_iter
 
     Ss2, vs2, Kxs2, ds2, xs2, us2 = clqt_ref_sol_1(blocks, steps, *model)
@@ -279,10 +279,10 @@ def clqt_par_bw_fw_speedtest(model, blocks, steps, n_iter=10, device='/CPU:0'):
     print('Running clqt_par_bw_fw_speedtest on device %s' % device)
     with tf.device(device):
         _ = clqt_par_bw_fw(blocks, steps, *model)  # Compilation run
-        tic = time.time()
+        tic = time.perf_counter()
         for i in range(n_iter):
             Ss1, vs1, Kxs1, ds1, xs1, us1 = clqt_par_bw_fw(blocks, steps, *model)
-        toc = time.time()
+        toc = time.perf_counter()
         elapsed = (toc - tic) / n_iter
 
     Ss2, vs2, Kxs2, ds2, xs2, us2 = clqt_ref_sol_1(blocks, steps, *model)
@@ -333,10 +333,10 @@ def clqt_par_bw_fwbw_speedtest(model, blocks, steps, n_iter=10, device='/CPU:0')
     print('Running clqt_par_bw_fwbw_speedtest on device %s' % device)
     with tf.device(device):
         _ = clqt_par_bw_fwbw(blocks, steps, *model)  # Compilation run
-        tic = time.time()
+        tic = time.perf_counter()
         for i in range(n_iter):
             Ss1, vs1, Kxs1, ds1, xs1, us1 = clqt_par_bw_fwbw(blocks, steps, *model)
-        toc = time.time()
+        toc = time.perf_counter()
         elapsed = (toc - tic) / n_iter
 
     Ss2, vs2, Kxs2, ds2, xs2, us2 = clqt_ref_sol_2(blocks, steps, *model)
@@ -386,10 +386,10 @@ def clqt_parareal_bw_speedtest(model, blocks, steps, parareal_niter=2, n_iter=10
     print('Running clqt_parareal_bw_speedtest(%d) on device %s' % (parareal_niter, device))
     with tf.device(device):
         _ = clqt_parareal_bw(blocks, steps, parareal_niter, *model)  # Compilation run
-        tic = time.time()
+        tic = time.perf_counter()
         for i in range(n_iter):
             Ss1, vs1, Kxs1, ds1 = clqt_parareal_bw(blocks, steps, parareal_niter, *model)
-        toc = time.time()
+        toc = time.perf_counter()
         elapsed = (toc - tic) / n_iter
 
     Ss2, vs2, Kxs2, ds2, xs2, us2 = clqt_ref_sol_1(blocks, steps, *model)
@@ -440,10 +440,10 @@ def clqt_parareal_bw_fw_speedtest(model, blocks, steps, parareal_niter=2, n_iter
     print('Running clqt_parareal_bw_fw_speedtest(%d) on device %s' % (parareal_niter, device))
     with tf.device(device):
         _ = clqt_parareal_bw_fw(blocks, steps, parareal_niter, *model)  # Compilation run
-        tic = time.time()
+        tic = time.perf_counter()
         for i in range(n_iter):
             Ss1, vs1, Kxs1, ds1, xs1, us1 = clqt_parareal_bw_fw(blocks, steps, parareal_niter, *model)
-        toc = time.time()
+        toc = time.perf_counter()
         elapsed = (toc - tic) / n_iter
 
     Ss2, vs2, Kxs2, ds2, xs2, us2 = clqt_ref_sol_1(blocks, steps, *model)
@@ -494,10 +494,10 @@ def clqt_parareal_bw_fwbw_speedtest(model, blocks, steps, parareal_niter=2, n_it
     print('Running clqt_parareal_bw_fwbw_speedtest(%d) on device %s' % (parareal_niter, device))
     with tf.device(device):
         _ = clqt_parareal_bw_fwbw(blocks, steps, parareal_niter, *model)  # Compilation run
-        tic = time.time()
+        tic = time.perf_counter()
         for i in range(n_iter):
             Ss1, vs1, Kxs1, ds1, xs1, us1 = clqt_parareal_bw_fwbw(blocks, steps, parareal_niter, *model)
-        toc = time.time()
+        toc = time.perf_counter()
         elapsed = (toc - tic) / n_iter
 
     Ss2, vs2, Kxs2, ds2, xs2, us2 = clqt_ref_sol_2(blocks, steps, *model)
diff --git a/parallel_control/finite_speedtest.py b/parallel_control/finite_speedtest.py
index 5a49c71..b5e8665 100644
--- a/parallel_control/finite_speedtest.py
+++ b/parallel_control/finite_speedtest.py
@@ -34,10 +34,10 @@ def fsc_seq_bw_speedtest(fsc_gen, n_iter=10, device='/CPU:0'):
     for (x0, fs, Ls, LT) in fsc_gen:
         with tf.device(device):
             _ = fsc_seq_bw(fs, Ls, LT) # Compilation run
-            tic = time.time()
+            tic = time.perf_counter()
             for i in range(n_iter):
                 _ = fsc_seq_bw(fs, Ls, LT)
-            toc = time.time()
+            toc = time.perf_counter()
         T.append(fs.shape[0])
         D.append(LT.shape[0])
         run_times.append((toc - tic) / n_iter)
@@ -58,10 +58,10 @@ def fsc_par_bw_speedtest(fsc_gen, n_iter=10, device='/CPU:0'):
     for (x0, fs, Ls, LT) in fsc_gen:
         with tf.device(device):
             _ = fsc_par_bw(fs, Ls, LT) # Compilation run
-            tic = time.time()
+            tic = time.perf_counter()
             for i in range(n_iter):
                 _ = fsc_par_bw(fs, Ls, LT)
-            toc = time.time()
+            toc = time.perf_counter()
         T.append(fs.shape[0])
         D.append(LT.shape[0])
         run_times.append((toc - tic) / n_iter)
@@ -83,10 +83,10 @@ def fsc_seq_bwfw_speedtest(fsc_gen, n_iter=10, device='/CPU:0'):
     for (x0, fs, Ls, LT) in fsc_gen:
         with tf.device(device):
             _ = fsc_seq_bwfw(x0, fs, Ls, LT) # Compilation run
-            tic = time.time()
+            tic = time.perf_counter()
             for i in range(n_iter):
                 _ = fsc_seq_bwfw(x0, fs, Ls, LT)
-            toc = time.time()
+            toc = time.perf_counter()
         T.append(fs.shape[0])
         D.append(LT.shape[0])
         run_times.append((toc - tic) / n_iter)
@@ -108,10 +108,10 @@ def fsc_par_bwfw_1_speedtest(fsc_gen, n_iter=10, device='/CPU:0'):
     for (x0, fs, Ls, LT) in fsc_gen:
         with tf.device(device):
             _ = fsc_par_bwfw_1(x0, fs, Ls, LT) # Compilation run
-            tic = time.time()
+            tic = time.perf_counter()
             for i in range(n_iter):
                 _ = fsc_par_bwfw_1(x0, fs, Ls, LT)
-            toc = time.time()
+            toc = time.perf_counter()
         T.append(fs.shape[0])
         D.append(LT.shape[0])
         run_times.append((toc - tic) / n_iter)
@@ -133,10 +133,10 @@ def fsc_par_bwfw_2_speedtest(fsc_gen, n_iter=10, device='/CPU:0'):
     for (x0, fs, Ls, LT) in fsc_gen:
         with tf.device(device):
             _ = fsc_par_bwfw_2(x0, fs, Ls, LT) # Compilation run
-            tic = time.time()
+            tic = time.perf_counter()
             for i in range(n_iter):
                 _ = fsc_par_bwfw_2(x0, fs, Ls, LT)
-            toc = time.time()
+            toc = time.perf_counter()
         T.append(fs.shape[0])
         D.append(LT.shape[0])
         run_times.append((toc - tic) / n_iter)
diff --git a/parallel_control/hjb_grid_1d_speedtest.py b/parallel_control/hjb_grid_1d_speedtest.py
index cf45015..74a6676 100644
--- a/parallel_control/hjb_grid_1d_speedtest.py
+++ b/parallel_control/hjb_grid_1d_speedtest.py
@@ -74,10 +74,10 @@ def seq_upwind_speedtest(model, blocks, steps=10, block_T=0.1, n_iter=10, device
 
     with tf.device(device):
         _ = seq_upwind(f, L, LT, block_T, blocks, steps, x_grid, u_grid) # Compilation run
-        tic = time.time()
+        tic = time.perf_counter()
         for i in range(n_iter):
             Vs = seq_upwind(f, L, LT, block_T, blocks, steps, x_grid, u_grid)
-        toc = time.time()
+        toc = time.perf_counter()
         elapsed = (toc - tic) / n_iter
 
     Vs0 = hjb_grid_1d_tf.seq_bw_pass_upwind(f, L, LT, T, blocks, steps, x_grid, u_grid)
@@ -133,10 +133,10 @@ def seq_assoc_speedtest(model, blocks, steps=10, block_T=0.1, n_iter=10, device=
 
     with tf.device(device):
         _ = seq_assoc(f, L, LT, block_T, blocks, steps, x_grid) # Compilation run
-        tic = time.time()
+        tic = time.perf_counter()
         for i in range(n_iter):
             Vs = seq_assoc(f, L, LT, block_T, blocks, steps, x_grid)
-        toc = time.time()
+        toc = time.perf_counter()
         elapsed = (toc - tic) / n_iter
 
     Vs0 = hjb_grid_1d_tf.seq_bw_pass_upwind(f, L, LT, T, blocks, steps, x_grid, u_grid)
@@ -192,10 +192,10 @@ def par_assoc_speedtest(model, blocks, steps=10, block_T=0.1, n_iter=10, device=
 
     with tf.device(device):
         _ = par_assoc(f, L, LT, block_T, blocks, steps, x_grid) # Compilation run
-        tic = time.time()
+        tic = time.perf_counter()
         for i in range(n_iter):
             Vs = par_assoc(f, L, LT, block_T, blocks, steps, x_grid)
-        toc = time.time()
+        toc = time.perf_counter()
         elapsed = (toc - tic) / n_iter
 
     Vs0 = hjb_grid_1d_tf.seq_bw_pass_upwind(f, L, LT, T, blocks, steps, x_grid, u_grid)
diff --git a/parallel_control/linear_speedtest.py b/parallel_control/linear_speedtest.py
index f543977..71351ec 100644
--- a/parallel_control/linear_speedtest.py
+++ b/parallel_control/linear_speedtest.py
@@ -73,10 +73,10 @@ def lqt_sequential_bw_speedtest(lqt_gen, n_iter=10, device='/CPU:0'):
     for (x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us) in lqt_gen:
         with tf.device(device):
             _ = lqt_sequential_bw(Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us)  # Compilation run
-            tic = time.time()
+            tic = time.perf_counter()
             for i in range(n_iter):
                 Ss, vs, Kxs, ds = lqt_sequential_bw(Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us)
-            toc = time.time()
+            toc = time.perf_counter()
         T.append(Fs.shape[0])
         D.append(Fs.shape[1])
         run_times.append((toc - tic) / n_iter)
@@ -117,10 +117,10 @@ def lqt_parallel_bw_speedtest(lqt_gen, n_iter=10, device='/CPU:0'):
     for (x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us) in lqt_gen:
         with tf.device(device):
             _ = lqt_parallel_bw(Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us) # Compilation run
-            tic = time.time()
+            tic = time.perf_counter()
             for i in range(n_iter):
                 _ = lqt_parallel_bw(Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us)
-            toc = time.time()
+            toc = time.perf_counter()
         T.append(Fs.shape[0])
         D.append(Fs.shape[1])
         run_times.append((toc - tic) / n_iter)
@@ -164,10 +164,10 @@ def lqt_sequential_bwfw_speedtest(lqt_gen, n_iter=10, device='/CPU:0'):
     for (x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us) in lqt_gen:
         with tf.device(device):
             _ = lqt_sequential_bwfw(x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us) # Compilation run
-            tic = time.time()
+            tic = time.perf_counter()
             for i in range(n_iter):
                 _ = lqt_sequential_bwfw(x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us)
-            toc = time.time()
+            toc = time.perf_counter()
         T.append(Fs.shape[0])
         D.append(Fs.shape[1])
         run_times.append((toc - tic) / n_iter)
@@ -210,10 +210,10 @@ def lqt_parallel_bwfw_1_speedtest(lqt_gen, n_iter=10, device='/CPU:0'):
     for (x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us) in lqt_gen:
         with tf.device(device):
             _ = lqt_parallel_bwfw_1(x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us) # Compilation run
-            tic = time.time()
+            tic = time.perf_counter()
             for i in range(n_iter):
                 _ = lqt_parallel_bwfw_1(x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us)
-            toc = time.time()
+            toc = time.perf_counter()
         T.append(Fs.shape[0])
         D.append(Fs.shape[1])
         run_times.append((toc - tic) / n_iter)
@@ -256,10 +256,10 @@ def lqt_parallel_bwfw_2_speedtest(lqt_gen, n_iter=10, device='/CPU:0'):
     for (x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us) in lqt_gen:
         with tf.device(device):
             _ = lqt_parallel_bwfw_2(x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us) # Compilation run
-            tic = time.time()
+            tic = time.perf_counter()
             for i in range(n_iter):
                 _ = lqt_parallel_bwfw_2(x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us)
-            toc = time.time()
+            toc = time.perf_counter()
         T.append(Fs.shape[0])
         D.append(Fs.shape[1])
         run_times.append((toc - tic) / n_iter)
@@ -317,10 +317,10 @@ def lqt_sequential_cond_bwfw_speedtest(lqt_gen, n_iter=10, device='/CPU:0', Nc=4
     for (x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us) in lqt_gen:
         with tf.device(device):
             _ = lqt_sequential_cond_bwfw(x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, Nc) # Compilation run
-            tic = time.time()
+            tic = time.perf_counter()
             for i in range(n_iter):
                 _ = lqt_sequential_cond_bwfw(x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, Nc)
-            toc = time.time()
+            toc = time.perf_counter()
         T.append(Fs.shape[0])
         D.append(Fs.shape[1])
         run_times.append((toc - tic) / n_iter)
@@ -380,10 +380,10 @@ def lqt_parallel_cond_bwfw_1_speedtest(lqt_gen, n_iter=10, device='/CPU:0', Nc=4
     for (x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us) in lqt_gen:
         with tf.device(device):
             _ = lqt_parallel_cond_bwfw_1(x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, Nc) # Compilation run
-            tic = time.time()
+            tic = time.perf_counter()
             for i in range(n_iter):
                 _ = lqt_parallel_cond_bwfw_1(x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, Nc)
-            toc = time.time()
+            toc = time.perf_counter()
         T.append(Fs.shape[0])
         D.append(Fs.shape[1])
         run_times.append((toc - tic) / n_iter)
@@ -442,10 +442,10 @@ def lqt_parallel_cond_bwfw_2_speedtest(lqt_gen, n_iter=10, device='/CPU:0', Nc=4
     for (x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us) in lqt_gen:
         with tf.device(device):
             _ = lqt_parallel_cond_bwfw_2(x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, Nc) # Compilation run
-            tic = time.time()
+            tic = time.perf_counter()
             for i in range(n_iter):
                 _ = lqt_parallel_cond_bwfw_2(x0_tf, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, Nc)
-            toc = time.time()
+            toc = time.perf_counter()
         T.append(Fs.shape[0])
         D.append(Fs.shape[1])
         run_times.append((toc - tic) / n_iter)
diff --git a/parallel_control/nonlinear_speedtest.py b/parallel_control/nonlinear_speedtest.py
index 8e4687f..2d1cc8d 100644
--- a/parallel_control/nonlinear_speedtest.py
+++ b/parallel_control/nonlinear_speedtest.py
@@ -62,10 +62,10 @@ def nlqt_iter_seq_speedtest(nlqt_gen, n_iter=10, device='/CPU:0'):
     for (us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us) in nlqt_gen:
         with tf.device(device):
             _ = nlqt_iter_seq(us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us)  # Compilation run
-            tic = time.time()
+            tic = time.perf_counter()
             for i in range(n_iter):
                 _ = nlqt_iter_seq(us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us)
-            toc = time.time()
+            toc = time.perf_counter()
         T.append(us.shape[0])
         D.append(xs.shape[1])
         run_times.append((toc - tic) / n_iter)
@@ -119,10 +119,10 @@ def nlqt_iter_par_1_speedtest(nlqt_gen, n_iter=10, device='/CPU:0'):
     for (us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us) in nlqt_gen:
         with tf.device(device):
             _ = nlqt_iter_par_1(us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us)  # Compilation run
-            tic = time.time()
+            tic = time.perf_counter()
             for i in range(n_iter):
                 _ = nlqt_iter_par_1(us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us)
-            toc = time.time()
+            toc = time.perf_counter()
         T.append(us.shape[0])
         D.append(xs.shape[1])
         run_times.append((toc - tic) / n_iter)
@@ -176,10 +176,10 @@ def nlqt_iter_par_2_speedtest(nlqt_gen, n_iter=10, device='/CPU:0'):
     for (us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us) in nlqt_gen:
         with tf.device(device):
             _ = nlqt_iter_par_2(us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us)  # Compilation run
-            tic = time.time()
+            tic = time.perf_counter()
             for i in range(n_iter):
                 _ = nlqt_iter_par_2(us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us)
-            toc = time.time()
+            toc = time.perf_counter()
         T.append(us.shape[0])
         D.append(xs.shape[1])
         run_times.append((toc - tic) / n_iter)
diff --git a/parallel_control/viterbi_tf.py b/parallel_control/viterbi_tf.py
index f99de9b..8a04e49 100644
--- a/parallel_control/viterbi_tf.py
+++ b/parallel_control/viterbi_tf.py
@@ -145,10 +145,10 @@ def viterbi_fsc_seq_bwfw_speedtest(model, steps, n_iter=10, device='/CPU:0'):
     print('Running viterbi_fsc_seq_bwfw_speedtest on device %s' % device)
     with tf.device(device):
         v_map, Vs = viterbi_fsc_seq_bwfw(fs, Ls, LT)  # Compilation run
-        tic = time.time()
+        tic = time.perf_counter()
         for i in range(n_iter):
             v_map, Vs = viterbi_fsc_seq_bwfw(fs, Ls, LT)
-        toc = time.time()
+        toc = time.perf_counter()
         elapsed = (toc - tic) / n_iter
 
     viterbi = viterbi_np.Viterbi_np(model.prior, model.Pi, model.Po)
@@ -179,10 +179,10 @@ def viterbi_fsc_par_bwfw_speedtest(model, steps, n_iter=10, device='/CPU:0'):
     print('Running viterbi_fsc_par_bwfw_speedtest on device %s' % device)
     with tf.device(device):
         v_map, Vs = viterbi_fsc_par_bwfw(fs, Ls, LT)  # Compilation run
-        tic = time.time()
+        tic = time.perf_counter()
         for i in range(n_iter):
             v_map, Vs = viterbi_fsc_par_bwfw(fs, Ls, LT)
-        toc = time.time()
+        toc = time.perf_counter()
         elapsed = (toc - tic) / n_iter
 
     viterbi = viterbi_np.Viterbi_np(model.prior, model.Pi, model.Po)
@@ -213,10 +213,10 @@ def viterbi_fsc_par_bwfwbw_speedtest(model, steps, n_iter=10, device='/CPU:0'):
     print('Running viterbi_fsc_par_bwfwbw_speedtest on device %s' % device)
     with tf.device(device):
         v_map, Vs = viterbi_fsc_par_bwfwbw(fs, Ls, LT)  # Compilation run
-        tic = time.time()
+        tic = time.perf_counter()
         for i in range(n_iter):
             v_map, Vs = viterbi_fsc_par_bwfwbw(fs, Ls, LT)
-        toc = time.time()
+        toc = time.perf_counter()
         elapsed = (toc - tic) / n_iter
 
     viterbi = viterbi_np.Viterbi_np(model.prior, model.Pi, model.Po)
@@ -567,10 +567,10 @@ def viterbi_seq_fwbw_speedtest(model, steps, n_iter=10, device='/CPU:0'):
     print('Running viterbi_seq_fwbw_speedtest on device %s' % device)
     with tf.device(device):
         v_map, Vs = viterbi_seq_fwbw(prior, Pi, Po, ys)  # Compilation run
-        tic = time.time()
+        tic = time.perf_counter()
         for i in range(n_iter):
             v_map, Vs = viterbi_seq_fwbw(prior, Pi, Po, ys)
-        toc = time.time()
+        toc = time.perf_counter()
         elapsed = (toc - tic) / n_iter
 
     viterbi = viterbi_np.Viterbi_np(model.prior, model.Pi, model.Po)
@@ -604,10 +604,10 @@ def viterbi_par_fwbw_speedtest(model, steps, n_iter=10, device='/CPU:0'):
     print('Running viterbi_par_fwbw_speedtest on device %s' % device)
     with tf.device(device):
         v_map, Vs = viterbi_par_fwbw(prior, Pi, Po, ys)  # Compilation run
-        tic = time.time()
+        tic = time.perf_counter()
         for i in range(n_iter):
             v_map, Vs = viterbi_par_fwbw(prior, Pi, Po, ys)
-        toc = time.time()
+        toc = time.perf_counter()
         elapsed = (toc - tic) / n_iter
 
     viterbi = viterbi_np.Viterbi_np(model.prior, model.Pi, model.Po)
@@ -640,10 +640,10 @@ def viterbi_seqpar_fwbw_speedtest(model, steps, n_iter=10, device='/CPU:0'):
     print('Running viterbi_seqpar_fwbw_speedtest on device %s' % device)
     with tf.device(device):
         v_map, Vs = viterbi_seqpar_fwbw(prior, Pi, Po, ys)  # Compilation run
-        tic = time.time()
+        tic = time.perf_counter()
         for i in range(n_iter):
             v_map, Vs = viterbi_seqpar_fwbw(prior, Pi, Po, ys)
-        toc = time.time()
+        toc = time.perf_counter()
         elapsed = (toc - tic) / n_iter
 
     viterbi = viterbi_np.Viterbi_np(model.prior, model.Pi, model.Po)
@@ -676,10 +676,10 @@ def viterbi_par_fwbwfw_speedtest(model, steps, n_iter=10, device='/CPU:0'):
     print('Running viterbi_par_fwbwfw_speedtest on device %s' % device)
     with tf.device(device):
         v_map, Vs = viterbi_par_fwbwfw(prior, Pi, Po, ys)  # Compilation run
-        tic = time.time()
+        tic = time.perf_counter()
         for i in range(n_iter):
             v_map, Vs = viterbi_par_fwbwfw(prior, Pi, Po, ys)
-        toc = time.time()
+        toc = time.perf_counter()
         elapsed = (toc - tic) / n_iter
 
     viterbi = viterbi_np.Viterbi_np(model.prior, model.Pi, model.Po)
-- 
2.43.0


From 57bcd9aaec668116f5fc34a9f94839bb35dc8d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:37 +0000
Subject: [PATCH 21/21] fix: mass model used one step less when Tf/dt rounds
 below a whole number

T = int(Tf/dt) gave 28 steps for Tf = 10, dt = 10/29, so mass_generator
produced problems that were one step shorter than requested.
---
 parallel_control/mass_model_np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/mass_model_np.py b/parallel_control/mass_model_np.py
index ba54c28..a7329c9 100644
--- a/parallel_control/mass_model_np.py
+++ b/parallel_control/mass_model_np.py
@@ -78,7 +78,7 @@ class MassModel:
         Qc = np.eye(self.Lc.shape[1])
         F, L, Q = disc.lti_disc_u(self.Fc, self.Lc, G, Qc, dt)
 
-        T = int(Tf/dt)
+        T = int(round(Tf/dt, 6))  # Tf/dt can be just below a whole number
 
         lqt = lqt_np.LQT.checkAndExpand(F, L, self.X, self.U, self.XT, T=T)
 
-- 
2.43.0

