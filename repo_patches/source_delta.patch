From 33e5d4e639419ed834f6724f2fb32500203a7c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 01/12] fix: batch FSC solution returned no trajectory when all
 costs exceed 1e10

---
 parallel_control/fsc_np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/fsc_np.py b/parallel_control/fsc_np.py
index 40c491f..fddf99a 100755
--- a/parallel_control/fsc_np.py
+++ b/parallel_control/fsc_np.py
@@ -573,7 +573,7 @@ class FSC:
         u_list     = [0] * T
         min_u_list = u_list.copy()
         min_x_list = []
-        min_cost   = 1e10
+        min_cost   = np.inf
 
         udim = self.f[0].shape[1]
         done = False
-- 
2.43.0


From 03318ee4a9878620ffeec9effdf3938e2b377549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:45 +0000
Subject: [PATCH 02/12] fix: integer stage costs truncated the cost-to-go in
 FSC backward passes

---
 parallel_control/fsc_np.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parallel_control/fsc_np.py b/parallel_control/fsc_np.py
index fddf99a..bfc0f5d 100755
--- a/parallel_control/fsc_np.py
+++ b/parallel_control/fsc_np.py
@@ -182,7 +182,7 @@ class FSC:
         for k in reversed(range(T)):
             L  = self.L[k]
             f  = self.f[k]
-            Vu = np.zeros_like(L)
+            Vu = np.zeros(L.shape, dtype=np.result_type(L, V))
             for u in range(Vu.shape[1]):
                 Vu[:,u] = L[:,u] + self.gamma * V[f[:,u]]
             u = Vu.argmin(axis=1)
@@ -300,7 +300,7 @@ class FSC:
             V_list.append(V)
             L  = self.L[k]
             f  = self.f[k]
-            Vu = np.zeros_like(L)
+            Vu = np.zeros(L.shape, dtype=np.result_type(L, V))
             for u in range(Vu.shape[1]):
                 Vu[:,u] = L[:,u] + V[f[:,u]]
             u = Vu.argmin(axis=1)
-- 
2.43.0


From 79ff4a9a354ad12ab02d0bbde63916711be4133e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 03/12] fix: fsc_tf parallel passes failed for a single step
 with max_parallel=1

---
 parallel_control/fsc_tf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parallel_control/fsc_tf.py b/parallel_control/fsc_tf.py
index f4f77c2..b546f10 100644
--- a/parallel_control/fsc_tf.py
+++ b/parallel_control/fsc_tf.py
@@ -192,7 +192,7 @@ def fsc_par_backwardpass(fs, Ls, LT, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(fsc_par_comb_V_rev,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     Vs = tf.reverse(rev_elems, axis=[0])[..., 0]
 
@@ -273,7 +273,7 @@ def fsc_par_forwardpass(x0, fs, us, max_parallel=10000):
 
     elems = tfp.math.scan_associative(fsc_par_comb_f,
                                       elems,
-                                      max_num_levels=math.ceil(math.log2(max_parallel)))
+                                      max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     min_xs = elems[...,0]
 #    min_us = tf.gather_nd(us, tf.expand_dims(min_xs[:-1],-1), batch_dims=1)
@@ -342,7 +342,7 @@ def fsc_par_fwdbwdpass(x0, fs, Ls, us, Vs, max_parallel=10000):
 
     elems = tfp.math.scan_associative(fsc_par_comb_V,
                                       elems,
-                                      max_num_levels=math.ceil(math.log2(max_parallel)))
+                                      max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     Vfs = elems[:,0,:]
     min_xs = tf.argmin(Vfs + Vs, axis=-1, output_type=fs.dtype)
-- 
2.43.0


From b4a5d4d3d594a23716a877b3b79fc088ce254762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 04/12] fix: viterbi_tf parallel passes failed for a single
 step with max_parallel=1

---
 parallel_control/viterbi_tf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parallel_control/viterbi_tf.py b/parallel_control/viterbi_tf.py
index b7a5156..f99de9b 100644
--- a/parallel_control/viterbi_tf.py
+++ b/parallel_control/viterbi_tf.py
@@ -373,7 +373,7 @@ def viterbi_par_forwardpass(prior, Pi, Po, ys, max_parallel=10000):
     elems1 = viterbi_par_forwardpass_init(prior, Pi, Po, ys)
     elems2 = tfp.math.scan_associative(viterbi_par_comb_V,
                                       elems1,
-                                      max_num_levels=math.ceil(math.log2(max_parallel)))
+                                      max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
     Ls = elems1[1:]
     Vs = elems2[:, 0, :]
 
@@ -428,7 +428,7 @@ def viterbi_par_backwardpass(us, VT, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(viterbi_par_comb_f,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     xs = tf.reverse(rev_elems, axis=[0])[..., 0]
 
@@ -512,7 +512,7 @@ def viterbi_par_bwfwpass(prior, Pi, Po, ys, Vs, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(viterbi_par_comb_V_rev,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     elems = tf.reverse(rev_elems, axis=[0])
 
-- 
2.43.0


From f1326754d6d3656af99a430a7c41bebddce08e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 05/12] fix: hjb_grid_1d_tf parallel passes failed for a single
 step with max_parallel=1

---
 parallel_control/hjb_grid_1d_tf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/hjb_grid_1d_tf.py b/parallel_control/hjb_grid_1d_tf.py
index 57b50f4..9f066ea 100644
--- a/parallel_control/hjb_grid_1d_tf.py
+++ b/parallel_control/hjb_grid_1d_tf.py
@@ -480,7 +480,7 @@ def par_bw_pass(LT, blocks, fd_x_grid, block_V, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(combine_V_interp_rev,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     Vs = tf.reverse(rev_elems, axis=[0])[..., 0]
     return Vs
-- 
2.43.0


From 22ad3b4b7df2d4bf3edf4bd47a619244e203aa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 06/12] fix: batchSolution of LQT failed when the final output
 has another dimension than the running output

---
 parallel_control/lqt_np.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/parallel_control/lqt_np.py b/parallel_control/lqt_np.py
index b6aa31a..3051a42 100755
--- a/parallel_control/lqt_np.py
+++ b/parallel_control/lqt_np.py
@@ -1087,13 +1087,14 @@ class LQT:
         n = self.F[0].shape[0]  # x size
         m = self.L[0].shape[1]  # u size
         p = self.H[0].shape[0]  # output size
+        pT = self.HT.shape[0]  # final output size
 
         A = np.zeros((n * T, n * T))
         d = np.zeros(n * T)
         B = np.zeros((n * T, m * T))
-        tH1 = np.zeros((p * T, n * T))
-        tr1 = np.zeros(p * T)
-        tX = np.zeros((p * T, p * T))
+        tH1 = np.zeros((p * (T - 1) + pT, n * T))
+        tr1 = np.zeros(p * (T - 1) + pT)
+        tX = np.zeros((p * (T - 1) + pT, p * (T - 1) + pT))
         tH0 = np.zeros((p * T, n * T))
         tr0 = np.zeros(p * T)
         tZ = np.zeros((m * T, m * T))
@@ -1124,9 +1125,9 @@ class LQT:
                 tr1[p * i:p * (i + 1)] = self.r[i + 1]
                 tX[p * i:p * (i + 1), p * i:p * (i + 1)] = self.X[i + 1]
             else:
-                tH1[p * i:p * (i + 1), n * i:n * (i + 1)] = self.HT
-                tr1[p * i:p * (i + 1)] = self.rT
-                tX[p * i:p * (i + 1), p * i:p * (i + 1)] = self.XT
+                tH1[p * i:, n * i:n * (i + 1)] = self.HT
+                tr1[p * i:] = self.rT
+                tX[p * i:, p * i:] = self.XT
 
         d[0:n] = d[0:n] + self.F[0] @ x0
 
-- 
2.43.0


From 9a6fe8c49185878970c4775b7b1ac9e4ef299f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:07 +0000
Subject: [PATCH 07/12] fix: condensing failed for blocks whose outputs do not
 determine the initial state

---
 parallel_control/condensing_np.py | 22 +++++++++-------------
 parallel_control/condensing_tf.py | 30 +++++++++---------------------
 2 files changed, 18 insertions(+), 34 deletions(-)

diff --git a/parallel_control/condensing_np.py b/parallel_control/condensing_np.py
index d63a09a..f0cd77c 100644
--- a/parallel_control/condensing_np.py
+++ b/parallel_control/condensing_np.py
@@ -6,7 +6,6 @@ produce a wrong result. Could be extended later though.
 @author: Simo Särkkä
 """
 
-from scipy import linalg
 import numpy as np
 import parallel_control.lqt_np as lqt_np
 
@@ -134,18 +133,15 @@ class LQTCondenser:
             trans[0:(rdim*Nc),xdim:] = Hbar @ Lbar
             trans[(rdim*Nc):,xdim:] = np.eye(udim*Nc)
 
-            XUMstar = trans.T @ XUbar @ trans
-
-            tmp = np.zeros((rdim+udim)*Nc)
-            tmp[0:(rdim*Nc)] = Hbar @ cbar
-            rsstar = linalg.solve(XUMstar, trans.T @ XUbar @ (rsbar - tmp), assume_a='pos')
-
-            Xstar = XUMstar[0:xdim,0:xdim]
-            Mstar = XUMstar[0:xdim,xdim:]
-            Ustar = XUMstar[xdim:,xdim:]
-            rstar = rsstar[0:xdim]
-            sstar = rsstar[xdim:]
-            Hstar = np.eye(xdim)
+            # Use the stacked outputs of the block as the output of the condensed model,
+            # because the minimizer of its cost over (x,u) need not be unique
+            HLbar = Hbar @ Lbar
+            Xstar = XUbar[0:(rdim*Nc),0:(rdim*Nc)]
+            Mstar = Xstar @ HLbar
+            Ustar = HLbar.T @ Xstar @ HLbar + XUbar[(rdim*Nc):,(rdim*Nc):]
+            rstar = rsbar[0:(rdim*Nc)] - Hbar @ cbar
+            sstar = rsbar[(rdim*Nc):]
+            Hstar = Hbar @ Lambda
 
             clqt_F.append(Fstar)
             clqt_c.append(cstar)
diff --git a/parallel_control/condensing_tf.py b/parallel_control/condensing_tf.py
index bb9ae9d..288ed44 100644
--- a/parallel_control/condensing_tf.py
+++ b/parallel_control/condensing_tf.py
@@ -77,8 +77,6 @@ def condense(Fs, cs, Ls, Hs, rs, Xs, Us, Nc):
     Xbar = create_blkdiag(tf.reshape(tf.expand_dims(Xs,0), (Tc,Nc,Xs.shape[1],Xs.shape[2])))
     Ubar = create_blkdiag(tf.reshape(tf.expand_dims(Us,0), (Tc,Nc,Us.shape[1],Us.shape[2])))
     Hbar = create_blkdiag(tf.reshape(tf.expand_dims(Hs,0), (Tc,Nc,Hs.shape[1],Hs.shape[2])))
-    XUbar = tf.concat([tf.pad(Xbar, [[0,0], [0,0], [0,Ubar.shape[2]]]),
-                       tf.pad(Ubar, [[0,0], [0,0], [Xbar.shape[2],0]])], axis=1)
     rsbar = tf.concat([tf.reshape(rs, shape=(Tc,Nc * rs.shape[1])),
                        tf.zeros((Tc,Nc*Us.shape[1]), dtype=rs.dtype)], axis=1)
 
@@ -111,25 +109,15 @@ def condense(Fs, cs, Ls, Hs, rs, Xs, Us, Nc):
     Lstar = tf.pad(Lbar_row, [[0,0],[0,0],[0, Ls_blocks.shape[3] * Nc - Lbar_row.shape[2]]])
     cstar = cbar_row
 
-    # Transform cost function
-    trans_r1 = tf.concat([mm(Hbar, Lambda), mm(Hbar, Lbar)], 2)
-    trans_r2 = tf.concat([tf.zeros((Fs_blocks.shape[0],Lbar.shape[-1],Fs_blocks.shape[-1]), dtype=Fs_blocks.dtype),
-                          tf.eye(Lbar.shape[-1], batch_shape=(Fs_blocks.shape[0],), dtype=Fs_blocks.dtype)], 2)
-    trans = tf.concat([trans_r1, trans_r2], 1)
-
-    XUMstar = mm(mm(trans, XUbar, transpose_a=True), trans)
-
-    tmp = tf.concat([mv(Hbar, cbar), tf.zeros((Fs_blocks.shape[0], Lbar.shape[-1]), dtype=Fs_blocks.dtype)], 1)
-    tmp = mv(trans, mv(XUbar, rsbar - tmp), transpose_a=True)
-    rsstar = tf.linalg.solve(XUMstar, tf.expand_dims(tmp,-1))[..., 0]
-
-    rstar = rsstar[:,0:Fs_blocks.shape[-1]]
-    sstar = rsstar[:,Fs_blocks.shape[-1]:]
-
-    Xstar = XUMstar[:,0:Fs_blocks.shape[-1],0:Fs_blocks.shape[-1]]
-    Mstar = XUMstar[:,0:Fs_blocks.shape[-1],Fs_blocks.shape[-1]:]
-    Ustar = XUMstar[:,Fs_blocks.shape[-1]:,Fs_blocks.shape[-1]:]
-    Hstar = tf.eye(Fs_blocks.shape[-1], batch_shape=(Fs_blocks.shape[0],), dtype=Fs_blocks.dtype)
+    # Transform cost function. Use the stacked outputs of the block as the output of
+    # the condensed model, because the minimizer of its cost over (x,u) need not be unique
+    HLbar = mm(Hbar, Lbar)
+    Xstar = Xbar
+    Mstar = mm(Xbar, HLbar)
+    Ustar = mm(HLbar, Mstar, transpose_a=True) + Ubar
+    rstar = rsbar[:,0:Hbar.shape[1]] - mv(Hbar, cbar)
+    sstar = rsbar[:,Hbar.shape[1]:]
+    Hstar = mm(Hbar, Lambda)
 
     return Fstar, cstar, Lstar, Hstar, rstar, Xstar, Ustar, Mstar, sstar, Lambda, cbar, Lbar
 
-- 
2.43.0


From 52aabec9a8fce9cbd8738ed394c4e9e1ad442fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:09 +0000
Subject: [PATCH 08/12] fix: lti_disc and lti_disc_u truncated noise and input
 matrices for an integer system matrix

---
 parallel_control/disc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parallel_control/disc.py b/parallel_control/disc.py
index 2f14e5f..7f5ff1e 100644
--- a/parallel_control/disc.py
+++ b/parallel_control/disc.py
@@ -31,7 +31,7 @@ def lti_disc(F, L, Qc=None, dt=1.0):
     if np.isscalar(Qc):
         Qc = np.array([[Qc]])
 
-    Phi = np.zeros((2*n,2*n), dtype=F.dtype)
+    Phi = np.zeros((2*n,2*n), dtype=np.result_type(F, L, Qc))
     Phi[ 0:n,  0:n] = F
     Phi[ 0:n,  n: ] = L @ Qc @ L.T
     Phi[n:2*n, n: ] = -F.T
@@ -69,7 +69,7 @@ def lti_disc_u(F, L, G=None, Qc=None, dt=1.0):
 
     m = G.shape[1]
 
-    Psi = np.zeros((n+m,n+m), dtype=F.dtype)
+    Psi = np.zeros((n+m,n+m), dtype=np.result_type(F, G))
     Psi[0:n, 0:n] = F
     Psi[0:n, n: ] = G
 
-- 
2.43.0


From 156232b141ddf8786c127a5b6f8cc792818c7bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 09/12] fix: upwind_model_block_V (TensorFlow) declared all
 negative initial states unreachable

---
 parallel_control/cnonlin_models_tf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/cnonlin_models_tf.py b/parallel_control/cnonlin_models_tf.py
index 46e0a6b..dfb4236 100644
--- a/parallel_control/cnonlin_models_tf.py
+++ b/parallel_control/cnonlin_models_tf.py
@@ -116,6 +116,6 @@ def upwind_model_block_V(inf_value, block_dt, x_grid):
 
     a = tf.exp(block_dt)
     cond1 = tf.logical_and(tf.logical_and(tf.greater_equal(x0_mesh, 0.0), tf.greater_equal(xf_mesh, x0_mesh)), tf.less_equal(xf_mesh, a * x0_mesh))
-    cond2 = tf.logical_and(tf.logical_and(tf.greater_equal(x0_mesh, 0.0), tf.greater_equal(xf_mesh, a * x0_mesh)), tf.less_equal(xf_mesh, x0_mesh))
+    cond2 = tf.logical_and(tf.logical_and(tf.less_equal(x0_mesh, 0.0), tf.greater_equal(xf_mesh, a * x0_mesh)), tf.less_equal(xf_mesh, x0_mesh))
 
     return tf.where(tf.logical_or(cond1,cond2), zero_mesh, inf_mesh)
-- 
2.43.0


From ea0fafd0c8adf21a04acbe1fdc7c824db8432987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 10/12] fix: direct shooting (NumPy/JAX) failed when T / dt
 rounded above the number of steps

---
 parallel_control/hjb_grid_1d_np.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parallel_control/hjb_grid_1d_np.py b/parallel_control/hjb_grid_1d_np.py
index c77e5c0..c821f47 100644
--- a/parallel_control/hjb_grid_1d_np.py
+++ b/parallel_control/hjb_grid_1d_np.py
@@ -53,7 +53,7 @@ def fun_and_con_1(g, L, T, x0, xf, a_vec, b_vec):
         c_vec: Constraint violation vector
     """
     dt = T / a_vec.shape[0]
-    t_vec = jax.numpy.arange(0, T, dt)
+    t_vec = dt * jnp.arange(a_vec.shape[0])
     def body(carry, inp):
         a, b, ti = inp
         def f(xc, t):
@@ -126,7 +126,7 @@ def fun_and_con_2(g, L, T, x0, xf, theta):
         c_vec: Constraint violation vector
     """
     dt = T / (theta.shape[0]-1)
-    t_vec = jax.numpy.arange(0, T, dt)
+    t_vec = dt * jnp.arange(theta.shape[0]-1)
     def body(carry, inp):
         _, prev_u = carry
         b, ti = inp
-- 
2.43.0


From 752b01bc57ff5b901bf0970d9b9138703dcfcc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 11/12] fix: interpolated combination of value functions gave
 NaN where the minimum is flat

---
 parallel_control/hjb_grid_1d_np.py | 7 +++++--
 parallel_control/hjb_grid_1d_tf.py | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/parallel_control/hjb_grid_1d_np.py b/parallel_control/hjb_grid_1d_np.py
index c821f47..827f43c 100644
--- a/parallel_control/hjb_grid_1d_np.py
+++ b/parallel_control/hjb_grid_1d_np.py
@@ -242,7 +242,9 @@ def combine_V_interp(Vij, Vjk):
     fm1 = jnp.take_along_axis(Vsum, jm1, axis=1)
     fp1 = jnp.take_along_axis(Vsum, jp1, axis=1)
 
-    Vik = fi - (fp1 - fm1)**2 / (fp1 + fm1 - 2.0 * fi + lam) / 8.0
+    den = fp1 + fm1 - 2.0 * fi + lam
+    flat = den == 0.0  # All three values equal, the parabola is constant
+    Vik = fi - jnp.where(flat, 0.0, (fp1 - fm1)**2 / jnp.where(flat, 1.0, den)) / 8.0
 #    Vik = fi - (fp1 - fm1) ** 2 / (jnp.abs(fp1 + fm1 - 2.0 * fi) + lam) / 8.0
 
     return Vik[:,0,:]
@@ -267,7 +269,8 @@ def combine_V_interp2(Vij, Vjk):
             jm1 = jnp.abs(j-1) # Converts -1 to 1
             nm1 = f.shape[0]-1
             jp1 = nm1 - jnp.abs(nm1-j-1)  # Converts n to n-2
-            Vik[i,k] = f[j] - (f[jp1] - f[jm1])**2 / (f[jp1] + f[jm1] - 2.0 * f[j] + lam) / 8.0
+            den = f[jp1] + f[jm1] - 2.0 * f[j] + lam
+            Vik[i,k] = f[j] if den == 0.0 else f[j] - (f[jp1] - f[jm1])**2 / den / 8.0
 #            if j == 0 or j == f.shape[0]-1:
 #                Vik[i,k] = f[j]
 #            else:
diff --git a/parallel_control/hjb_grid_1d_tf.py b/parallel_control/hjb_grid_1d_tf.py
index 9f066ea..66a6ae2 100644
--- a/parallel_control/hjb_grid_1d_tf.py
+++ b/parallel_control/hjb_grid_1d_tf.py
@@ -292,7 +292,8 @@ def combine_V_interp(Vij, Vjk):
     fm1 = tf.gather_nd(VsumT, jTm1, batch_dims=3)
     fp1 = tf.gather_nd(VsumT, jTp1, batch_dims=3)
 
-    return fi - (fp1 - fm1)**2 / (fp1 + fm1 - tf.constant(2.0, dtype=Vij.dtype) * fi + lam) / tf.constant(8.0, dtype=Vij.dtype)
+    den = fp1 + fm1 - tf.constant(2.0, dtype=Vij.dtype) * fi + lam  # Zero when all three values are equal
+    return fi - tf.math.divide_no_nan((fp1 - fm1)**2, den) / tf.constant(8.0, dtype=Vij.dtype)
 
 def combine_V_interp_rev(Vjk, Vij):
     """ Combine two value functions with interpolation in reversed order.
-- 
2.43.0


From 3fdbfa46664e288dc1fdf0ae0aef9087c3558e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:05 +0000
Subject: [PATCH 12/12] fix: MassModel.getLQT drops a step when Tf/dt rounds
 below the number of steps

---
 parallel_control/mass_model_np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/mass_model_np.py b/parallel_control/mass_model_np.py
index ba54c28..95c2c65 100644
--- a/parallel_control/mass_model_np.py
+++ b/parallel_control/mass_model_np.py
@@ -78,7 +78,7 @@ class MassModel:
         Qc = np.eye(self.Lc.shape[1])
         F, L, Q = disc.lti_disc_u(self.Fc, self.Lc, G, Qc, dt)
 
-        T = int(Tf/dt)
+        T = int(round(Tf/dt))
 
         lqt = lqt_np.LQT.checkAndExpand(F, L, self.X, self.U, self.XT, T=T)
 
-- 
2.43.0

