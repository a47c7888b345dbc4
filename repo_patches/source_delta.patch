From 743a7703f12265f0d68e7d1d781bcf9b660e1cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:42 +0000
Subject: [PATCH 01/12] fix: upwind_model_block_V (TF) tests x0 <= 0 for the
 negative half of the grid

The second reachability condition describes x0 <= 0, where the state can
only move down from x0 to exp(dt) x0. The TF version tested x0 >= 0 there,
so every block transition starting from a negative grid point was reported
as unreachable (the NumPy/Jax version is right).
---
 parallel_control/cnonlin_models_tf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/cnonlin_models_tf.py b/parallel_control/cnonlin_models_tf.py
index 46e0a6b..dfb4236 100644
--- a/parallel_control/cnonlin_models_tf.py
+++ b/parallel_control/cnonlin_models_tf.py
@@ -116,6 +116,6 @@ def upwind_model_block_V(inf_value, block_dt, x_grid):
 
     a = tf.exp(block_dt)
     cond1 = tf.logical_and(tf.logical_and(tf.greater_equal(x0_mesh, 0.0), tf.greater_equal(xf_mesh, x0_mesh)), tf.less_equal(xf_mesh, a * x0_mesh))
-    cond2 = tf.logical_and(tf.logical_and(tf.greater_equal(x0_mesh, 0.0), tf.greater_equal(xf_mesh, a * x0_mesh)), tf.less_equal(xf_mesh, x0_mesh))
+    cond2 = tf.logical_and(tf.logical_and(tf.less_equal(x0_mesh, 0.0), tf.greater_equal(xf_mesh, a * x0_mesh)), tf.less_equal(xf_mesh, x0_mesh))
 
     return tf.where(tf.logical_or(cond1,cond2), zero_mesh, inf_mesh)
-- 
2.43.0


From 93e0dace02b334bd8de542eb8e4f403c08e1be46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:42 +0000
Subject: [PATCH 02/12] fix: time grid of direct shooting has exactly one point
 per control segment

arange(0, T, T/n) with floating point arguments returns n+1 points for some n
(e.g. T=1, n=49), in which case the scan over (controls, times) fails.
---
 parallel_control/hjb_grid_1d_np.py | 4 ++--
 parallel_control/hjb_grid_1d_tf.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parallel_control/hjb_grid_1d_np.py b/parallel_control/hjb_grid_1d_np.py
index c77e5c0..c821f47 100644
--- a/parallel_control/hjb_grid_1d_np.py
+++ b/parallel_control/hjb_grid_1d_np.py
@@ -53,7 +53,7 @@ def fun_and_con_1(g, L, T, x0, xf, a_vec, b_vec):
         c_vec: Constraint violation vector
     """
     dt = T / a_vec.shape[0]
-    t_vec = jax.numpy.arange(0, T, dt)
+    t_vec = dt * jnp.arange(a_vec.shape[0])
     def body(carry, inp):
         a, b, ti = inp
         def f(xc, t):
@@ -126,7 +126,7 @@ def fun_and_con_2(g, L, T, x0, xf, theta):
         c_vec: Constraint violation vector
     """
     dt = T / (theta.shape[0]-1)
-    t_vec = jax.numpy.arange(0, T, dt)
+    t_vec = dt * jnp.arange(theta.shape[0]-1)
     def body(carry, inp):
         _, prev_u = carry
         b, ti = inp
diff --git a/parallel_control/hjb_grid_1d_tf.py b/parallel_control/hjb_grid_1d_tf.py
index 57b50f4..5cd4045 100644
--- a/parallel_control/hjb_grid_1d_tf.py
+++ b/parallel_control/hjb_grid_1d_tf.py
@@ -56,7 +56,7 @@ def fun_and_con_1(g, L, T, x0, xf, a_vec, b_vec):
         c_vec: Constraint violation vector
     """
     dt = T / a_vec.shape[-1]
-    t_vec = tf.range(tf.constant(0.0, dtype=T.dtype), T, dt)
+    t_vec = dt * tf.cast(tf.range(a_vec.shape[-1]), dtype=T.dtype)
 
     def body(carry, inp):
         a, b, ti = inp
@@ -152,7 +152,7 @@ def fun_and_con_2(g, L, T, x0, xf, theta):
         c_vec: Constraint violation vector
     """
     dt = T / (theta.shape[-1] - 1)
-    t_vec = tf.range(tf.constant(0.0, dtype=T.dtype), T, dt)
+    t_vec = dt * tf.cast(tf.range(theta.shape[-1] - 1), dtype=T.dtype)
 
     def body(carry, inp):
         _, _, prev_u = carry
-- 
2.43.0


From 267e32f63f51603cee461b74a95a68dfd1895ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:42 +0000
Subject: [PATCH 03/12] fix: parallel FSC, Viterbi and HJB passes work for a
 single time step

With max_parallel=1 (a horizon of one step or one block, as passed by the
speedtests and Viterbi drivers) max_num_levels was 0, which cannot hold the
two scan elements, and scan_associative raised ValueError. Use at least one
level as the LQT and CLQT passes already do.
---
 parallel_control/fsc_tf.py         | 6 +++---
 parallel_control/hjb_grid_1d_tf.py | 2 +-
 parallel_control/viterbi_tf.py     | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/parallel_control/fsc_tf.py b/parallel_control/fsc_tf.py
index f4f77c2..b546f10 100644
--- a/parallel_control/fsc_tf.py
+++ b/parallel_control/fsc_tf.py
@@ -192,7 +192,7 @@ def fsc_par_backwardpass(fs, Ls, LT, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(fsc_par_comb_V_rev,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     Vs = tf.reverse(rev_elems, axis=[0])[..., 0]
 
@@ -273,7 +273,7 @@ def fsc_par_forwardpass(x0, fs, us, max_parallel=10000):
 
     elems = tfp.math.scan_associative(fsc_par_comb_f,
                                       elems,
-                                      max_num_levels=math.ceil(math.log2(max_parallel)))
+                                      max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     min_xs = elems[...,0]
 #    min_us = tf.gather_nd(us, tf.expand_dims(min_xs[:-1],-1), batch_dims=1)
@@ -342,7 +342,7 @@ def fsc_par_fwdbwdpass(x0, fs, Ls, us, Vs, max_parallel=10000):
 
     elems = tfp.math.scan_associative(fsc_par_comb_V,
                                       elems,
-                                      max_num_levels=math.ceil(math.log2(max_parallel)))
+                                      max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     Vfs = elems[:,0,:]
     min_xs = tf.argmin(Vfs + Vs, axis=-1, output_type=fs.dtype)
diff --git a/parallel_control/hjb_grid_1d_tf.py b/parallel_control/hjb_grid_1d_tf.py
index 5cd4045..4fed8e0 100644
--- a/parallel_control/hjb_grid_1d_tf.py
+++ b/parallel_control/hjb_grid_1d_tf.py
@@ -480,7 +480,7 @@ def par_bw_pass(LT, blocks, fd_x_grid, block_V, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(combine_V_interp_rev,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     Vs = tf.reverse(rev_elems, axis=[0])[..., 0]
     return Vs
diff --git a/parallel_control/viterbi_tf.py b/parallel_control/viterbi_tf.py
index b7a5156..f99de9b 100644
--- a/parallel_control/viterbi_tf.py
+++ b/parallel_control/viterbi_tf.py
@@ -373,7 +373,7 @@ def viterbi_par_forwardpass(prior, Pi, Po, ys, max_parallel=10000):
     elems1 = viterbi_par_forwardpass_init(prior, Pi, Po, ys)
     elems2 = tfp.math.scan_associative(viterbi_par_comb_V,
                                       elems1,
-                                      max_num_levels=math.ceil(math.log2(max_parallel)))
+                                      max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
     Ls = elems1[1:]
     Vs = elems2[:, 0, :]
 
@@ -428,7 +428,7 @@ def viterbi_par_backwardpass(us, VT, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(viterbi_par_comb_f,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     xs = tf.reverse(rev_elems, axis=[0])[..., 0]
 
@@ -512,7 +512,7 @@ def viterbi_par_bwfwpass(prior, Pi, Po, ys, Vs, max_parallel=10000):
 
     rev_elems = tfp.math.scan_associative(viterbi_par_comb_V_rev,
                                           rev_elems,
-                                          max_num_levels=math.ceil(math.log2(max_parallel)))
+                                          max_num_levels=max(math.ceil(math.log2(max_parallel)),1))
 
     elems = tf.reverse(rev_elems, axis=[0])
 
-- 
2.43.0


From 2130d33b4e82c7d058c78b48db0aaf429200e0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:42 +0000
Subject: [PATCH 04/12] fix: MassModel.getLQT rounds the number of steps to the
 nearest integer

int(Tf/dt) truncates, so floating point rounding of the quotient lost a step
(e.g. Tf=0.3, dt=0.1 gave T=2, and mass_generator gave T-1 steps for T=29).
---
 parallel_control/mass_model_np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/mass_model_np.py b/parallel_control/mass_model_np.py
index ba54c28..95c2c65 100644
--- a/parallel_control/mass_model_np.py
+++ b/parallel_control/mass_model_np.py
@@ -78,7 +78,7 @@ class MassModel:
         Qc = np.eye(self.Lc.shape[1])
         F, L, Q = disc.lti_disc_u(self.Fc, self.Lc, G, Qc, dt)
 
-        T = int(Tf/dt)
+        T = int(round(Tf/dt))
 
         lqt = lqt_np.LQT.checkAndExpand(F, L, self.X, self.U, self.XT, T=T)
 
-- 
2.43.0


From 561f1419c2ba188c3f46e9b3745b754a2e0390fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:42 +0000
Subject: [PATCH 05/12] fix: fsc_seq_bwfw returns (controls, states) like its
 parallel siblings

fsc_seq_forwardpass returns (states, controls), so the routine returned the
two trajectories swapped compared to fsc_par_bwfw_1 and fsc_par_bwfw_2.
---
 parallel_control/finite_speedtest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/finite_speedtest.py b/parallel_control/finite_speedtest.py
index 5a49c71..265cbb0 100644
--- a/parallel_control/finite_speedtest.py
+++ b/parallel_control/finite_speedtest.py
@@ -72,7 +72,7 @@ def fsc_par_bw_speedtest(fsc_gen, n_iter=10, device='/CPU:0'):
 @tf.function
 def fsc_seq_bwfw(x0, fs, Ls, LT):
     us, Vs = fsc_tf.fsc_seq_backwardpass(fs, Ls, LT)
-    min_us_tf_par, min_xs_tf_par = fsc_tf.fsc_seq_forwardpass(x0, fs, us)  # XXX: Outputs the wrong way
+    min_xs_tf_par, min_us_tf_par = fsc_tf.fsc_seq_forwardpass(x0, fs, us)  # Note the order of outputs
     return min_us_tf_par, min_xs_tf_par
 
 def fsc_seq_bwfw_speedtest(fsc_gen, n_iter=10, device='/CPU:0'):
-- 
2.43.0


From 6b01c1982c3e96ab4bfeac3a9e73a10964d8150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 06/12] fix: FSC passes do not truncate real costs when the
 stage costs are integers

The temporary Vu had the dtype of L, so with integer stage costs and real
terminal costs the value functions (sequential pass) and the costs compared
for choosing the control (both passes) were truncated to integers.
---
 parallel_control/fsc_np.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parallel_control/fsc_np.py b/parallel_control/fsc_np.py
index 40c491f..807ba15 100755
--- a/parallel_control/fsc_np.py
+++ b/parallel_control/fsc_np.py
@@ -182,7 +182,7 @@ class FSC:
         for k in reversed(range(T)):
             L  = self.L[k]
             f  = self.f[k]
-            Vu = np.zeros_like(L)
+            Vu = np.zeros(L.shape, dtype=np.result_type(L, V, self.gamma))
             for u in range(Vu.shape[1]):
                 Vu[:,u] = L[:,u] + self.gamma * V[f[:,u]]
             u = Vu.argmin(axis=1)
@@ -300,7 +300,7 @@ class FSC:
             V_list.append(V)
             L  = self.L[k]
             f  = self.f[k]
-            Vu = np.zeros_like(L)
+            Vu = np.zeros(L.shape, dtype=np.result_type(L, V))
             for u in range(Vu.shape[1]):
                 Vu[:,u] = L[:,u] + V[f[:,u]]
             u = Vu.argmin(axis=1)
-- 
2.43.0


From eab562b9ba3bc70dde309bf5111145a8eb4772f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 07/12] fix: LTI discretization does not truncate real gains
 when F is an integer matrix

The block matrices had the dtype of F, so for an integer F the noise spectral
density and the input gain were truncated to integers when stored.
---
 parallel_control/disc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parallel_control/disc.py b/parallel_control/disc.py
index 2f14e5f..7f5ff1e 100644
--- a/parallel_control/disc.py
+++ b/parallel_control/disc.py
@@ -31,7 +31,7 @@ def lti_disc(F, L, Qc=None, dt=1.0):
     if np.isscalar(Qc):
         Qc = np.array([[Qc]])
 
-    Phi = np.zeros((2*n,2*n), dtype=F.dtype)
+    Phi = np.zeros((2*n,2*n), dtype=np.result_type(F, L, Qc))
     Phi[ 0:n,  0:n] = F
     Phi[ 0:n,  n: ] = L @ Qc @ L.T
     Phi[n:2*n, n: ] = -F.T
@@ -69,7 +69,7 @@ def lti_disc_u(F, L, G=None, Qc=None, dt=1.0):
 
     m = G.shape[1]
 
-    Psi = np.zeros((n+m,n+m), dtype=F.dtype)
+    Psi = np.zeros((n+m,n+m), dtype=np.result_type(F, G))
     Psi[0:n, 0:n] = F
     Psi[0:n, n: ] = G
 
-- 
2.43.0


From ea16ed96ac965f043159e8c3bd822ad70bf7be3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 08/12] fix: FSC.batch_solution finds the optimum also when all
 costs exceed 1e10

The running minimum started from 1e10, so with larger costs no trajectory
was ever selected and an empty state sequence was returned.
---
 parallel_control/fsc_np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/fsc_np.py b/parallel_control/fsc_np.py
index 807ba15..40c69d8 100755
--- a/parallel_control/fsc_np.py
+++ b/parallel_control/fsc_np.py
@@ -573,7 +573,7 @@ class FSC:
         u_list     = [0] * T
         min_u_list = u_list.copy()
         min_x_list = []
-        min_cost   = 1e10
+        min_cost   = np.inf
 
         udim = self.f[0].shape[1]
         done = False
-- 
2.43.0


From 8e0dace3ed28f12d49084df7e59ee76f60c122d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:34 +0000
Subject: [PATCH 09/12] fix: interpolated value function combination is finite
 at flat minima

When the minimum and both its neighbours are equal the parabolic correction
was 0/0, and the combined value function contained NaN.
---
 parallel_control/hjb_grid_1d_np.py | 6 ++++--
 parallel_control/hjb_grid_1d_tf.py | 6 +++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/parallel_control/hjb_grid_1d_np.py b/parallel_control/hjb_grid_1d_np.py
index c821f47..86e77ca 100644
--- a/parallel_control/hjb_grid_1d_np.py
+++ b/parallel_control/hjb_grid_1d_np.py
@@ -242,7 +242,8 @@ def combine_V_interp(Vij, Vjk):
     fm1 = jnp.take_along_axis(Vsum, jm1, axis=1)
     fp1 = jnp.take_along_axis(Vsum, jp1, axis=1)
 
-    Vik = fi - (fp1 - fm1)**2 / (fp1 + fm1 - 2.0 * fi + lam) / 8.0
+    den = fp1 + fm1 - 2.0 * fi + lam  # This is zero when the minimum is flat
+    Vik = fi - jnp.where(den > 0.0, (fp1 - fm1)**2 / jnp.where(den > 0.0, den, 1.0), 0.0) / 8.0
 #    Vik = fi - (fp1 - fm1) ** 2 / (jnp.abs(fp1 + fm1 - 2.0 * fi) + lam) / 8.0
 
     return Vik[:,0,:]
@@ -267,7 +268,8 @@ def combine_V_interp2(Vij, Vjk):
             jm1 = jnp.abs(j-1) # Converts -1 to 1
             nm1 = f.shape[0]-1
             jp1 = nm1 - jnp.abs(nm1-j-1)  # Converts n to n-2
-            Vik[i,k] = f[j] - (f[jp1] - f[jm1])**2 / (f[jp1] + f[jm1] - 2.0 * f[j] + lam) / 8.0
+            den = f[jp1] + f[jm1] - 2.0 * f[j] + lam  # This is zero when the minimum is flat
+            Vik[i,k] = f[j] if den <= 0.0 else f[j] - (f[jp1] - f[jm1])**2 / den / 8.0
 #            if j == 0 or j == f.shape[0]-1:
 #                Vik[i,k] = f[j]
 #            else:
diff --git a/parallel_control/hjb_grid_1d_tf.py b/parallel_control/hjb_grid_1d_tf.py
index 4fed8e0..55a249a 100644
--- a/parallel_control/hjb_grid_1d_tf.py
+++ b/parallel_control/hjb_grid_1d_tf.py
@@ -292,7 +292,11 @@ def combine_V_interp(Vij, Vjk):
     fm1 = tf.gather_nd(VsumT, jTm1, batch_dims=3)
     fp1 = tf.gather_nd(VsumT, jTp1, batch_dims=3)
 
-    return fi - (fp1 - fm1)**2 / (fp1 + fm1 - tf.constant(2.0, dtype=Vij.dtype) * fi + lam) / tf.constant(8.0, dtype=Vij.dtype)
+    den = fp1 + fm1 - tf.constant(2.0, dtype=Vij.dtype) * fi + lam  # This is zero when the minimum is flat
+
+    corr = tf.where(den > 0.0, (fp1 - fm1)**2 / tf.where(den > 0.0, den, tf.ones_like(den)), tf.zeros_like(den))
+
+    return fi - corr / tf.constant(8.0, dtype=Vij.dtype)
 
 def combine_V_interp_rev(Vjk, Vij):
     """ Combine two value functions with interpolation in reversed order.
-- 
2.43.0


From 7023110d9d006206b4d67d9451ce8cb84823afe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 10/12] fix: condense LQT problems whose block does not observe
 the full state

---
 parallel_control/condensing_np.py | 3 ++-
 parallel_control/condensing_tf.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/parallel_control/condensing_np.py b/parallel_control/condensing_np.py
index d63a09a..9ebea31 100644
--- a/parallel_control/condensing_np.py
+++ b/parallel_control/condensing_np.py
@@ -138,7 +138,8 @@ class LQTCondenser:
 
             tmp = np.zeros((rdim+udim)*Nc)
             tmp[0:(rdim*Nc)] = Hbar @ cbar
-            rsstar = linalg.solve(XUMstar, trans.T @ XUbar @ (rsbar - tmp), assume_a='pos')
+            # XUMstar is singular when the block does not observe the full state
+            rsstar = linalg.lstsq(XUMstar, trans.T @ XUbar @ (rsbar - tmp))[0]
 
             Xstar = XUMstar[0:xdim,0:xdim]
             Mstar = XUMstar[0:xdim,xdim:]
diff --git a/parallel_control/condensing_tf.py b/parallel_control/condensing_tf.py
index bb9ae9d..dc2d57b 100644
--- a/parallel_control/condensing_tf.py
+++ b/parallel_control/condensing_tf.py
@@ -121,7 +121,8 @@ def condense(Fs, cs, Ls, Hs, rs, Xs, Us, Nc):
 
     tmp = tf.concat([mv(Hbar, cbar), tf.zeros((Fs_blocks.shape[0], Lbar.shape[-1]), dtype=Fs_blocks.dtype)], 1)
     tmp = mv(trans, mv(XUbar, rsbar - tmp), transpose_a=True)
-    rsstar = tf.linalg.solve(XUMstar, tf.expand_dims(tmp,-1))[..., 0]
+    # XUMstar is singular when the block does not observe the full state
+    rsstar = tf.linalg.lstsq(XUMstar, tf.expand_dims(tmp,-1), fast=False)[..., 0]
 
     rstar = rsstar[:,0:Fs_blocks.shape[-1]]
     sstar = rsstar[:,Fs_blocks.shape[-1]:]
-- 
2.43.0


From ae172e8799c3e859bc1db0e09cbd5b1075e835e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:53 +0000
Subject: [PATCH 11/12] fix: keep the precision of both value functions in
 combine_V

---
 parallel_control/fsc_np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/fsc_np.py b/parallel_control/fsc_np.py
index 40c69d8..445fddd 100755
--- a/parallel_control/fsc_np.py
+++ b/parallel_control/fsc_np.py
@@ -33,7 +33,7 @@ def combine_V(Vij, Vjk):
     Returns:
         Vik: Value function for i -> k
     """
-    Vik = np.zeros_like(Vij)
+    Vik = np.zeros(Vij.shape, dtype=np.result_type(Vij.dtype, Vjk.dtype))
     for i in range(Vij.shape[0]):
         for k in range(Vjk.shape[1]):
             Vik[i,k] = (Vij[i,:] + Vjk[:,k]).min()
-- 
2.43.0


From 7bbcdfa6cb8a4f6e83d161a6b25f9ee728eebd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:53 +0000
Subject: [PATCH 12/12] fix: do not truncate interpolated values in
 combine_V_interp2

---
 parallel_control/hjb_grid_1d_np.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_control/hjb_grid_1d_np.py b/parallel_control/hjb_grid_1d_np.py
index 86e77ca..aef22f5 100644
--- a/parallel_control/hjb_grid_1d_np.py
+++ b/parallel_control/hjb_grid_1d_np.py
@@ -260,7 +260,7 @@ def combine_V_interp2(Vij, Vjk):
     """
 #    lam = 1e-6
     lam = 0.0
-    Vik = np.zeros_like(Vij)
+    Vik = np.zeros(Vij.shape, dtype=np.result_type(Vij.dtype, Vjk.dtype, float))
     for i in range(Vij.shape[0]):
         for k in range(Vjk.shape[1]):
             f = Vij[i,:] + Vjk[:,k]
-- 
2.43.0

