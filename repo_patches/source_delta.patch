From b6740bc07ca606bfe0888badc6af48009d4719a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 01/49] fix: RatQu cross-covariance with only the gradients of
 the first set masked

The obj/grad block used the kernel terms of the masked rows, which have the
wrong shape, so a RatQu surrogate with a subset of the gradients could not be
evaluated.
---
 gpgradpy/src/kernel/KernelRatQuad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/kernel/KernelRatQuad.py b/gpgradpy/src/kernel/KernelRatQuad.py
index 2cdf6d0..f659f97 100644
--- a/gpgradpy/src/kernel/KernelRatQuad.py
+++ b/gpgradpy/src/kernel/KernelRatQuad.py
@@ -499,7 +499,7 @@ class KernelRatQuadGradMod:
                 
                 Rtensor_sq_gg   = Rtensor_sq_g1
                 
-                B_m_alpha_m1_g2 = B_m_alpha_m1_g1
+                B_m_alpha_m1_g2 = B_m_alpha_m1
                 B_m_alpha_m1_gg = B_m_alpha_m1_g1
                 
                 B_m_alpha_m2_gg = B_m_alpha_m2_g1
-- 
2.43.0


From c51c84b654015c957e1b59201d823ebdcd8e13d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 02/49] fix: SqExp theta derivative of the kernel matrix with a
 subset of the gradients

---
 gpgradpy/src/kernel/KernelSqExp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/src/kernel/KernelSqExp.py b/gpgradpy/src/kernel/KernelSqExp.py
index da085a3..461b128 100644
--- a/gpgradpy/src/kernel/KernelSqExp.py
+++ b/gpgradpy/src/kernel/KernelSqExp.py
@@ -505,13 +505,14 @@ class KernelSqExpGradMod:
         
         if bvec_use_grad is None:
             n_grad        = n1
-            Rtensor_g1    = Rtensor
+            Rtensor_g1    = Rtensor_gg    = Rtensor
             Rtensor_sq_g1 = Rtensor_sq_gg = Rtensor_sq
             KernBase_g1   = KernBase_gg   = KernBase
         else:
             n_grad        = np.sum(bvec_use_grad)
             
             Rtensor_g1    = Rtensor[:, bvec_use_grad,:]
+            Rtensor_gg    = Rtensor_g1[:,:, bvec_use_grad]
             
             Rtensor_sq_g1 = Rtensor_sq[:,bvec_use_grad,:]
             Rtensor_sq_gg = Rtensor_sq_g1[:,:,bvec_use_grad]
@@ -549,7 +550,7 @@ class KernelSqExpGradMod:
                 KernGrad_grad_th[d, :n1, ri1:ri2] += term.T
                 
                 # Covariance grad with grad when i == d and j == d
-                term = -4 * theta[i] * Rtensor[d,:,:] * Rtensor[i,:,:] * KernBase
+                term = -4 * theta[i] * Rtensor_gg[d,:,:] * Rtensor_gg[i,:,:] * KernBase_gg
                 KernGrad_grad_th[d, rd1:rd2, ri1:ri2] += term
                 KernGrad_grad_th[d, ri1:ri2, rd1:rd2] += term
                 
-- 
2.43.0


From 1014932cb8029f68d9f46daef2b8bc1d947149f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 03/49] fix: Ma5f2 theta derivative of the kernel matrix with a
 subset of the gradients

---
 gpgradpy/src/kernel/KernelMatern5f2.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpgradpy/src/kernel/KernelMatern5f2.py b/gpgradpy/src/kernel/KernelMatern5f2.py
index 33914d6..b18cc52 100644
--- a/gpgradpy/src/kernel/KernelMatern5f2.py
+++ b/gpgradpy/src/kernel/KernelMatern5f2.py
@@ -568,7 +568,7 @@ class KernelMatern5f2GradMod:
             Rtensor_g1    = Rtensor_gg    = Rtensor
             Rtensor_sq_g1 = Rtensor_sq_gg = Rtensor_sq
             Abase_g1      = Abase_gg      = Abase
-            mat1_g1       = mat1 
+            mat1_g1       = mat1_gg       = mat1 
             nu_mat_gg     = nu_mat
         else:
             n_grad        = np.sum(bvec_use_grad)
@@ -583,6 +583,7 @@ class KernelMatern5f2GradMod:
             Abase_gg      = Abase_g1[:, bvec_use_grad]
             
             mat1_g1       = mat1[bvec_use_grad, :]
+            mat1_gg       = mat1_g1[:, bvec_use_grad]
             
             nu_mat_g1     = nu_mat[bvec_use_grad,:]
             nu_mat_gg     = nu_mat_g1[:,bvec_use_grad]
@@ -611,7 +612,7 @@ class KernelMatern5f2GradMod:
             KernGrad_grad_th[d, :n1, rd1:rd2] += term.T
             
             # Covariance grad with grad for case of d == i == j
-            KernGrad_grad_th[d, rd1:rd2, rd1:rd2] += mat1
+            KernGrad_grad_th[d, rd1:rd2, rd1:rd2] += mat1_gg
             
             for i in range(dim):
                 ri1 = n1 + i * n_grad
@@ -623,7 +624,7 @@ class KernelMatern5f2GradMod:
                 KernGrad_grad_th[d, :n1, ri1:ri2] += term.T
                 
                 # Covariance grad with grad when i == d and j == d
-                term = -((25./3.) * theta[i]) * Rtensor_g1[i] * Rtensor_g1[d] * Abase_g1
+                term = -((25./3.) * theta[i]) * Rtensor_gg[i] * Rtensor_gg[d] * Abase_gg
                 KernGrad_grad_th[d, rd1:rd2, ri1:ri2] += term
                 KernGrad_grad_th[d, ri1:ri2, rd1:rd2] += term.T
                 
-- 
2.43.0


From affbe2db5baa123ef3ba2293cbd772d70a22a60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 04/49] fix: Hessian of the surrogate when only a subset of the
 gradients is used

---
 gpgradpy/src/eval/GpEvalModel.py       | 8 ++++----
 gpgradpy/src/kernel/KernelMatern5f2.py | 2 +-
 gpgradpy/src/kernel/KernelRatQuad.py   | 6 +++---
 gpgradpy/src/kernel/KernelSqExp.py     | 2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index c6bd211..e4dd53c 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -149,7 +149,7 @@ class GpEvalModel(GpMeanFun):
         
         if calc_hess:
             Rtensor   = self.calc_Rtensor(x2model, x_eval_scl, 1)
-            d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel) # * sigK
+            d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel, self.bvec_use_grad) # * sigK
             
         Kxy_invKernEta = linalg.cho_solve(self.KernEta_chofac, Kyx).T
 
@@ -283,7 +283,7 @@ class GpEvalModel(GpMeanFun):
         
         if calc_hess:
             Rtensor   = self.calc_Rtensor(x2model, x_eval_scl, 1)
-            d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel) # * sigK
+            d2Kxy_dx2 = self.calc_Kern_hess_x(Rtensor, theta, hp_kernel, self.bvec_use_grad) # * sigK
             
         Kxy_invKernEta = linalg.cho_solve(self.KernEta_chofac, Kyx).T
 
@@ -355,7 +355,7 @@ class GpEvalModel(GpMeanFun):
 
     def calc_d2mudx2(self, d2Kxy_dx2):
         
-        n_data = self.n_eval * (1 + self.dim) if self.use_grad else self.n_eval
+        n_data = self.n_data
         assert d2Kxy_dx2.shape == (self.dim, self.dim, n_data), 'calc_d2mudx2 can only be used on one point per call'
         
         d2mudx2 = np.matmul(d2Kxy_dx2, self.invKernEta_fdiff[None,:,None])[:,:,0]
@@ -365,7 +365,7 @@ class GpEvalModel(GpMeanFun):
     def calc_d2sigdx2(self, sig, dsigdx, Kxy_invKernEta, dKxy_dx, d2Kxy_dx2, sigK):
         
         # Preliminaries
-        n_data = self.n_eval * (1 + self.dim) if self.use_grad else self.n_eval
+        n_data = self.n_data
         assert d2Kxy_dx2.shape == (self.dim, self.dim, n_data), 'calc_d2sigdx2 can only be used on one point per call'
         
         # Calculate d2sig2_dx2
diff --git a/gpgradpy/src/kernel/KernelMatern5f2.py b/gpgradpy/src/kernel/KernelMatern5f2.py
index b18cc52..cdc40ee 100644
--- a/gpgradpy/src/kernel/KernelMatern5f2.py
+++ b/gpgradpy/src/kernel/KernelMatern5f2.py
@@ -519,7 +519,7 @@ class KernelMatern5f2GradMod:
                     Rj_til   = Rtensor_g2[j] * theta[j]
                     
                     cj1 = n2 + j * n2_grad
-                    cj2 = cj1 + n2 
+                    cj2 = cj1 + n2_grad
                     
                     KernGrad_grad_x[k, ri1:ri2, cj1:cj2] \
                         = -(25/3) * (theta[i]   * delta_ik * Rj_til 
diff --git a/gpgradpy/src/kernel/KernelRatQuad.py b/gpgradpy/src/kernel/KernelRatQuad.py
index f659f97..797fe77 100644
--- a/gpgradpy/src/kernel/KernelRatQuad.py
+++ b/gpgradpy/src/kernel/KernelRatQuad.py
@@ -601,7 +601,7 @@ class KernelRatQuadGradMod:
             rk2 = rk1 + n1
             
             ck1 = n2 + k * n2_grad
-            ck2 = ck1 + n2 
+            ck2 = ck1 + n2_grad
             
             KernGrad_grad_x[k, rk1:rk2, :n2] -= 2 * theta[k] * B_m_alpha_m1
             
@@ -610,7 +610,7 @@ class KernelRatQuadGradMod:
                 ri2 = ri1 + n1
                 
                 ci1 = n2 + i * n2_grad
-                ci2 = ci1 + n2 
+                ci2 = ci1 + n2_grad
                 
                 # Covariance obj with grad
                 KernGrad_grad_x[k, ri1:ri2, :n2] += (scalar1 * theta[i] * theta[k]) * Rtensor[i,:,:] * Rtensor[k,:,:] * B_m_alpha_m2
@@ -624,7 +624,7 @@ class KernelRatQuadGradMod:
                 
                 for j in range(dim):
                     cj1 = n2 + j * n2_grad
-                    cj2 = cj1 + n2 
+                    cj2 = cj1 + n2_grad
                     
                     KernGrad_grad_x[k, ri1:ri2, cj1:cj2] \
                         += (scalar2 * theta[i] * theta[j] * theta[k]) * Rtensor_g2[i] * Rtensor_g2[j] * Rtensor_g2[k] * B_m_alpha_m3_g2
diff --git a/gpgradpy/src/kernel/KernelSqExp.py b/gpgradpy/src/kernel/KernelSqExp.py
index 461b128..bba4c94 100644
--- a/gpgradpy/src/kernel/KernelSqExp.py
+++ b/gpgradpy/src/kernel/KernelSqExp.py
@@ -458,7 +458,7 @@ class KernelSqExpGradMod:
                     delta_ij = int(i == j)
                     
                     cj1 = n2 + j * n2_grad
-                    cj2 = cj1 + n2 
+                    cj2 = cj1 + n2_grad
                     
                     KernGrad_grad_x[k, ri1:ri2, cj1:cj2] \
                         = (-4* theta[i] * theta[j] * (delta_ik * Rtensor_g2[j] + delta_jk * Rtensor_g2[i])
-- 
2.43.0


From 995a4ff54b9e813a2d6b9c21f6b197163d7dcb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 05/49] fix: theta derivative of the gradient-free Ma5f2 kernel
 matrix

The derivative of the polynomial factor was missing.
---
 gpgradpy/src/kernel/KernelMatern5f2.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/gpgradpy/src/kernel/KernelMatern5f2.py b/gpgradpy/src/kernel/KernelMatern5f2.py
index cdc40ee..8f6835b 100644
--- a/gpgradpy/src/kernel/KernelMatern5f2.py
+++ b/gpgradpy/src/kernel/KernelMatern5f2.py
@@ -117,20 +117,14 @@ class KernelMatern5f2Base:
         
         nu_mat = np.sqrt(nu_mat)
         
-        # Take the inverse of nu_mat without causing error for values of zero
-        # Use 1e-16 as min value, does not change final calculations since
-        # nu_mat[i,j] is zero iff Rtensor[k,i,j] is zero for all 0<=k<=(dim-1) 
-        inv_nu_mat = 1 / (2*np.maximum(nu_mat, 1e-16))
-        # inv_nu_mat = np.divide(0.5, nu_mat, out=np.zeros_like(nu_mat[0,0]), where=nu_mat!=0)
-
         sqrt5      = np.sqrt(5)
         Rtensor_sq = Rtensor**2
-        KernBase   = (1 + sqrt5 * nu_mat + (5.0/3.0) * nu_mat**2) * np.exp(-sqrt5 * nu_mat)
+        mat1       = (1 + sqrt5 * nu_mat) * np.exp(-sqrt5 * nu_mat)
 
         KernBase_grad_th = np.zeros((dim, n1, n1))
 
         for d in range(dim):
-            KernBase_grad_th[d,:,:] = -sqrt5 * Rtensor_sq[d,:,:] * inv_nu_mat * KernBase
+            KernBase_grad_th[d,:,:] = -(5.0/6.0) * Rtensor_sq[d,:,:] * mat1
 
         return KernBase_grad_th
     
-- 
2.43.0


From 377b6f503ceae2fcccdeeaaaf6010aee8a1adc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 06/49] fix: gradient-free GP with an unknown noise variance

std_fval is None in that case, so its size cannot be used.
---
 gpgradpy/src/kernel/Kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/kernel/Kernel.py b/gpgradpy/src/kernel/Kernel.py
index 40b6d6d..1fddf67 100755
--- a/gpgradpy/src/kernel/Kernel.py
+++ b/gpgradpy/src/kernel/Kernel.py
@@ -333,7 +333,7 @@ class Kernel(KernelSqExp, KernelRatQuad, KernelMatern5f2):
                 assert not np.any(np.isnan(std_fval)), f'There are nan values: std_fval = {std_fval}'
                 var_noise = std_fval**2
             else:
-                var_noise = np.full(std_fval.size, hp_vals.var_fval)
+                var_noise = np.full(self.n_eval, float(np.squeeze(hp_vals.var_fval)))
             
         else:
             var_noise = np.zeros(self.n_data)
-- 
2.43.0


From f4e8d5c4f3851dd8ad4d40858ad214346d75e800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 07/49] fix: surrogate with noisy data when varK is not 1

The noise variance was not divided by varK for the normalized matrix used to
evaluate the surrogate.
---
 gpgradpy/src/kernel/Kernel.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gpgradpy/src/kernel/Kernel.py b/gpgradpy/src/kernel/Kernel.py
index 1fddf67..cb0897d 100755
--- a/gpgradpy/src/kernel/Kernel.py
+++ b/gpgradpy/src/kernel/Kernel.py
@@ -193,10 +193,7 @@ class Kernel(KernelSqExp, KernelRatQuad, KernelMatern5f2):
             assert hp_vals.varK  is not None, f'varK is not provided and hp_vals.varK is None, hp_vals = {hp_vals}'
             varK = hp_vals.varK 
             
-        if b_normlz_w_varK:
-            varK = 1.0
-        else:
-            assert varK > 0, f'varK must be positive but varK = {varK}'
+        assert varK > 0, f'varK must be positive but varK = {varK}'
             
         assert np.sum(np.isnan(theta)) == 0, f'There are nan values theta = {theta}'
         
@@ -217,6 +214,10 @@ class Kernel(KernelSqExp, KernelRatQuad, KernelMatern5f2):
             
         Kern_w_noise = Kern + np.diag(noise_vec / varK) 
         
+        # The noise is relative to varK even if the matrix is not multiplied by varK
+        if b_normlz_w_varK:
+            varK = 1.0
+        
         if self.wellcond_mtd == 'precon':
             
             assert self.use_grad is True, 'self.wellcond_mtd should be base if use_grad is False'
-- 
2.43.0


From c530cfd8ce2b6be350f472fe5dadcefa811db229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 08/49] fix: LHS option random_state is named seed,
 optimization of several hyperparameters raised an error

---
 gpgradpy/src/optz/GpHparaX0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/GpHparaX0.py b/gpgradpy/src/optz/GpHparaX0.py
index 5d52a9c..7abd99b 100644
--- a/gpgradpy/src/optz/GpHparaX0.py
+++ b/gpgradpy/src/optz/GpHparaX0.py
@@ -177,7 +177,7 @@ class GpHparaX0:
             hp_x0       = np.linspace(lhs_lb[0], lhs_ub[0], n_x0+2)[1:-1,None]
         else:
             para_limit  = np.array([lhs_lb, lhs_ub]).T
-            sampling    = LHS(xlimits=para_limit, random_state = 1)
+            sampling    = LHS(xlimits=para_limit, seed = 1)
             hp_x0       = sampling(n_x0) 
         
         return hp_x0, hp_optz_bounds
-- 
2.43.0


From 99698831ca7498a54260e708913c26af5671f7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 09/49] fix: kernel hyperparameter from the optimizer is a
 scalar, storing it raised an error

---
 gpgradpy/src/base/GpHpara.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/GpHpara.py b/gpgradpy/src/base/GpHpara.py
index 9694678..aa61697 100755
--- a/gpgradpy/src/base/GpHpara.py
+++ b/gpgradpy/src/base/GpHpara.py
@@ -78,7 +78,7 @@ class GpHpara:
             theta = None
         
         if hp_optz_info.has_kernel:
-            hp_kernel = hp_vec_mod[hp_optz_info.idx_kernel]
+            hp_kernel = hp_vec_mod[hp_optz_info.idx_kernel][0]
         else:
             hp_kernel = None
         
-- 
2.43.0


From 5313875288f7f417555809a70344ff0c1138299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 10/49] fix: condition number gradient with repeated
 eigenvalues, use the symmetric eigensolver

---
 gpgradpy/src/optz/GpHparaCon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/GpHparaCon.py b/gpgradpy/src/optz/GpHparaCon.py
index 9457df9..b3eec29 100644
--- a/gpgradpy/src/optz/GpHparaCon.py
+++ b/gpgradpy/src/optz/GpHparaCon.py
@@ -176,7 +176,7 @@ class GpHparaCon:
                 nder = Kmat_grad_hp.shape[0]
                 assert n_data == Kmat_grad_hp.shape[1] == Kmat_grad_hp.shape[2], 'Shape of Kmat_grad_hp is incompatible'
         
-                eigval_all, eigvec_all = np.linalg.eig(Kmat_w_eta)
+                eigval_all, eigvec_all = np.linalg.eigh(Kmat_w_eta)
                 
                 idx_max  = np.argmax(eigval_all)
                 v_max    = eigvec_all[:,idx_max]
-- 
2.43.0


From 23720d92b68002cc7b064640f024f6ddc03b3222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 11/49] fix: Frobenius condition number of a covariance matrix
 with varK less than 1

---
 gpgradpy/src/optz/GpHparaCon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/GpHparaCon.py b/gpgradpy/src/optz/GpHparaCon.py
index b3eec29..e932987 100644
--- a/gpgradpy/src/optz/GpHparaCon.py
+++ b/gpgradpy/src/optz/GpHparaCon.py
@@ -235,7 +235,7 @@ class GpHparaCon:
         return cond, cond_grad
     
     def calc_cond_fronorm_w_grad(self, Kmat_w_eta, Kmat_chofac, Kmat_grad_hp = None):
-        assert Kmat_w_eta[0,0] > 1, 'Kmat_w_eta should have diagonal entries greater than 1 since it contains the nugget and noise'
+        assert Kmat_w_eta[0,0] > 0, 'Kmat_w_eta should have positive diagonal entries'
         
         n     = Kmat_w_eta.shape[0]
         K_inv = cho_solve(Kmat_chofac, np.eye(n))
-- 
2.43.0


From 5ac726e15545034c374db655024449ae9efab805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 12/49] fix: scaling of the Hessian when the coordinates have
 different scaling factors

---
 gpgradpy/src/base/Rescaling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index bb2d613..aa47525 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -143,7 +143,7 @@ class RescalingObjData:
         
         scale_inv    = 1 / self.xvec_scale[None,:]
         scl_grad_vec = scale_inv    * self.obj_scale
-        scl_hess_vec = scale_inv**2 * self.obj_scale
+        scl_hess_vec = scale_inv.T @ scale_inv * self.obj_scale
         
         # Unscale the mean and standard deviation of the data
         mu_scl       = None if mu_in       is None else (mu_in - self.obj_shift) * self.obj_scale
@@ -168,7 +168,7 @@ class RescalingObjData:
         assert self._obj_data_set, 'Must call set_obj_data prior to this method'
         
         scl_grad_vec = self.xvec_scale[None,:]    / self.obj_scale
-        scl_hess_vec = self.xvec_scale[None,:]**2 / self.obj_scale
+        scl_hess_vec = np.outer(self.xvec_scale, self.xvec_scale) / self.obj_scale
         
         # Unscale the mean and standard deviation of the data
         mu       = None if mu_scl       is None else mu_scl  / self.obj_scale + self.obj_shift
@@ -275,7 +275,7 @@ class RescalingNonlincon:
         dsigdx_scl   = None if dsigdx_in is None else dsigdx_in * scl_vec
         
         # Scale the Hessians
-        scl_vec      = normz_xvec_scale_inv**2 * self.nlc_scale
+        scl_vec      = np.outer(normz_xvec_scale_inv, normz_xvec_scale_inv) * self.nlc_scale
         d2mudx2_scl  = None if d2mudx2_in  is None else d2mudx2_in  * scl_vec
         d2sigdx2_scl = None if d2sigdx2_in is None else d2sigdx2_in * scl_vec
         
@@ -293,7 +293,7 @@ class RescalingNonlincon:
         assert mu_scl.ndim == 2,  f'Unexpected shape for mu_scl of {mu_scl.shape}'
         
         scl_grad_vec  = self.xvec_scale[None,None,:]    / self.nlc_scale
-        scl_hess_vec  = self.xvec_scale[None,None,:]**2 / self.nlc_scale
+        scl_hess_vec  = np.outer(self.xvec_scale, self.xvec_scale) / self.nlc_scale
         
         mu       = None if mu_scl  is None else mu_scl  / self.nlc_scale + self.nlc_shift[None,:]
         sig      = None if sig_scl is None else sig_scl / self.nlc_scale
-- 
2.43.0


From d961fc3604817e3c2f82d4c81f4a21d56d0f5f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 13/49] fix: changing the scaling of x after the data of the
 nonlinear constraints is set

---
 gpgradpy/src/base/Rescaling.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index aa47525..195bb7a 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -58,16 +58,13 @@ class RescalingXdata:
             self._calc_n_set_scl_obj()
             
         if self._nlc_data_set:
-            self._calc_n_set_scl_nlc_data()
+            self._calc_n_set_scl_nlc()
             
         if self._boxcon_set:
             self._calc_n_set_scl_boxcon()
             
         if self._lincon_set:
             self._calc_n_set_scl_lincon()
-        
-        if self._nlc_data_set:
-            self._calc_n_set_scl_nonlincon()
     
     def _calc_x_shift_n_scale(self, x_shift_in = None, xvec_scale_in = None):
         
-- 
2.43.0


From 65664c92d28ce91a3d701ebe0d4ab7d0831575a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 14/49] fix: setting the shift of x in the class Rescaling

---
 gpgradpy/src/base/Rescaling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index 195bb7a..75cd2af 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -81,8 +81,8 @@ class RescalingXdata:
                 x_shift = np.zeros(self.dim)
         else:
             assert x_shift_in.size == self.dim, f'Wrong size for x_shift_in: {x_shift_in.shape}'
-            assert x_shift_in.dim <= 1, f'Wrong shape for x_shift_in: {x_shift_in.shape}'
-            x_shift = 1 * np.atlest_1d(x_shift_in)
+            assert x_shift_in.ndim <= 1, f'Wrong shape for x_shift_in: {x_shift_in.shape}'
+            x_shift = 1 * np.atleast_1d(x_shift_in)
         
         if xvec_scale_in is None:
             xvec_scale_in = np.ones(self.dim)
-- 
2.43.0


From a8dfd0fd50b8b39345c6f709de3590e5457fd53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 15/49] fix: scaling of the data of nonlinear constraints
 without standard deviations

---
 gpgradpy/src/base/Rescaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index 75cd2af..929dbfe 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -264,7 +264,7 @@ class RescalingNonlincon:
         
         # Unscale the mean and standard deviation of the data
         mu_scl       = (mu_in - self.nlc_shift[None,:]) * self.nlc_scale
-        sig_scl      = sig_in * self.nlc_scale 
+        sig_scl      = None if sig_in     is None else sig_in * self.nlc_scale 
         
         # Scale the gradients
         scl_vec      = normz_xvec_scale_inv * self.nlc_scale
-- 
2.43.0


From 6bee5956e0b093d594a7dc39b8b96a68ae861d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 16/49] fix: reject evaluation points that do not match the
 number of evaluations or the dimension

---
 gpgradpy/src/GaussianProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 1a41609..1c542db 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -264,7 +264,7 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
         fval = np.atleast_1d(fval).ravel()
         
         assert x_eval.ndim == 2, f'x_eval must be a 2 array but x_eval.ndim = {x_eval.ndim}'
-        assert n_eval == fval.size, 'No. of points do not match with x_eval and fval'
+        assert x_eval.shape == (n_eval, self.dim), f'Shape of x_eval is {x_eval.shape} but it should be {(n_eval, self.dim)}'
         
         if (std_fval is None) or np.any(np.isnan(std_fval)):
             self.known_eps_fval = False
-- 
2.43.0


From 4c46156664b346b55b766169a85af4779037fa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 17/49] fix: select the base method with wellcond_mtd = None,
 use a varying nugget only with rescale_eta_vary

---
 gpgradpy/src/GaussianProcess.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 1c542db..609f3a9 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -191,16 +191,19 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
         
     def set_wellcond_mtd(self, wellcond_mtd):
         
-        assert wellcond_mtd in self.wellcond_mtd_avail, \
-            f'Requested method not available, wellcond_mtd : {wellcond_mtd}'
-            
         if wellcond_mtd is None:
             wellcond_mtd = 'base'
-        elif wellcond_mtd == 'rescale_eta_vary':
-            self.cond_eta_is_const = False
+        
+        assert wellcond_mtd in self.wellcond_mtd_avail, \
+            f'Requested method not available, wellcond_mtd : {wellcond_mtd}'
             
         if not self.use_grad:
             wellcond_mtd = 'base'
+            
+        if wellcond_mtd == 'rescale_eta_vary':
+            self.cond_eta_is_const = False
+        elif getattr(self, 'wellcond_mtd', None) == 'rescale_eta_vary':
+            self.cond_eta_is_const = True
         
         self.wellcond_mtd    = wellcond_mtd
         
-- 
2.43.0


From ab8269b16b69dce92fedb396c37ce7c3e3bd1ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 18/49] fix: derivative of the varying nugget of the method
 rescale_eta_vary

---
 gpgradpy/src/optz/CalcLkd.py     |  2 +-
 gpgradpy/src/optz/GpHparaGrad.py | 36 ++++++++++++++++++++++++++++++--
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/gpgradpy/src/optz/CalcLkd.py b/gpgradpy/src/optz/CalcLkd.py
index 8887f73..c541303 100644
--- a/gpgradpy/src/optz/CalcLkd.py
+++ b/gpgradpy/src/optz/CalcLkd.py
@@ -323,7 +323,7 @@ class CalcLkd(calcLkdWNoise, calcLkdWoNoise):
                 = self.calc_Kern_w_chofac(Rtensor, hp_vals, calc_cond = calc_cond)
             
             if calc_grad:
-                KernGrad_hp = self.calc_KernGrad_hp(self.hp_info_optz_lkd, hp_vals, Rtensor)
+                KernGrad_hp = self.calc_KernGrad_hp(self.hp_info_optz_lkd, hp_vals, Rtensor, Kern = Kern)
             else:
                 KernGrad_hp = None
             
diff --git a/gpgradpy/src/optz/GpHparaGrad.py b/gpgradpy/src/optz/GpHparaGrad.py
index 623572d..351fcc7 100644
--- a/gpgradpy/src/optz/GpHparaGrad.py
+++ b/gpgradpy/src/optz/GpHparaGrad.py
@@ -10,7 +10,7 @@ import numpy as np
 
 class GpHparaGrad:
     
-    def calc_KernGrad_hp(self, hp_optz_info, hp_vals, Rtensor, etaK = None):
+    def calc_KernGrad_hp(self, hp_optz_info, hp_vals, Rtensor, etaK = None, Kern = None):
         '''
         Parameters
         ----------
@@ -20,6 +20,8 @@ class GpHparaGrad:
             Class that contains all of the hyperparameters
         Rtensor : 3D numpy array of floats of shape [dim, n_data, n_data]
             Distance between two sets of nodes along all dim coordinates.
+        Kern : 2D numpy array, optional
+            Kernel matrix, required if the nugget depends on the kernel matrix.
 
         Returns
         -------
@@ -53,7 +55,30 @@ class GpHparaGrad:
             KernGrad_hp[hp_optz_info.idx_kernel,:,:] \
                 = self.calc_Kern_grad_alpha(Rtensor, hp_vals.theta, hp_vals.kernel, self.bvec_use_grad)
 
+        if self._etaK_depends_on_Kern():
+            KernGrad_hp += self.calc_etaK_grad_hp(Kern, KernGrad_hp)
+
         return KernGrad_hp
+    
+    def _etaK_depends_on_Kern(self):
+        return (not self.cond_eta_is_const) and (self.wellcond_mtd != 'precon')
+    
+    def _calc_etaK_from_Kern(self, Kern):
+        
+        sum_rows_Kern   = np.sum(np.abs(Kern), axis=1)
+        idx_etaK_argmax = np.argmax(sum_rows_Kern)
+        
+        return sum_rows_Kern[idx_etaK_argmax] / (self.cond_max_target - 1), idx_etaK_argmax
+    
+    def calc_etaK_grad_hp(self, Kern, Kern_grad_hp):
+        
+        # Derivative of the matrix etaK * I when the nugget etaK is proportional 
+        # to the max sum of the absolute values along the rows of Kern
+        
+        idx       = self._calc_etaK_from_Kern(Kern)[1]
+        etaK_grad = Kern_grad_hp[:,idx,:] @ np.sign(Kern[idx,:]) / (self.cond_max_target - 1)
+        
+        return etaK_grad[:,None,None] * np.eye(Kern.shape[0])[None,:,:]
 
     def calc_Kcov_grad_hp(self, hp_optz_info, hp_vals, Kern, Rtensor):
         '''
@@ -83,6 +108,10 @@ class GpHparaGrad:
         if hp_optz_info.has_kernel:
             Kcov_grad_hp[hp_optz_info.idx_kernel,:,:] = self.calc_Kcov_grad_alpha(hp_vals, Rtensor)
             
+        # The nugget depends on theta and on the hyperparameter of the kernel
+        if self._etaK_depends_on_Kern():
+            Kcov_grad_hp += self.calc_etaK_grad_hp(Kern, Kcov_grad_hp)
+            
         if hp_optz_info.has_varK:
             Kcov_grad_hp[hp_optz_info.idx_varK,:,:] \
                 = self.calc_Kcov_grad_varK(hp_vals, Kern)
@@ -127,7 +156,10 @@ class GpHparaGrad:
 
     def calc_Kcov_grad_varK(self, hp_vals, Kern):
         
-        eta = self._etaK
+        if self._etaK_depends_on_Kern():
+            eta = self._calc_etaK_from_Kern(Kern)[0]
+        else:
+            eta = self._etaK
         
         if self.wellcond_mtd == 'precon':
             Kcov_der_varK = Kern + eta * np.diag(np.diag(Kern))
-- 
2.43.0


From c6b82ba6b325036bd0111ef8b42d97dd969b9d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 19/49] fix: use the stored scaling of x with the stored
 hyperparameters

---
 gpgradpy/src/base/GpHpara.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpgradpy/src/base/GpHpara.py b/gpgradpy/src/base/GpHpara.py
index aa61697..7e381d1 100755
--- a/gpgradpy/src/base/GpHpara.py
+++ b/gpgradpy/src/base/GpHpara.py
@@ -53,6 +53,10 @@ class GpHpara:
         
         self.hp_vals = hp_vals
         
+        # The hyperparameters are for the data with the scaling that was stored
+        if self.b_use_data_scl and not np.any(np.isnan(self.xvec_rescaling_all[i_optz,:])):
+            self.DataScl.set_xscale_data(xvec_scale_in = self.xvec_rescaling_all[i_optz,:])
+        
     def hp_vec2dataclass(self, hp_optz_info, hp_vec):
         '''
         Parameters
-- 
2.43.0


From f79b5a714e1c0a4b297498175bbfc76ba61e6ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 20/49] fix: optimization of the hyperparameters with the
 rescaling methods, use the solution for the new scaling

---
 gpgradpy/src/base/GpWellCond.py |  2 +-
 gpgradpy/src/optz/OptzLkd.py    | 23 ++++++++++++++++++-----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/gpgradpy/src/base/GpWellCond.py b/gpgradpy/src/base/GpWellCond.py
index 1d57e25..e032646 100644
--- a/gpgradpy/src/base/GpWellCond.py
+++ b/gpgradpy/src/base/GpWellCond.py
@@ -54,7 +54,7 @@ class GpWellCondVreq:
             theta_sol     = hp_theta
             log_theta_sol = np.log10(hp_theta)
             
-        vreq = self.calc_mtd_rescale_origin_vreq(n_eval, self.dim)
+        vreq = self.DataScl.dist_set
         
         theta_star_v1   = 10**np.mean(log_theta_sol)
         
diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 56c5406..8f0cf95 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -142,22 +142,24 @@ class OptzLkd(CalcLkd):
         theta_all     = np.full((max_iter, self.dim), np.nan)
         dist2line_all = np.full(max_iter, np.nan)
         scale_vec_all = np.full((max_iter, self.dim), np.nan)
+        hp_vec_all    = np.full((max_iter, best_hp.size), np.nan)
         
         if self.n_eval > 1:
             cnt      = 0
             not_done = True
             
-            theta_new_xo = best_hp[self.hp_info_optz_lkd.idx_theta]
-            
             while not_done:
                 x_scl      = self.DataScl.x_scl
                 xvec_scale = self.DataScl.xvec_scale
                 
-                theta_new_xo, est_dist2sol, xvec_scale_new = self.rescaling_data_w_theta_sol(x_scl, xvec_scale, theta_new_xo)
+                theta_sol  = best_hp[self.hp_info_optz_lkd.idx_theta]
+                
+                theta_new_xo, est_dist2sol, xvec_scale_new = self.rescaling_data_w_theta_sol(x_scl, xvec_scale, theta_sol)
                 
                 theta_all[cnt,:]     = theta_new_xo
                 dist2line_all[cnt]   = est_dist2sol
                 scale_vec_all[cnt,:] = xvec_scale_new
+                hp_vec_all[cnt,:]    = best_hp
                 
                 if (cnt == (max_iter - 1)) or (est_dist2sol < self.cond_vreq_iter_tol):
                     not_done = False
@@ -165,6 +167,9 @@ class OptzLkd(CalcLkd):
                     x0_hp_vec = np.copy(best_hp)
                     x0_hp_vec[self.hp_info_optz_lkd.idx_theta] = theta_new_xo
                     
+                    # Optimize theta for the new scaling of the data
+                    self.DataScl.set_xscale_data(xvec_scale_in = xvec_scale_new)
+                    
                     best_hp,cond_val = self.optz_hp_max_lkd(x0_hp_vec, optz_bound)[:2]
                 
                 cnt += 1
@@ -175,8 +180,10 @@ class OptzLkd(CalcLkd):
             
             self.DataScl.set_xscale_data(xvec_scale_in = scale_vec_final)
             
-            best_hp_final = np.copy(best_hp)
+            best_hp_final = hp_vec_all[idx_min_dist, :]
             best_hp_final[self.hp_info_optz_lkd.idx_theta] = theta_final
+            
+            cond_val = self._calc_final_cond(best_hp_final)
         else:
             best_hp_final = best_hp
         
@@ -322,6 +329,12 @@ class OptzLkd(CalcLkd):
         
         ''' Calculate the final condition number '''
         
+        cond_val = self._calc_final_cond(best_hp)
+        
+        return best_hp, cond_val, surr_optz_info
+    
+    def _calc_final_cond(self, best_hp):
+        
         x_scl, Rtensor = self.get_scl_x_w_dist()
         best_hp_vals = self.hp_vec2dataclass(self.hp_info_optz_lkd, best_hp)
         
@@ -330,4 +343,4 @@ class OptzLkd(CalcLkd):
         else:
             cond_val = self.calc_Kern_w_chofac(Rtensor, best_hp_vals, calc_chofac = False, calc_cond = True)[4]
         
-        return best_hp, cond_val, surr_optz_info
+        return cond_val
-- 
2.43.0


From 9b5d5acfc7972041ae387099d004ecc223d42da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 21/49] fix: optimize the hyperparameters when there are no
 past hyperparameters

---
 gpgradpy/src/optz/GpHparaX0.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/gpgradpy/src/optz/GpHparaX0.py b/gpgradpy/src/optz/GpHparaX0.py
index 7abd99b..f534693 100644
--- a/gpgradpy/src/optz/GpHparaX0.py
+++ b/gpgradpy/src/optz/GpHparaX0.py
@@ -75,6 +75,22 @@ class GpHparaX0:
         
         ''' Get lb and ub for LHS and box constraints '''
         
+        # Use the initial hyperparameters if there are no past iterations
+        hp_init = self.get_init_hp_vals()
+        
+        def calc_median(hp_name, hp_val_init):
+            
+            if self._save_data is False:
+                return 1.0 * hp_val_init
+            
+            hp_past  = getattr(self, hp_name)[idx_min:idx_max]
+            bvec_nan = np.isnan(hp_past).reshape(hp_past.shape[0], -1).any(axis=1) if hp_past.size > 0 else []
+            
+            if np.all(bvec_nan):
+                return 1.0 * hp_val_init
+            else:
+                return np.median(hp_past[np.logical_not(bvec_nan)], axis=0)
+        
         n_hp = hp_optz_info.n_hp
         para_med_all = np.full(n_hp, np.nan)
         
@@ -85,7 +101,7 @@ class GpHparaX0:
         box_ub       = np.full(n_hp, np.nan)
         
         if hp_optz_info.has_theta:
-            para_med = np.median(self.hp_theta_all[idx_min:idx_max, :], axis=0)
+            para_med = calc_median('hp_theta_all', hp_init.theta)
             para_med = np.maximum(para_med, self.hp_theta_range[0])
             para_med = np.minimum(para_med, self.hp_theta_range[1])
             
@@ -98,7 +114,7 @@ class GpHparaX0:
             box_ub[hp_optz_info.idx_theta] = np.minimum(para_med * box_factor, self.hp_theta_range[1])
         
         if hp_optz_info.has_kernel:
-            para_med = np.median(self.hp_kernel_all[idx_min:idx_max])
+            para_med = calc_median('hp_kernel_all', hp_init.kernel)
             para_med = np.max((para_med, self.hp_kernel_range[0]))
             para_med = np.min((para_med, self.hp_kernel_range[1]))
             
@@ -111,7 +127,7 @@ class GpHparaX0:
             box_ub[hp_optz_info.idx_kernel] = np.min((para_med * box_factor, self.hp_kernel_range[1]))
         
         if hp_optz_info.has_varK:
-            para_med = np.median(self.hp_varK_all[idx_min:idx_max])
+            para_med = calc_median('hp_varK_all', hp_init.varK)
             para_med = np.max((para_med, self.hp_varK_range[0]))
             para_med = np.min((para_med, self.hp_varK_range[1]))
             
@@ -124,7 +140,7 @@ class GpHparaX0:
             box_ub[hp_optz_info.idx_varK] = np.min((para_med * box_factor, self.hp_varK_range[1]))
             
         if hp_optz_info.has_var_fval:
-            para_med = np.max((self.hp_var_fval_range[0], np.median(self.hp_var_fval_all[idx_min:idx_max])))
+            para_med = np.max((self.hp_var_fval_range[0], calc_median('hp_var_fval_all', hp_init.var_fval)))
             para_med = np.max((para_med, self.hp_var_fval_range[0]))
             para_med = np.min((para_med, self.hp_var_fval_range[1]))
             
@@ -137,7 +153,7 @@ class GpHparaX0:
             box_ub[hp_optz_info.idx_var_fval] = np.min((para_med * box_factor, self.hp_var_fval_range[1]))
             
         if hp_optz_info.has_var_fgrad:
-            para_med = np.max((self.hp_var_fgrad_range[0], np.median(self.hp_var_fgrad_all[idx_min:idx_max])))
+            para_med = np.max((self.hp_var_fgrad_range[0], calc_median('hp_var_fgrad_all', hp_init.var_fgrad)))
             para_med = np.max((para_med, self.hp_var_fgrad_range[0]))
             para_med = np.min((para_med, self.hp_var_fgrad_range[1]))
             
-- 
2.43.0


From 56da9609ec23670adbc91a83ab108093ba8025f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 22/49] fix: detect all changes of the hyperparameters after
 the setup of the surrogate

---
 gpgradpy/src/eval/GpEvalModel.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index e4dd53c..b636d59 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -7,6 +7,7 @@ Created on Fri May 28 20:44:56 2021
 """
 
 import copy
+import dataclasses
 import numpy as np
 from scipy import linalg
 
@@ -22,7 +23,7 @@ class GpEvalModel(GpMeanFun):
         can be evaluated with eval_model()
         '''
         
-        self._hp_vals_model_setup = copy.copy(self.hp_vals)
+        self._hp_vals_model_setup = copy.deepcopy(self.hp_vals)
         
         x_scl, Rtensor        = self.get_scl_x_w_dist()
         fval_scl, _, grad_scl = self.get_scl_eval_data()[:3]
@@ -56,6 +57,21 @@ class GpEvalModel(GpMeanFun):
         else:
             self.invKernEta_fdiff = linalg.cho_solve(KernEta_chofac, f_diff)
         
+    def _check_hp_vals_same_as_setup(self):
+        
+        for field in dataclasses.fields(self.hp_vals):
+            
+            val_now   = getattr(self.hp_vals, field.name)
+            val_setup = getattr(self._hp_vals_model_setup, field.name)
+            
+            if (val_now is None) or (val_setup is None):
+                if val_now is not val_setup:
+                    return False
+            elif not np.array_equal(val_now, val_setup, equal_nan = True):
+                return False
+            
+        return True
+        
     def eval_model(self, x2model_in, calc_grad = False, calc_hess = False, squeeze_nx = False):
         '''
         Parameters
@@ -102,7 +118,7 @@ class GpEvalModel(GpMeanFun):
         if squeeze_nx:
             assert nx == 1, 'If squeeze_nx is True, then x_acq must only have one point'
         
-        check_hp_vals = self.hp_vals == self._hp_vals_model_setup
+        check_hp_vals = self._check_hp_vals_same_as_setup()
         
         if check_hp_vals is False:
             print('hp_vals has changed since setup_eval_model() was called')
@@ -235,7 +251,7 @@ class GpEvalModel(GpMeanFun):
         if squeeze_nx:
             assert nx == 1, 'If squeeze_nx is True, then x_acq must only have one point'
         
-        check_hp_vals = self.hp_vals == self._hp_vals_model_setup
+        check_hp_vals = self._check_hp_vals_same_as_setup()
         
         if check_hp_vals is False:
             print('hp_vals has changed since setup_eval_model() was called')
-- 
2.43.0


From 0cbd1deb65cffa12283e20f6a68c40b81800d7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 23/49] fix: do not evaluate the surrogate with new data and
 the factorization for the previous data

---
 gpgradpy/src/GaussianProcess.py  | 5 +++++
 gpgradpy/src/eval/GpEvalModel.py | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 609f3a9..dfe5104 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -132,6 +132,8 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
     
     _vmin_req_grad      = np.nan
     
+    KernEta_chofac      = None
+    
     # Initiate timers
     _time_chofac        = 0
 
@@ -304,6 +306,9 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
         
         self.bvec_use_grad = bvec_use_grad
         
+        # The surrogate must be setup again with the new data before it is evaluated
+        self.KernEta_chofac = None
+        
         ''' Check if the data is noisy and if its variance is known '''
         
         if self.known_eps_fval:
diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index b636d59..e491c62 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -239,6 +239,8 @@ class GpEvalModel(GpMeanFun):
         
         ''' Check inputs '''
         
+        assert self.KernEta_chofac is not None, 'To evaluate the surr the Cholesky decomposition is required'
+        
         if x2model_in.ndim == 1:
             x2model = x2model_in[None,:]
         elif x2model_in.ndim == 2:
-- 
2.43.0


From 52675055b3852de094450a3db709ca0fa8bbb05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 24/49] fix: saving and loading the data of the surrogate used
 missing methods and file names

---
 gpgradpy/src/base/CommonFun.py | 44 ++++++++++++++++++++++++++++++++++
 gpgradpy/src/base/GpInfo.py    |  2 +-
 gpgradpy/src/base/GpParaDef.py |  6 ++---
 3 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/gpgradpy/src/base/CommonFun.py b/gpgradpy/src/base/CommonFun.py
index c61fe5b..d4dce60 100644
--- a/gpgradpy/src/base/CommonFun.py
+++ b/gpgradpy/src/base/CommonFun.py
@@ -6,6 +6,7 @@ Created on Wed Jun 14 09:40:59 2023
 @author: andremarchildon
 """
 
+import os
 import numpy as np 
 from numba import jit
 from scipy.spatial.distance import cdist
@@ -148,6 +149,49 @@ class CommonFun:
         
         return fd_grad, grad_x0
 
+    @staticmethod
+    def _replace_file(file_tmp, file2save, file2save_old = None):
+        
+        # Keep the previous version of the file, then move the new version in place
+        if (file2save_old is not None) and os.path.isfile(file2save):
+            os.replace(file2save, file2save_old)
+            
+        os.replace(file_tmp, file2save)
+    
+    @staticmethod
+    def save_npz_data(data2save, file2save, file2save_old = None):
+        '''
+        Parameters
+        ----------
+        data2save : dict
+            Arrays to save.
+        file2save : str
+            Path of the npz file.
+        file2save_old : str, optional
+            Path to which the previous version of file2save is moved, if it 
+            exists. The default is None.
+        '''
+        
+        file_tmp = file2save + '.tmp'
+        
+        with open(file_tmp, 'wb') as file:
+            np.savez(file, **data2save)
+            
+        CommonFun._replace_file(file_tmp, file2save, file2save_old)
+    
+    @staticmethod
+    def save_txt_data(data2save, file2save, file2save_old = None):
+        '''
+        See the method save_npz_data(), but data2save is a string
+        '''
+        
+        file_tmp = file2save + '.tmp'
+        
+        with open(file_tmp, 'w') as file:
+            file.write(data2save)
+            
+        CommonFun._replace_file(file_tmp, file2save, file2save_old)
+
     @staticmethod
     def make_data_vec(fval, fgrad = None):
         '''
diff --git a/gpgradpy/src/base/GpInfo.py b/gpgradpy/src/base/GpInfo.py
index b5000fe..48facc1 100644
--- a/gpgradpy/src/base/GpInfo.py
+++ b/gpgradpy/src/base/GpInfo.py
@@ -31,7 +31,7 @@ class GpInfo:
             print(data2print)
 
         if save2file:
-            self.save_txt_data(data2print, self.path_data_surr_txt, self.path_data_surr_old_txt)
+            self.save_txt_data(data2print, self.path_surr_txt, self.path_surr_old_txt)
 
         return data2print
 
diff --git a/gpgradpy/src/base/GpParaDef.py b/gpgradpy/src/base/GpParaDef.py
index 9e09b6e..e875894 100644
--- a/gpgradpy/src/base/GpParaDef.py
+++ b/gpgradpy/src/base/GpParaDef.py
@@ -117,7 +117,7 @@ class GpParaDef:
         assert self._save_data, 'If the method init_optz_surr has not been called, then load_data_surr cannot be used'
         
         if all_data is None: 
-            file2load = self.path_data_acq_npz
+            file2load = self.path_surr_npz
             
             if not os.path.isfile(file2load): return 
             
@@ -209,8 +209,8 @@ class GpParaDef:
                      }
 
         if save2file:
-            if file2save     is None: file2save     = self.path_data_surr_npz
-            if file2save_old is None: file2save_old = self.path_data_surr_old_npz
+            if file2save     is None: file2save     = self.path_surr_npz
+            if file2save_old is None: file2save_old = self.path_surr_old_npz
             
             self.save_npz_data(data2save, file2save, file2save_old)
                 
-- 
2.43.0


From ef52b7c733d8193249748751dd3069987c38fd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 25/49] fix: missing comma in the list of methods to start the
 optimization

---
 gpgradpy/src/GaussianProcess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index dfe5104..28b6c77 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -47,7 +47,7 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
     lkd_use_adj_mtd     = True # The adjoint method is more efficient than the forward method
     
     # Methods on how to initialize the optimization for 'max_lkd'
-    lkd_optz_start_avail = ['hp_best' 'lhs'] # hp_best requires the use of wellcond_mtd = 'precon'
+    lkd_optz_start_avail = ['hp_best', 'lhs'] # hp_best requires the use of wellcond_mtd = 'precon'
     lkd_optz_start_mtd   = 'hp_best' 
     lkd_hp_best_n_eval   = 40 # No. of points to calculate the lkd if lkd_optz_start_mtd = 'hp_best' 
     
-- 
2.43.0


From 880f496a743112dc916b5dc325a1619a569fbb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 26/49] fix: size of the feasibility data loaded with a set
 number of iterations

---
 gpgradpy/results/PltOptzResults.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpgradpy/results/PltOptzResults.py b/gpgradpy/results/PltOptzResults.py
index 20276f6..d37220a 100644
--- a/gpgradpy/results/PltOptzResults.py
+++ b/gpgradpy/results/PltOptzResults.py
@@ -66,6 +66,7 @@ class PltOptzResults:
         else:
             merit_all = merit_all[:, :n_x0_max, :]
             opt_all   = opt_all[:, :n_x0_max, :]
+            fsb_all   = fsb_all[:, :n_x0_max, :]
             
         return merit_all, opt_all, fsb_all
     
-- 
2.43.0


From e25d8fcaedbe483c37aa535abb9921eb891b7034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 27/49] fix: gradient with respect to the log hyperparameters
 when the Cholesky factorization is not available

---
 gpgradpy/src/optz/CalcLkd.py |  8 ++++----
 gpgradpy/src/optz/OptzLkd.py | 24 ++++++++++++------------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/gpgradpy/src/optz/CalcLkd.py b/gpgradpy/src/optz/CalcLkd.py
index c541303..316711a 100644
--- a/gpgradpy/src/optz/CalcLkd.py
+++ b/gpgradpy/src/optz/CalcLkd.py
@@ -314,10 +314,10 @@ class CalcLkd(calcLkdWNoise, calcLkdWoNoise):
                 lkd_info        = self.calc_lkd_all_w_noise(hp_vals.theta, Kcov_chofac, 
                                                             Kcov_grad_hp, lkd_use_adj_mtd = lkd_use_adj_mtd)
             
-            if calc_cond and calc_grad:
-                lkd_info.cond, lkd_info.cond_grad = self.calc_cond_w_grad(Kcov, Kcov_chofac, Kcov_grad_hp)
-            else:
-                lkd_info.cond = cond_K
+                if calc_cond and calc_grad:
+                    lkd_info.cond, lkd_info.cond_grad = self.calc_cond_w_grad(Kcov, Kcov_chofac, Kcov_grad_hp)
+                else:
+                    lkd_info.cond = cond_K
         else:
             Kern, _, Kern_w_eta, Kern_chofac, cond_K, etaK, idx_etaK_argmax \
                 = self.calc_Kern_w_chofac(Rtensor, hp_vals, calc_cond = calc_cond)
diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 8f0cf95..8a9489a 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -60,21 +60,21 @@ class OptzLkd(CalcLkd):
             if b_chofac_good:
                 ln_lkd_val  = lkd_info.ln_lkd 
                 ln_lkd_grad = lkd_info.ln_lkd_grad
-                
-                # Adjust gradients for terms being optimized with respect to their log values
-                if calc_grad:
-                    bvec            = self.hp_info_optz_lkd.bvec_log_optz
-                    log_hp          = hp_vec[bvec]
-                    transformation  = 10**log_hp * np.log(10)
-                    
-                    ln_lkd_grad[bvec] *= transformation
-                
-                    if self.b_use_cond_cstr:
-                        cond_grad[bvec] *= transformation
             else:
                 # If the Cholesky decomposition fails use the condition number as the obj
                 ln_lkd_val  = -cond_val
-                ln_lkd_grad = -cond_grad
+                ln_lkd_grad = None if cond_grad is None else -cond_grad
+                
+            # Adjust gradients for terms being optimized with respect to their log values
+            if calc_grad:
+                bvec            = self.hp_info_optz_lkd.bvec_log_optz
+                log_hp          = hp_vec[bvec]
+                transformation  = 10**log_hp * np.log(10)
+                
+                ln_lkd_grad[bvec] *= transformation
+            
+                if self.b_use_cond_cstr:
+                    cond_grad[bvec] *= transformation
                 
             # Store values
             self._lkd_val   = ln_lkd_val
-- 
2.43.0


From 5ac211f54371c40262aa0924ff7ff670d15c5bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 28/49] fix: restored hyperparameters are copies of the stored
 ones, no kernel hyperparameter if the kernel has none

---
 gpgradpy/src/base/GpHpara.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gpgradpy/src/base/GpHpara.py b/gpgradpy/src/base/GpHpara.py
index 7e381d1..7a7c314 100755
--- a/gpgradpy/src/base/GpHpara.py
+++ b/gpgradpy/src/base/GpHpara.py
@@ -46,10 +46,13 @@ class GpHpara:
             self.known_eps_fgrad = False
             hp_var_fgrad = self.hp_var_fgrad_all[i_optz]
         
+        hp_kernel = self.hp_kernel_all[i_optz] if self.kernel_has_hp else None
+        
+        # Copies are used such that changing hp_vals does not change the stored values
         hp_vals = self.make_hp_class(
-            self.hp_beta_all[i_optz,:], self.hp_theta_all[i_optz,:], 
-            self.hp_kernel_all[i_optz], self.hp_varK_all[i_optz], 
-            hp_var_fval,                hp_var_fgrad)
+            np.copy(self.hp_beta_all[i_optz,:]), np.copy(self.hp_theta_all[i_optz,:]), 
+            hp_kernel,   self.hp_varK_all[i_optz], 
+            hp_var_fval, hp_var_fgrad)
         
         self.hp_vals = hp_vals
         
-- 
2.43.0


From e297824836277038fa3fa7210a4c6e728fde37b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 29/49] fix: set_data copies the arrays such that changing them
 afterwards cannot change a surrogate that is already set up

---
 gpgradpy/src/GaussianProcess.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gpgradpy/src/GaussianProcess.py b/gpgradpy/src/GaussianProcess.py
index 28b6c77..381f3dd 100755
--- a/gpgradpy/src/GaussianProcess.py
+++ b/gpgradpy/src/GaussianProcess.py
@@ -298,6 +298,11 @@ class GaussianProcess(CommonFun, GpInfo, GpHpara, GpParaDef, GpWellCond,
         
         ''' Store input data '''
         
+        # Copies are used such that the surrogate does not change if the user modifies the arrays
+        x_eval, fval, std_fval, grad, std_grad, bvec_use_grad \
+            = [None if arr is None else np.copy(arr) 
+               for arr in (x_eval, fval, std_fval, grad, std_grad, bvec_use_grad)]
+        
         self._x_eval_in    = x_eval
         self._fval_in      = fval
         self._std_fval_in  = std_fval if self.known_eps_fval  else None
-- 
2.43.0


From 1a514e301140532b7c73cb9150a901f788f6f45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 30/49] fix: use the default kernel hyperparameter when it is
 not optimized (b_optz_hp_kernel = False)

---
 gpgradpy/src/base/GpHpara.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/GpHpara.py b/gpgradpy/src/base/GpHpara.py
index 7a7c314..9a5d7ad 100755
--- a/gpgradpy/src/base/GpHpara.py
+++ b/gpgradpy/src/base/GpHpara.py
@@ -87,7 +87,7 @@ class GpHpara:
         if hp_optz_info.has_kernel:
             hp_kernel = hp_vec_mod[hp_optz_info.idx_kernel][0]
         else:
-            hp_kernel = None
+            hp_kernel = self.hp_kernel_default # None if the kernel has no hyperparameter
         
         if hp_optz_info.has_varK:
             assert self.b_has_noisy_data
-- 
2.43.0


From 9d7c7f660ada3d0dcb81c42b6738160df9a57c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 31/49] fix: start of the hyperparameter optimization when no
 candidate has an acceptable condition number and for some the Cholesky
 factorisation is not available

---
 gpgradpy/src/optz/GpHparaX0.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/gpgradpy/src/optz/GpHparaX0.py b/gpgradpy/src/optz/GpHparaX0.py
index f534693..0d68b7a 100644
--- a/gpgradpy/src/optz/GpHparaX0.py
+++ b/gpgradpy/src/optz/GpHparaX0.py
@@ -40,22 +40,22 @@ class GpHparaX0:
                 hp_vals = self.hp_vec2dataclass(self.hp_info_optz_lkd, hp_x0[i,:])
                 lkd_info, b_chofac_good = self.calc_lkd_all(hp_vals, calc_cond = calc_cond)
                     
+                if calc_cond:
+                    cond_all[i]   = lkd_info.cond
+                    
                 if b_chofac_good:
                     ln_lkd_all[i] = lkd_info.ln_lkd 
-                    cond_all[i]   = lkd_info.cond
             
             if calc_cond:
-                bvec_cond_no_good = cond_all > (1.2*self.cond_max)
-                
-                # Esure theere is at least one valid initial solution
-                if np.sum(bvec_cond_no_good) == bvec_cond_no_good.size:
-                    idx = np.nanargmin(cond_all) 
-                    bvec_cond_no_good[idx] = False
-                
-                ln_lkd_all[bvec_cond_no_good] = np.nan
+                ln_lkd_all[cond_all > (1.2*self.cond_max)] = np.nan
             
-            # Use hyperparameter with highest marginal log likelihood to start optz
-            idx_max = np.nanargmax(ln_lkd_all)
+            if calc_cond and np.all(np.isnan(ln_lkd_all)):
+                # There are no valid initial solutions, use the one with the smallest condition number
+                idx_max = np.nanargmin(cond_all)
+            else:
+                # Use hyperparameter with highest marginal log likelihood to start optz
+                idx_max = np.nanargmax(ln_lkd_all)
+                
             hp_x0   = hp_x0[idx_max, :][None,:]
         
         ''' Return hp_x0 '''
-- 
2.43.0


From bd0b1e5a527f2ea9bd7ff423eea1d1f9acc8c38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:40 +0000
Subject: [PATCH 32/49] fix: the solution kept after the rescaling loop
 satisfies the condition number constraint when a feasible one was found

---
 gpgradpy/src/optz/OptzLkd.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 8a9489a..078bf8c 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -138,6 +138,10 @@ class OptzLkd(CalcLkd):
         
         best_hp, cond_val, surr_optz_info = self.optz_hp_max_lkd(hp_x0, optz_bound)
         
+        best_hp_init    = best_hp
+        cond_val_init   = cond_val
+        xvec_scale_init = self.DataScl.xvec_scale
+        
         max_iter      = self.cond_vreq_max_iter
         theta_all     = np.full((max_iter, self.dim), np.nan)
         dist2line_all = np.full(max_iter, np.nan)
@@ -184,6 +188,15 @@ class OptzLkd(CalcLkd):
             best_hp_final[self.hp_info_optz_lkd.idx_theta] = theta_final
             
             cond_val = self._calc_final_cond(best_hp_final)
+            
+            # The last change to the scaling can result in the constraint no longer being satisfied
+            if cond_val > 1.01 * self.cond_max:
+                best_hp_final, cond_val = self.optz_hp_max_lkd(best_hp_final, optz_bound)[:2]
+                
+            # Return to the initial scaling if it is the only one with a solution that satisfies the constraint
+            if (cond_val > 1.01 * self.cond_max) and (cond_val_init <= 1.01 * self.cond_max):
+                self.DataScl.set_xscale_data(xvec_scale_in = xvec_scale_init)
+                best_hp_final, cond_val = best_hp_init, cond_val_init
         else:
             best_hp_final = best_hp
         
-- 
2.43.0


From 1d1721c7bb9d4e401e029c26f93394ee571b11c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:40 +0000
Subject: [PATCH 33/49] fix: optimized hyperparameters are never worse than a
 feasible starting point

---
 gpgradpy/src/optz/OptzLkd.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 078bf8c..81bb28c 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -256,6 +256,10 @@ class OptzLkd(CalcLkd):
         optz_sol_all       = np.full((n_optz, self.hp_info_optz_lkd.n_hp), np.nan)
         optz_cond_all      = np.full(n_optz, np.nan)
         
+        # Starting points that satisfy the constraint
+        x0_obj_con_good    = []
+        x0_sol_con_good    = []
+        
         # Track data related to the condition number
         optz_n_cho_fail    = 0 # No. of instances when the Cholesky factorization fails
         optz_n_cond2big    = 0
@@ -277,6 +281,10 @@ class OptzLkd(CalcLkd):
                 optz_max_init_cond    = np.max((optz_max_init_cond, cond_val))
                 if np.isnan(lkd_val):        optz_n_cho_fail += 1
                 if cond_val > self.cond_max: optz_n_cond2big += 1
+                
+                if cond_val <= self.cond_max:
+                    x0_obj_con_good.append(-lkd_val)
+                    x0_sol_con_good.append(x0_i)
             
             ''' Optimization '''
 
@@ -321,6 +329,15 @@ class OptzLkd(CalcLkd):
             print(f'Cond = {optz_cond_all}')
             optz_obj_con_good = optz_obj_all
             optz_sol_con_good = optz_sol_all
+            
+        # The optimizer can stop early at a point that is worse than where it started
+        if len(x0_obj_con_good) > 0:
+            if not any(all_con_good):
+                optz_obj_con_good = optz_obj_con_good[:0]
+                optz_sol_con_good = optz_sol_con_good[:0,:]
+                
+            optz_obj_con_good = np.append(optz_obj_con_good, x0_obj_con_good)
+            optz_sol_con_good = np.vstack((optz_sol_con_good, x0_sol_con_good))
 
         idx_min = np.nanargmin(optz_obj_con_good)
         best_hp = optz_sol_con_good[idx_min, :]
-- 
2.43.0


From e7ef2eaf5a8bd85fac35562e747f4d9347ca60da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:11 +0000
Subject: [PATCH 34/49] fix: refuse to evaluate the surrogate at points with
 the wrong dimension when the data is rescaled

---
 gpgradpy/src/eval/GpEvalModel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpgradpy/src/eval/GpEvalModel.py b/gpgradpy/src/eval/GpEvalModel.py
index e491c62..5a45866 100644
--- a/gpgradpy/src/eval/GpEvalModel.py
+++ b/gpgradpy/src/eval/GpEvalModel.py
@@ -113,6 +113,8 @@ class GpEvalModel(GpMeanFun):
         else:
             raise Exception(f'x2model_in should be a 2d array but it has shape {x2model_in.shape}')
         
+        assert x2model.shape[1] == self.dim, f'x2model_in has shape {x2model_in.shape} but its rows should have dim = {self.dim} entries'
+        
         nx = x2model.shape[0]
         
         if squeeze_nx:
@@ -248,6 +250,8 @@ class GpEvalModel(GpMeanFun):
         else:
             raise Exception(f'x2model_in should be a 2d array but it has shape {x2model_in.shape}')
         
+        assert x2model.shape[1] == self.dim, f'x2model_in has shape {x2model_in.shape} but its rows should have dim = {self.dim} entries'
+        
         nx = x2model.shape[0]
         
         if squeeze_nx:
-- 
2.43.0


From e82c62ddd0a73e727213c58bff9c4d22d9ad080b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:11 +0000
Subject: [PATCH 35/49] fix: refuse hyperparameters theta with the wrong size
 (out-of-bounds read in the compiled kernels)

---
 gpgradpy/src/kernel/Kernel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpgradpy/src/kernel/Kernel.py b/gpgradpy/src/kernel/Kernel.py
index cb0897d..97432b1 100755
--- a/gpgradpy/src/kernel/Kernel.py
+++ b/gpgradpy/src/kernel/Kernel.py
@@ -195,6 +195,7 @@ class Kernel(KernelSqExp, KernelRatQuad, KernelMatern5f2):
             
         assert varK > 0, f'varK must be positive but varK = {varK}'
             
+        assert np.size(theta) == dim, f'Size of theta is {np.size(theta)} but it should be dim = {dim}'
         assert np.sum(np.isnan(theta)) == 0, f'There are nan values theta = {theta}'
         
         ''' Calculations '''
-- 
2.43.0


From e5745297bc14a61d0e0ba021192060e8a76d669c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:03 +0000
Subject: [PATCH 36/49] fix: the default of nlc_scl_method for set_nlc_data is
 one of the available methods

---
 gpgradpy/src/base/Rescaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/Rescaling.py b/gpgradpy/src/base/Rescaling.py
index 929dbfe..1a88cdf 100644
--- a/gpgradpy/src/base/Rescaling.py
+++ b/gpgradpy/src/base/Rescaling.py
@@ -482,7 +482,7 @@ class Rescaling(RescalingXdata, RescalingLincon, RescalingObjData, RescalingNonl
         assert self._obj_data_set, 'Must call the method set_obj_data prior to this method'
         return self.obj_scl, self.std_obj_scl, self.grad_scl, self.std_grad_scl
         
-    def set_nlc_data(self, nlc_val_init, nlc_std_val_init, nlc_grad_init, nlc_std_grad_init, use_nlc_shift = False, nlc_scl_method = 'dflt_max'):
+    def set_nlc_data(self, nlc_val_init, nlc_std_val_init, nlc_grad_init, nlc_std_grad_init, use_nlc_shift = False, nlc_scl_method = 'obj_scl'):
         
         n_eval, self.nlc_n = nlc_val_init.shape
         assert self._xdata_set, 'Must call the method set_xdata prior to set_obj_data'
-- 
2.43.0


From 7797f4e491c1a38b3e827674ac4ed97a70dac09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:36 +0000
Subject: [PATCH 37/49] fix: summary of the hyperparameters before the data is
 set

---
 gpgradpy/src/base/GpInfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/base/GpInfo.py b/gpgradpy/src/base/GpInfo.py
index 48facc1..7e4ba82 100644
--- a/gpgradpy/src/base/GpInfo.py
+++ b/gpgradpy/src/base/GpInfo.py
@@ -128,7 +128,7 @@ class GpInfo:
         ''' Get the required data '''
 
         n_iter  = self.hp_varK_all.size
-        n_data  = 5 + self.b_optz_var_fval + self.b_optz_var_fgrad \
+        n_data  = 5 + bool(self.b_optz_var_fval) + bool(self.b_optz_var_fgrad) \
             + np.min((max_n_theta_print, self.dim)) \
             
         idx_vec = np.arange(n_iter)
-- 
2.43.0


From 0ed3f9885462792d7573b61faba4ba117d4959f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 38/49] fix: load all runs and iterations of saved optimisation
 results, whatever their number

---
 gpgradpy/results/PltOptzResults.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/results/PltOptzResults.py b/gpgradpy/results/PltOptzResults.py
index d37220a..c115444 100644
--- a/gpgradpy/results/PltOptzResults.py
+++ b/gpgradpy/results/PltOptzResults.py
@@ -21,13 +21,23 @@ class PltOptzResults:
     @staticmethod
     def load_npz_data(case_folder, file_vec, n_iter_max = 1000, n_x0_init = 20, load_noise_free_data = True):
         
+        n_files = len(file_vec)
+        
+        # Number of runs and iterations stored in each of the files
+        shape_vec = []
+        
+        for file in file_vec:
+            with np.load(path.join(case_folder, file)) as npzfile:
+                shape_vec.append(npzfile['merit_all'].shape)
+        
+        n_x0_init = max([n_x0_init] + [shape[0] for shape in shape_vec])
+        
         if n_iter_max is None:
             b_clip_iter = True 
-            n_iter_max  = 1000 
+            n_iter_max  = max([0] + [shape[1] for shape in shape_vec])
         else:
             b_clip_iter = False
         
-        n_files     = len(file_vec)
         merit_all   = np.full((n_files, n_x0_init, n_iter_max), np.nan)
         opt_all     = np.full((n_files, n_x0_init, n_iter_max), np.nan)
         fsb_all     = np.full((n_files, n_x0_init, n_iter_max), np.nan)
-- 
2.43.0


From 8a75b8b299b017afaacd0487f0a00436e031f410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 39/49] fix: calc_Rtensor applies its exponent

---
 gpgradpy/src/base/CommonFun.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpgradpy/src/base/CommonFun.py b/gpgradpy/src/base/CommonFun.py
index d4dce60..59ca082 100644
--- a/gpgradpy/src/base/CommonFun.py
+++ b/gpgradpy/src/base/CommonFun.py
@@ -82,6 +82,9 @@ class CommonFun:
         for d in range(dim):
             Rtensor[d, :,:] = X[:,np.array([d])] - Y[:,np.array([d])].T
 
+        if exp != 1:
+            Rtensor = Rtensor**exp
+
         return Rtensor
     
     @staticmethod
-- 
2.43.0


From 01d6e2c7261d36ce34e2dcf16aa9ca3aaa0e52a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:45 +0000
Subject: [PATCH 40/49] fix: gradient of the condition number for matrices of
 small magnitude (floor of the smallest eigenvalue relative to the largest)

---
 gpgradpy/src/optz/GpHparaCon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/src/optz/GpHparaCon.py b/gpgradpy/src/optz/GpHparaCon.py
index e932987..9786ede 100644
--- a/gpgradpy/src/optz/GpHparaCon.py
+++ b/gpgradpy/src/optz/GpHparaCon.py
@@ -185,7 +185,7 @@ class GpHparaCon:
                 eig_min  = eigval_all[idx_mmin]
                 v_min    = eigvec_all[:,idx_mmin]
                 
-                eig_min_mod  = np.max((eig_min, 1e-16))
+                eig_min_mod  = np.max((eig_min, 1e-16 * eigval_all[idx_max]))
                 
                 v_outer_diff = np.outer(v_max, v_max) - cond * np.outer(v_min, v_min)
                 cond_grad    = np.zeros(nder)
-- 
2.43.0


From dbbf91d35f75756f6db10003591df71fd410ccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 41/49] fix: recorded largest condition number of the starts
 was always nan and failed factorizations were never counted

---
 gpgradpy/src/optz/OptzLkd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpgradpy/src/optz/OptzLkd.py b/gpgradpy/src/optz/OptzLkd.py
index 81bb28c..ccae6cb 100644
--- a/gpgradpy/src/optz/OptzLkd.py
+++ b/gpgradpy/src/optz/OptzLkd.py
@@ -79,6 +79,7 @@ class OptzLkd(CalcLkd):
             # Store values
             self._lkd_val   = ln_lkd_val
             self._lkd_grad  = ln_lkd_grad
+            self._lkd_b_chofac_good = b_chofac_good
             
             self._cond_val  = cond_val
             self._cond_grad = cond_grad
@@ -278,8 +279,8 @@ class OptzLkd(CalcLkd):
             
             if self.b_use_cond_cstr:
                 lkd_val, _, cond_val, = self.calc_store_likelihood(x0_i)[:3]
-                optz_max_init_cond    = np.max((optz_max_init_cond, cond_val))
-                if np.isnan(lkd_val):        optz_n_cho_fail += 1
+                optz_max_init_cond    = np.fmax(optz_max_init_cond, cond_val)
+                if not self._lkd_b_chofac_good: optz_n_cho_fail += 1
                 if cond_val > self.cond_max: optz_n_cond2big += 1
                 
                 if cond_val <= self.cond_max:
-- 
2.43.0


From 17a472e110cedcaadb411d7574c4b741f69eb421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 42/49] fix: plot_acq ignored the requested location of the
 legend

---
 gpgradpy/plt/SurrPlt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/plt/SurrPlt.py b/gpgradpy/plt/SurrPlt.py
index 66f9cec..51e573b 100644
--- a/gpgradpy/plt/SurrPlt.py
+++ b/gpgradpy/plt/SurrPlt.py
@@ -113,7 +113,7 @@ class SurrPlt:
         if legend_loc == 'out':
             ax.legend(fontsize = self.fs_legend, loc='center left', bbox_to_anchor=(1, 0.5))
         else:
-            ax.legend(fontsize = self.fs_legend, loc='upper left')
+            ax.legend(fontsize = self.fs_legend, loc = legend_loc)
             
         plt.tight_layout()
     
\ No newline at end of file
-- 
2.43.0


From 47557db70afb2dd33965c51558754eb9e90114ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 43/49] fix: calc_sq_exp_2d_corr ignored its arguments

---
 gpgradpy/plt/plt_kern_corr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/plt/plt_kern_corr.py b/gpgradpy/plt/plt_kern_corr.py
index 371614a..9ab0878 100644
--- a/gpgradpy/plt/plt_kern_corr.py
+++ b/gpgradpy/plt/plt_kern_corr.py
@@ -61,7 +61,7 @@ def calc_sq_exp_1d_corr(rvec):
     return sq_exp_corr_fwf, sq_exp_corr_fwg, sq_exp_corr_gwg
 
 def calc_sq_exp_2d_corr(Xrvec_in, Yrvec_in):
-    return -Xrvec * Yrvec * np.exp(-0.5*(Xrvec**2 + Yrvec**2))
+    return -Xrvec_in * Yrvec_in * np.exp(-0.5*(Xrvec_in**2 + Yrvec_in**2))
     
 def calc_Ma5f2_1d_corr(rvec):
 
-- 
2.43.0


From 28554887f1ad3e527ddfdd016b21d51506d8ebd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 44/49] fix: LHS option random_state is named seed,
 plt_nugget_1d raised an error

---
 gpgradpy/plt/plt_nugget_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/plt/plt_nugget_1d.py b/gpgradpy/plt/plt_nugget_1d.py
index bbab510..f47a137 100644
--- a/gpgradpy/plt/plt_nugget_1d.py
+++ b/gpgradpy/plt/plt_nugget_1d.py
@@ -98,7 +98,7 @@ nugget = GP.calc_nugget(n_eval)[1]
 def make_lhs(para_min, para_max, n_eval):
     
     para_limit      = np.array([para_min, para_max]).T
-    xdata_sampling  = LHS(xlimits=para_limit, random_state = 2)
+    xdata_sampling  = LHS(xlimits=para_limit, seed = 2)
     x_eval          = xdata_sampling(n_eval) 
     
     return x_eval
-- 
2.43.0


From 1cdceabf544b582540215d04448cb18ea66884a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 45/49] fix: LHS option random_state is named seed, plt_cond
 raised an error

---
 gpgradpy/plt/plt_cond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/plt/plt_cond.py b/gpgradpy/plt/plt_cond.py
index 576eca9..cf5db5c 100644
--- a/gpgradpy/plt/plt_cond.py
+++ b/gpgradpy/plt/plt_cond.py
@@ -101,7 +101,7 @@ nugget_dflt = GP.calc_nugget(n_eval)[1]
 def make_lhs(para_min, para_max, n_eval):
     
     para_limit      = np.array([para_min, para_max]).T
-    xdata_sampling  = LHS(xlimits=para_limit, random_state = 2)
+    xdata_sampling  = LHS(xlimits=para_limit, seed = 2)
     x_eval          = xdata_sampling(n_eval) 
     
     return x_eval
-- 
2.43.0


From 480e0927b7403403503786a97e09d9ecb7606ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 46/49] fix: plt_cond had its axes exchanged and used the
 length scales of the Gaussian kernel for all kernels

---
 gpgradpy/plt/plt_cond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/plt/plt_cond.py b/gpgradpy/plt/plt_cond.py
index cf5db5c..c6c2302 100644
--- a/gpgradpy/plt/plt_cond.py
+++ b/gpgradpy/plt/plt_cond.py
@@ -184,7 +184,7 @@ def calc_cond_lkd(use_grad, kernel_type, wellcond_mtd = 'precon',
     
     for i in range(n_gamma):
         for j in range(n_gamma):
-            theta    = np.array([theta_vec[i], theta_vec[j]])
+            theta    = GP.gamma2theta(np.array([gamma_vec[j], gamma_vec[i]]))
             hp_vals  = GP.make_hp_class(varK = varK, theta = theta, kernel = hp_kernel)
             lkd_info = GP.calc_lkd_all(hp_vals, calc_lkd = True, calc_cond = True, calc_grad = False)[0]
             
-- 
2.43.0


From ee423a8df514a19bb4b047291b9150562c99b8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 47/49] fix: line of the largest condition number was drawn
 from the likelihood

---
 gpgradpy/plt/plt_cond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/plt/plt_cond.py b/gpgradpy/plt/plt_cond.py
index c6c2302..cf6922d 100644
--- a/gpgradpy/plt/plt_cond.py
+++ b/gpgradpy/plt/plt_cond.py
@@ -264,7 +264,7 @@ def plot_lkd(fig, ax, scl_lkd_all, log10_condK_all, loc_max_lkd = None, base_fil
         
     if log10_condK_all is not None:
         if np.max(log10_condK_all) > np.log10(cond_max):
-            ax.contour(Xmat_para, Ymat_para, scl_lkd_all, levels=[np.log10(cond_max)])
+            ax.contour(Xmat_para, Ymat_para, log10_condK_all, levels=[np.log10(cond_max)])
     
     fig.colorbar(cs, pad = 0.08, shrink = plt_shrink, aspect = plt_aspect)
     
-- 
2.43.0


From e2d5c3dde88a99a97868aa0b1bf33d5954b972e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 48/49] fix: plt_cond asked for a method that was renamed

---
 gpgradpy/plt/plt_cond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpgradpy/plt/plt_cond.py b/gpgradpy/plt/plt_cond.py
index cf6922d..28d6a90 100644
--- a/gpgradpy/plt/plt_cond.py
+++ b/gpgradpy/plt/plt_cond.py
@@ -330,7 +330,7 @@ if False:
 if False:
     use_grad          = True
     kernel_type       = 'SqExp'
-    wellcond_mtd_vec  = [None, 'req_vmin', 'precon']
+    wellcond_mtd_vec  = [None, 'rescale_origin', 'precon']
     cond_eta_is_const = True
     std_fval_scalar   = 0
     std_grad_scalar   = 0
-- 
2.43.0


From b6ab5b7b99a86b021368eed9aad4d072532715aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:24 +0000
Subject: [PATCH 49/49] fix: the ratio of process variance and variance of the
 values was kept from an earlier record when it is undefined

---
 gpgradpy/src/base/GpParaDef.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpgradpy/src/base/GpParaDef.py b/gpgradpy/src/base/GpParaDef.py
index e875894..8e15c59 100644
--- a/gpgradpy/src/base/GpParaDef.py
+++ b/gpgradpy/src/base/GpParaDef.py
@@ -281,3 +281,5 @@ class GpParaDef:
         
         if self.var_fval[idx] > 0:
             self.varK_var_fval[idx] = self.hp_varK_all[idx] / self.var_fval[idx]
+        else:
+            self.varK_var_fval[idx] = np.nan
-- 
2.43.0

