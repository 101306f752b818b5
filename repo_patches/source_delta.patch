From ddeda9195b04fac3b170a2448193b2a0a6184119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 01/24] fix: use the second derivative w.r.t. the third
 invariant in Invariants.hessian()

---
 src/hyperelastic/frameworks/_invariants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/frameworks/_invariants.py b/src/hyperelastic/frameworks/_invariants.py
index b392a47..9642ce8 100644
--- a/src/hyperelastic/frameworks/_invariants.py
+++ b/src/hyperelastic/frameworks/_invariants.py
@@ -223,7 +223,7 @@ class Invariants:
             d2WdCdC = d2WdCdC + d2WdI2dI2 * dya(dI2dC, dI2dC)
 
         if d2WdI3dI3 is not None:
-            d2WdCdC = d2WdCdC + d2WdI2dI2 * dya(dI2dC, dI2dC)
+            d2WdCdC = d2WdCdC + d2WdI3dI3 * dya(dI3dC, dI3dC)
 
         if d2WdI1dI2 is not None:
             d2WdCdC = d2WdCdC + d2WdI1dI2 * (dya(dI1dC, dI2dC) + dya(dI2dC, dI1dC))
-- 
2.43.0


From 5e28afdc9b64c5a7cdf1c4395e7e800232066b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 02/24] fix: pass the old state variables to the hessian of the
 material model

---
 src/hyperelastic/frameworks/_invariants.py | 2 +-
 src/hyperelastic/frameworks/_stretches.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/frameworks/_invariants.py b/src/hyperelastic/frameworks/_invariants.py
index 9642ce8..8ff22d7 100644
--- a/src/hyperelastic/frameworks/_invariants.py
+++ b/src/hyperelastic/frameworks/_invariants.py
@@ -186,7 +186,7 @@ class Invariants:
         fourth-order elasticity tensor associated to the second Piola-Kirchhoff stress
         tensor)."""
 
-        dWdC, statevars = self.gradient(C, statevars)
+        dWdC, statevars_new = self.gradient(C, statevars)
         (
             d2WdI1dI1,
             d2WdI2dI2,
diff --git a/src/hyperelastic/frameworks/_stretches.py b/src/hyperelastic/frameworks/_stretches.py
index 9f4c10c..7280772 100644
--- a/src/hyperelastic/frameworks/_stretches.py
+++ b/src/hyperelastic/frameworks/_stretches.py
@@ -140,7 +140,7 @@ class Stretches:
         fourth-order elasticity tensor associated to the second Piola-Kirchhoff stress
         tensor)."""
 
-        dWdC, statevars = self.gradient(C, statevars)
+        dWdC, statevars_new = self.gradient(C, statevars)
         d2Wdλdλ = self.material.hessian(self.λ, statevars)
 
         if not isinstance(d2Wdλdλ, np.ndarray):
-- 
2.43.0


From e04559ef6bfc9cc3348d5b00bffe0cd4f51e912c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 03/24] fix: use the principal strains in the second derivative
 of the third invariant

---
 src/hyperelastic/models/stretches/_generalized_invariants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/models/stretches/_generalized_invariants.py b/src/hyperelastic/models/stretches/_generalized_invariants.py
index d63c12b..91f4ae5 100644
--- a/src/hyperelastic/models/stretches/_generalized_invariants.py
+++ b/src/hyperelastic/models/stretches/_generalized_invariants.py
@@ -319,7 +319,7 @@ class GeneralizedInvariantsModel:
             d2WdEαdEβ[3:] += self.dWdI2 * d2I2dEαdEβ
 
         if self.dWdI3 is not None:
-            d2I3dEαdEβ = Eγ
+            d2I3dEαdEβ = self.E[Eγ]
             d2WdEαdEβ[3:] += self.dWdI3 * d2I3dEαdEβ
 
         # in-place modification (avoid the creation of a new array)
-- 
2.43.0


From 98dc2950b550256eb15af5d22ac754fd00480546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 04/24] fix: evaluate the material of the dilatational space at
 the volumetric deformation

---
 src/hyperelastic/spaces/_dilatational.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/spaces/_dilatational.py b/src/hyperelastic/spaces/_dilatational.py
index e4c0fe9..b697941 100644
--- a/src/hyperelastic/spaces/_dilatational.py
+++ b/src/hyperelastic/spaces/_dilatational.py
@@ -19,7 +19,7 @@ class Dilatational(Space):
 
         self.C = asvoigt(self.einsum("kI...,kJ...->IJ...", F, F))
         self.I3 = det(self.C)
-        self.Co = self.I3 ** (1 / 3) * self.C
+        self.Co = self.I3 ** (1 / 3) * eye(self.C)
         dWodCo, statevars_new = self.material.gradient(self.Co, statevars)
 
         self.Sb = 2 * self.I3 ** (1 / 3) * dWodCo
-- 
2.43.0


From 5a494205b49f7c7252b2988a06fc7343a3dad9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 05/24] fix: do not drop small elasticity tensors in the
 distortional space

---
 src/hyperelastic/spaces/_distortional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/spaces/_distortional.py b/src/hyperelastic/spaces/_distortional.py
index 2cc4928..6eea01b 100644
--- a/src/hyperelastic/spaces/_distortional.py
+++ b/src/hyperelastic/spaces/_distortional.py
@@ -191,7 +191,7 @@ class Distortional(Space):
 
         C4 = 2 / 3 * (self.SbC * I4 - SbinvC - invCSb + self.SbC / 3 * invCinvC)
 
-        if not np.allclose(C4b, 0):
+        if np.any(C4b):
             C4 += ddot(ddot(P4, C4b, mode=(4, 4)), transpose(P4), mode=(4, 4))
 
         return [self.piola(F=F, S=self.S, detF=np.sqrt(self.I3), C4=C4, invC=self.invC)]
-- 
2.43.0


From 6b07d1d5216c4314372820223d8fb15630639e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 06/24] fix: broadcast stress and elasticity for the undeformed
 force configuration

---
 src/hyperelastic/spaces/_space.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/hyperelastic/spaces/_space.py b/src/hyperelastic/spaces/_space.py
index 55ef55b..efdcfb7 100644
--- a/src/hyperelastic/spaces/_space.py
+++ b/src/hyperelastic/spaces/_space.py
@@ -56,15 +56,15 @@ class Space:
             if self.finalize:
                 stress = astensor(stress)
 
-                # force --> deformed configuration
-                if self.force is None:
-                    # check if destination array stress must be broadcasted
-                    new_shape = np.broadcast_shapes(F.shape, stress.shape)
+                # check if destination array stress must be broadcasted
+                new_shape = np.broadcast_shapes(F.shape, stress.shape)
 
-                    if not np.allclose(new_shape, stress.shape):
-                        # broadcast stress and make a writable contiguous copy
-                        stress = np.broadcast_to(stress, new_shape).copy()
+                if not np.allclose(new_shape, stress.shape):
+                    # broadcast stress and make a writable contiguous copy
+                    stress = np.broadcast_to(stress, new_shape).copy()
 
+                # force --> deformed configuration
+                if self.force is None:
                     stress = self.einsum("iI...,IJ...->iJ...", F, stress, out=stress)
 
                 # area --> deformed configuration
@@ -88,15 +88,15 @@ class Space:
                 elasticity = astensor(elasticity, 4)
                 I3 = None
 
-                # force --> deformed configuration
-                if self.force is None:
-                    # check if destination array elasticity must be broadcasted
-                    new_shape = np.broadcast_shapes((3, 3, *F.shape), elasticity.shape)
+                # check if destination array elasticity must be broadcasted
+                new_shape = np.broadcast_shapes((3, 3, *F.shape), elasticity.shape)
 
-                    if not np.allclose(new_shape, elasticity.shape):
-                        # broadcast elasticity and make a writable contiguous copy
-                        elasticity = np.broadcast_to(elasticity, new_shape).copy()
+                if not np.allclose(new_shape, elasticity.shape):
+                    # broadcast elasticity and make a writable contiguous copy
+                    elasticity = np.broadcast_to(elasticity, new_shape).copy()
 
+                # force --> deformed configuration
+                if self.force is None:
                     elasticity = self.einsum(
                         "iI...,kK...,IJKL...->iJkL...", F, F, elasticity, out=elasticity
                     )
-- 
2.43.0


From 6e5a6cd4160c4b07295bf4e96d4e925ec6c63079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 07/24] fix: return no second derivative for linear energies in
 TorchModel

---
 src/hyperelastic/models/invariants/_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/models/invariants/_torch.py b/src/hyperelastic/models/invariants/_torch.py
index 88aa75c..40af775 100644
--- a/src/hyperelastic/models/invariants/_torch.py
+++ b/src/hyperelastic/models/invariants/_torch.py
@@ -45,7 +45,7 @@ class TorchModel:
         import torch
 
         out = None
-        if hasattr(fun, "grad_fn"):
+        if getattr(fun, "requires_grad", False):
             out = torch.autograd.grad(
                 fun.sum(), x, allow_unused=allow_unused, **kwargs
             )[0]
-- 
2.43.0


From 5625afaa3baec7ee6d9c9ad6261a1d37b9d2015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 08/24] fix: retain the graph for energies of coupled
 invariants in TorchModel

---
 src/hyperelastic/models/invariants/_torch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/models/invariants/_torch.py b/src/hyperelastic/models/invariants/_torch.py
index 40af775..a39c4b0 100644
--- a/src/hyperelastic/models/invariants/_torch.py
+++ b/src/hyperelastic/models/invariants/_torch.py
@@ -72,7 +72,7 @@ class TorchModel:
         tensor=False,
         numpy=True,
         create_graph=False,
-        retain_graph=False,
+        retain_graph=True,
     ):
         """The gradient as the partial derivative of the strain energy function w.r.t.
         the invariants."""
@@ -93,7 +93,7 @@ class TorchModel:
         )
 
         return [
-            self._grad(f, x, numpy=numpy)
+            self._grad(f, x, numpy=numpy, retain_graph=True)
             for f, x in zip(
                 [dWdI1, dWdI2, dWdI3, dWdI1, dWdI2, dWdI1], [I1, I2, I3, I2, I3, I3]
             )
-- 
2.43.0


From feb67d574f0a8d6e78fc1c96394487d115f8910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 09/24] fix: allow single points (scalar invariants) in
 TorchModel

---
 src/hyperelastic/models/invariants/_torch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hyperelastic/models/invariants/_torch.py b/src/hyperelastic/models/invariants/_torch.py
index a39c4b0..adac11e 100644
--- a/src/hyperelastic/models/invariants/_torch.py
+++ b/src/hyperelastic/models/invariants/_torch.py
@@ -59,7 +59,8 @@ class TorchModel:
 
         import torch
 
-        tensors = [torch.Tensor(arg) for arg in args]
+        dtype = torch.get_default_dtype()
+        tensors = [torch.tensor(arg, dtype=dtype) for arg in args]
         [tensor.requires_grad_(True) for tensor in tensors]
         return tensors
 
-- 
2.43.0


From 011a0dcd9fa61f3bc2aeb45b98fb8659f06bf127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 10/24] fix: do not truncate the optimum for integer initial
 parameters in lab.Optimize

---
 src/hyperelastic/lab/_optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/lab/_optimize.py b/src/hyperelastic/lab/_optimize.py
index 5751586..ac05dd6 100644
--- a/src/hyperelastic/lab/_optimize.py
+++ b/src/hyperelastic/lab/_optimize.py
@@ -156,7 +156,7 @@ class Optimize:
 
         self.experiments = experiments
         self.simulations = simulations
-        self.parameters = parameters
+        self.parameters = np.asarray(parameters, dtype=float)
         self.mask = mask
 
         if self.mask is None:
-- 
2.43.0


From ce96e7a61e6a570d7909a6b69b5f36bdad98bef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 11/24] fix: allow empty batches in the dyadic product

---
 src/hyperelastic/math/_voigt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/math/_voigt.py b/src/hyperelastic/math/_voigt.py
index 1c3a940..87746a0 100644
--- a/src/hyperelastic/math/_voigt.py
+++ b/src/hyperelastic/math/_voigt.py
@@ -695,8 +695,8 @@ def dya(A, B, out=None):
     """
 
     return np.multiply(
-        A.reshape(-1, 1, *A.shape[1:]),
-        B.reshape(1, -1, *B.shape[1:]),
+        np.expand_dims(A, axis=1),
+        np.expand_dims(B, axis=0),
         out=out,
     )
 
-- 
2.43.0


From 90f56b678b49cca1625cd932aa5cb3c971533593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 12/24] fix: broadcast scalar derivatives of principal-stretch
 models in the gradient

---
 src/hyperelastic/frameworks/_stretches.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/frameworks/_stretches.py b/src/hyperelastic/frameworks/_stretches.py
index 7280772..f557c1f 100644
--- a/src/hyperelastic/frameworks/_stretches.py
+++ b/src/hyperelastic/frameworks/_stretches.py
@@ -125,8 +125,16 @@ class Stretches:
 
         self.λ, self.M = eigh(C, fun=np.sqrt)
 
-        self.dWdλ, statevars_new = self.material.gradient(self.λ, statevars)
-        self.dWdλ = np.asarray(self.dWdλ)
+        dWdλ, statevars_new = self.material.gradient(self.λ, statevars)
+
+        if not isinstance(dWdλ, np.ndarray):
+            _dWdλ = np.zeros_like(self.λ)
+            for a in range(3):
+                if dWdλ[a] is not None:
+                    _dWdλ[a] = dWdλ[a]
+            dWdλ = _dWdλ
+
+        self.dWdλ = dWdλ
 
         self.dWdλC = self.dWdλ / (2 * self.λ)
 
-- 
2.43.0


From 17663c71510343acfd0e1dfc92da2245d05839fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 13/24] fix: accept zero second derivatives of an absent first
 derivative in Invariants.hessian()

---
 src/hyperelastic/frameworks/_invariants.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hyperelastic/frameworks/_invariants.py b/src/hyperelastic/frameworks/_invariants.py
index 8ff22d7..83a8ed3 100644
--- a/src/hyperelastic/frameworks/_invariants.py
+++ b/src/hyperelastic/frameworks/_invariants.py
@@ -197,6 +197,16 @@ class Invariants:
         ) = self.material.hessian(self.I1, self.I2, self.I3, statevars)
         I = self.I
 
+        # the derivatives of an absent (zero) first derivative are absent, too
+        if self.dWdI1 is None:
+            d2WdI1dI1 = d2WdI1dI2 = d2WdI1dI3 = None
+
+        if self.dWdI2 is None:
+            d2WdI2dI2 = d2WdI1dI2 = d2WdI2dI3 = None
+
+        if self.dWdI3 is None:
+            d2WdI3dI3 = d2WdI2dI3 = d2WdI1dI3 = None
+
         ntrax = len(C.shape[1:])
         d2WdCdC = np.zeros((6, 6, *np.ones(ntrax, dtype=int)))
 
-- 
2.43.0


From 014311a8ea6f6d75d3d6ebc2152fbd7c7995e750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 14/24] fix: accept lists and tuples as displacement and force
 data of lab.Experiment

---
 src/hyperelastic/lab/_experiment.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/lab/_experiment.py b/src/hyperelastic/lab/_experiment.py
index f3cfaa4..ddcff6c 100644
--- a/src/hyperelastic/lab/_experiment.py
+++ b/src/hyperelastic/lab/_experiment.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 from ._plotting import LabPlotter
 
 
@@ -61,8 +63,8 @@ class Experiment(LabPlotter):
         super().__init__()
 
         self.label = label
-        self.displacement = displacement
-        self.force = force
+        self.displacement = np.asarray(displacement)
+        self.force = np.asarray(force)
         self.area = area
         self.length = length
         self.time = time
-- 
2.43.0


From b6ae755a7a658b11a0357c19beef81bfd4094858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:20 +0000
Subject: [PATCH 15/24] fix: inverse of integer tensors

The result was written into an integer array, which raised a casting error, e.g. for
an integer-typed deformation gradient in the distortional and dilatational spaces.
---
 src/hyperelastic/math/_voigt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/math/_voigt.py b/src/hyperelastic/math/_voigt.py
index 87746a0..ea2d221 100644
--- a/src/hyperelastic/math/_voigt.py
+++ b/src/hyperelastic/math/_voigt.py
@@ -437,7 +437,7 @@ def inv(A, determinant=None, out=None):
     Al = A[[4, 5, 3, 2, 4, 5]]
 
     if out is None:
-        out = Ai
+        out = Ai.astype(np.result_type(Ai, 1.0), copy=False)
 
     Aij = np.multiply(Ai, Aj, out=Ai)
     Akl = np.multiply(Ak, Al, out=Ak)
-- 
2.43.0


From 541ef1950930b96fe006de18c0bf19e6ac7300ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:29 +0000
Subject: [PATCH 16/24] fix: symmetric crossed-dyadic product of integer
 tensors

The products were written into integer arrays, which raised a casting error.
---
 src/hyperelastic/math/_voigt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hyperelastic/math/_voigt.py b/src/hyperelastic/math/_voigt.py
index ea2d221..2dfe0f7 100644
--- a/src/hyperelastic/math/_voigt.py
+++ b/src/hyperelastic/math/_voigt.py
@@ -929,7 +929,8 @@ def cdya(A, B, out=None):
     if out is None:
         out = np.zeros((6, *np.broadcast_shapes(A.shape, B.shape)))
 
-    A, B = np.broadcast_arrays(A, B)
+    dtype = np.result_type(A, B, 1.0)
+    A, B = [a.astype(dtype, copy=False) for a in np.broadcast_arrays(A, B)]
     Aik, Bjl, Ail, Bkj = A[ik], B[jl], A[il], B[kj]
 
     values = np.multiply(Aik, Bjl, out=Aik) + np.multiply(Ail, Bkj, out=Ail)
-- 
2.43.0


From 48e22f39216fbaffa7e401c9908e08a5a0652774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:50 +0000
Subject: [PATCH 17/24] fix: accept integer stretches in the Ogden model

---
 src/hyperelastic/models/stretches/_ogden.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hyperelastic/models/stretches/_ogden.py b/src/hyperelastic/models/stretches/_ogden.py
index fd1baae..61d2a8a 100644
--- a/src/hyperelastic/models/stretches/_ogden.py
+++ b/src/hyperelastic/models/stretches/_ogden.py
@@ -44,6 +44,7 @@ class Ogden:
         """The gradient as the partial derivative of the strain energy function w.r.t.
         the principal stretches."""
 
+        stretches = np.asarray(stretches, dtype=np.result_type(stretches, 1.0))
         dWdλα = np.zeros_like(stretches)
 
         for mu, alpha in zip(self.mu, self.alpha):
@@ -55,6 +56,7 @@ class Ogden:
         """The hessian as the second partial derivatives of the strain energy function
         w.r.t. the principal stretches."""
 
+        stretches = np.asarray(stretches, dtype=np.result_type(stretches, 1.0))
         d2Wdλαdλα = np.zeros_like(stretches)
 
         for mu, alpha in zip(self.mu, self.alpha):
-- 
2.43.0


From 10535a39b7efc6aee4c293125aef2e37a9ce8d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:24 +0000
Subject: [PATCH 18/24] fix: accept integer stretches in the model of
 generalized invariants

---
 src/hyperelastic/models/stretches/_generalized_invariants.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hyperelastic/models/stretches/_generalized_invariants.py b/src/hyperelastic/models/stretches/_generalized_invariants.py
index 91f4ae5..58290c1 100644
--- a/src/hyperelastic/models/stretches/_generalized_invariants.py
+++ b/src/hyperelastic/models/stretches/_generalized_invariants.py
@@ -229,6 +229,7 @@ class GeneralizedInvariantsModel:
         the principal stretches."""
 
         # principal strains
+        stretches = np.asarray(stretches, dtype=np.result_type(stretches, 1.0))
         self.E, self.dEdλ, self.d2Edλdλ = self.strain(stretches, **self.kwargs)[:3]
         E = self.E
 
-- 
2.43.0


From 87da81687c669e8f1f4e1cdd9228440ab3d8fcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:45 +0000
Subject: [PATCH 19/24] fix: derivatives of TorchModel with disabled
 gradient-mode

Within torch.no_grad() or torch.inference_mode() the strain energy function was not recorded, all derivatives were reported as absent and hence, the stress was zero.
---
 src/hyperelastic/models/invariants/_torch.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/hyperelastic/models/invariants/_torch.py b/src/hyperelastic/models/invariants/_torch.py
index adac11e..c820a45 100644
--- a/src/hyperelastic/models/invariants/_torch.py
+++ b/src/hyperelastic/models/invariants/_torch.py
@@ -1,3 +1,19 @@
+from functools import wraps
+
+
+def _enable_grad(method):
+    "Record the operations also if the caller has disabled the gradient-mode."
+
+    @wraps(method)
+    def evaluate(*args, **kwargs):
+        import torch
+
+        with torch.inference_mode(False), torch.enable_grad():
+            return method(*args, **kwargs)
+
+    return evaluate
+
+
 class TorchModel:
     r"""Isotropic hyperelastic material formulation based on a given strain energy
     density function ``fun(I1, I2, I3, **kwargs)`` per unit undeformed volume. The
@@ -64,6 +80,7 @@ class TorchModel:
         [tensor.requires_grad_(True) for tensor in tensors]
         return tensors
 
+    @_enable_grad
     def gradient(
         self,
         I1,
@@ -85,6 +102,7 @@ class TorchModel:
 
         return (*[self._grad(f, x, **kwargs) for x in [I1, I2, I3]], statevars)
 
+    @_enable_grad
     def hessian(self, I1, I2, I3, statevars, numpy=True):
         """The hessian as the second partial derivatives of the strain energy function
         w.r.t. the invariants."""
-- 
2.43.0


From 3f21d79427bff42f462ac7f65b1f0b75db37a224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:06 +0000
Subject: [PATCH 20/24] fix: keep masked arrays of lab-experiments masked

Converting the data by asarray drops the mask of a masked array, so that masked measurements would take part in the stress and the plots.
---
 src/hyperelastic/lab/_experiment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/lab/_experiment.py b/src/hyperelastic/lab/_experiment.py
index ddcff6c..5ba7b12 100644
--- a/src/hyperelastic/lab/_experiment.py
+++ b/src/hyperelastic/lab/_experiment.py
@@ -63,8 +63,8 @@ class Experiment(LabPlotter):
         super().__init__()
 
         self.label = label
-        self.displacement = np.asarray(displacement)
-        self.force = np.asarray(force)
+        self.displacement = np.asanyarray(displacement)
+        self.force = np.asanyarray(force)
         self.area = area
         self.length = length
         self.time = time
-- 
2.43.0


From 5111e54c9c4e7f15d29349971804e23ce8c10bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:51 +0000
Subject: [PATCH 21/24] fix: accept reversed views and foreign byte-orders in
 TorchModel

---
 src/hyperelastic/models/invariants/_torch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hyperelastic/models/invariants/_torch.py b/src/hyperelastic/models/invariants/_torch.py
index c820a45..7a12040 100644
--- a/src/hyperelastic/models/invariants/_torch.py
+++ b/src/hyperelastic/models/invariants/_torch.py
@@ -1,5 +1,7 @@
 from functools import wraps
 
+import numpy as np
+
 
 def _enable_grad(method):
     "Record the operations also if the caller has disabled the gradient-mode."
@@ -75,6 +77,8 @@ class TorchModel:
 
         import torch
 
+        # PyTorch does not support reversed views and foreign byte-orders of arrays
+        args = [arg if torch.is_tensor(arg) else np.array(arg, float) for arg in args]
         dtype = torch.get_default_dtype()
         tensors = [torch.tensor(arg, dtype=dtype) for arg in args]
         [tensor.requires_grad_(True) for tensor in tensors]
-- 
2.43.0


From d27110f7caa962f14d5468338eb8fd707793fa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:53 +0000
Subject: [PATCH 22/24] fix: accept NumPy integers as exponents of the
 generalized measures

---
 src/hyperelastic/models/generalized/_stretch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperelastic/models/generalized/_stretch.py b/src/hyperelastic/models/generalized/_stretch.py
index 4aced70..aeb4f0e 100644
--- a/src/hyperelastic/models/generalized/_stretch.py
+++ b/src/hyperelastic/models/generalized/_stretch.py
@@ -1,7 +1,7 @@
 def strain(stretch, exponent):
     "Seth-Hill strain as a function of the stretch (with first and second derivatives)."
 
-    k = exponent
+    k = 1.0 * exponent
     λ = stretch
 
     E = lambda λ, k: (λ**k - 1) / k  # noqa: E731
@@ -19,7 +19,7 @@ def deformation(stretch, exponent):
     """Generalized deformation as a function of the stretch (with first and second
     derivatives)."""
 
-    k = exponent
+    k = 1.0 * exponent
     λ = stretch
 
     Ck = lambda λ, k: λ**k  # noqa: E731
-- 
2.43.0


From 2ad9d5cc7aad4c8eb5c8ef77efcabee0d5fbc872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:03 +0000
Subject: [PATCH 23/24] fix: scale-invariant identification of equal principal
 stretches

---
 src/hyperelastic/frameworks/_stretches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/frameworks/_stretches.py b/src/hyperelastic/frameworks/_stretches.py
index f557c1f..432f520 100644
--- a/src/hyperelastic/frameworks/_stretches.py
+++ b/src/hyperelastic/frameworks/_stretches.py
@@ -179,7 +179,7 @@ class Stretches:
 
             if β != α:
                 v = λ[α] ** 2 - λ[β] ** 2
-                mask = np.isclose(v, 0)
+                mask = np.abs(v) <= 1e-8 * λ[α] * λ[2]
 
                 f[~mask] = (dWdλC[α][~mask] - dWdλC[β][~mask]) / v[~mask]
                 f[mask] = d2WdλC2[β][mask] - d2WdλC2[m][mask]
-- 
2.43.0


From 8507c81c836d3ca20af45b64ed291bcc5f4662a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:04 +0000
Subject: [PATCH 24/24] fix: Optimize keeps its own copy of the initial
 parameters

A float array of initial parameters was kept and overwritten by the fit: several
optimizers which start from the same array changed each other's parameters (but
not their residuals and errors), and read-only arrays raised an error.
---
 src/hyperelastic/lab/_optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hyperelastic/lab/_optimize.py b/src/hyperelastic/lab/_optimize.py
index ac05dd6..fde06eb 100644
--- a/src/hyperelastic/lab/_optimize.py
+++ b/src/hyperelastic/lab/_optimize.py
@@ -156,7 +156,7 @@ class Optimize:
 
         self.experiments = experiments
         self.simulations = simulations
-        self.parameters = np.asarray(parameters, dtype=float)
+        self.parameters = np.array(parameters, dtype=float)
         self.mask = mask
 
         if self.mask is None:
-- 
2.43.0

