From 93686a1540bafa1cf4a6f0151f08a7bd938d59c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 01/27] fix: solve trust-region subproblem exactly for
 indefinite and (near-)hard cases

The n-dimensional subproblem solver returned steps of arbitrary sign (up to
increasing the model) when the gradient component along the eigenvector to the
smallest eigenvalue was smaller than the trust region radius, and wrong steps
for symmetric matrices with repeated eigenvalues, for which linalg.eig does
not return orthogonal eigenvectors.
---
 fides/subproblem.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index 692be3e..f91da20 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -134,13 +134,17 @@ def solve_nd_trust_region_subproblem(
     # INITIALIZATION
 
     # instead of a cholesky factorization, we go with an eigenvalue
-    # decomposition, which works pretty well for n=2
-    eigvals, eigvecs = linalg.eig(b)
-    eigvals = np.real(eigvals)
-    eigvecs = np.real(eigvecs)
+    # decomposition, which works pretty well for n=2. Only the symmetric part
+    # of b contributes to the quadratic form, eigh ensures that eigenvectors
+    # are orthonormal, also for repeated eigenvalues.
+    eigvals, eigvecs = linalg.eigh(0.5 * (b + b.T))
     w = -eigvecs.T.dot(g)
     jmin = eigvals.argmin()
     mineig = eigvals[jmin]
+    # eigenvalues that agree up to rounding errors are treated as repeated
+    eps_eig = 1e2 * np.spacing(np.max(np.abs(eigvals)))
+    ismin = eigvals - mineig <= eps_eig
+    eigvals[ismin] = mineig
 
     # since B symmetric eigenvecs V are orthonormal
     # B + lambda I = V * (E + lambda I) * V.T
@@ -160,7 +164,10 @@ def solve_nd_trust_region_subproblem(
         else:
             laminit = 0
     else:
-        laminit = -mineig
+        # ||s(lam)|| >= ||w_min|| / (lam + mineig), where w_min are the
+        # coefficients for the smallest eigenvalue, so this is a lower bound
+        # for the root
+        laminit = -mineig + norm(w[ismin]) / delta
 
     # INDEFINITE CASE
     # note that this includes what Nocedal calls the "hard case" but with
@@ -178,7 +185,7 @@ def solve_nd_trust_region_subproblem(
                 args=(w, eigvals, eigvecs, delta),
             )
             s = slam(r, w, eigvals, eigvecs)
-            if norm(s) <= delta + 1e-12:
+            if delta * (1 - 1e-6) <= norm(s) <= delta + 1e-12:
                 logger.debug('Found boundary subproblem solution via newton')
                 return s, 'indef'
         except RuntimeError:
@@ -201,7 +208,9 @@ def solve_nd_trust_region_subproblem(
                     args=(w, eigvals, eigvecs, delta),
                 )
                 s = slam(r, w, eigvals, eigvecs)
-                if norm(s) <= delta + np.sqrt(np.spacing(1)):
+                if delta * (1 - 1e-6) <= norm(s) <= delta + np.sqrt(
+                    np.spacing(1)
+                ):
                     logger.debug(
                         'Found boundary subproblem solution via brentq'
                     )
@@ -210,14 +219,18 @@ def solve_nd_trust_region_subproblem(
             pass  # may end up here due to ill-conditioning, treat as hard case
 
     # HARD CASE (gradient is orthogonal to eigenvector to smallest eigenvalue)
-    w[(eigvals - mineig) == 0] = 0
+    # any remaining (small) component of the gradient in the eigenspace of the
+    # smallest eigenvalue determines the direction in that eigenspace
+    v_min = eigvecs[:, ismin].dot(w[ismin])
+    v_min = v_min / norm(v_min) if norm(v_min) > 0 else eigvecs[:, jmin]
+    w[ismin] = 0
     s = slam(-mineig, w, eigvals, eigvecs)
-    # we know that ||s(lam) + sigma*v_jmin|| = delta, since v_jmin is
+    # we know that ||s(lam) + sigma*v_min|| = delta, since v_min is
     # orthonormal, we can just substract the difference in norm to get
     # the right length.
 
     sigma = np.sqrt(max(delta**2 - norm(s) ** 2, 0))
-    s = s + sigma * eigvecs[:, jmin]
+    s = s + sigma * v_min
     logger.debug('Found boundary 2D subproblem solution via hard case')
     return s, 'hard'
 
-- 
2.43.0


From 734b01267019c214609c66d0e14e499722dc42ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 02/27] fix: make tolerances of the trust-region subproblem
 solver relative

Tolerances for the multiplier and the step norm were absolute, such that
badly scaled problems ended up in the hard-case fallback, with steps that are
suboptimal or exceed the trust-region radius.
---
 fides/subproblem.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index f91da20..ac13e86 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -158,16 +158,26 @@ def solve_nd_trust_region_subproblem(
     # POSITIVE DEFINITE
     if mineig > 0:  # positive definite
         s = np.real(slam(0, w, eigvals, eigvecs))  # s = - self.cB\self.cg_hat
-        if norm(s) <= delta + np.sqrt(np.spacing(1)):  # CASE 0
+        if norm(s) <= delta * (1 + np.sqrt(np.spacing(1))):  # CASE 0
             logger.debug('Interior subproblem solution')
             return s, 'posdef'
-        else:
-            laminit = 0
+
+    # the tolerances below are absolute, so proceed in dimensionless
+    # coordinates with s/delta and lam/scale of order one
+    scale = max(np.max(np.abs(eigvals)), norm(w) / delta)
+    if scale > 0:
+        eigvals /= scale
+        w /= scale * delta
+        mineig /= scale
+    radius, delta = delta, 1.0
+
+    if mineig > 0:
+        laminit = 0
     else:
         # ||s(lam)|| >= ||w_min|| / (lam + mineig), where w_min are the
         # coefficients for the smallest eigenvalue, so this is a lower bound
         # for the root
-        laminit = -mineig + norm(w[ismin]) / delta
+        laminit = -mineig + norm(w[ismin])
 
     # INDEFINITE CASE
     # note that this includes what Nocedal calls the "hard case" but with
@@ -187,7 +197,7 @@ def solve_nd_trust_region_subproblem(
             s = slam(r, w, eigvals, eigvecs)
             if delta * (1 - 1e-6) <= norm(s) <= delta + 1e-12:
                 logger.debug('Found boundary subproblem solution via newton')
-                return s, 'indef'
+                return radius * s, 'indef'
         except RuntimeError:
             pass
         try:
@@ -214,7 +224,7 @@ def solve_nd_trust_region_subproblem(
                     logger.debug(
                         'Found boundary subproblem solution via brentq'
                     )
-                    return s, 'indef'
+                    return radius * s, 'indef'
         except RuntimeError:
             pass  # may end up here due to ill-conditioning, treat as hard case
 
@@ -232,7 +242,7 @@ def solve_nd_trust_region_subproblem(
     sigma = np.sqrt(max(delta**2 - norm(s) ** 2, 0))
     s = s + sigma * v_min
     logger.debug('Found boundary 2D subproblem solution via hard case')
-    return s, 'hard'
+    return radius * s, 'hard'
 
 
 def slam(
-- 
2.43.0


From eb4f7841f11c29540bbb845984141941ca198531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 03/27] fix: ensure that basis of 2D subspace is orthonormal

If gradient and Newton direction were (almost) parallel, the second basis
vector consisted of normalized rounding errors and was not orthogonal to the
first, such that steps exceeded the trust-region radius.
---
 fides/steps.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 0ee9f00..4def3d8 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -312,9 +312,11 @@ class TRStep2D(Step):
             s_grad = scaling.dot(np.sign(sg) + (sg == 0))
 
         normalize(s_newt)
+        normalize(s_grad)
         s_grad = s_grad - s_newt * s_newt.dot(s_grad)
-        # if non-zero, add s_grad to subspace
-        if norm(s_grad) > np.spacing(1):
+        # if s_grad is not parallel to s_newt (up to rounding errors, which
+        # would not be orthogonal to s_newt), add s_grad to subspace
+        if norm(s_grad) > np.sqrt(np.spacing(1)):
             normalize(s_grad)
             self.subspace = np.vstack([s_newt, s_grad]).T
         else:
-- 
2.43.0


From e58c86ff8887e1b4c6b4d0a3ee41baed409b83bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 04/27] fix: make Steihaug CG steps consistent with step back,
 allow zero gradient

When a Steihaug step was stepped back, its offset was not, so that the
predicted decrease (and everything derived from it) did not belong to the
step that was taken. For a zero gradient the proposed step was NaN.
---
 fides/steps.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 4def3d8..6e4e8c3 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -336,7 +336,11 @@ class CGStep(Step):
     def calculate(self):
         nsg = norm(self.sg)
         self.conj_grad(min(0.5, np.sqrt(nsg)) * nsg)
-        self.s = self.scaling.dot(self.ss + self.ss0)
+        # the whole step is subject to step back, so there is no offset that
+        # would have to be accounted for separately
+        self.ss = self.ss + self.ss0
+        self.ss0 = np.zeros_like(self.ss0)
+        self.s = self.scaling.dot(self.ss)
         self.step_back()
         self.qpval = quadratic_form(self.shess, self.sg, self.ss + self.ss0)
 
@@ -362,7 +366,9 @@ class TRStepSteihaug(CGStep):
         z = np.zeros_like(self.sg)
         r = self.sg.copy()
         d = -self.sg.copy()
-        if norm(r) < eps:
+        if norm(r) <= eps:
+            self.subspace = np.expand_dims(d, 1)
+            self.sc = np.zeros((1,))
             self.ss = z
             return
 
-- 
2.43.0


From 098206c68991967b65432e603b1d38fc600e6007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 05/27] fix: do not use Newton step in 2D subspace if it does
 not exist

For singular models with a gradient component in the nullspace, the proposed
step was zero (two or more variables) or NaN (one variable), such that
optimization terminated at non-stationary points.
---
 fides/steps.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 6e4e8c3..a4357c5 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -284,8 +284,7 @@ class TRStep2D(Step):
         self.posdef = np.min(np.real(e)) > -np.spacing(1) * np.max(np.abs(e))
 
         if len(sg) == 1:
-            s_newt = -sg[0] / self.shess[0]
-            self.subspace = np.expand_dims(s_newt, 1)
+            self.subspace = np.ones((1, 1))
             return
 
         self.newton = False
@@ -293,7 +292,10 @@ class TRStep2D(Step):
         if self.posdef:
             s_newt = -linalg.lstsq(self.shess, sg)[0]
 
-            if norm(s_newt) < delta:
+            # the newton step does not exist if shess is singular and the
+            # gradient has a component in its nullspace
+            residual = norm(self.shess.dot(s_newt) + sg)
+            if norm(s_newt) < delta and residual <= 1e-6 * norm(sg):
                 # Case 0 of Fig 12 in [ColemanLi1994]
                 normalize(s_newt)
                 self.newton = True
@@ -316,7 +318,9 @@ class TRStep2D(Step):
         s_grad = s_grad - s_newt * s_newt.dot(s_grad)
         # if s_grad is not parallel to s_newt (up to rounding errors, which
         # would not be orthogonal to s_newt), add s_grad to subspace
-        if norm(s_grad) > np.sqrt(np.spacing(1)):
+        if norm(s_newt) == 0:
+            self.subspace = np.expand_dims(s_grad, 1)
+        elif norm(s_grad) > np.sqrt(np.spacing(1)):
             normalize(s_grad)
             self.subspace = np.vstack([s_newt, s_grad]).T
         else:
-- 
2.43.0


From d3effcba4afd9fa37dee31c26a423f7dc59a8753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 06/27] fix: tolerate rounding errors when intersecting rays
 with the trust-region boundary

---
 fides/subproblem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index ac13e86..748e12b 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -73,9 +73,13 @@ def solve_1d_trust_region_subproblem(
 def get_1d_trust_region_boundary_solution(b, g, s, s0, delta):
     a = np.dot(s, s)
     b_coef = 2 * np.dot(s0, s)
-    c = np.dot(s0, s0) - delta**2
+    # s0 may exceed the boundary by rounding errors
+    c = min(np.dot(s0, s0) - delta**2, 0.0)
 
     aux = b_coef + math.copysign(np.sqrt(b_coef**2 - 4 * a * c), b_coef)
+    if aux == 0:
+        # s0 is on the boundary and s is tangential
+        return 0.0
     ts = [-aux / (2 * a), -2 * c / aux]
     qs = [quadratic_form(b, g, s0 + t * s) for t in ts]
     return ts[np.argmin(qs)]
-- 
2.43.0


From 353a7d1585fccba7834c504440120df5a3c6c109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 07/27] fix: orthonormalize subspace of truncated steps

---
 fides/steps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index a4357c5..e8f1ca9 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -496,9 +496,9 @@ class TRStepTruncated(Step):
         subspace[iminbr, :] = 0
         # reduce subspace
         subspace = subspace[:, (subspace != 0).any(axis=0)]
-        # normalize subspace
-        for ix in range(subspace.shape[1]):
-            normalize(subspace[:, ix])
+        # orthonormalize subspace
+        if subspace.shape[1] > 0:
+            subspace = linalg.orth(subspace)
         self.subspace = subspace
 
         for iminbr in step.iminbr:
-- 
2.43.0


From 8f859c877b44f532fd3912d4943524452e90fe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 08/27] fix: do not evaluate points that exceed boundaries by
 rounding errors

---
 fides/minimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 3ae0166..fd4826a 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -411,7 +411,8 @@ class Optimizer:
                 logger=self.logger,
             )
 
-            x_new = self.x + step.s + step.s0
+            # rounding errors may place x_new outside of the boundaries
+            x_new = np.clip(self.x + step.s + step.s0, self.lb, self.ub)
             funout_new = self.fevaler(x_new)
 
             if np.isfinite(funout_new.fval):
-- 
2.43.0


From 1969f74725d1178b76d411e88a35f79a779d7147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 09/27] fix: ensure that refined steps respect trust region
 radius

---
 fides/steps.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fides/steps.py b/fides/steps.py
index e8f1ca9..21c0390 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -574,6 +574,11 @@ class RefinedStep(Step):
         )
         self.sc = res.x
         self.ss = self.subspace.dot(self.sc)
+        # constraints are only satisfied approximately
+        nss = norm(self.ss)
+        if nss > self.delta:
+            self.sc *= self.delta / nss
+            self.ss *= self.delta / nss
         self.s = self.scaling.dot(self.ss)
         self.step_back()
         self.qpval = quadratic_form(self.shess, self.sg, self.ss)
-- 
2.43.0


From 299e696e578de80ada84392f913a2268470ecaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 10/27] fix: account for offset when solving the restricted
 subproblem after truncation

---
 fides/steps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fides/steps.py b/fides/steps.py
index 21c0390..7ff836d 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -210,7 +210,8 @@ class Step:
         subspace
         """
         self.chess = self.subspace.T.dot(self.shess.dot(self.subspace))
-        self.cg = self.subspace.T.dot(self.sg)
+        # gradient of the quadratic model at ss0
+        self.cg = self.subspace.T.dot(self.sg + self.shess.dot(self.ss0))
 
     def compute_step(self) -> None:
         """
-- 
2.43.0


From a6f83bab96f9897fe27325590af90b688685337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 11/27] fix: do not report gradient convergence for rejected
 steps

---
 fides/minimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index fd4826a..bbb1015 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -605,7 +605,9 @@ class Optimizer:
             Function output generated by a :py:class:`FunEvaluator`
         """
         converged = False
-        fval, grad = funout.fval, funout.grad
+        fval = funout.fval
+        # gradient at the next iterate, i.e., ignoring rejected steps
+        grad = funout.grad if self.tr_ratio > 0.0 else self.grad
 
         fatol = self.get_option(Options.FATOL)
         frtol = self.get_option(Options.FRTOL)
-- 
2.43.0


From 175431a0bfd52be06429b1c2fab667cebb76e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 12/27] fix: skip SR1 update if secant equation is already
 satisfied

---
 fides/hessian_approximation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index aeb07b9..38a1ddb 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -213,7 +213,7 @@ class SR1(IterativeHessianApproximation):
         d = z.T.dot(s)
 
         # [NocedalWright2006] (6.26) reject if update degenerate
-        if np.abs(d) >= np.sqrt(np.spacing(1)) * norm(s) * norm(z):
+        if np.abs(d) > np.sqrt(np.spacing(1)) * norm(s) * norm(z):
             self._diff = np.outer(z, z.T) / d
         else:
             self._diff = np.zeros_like(self._hess)
-- 
2.43.0


From 56ac5c9dbb2aea17c624301ccb6f8b9c9ebd86cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 13/27] fix: apply updates of Broydens bad method and use
 formula from reference

---
 fides/hessian_approximation.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 38a1ddb..52a5fc8 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -244,13 +244,16 @@ class BB(IterativeHessianApproximation):
     This scheme only works with a function that returns (fval, grad)
     """
 
-    def update(self, s: np.ndarray, y: np.ndarray) -> None:
-        b = y.T.dot(s)
+    def _compute_update(self, s: np.ndarray, y: np.ndarray) -> None:
         z = y - self._hess.dot(s)
-        if b <= 0:
-            self._diff = np.zeros_like(self._hess)
+        # Sherman-Morrison formula applied to the update of the inverse
+        u = self._hess.T.dot(y)
+        b = u.T.dot(s)
+        # reject if update degenerate
+        if np.abs(b) > np.sqrt(np.spacing(1)) * norm(s) * norm(u):
+            self._diff = np.outer(z, u.T) / b
         else:
-            self._diff = np.outer(z, s.T) / b
+            self._diff = np.zeros_like(self._hess)
 
 
 class HybridApproximation(HessianApproximation):
-- 
2.43.0


From d55676e445de3a5a0c103bfa45ed7eb4104a6729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:23 +0000
Subject: [PATCH 14/27] fix: handle integer valued x0, boundaries, initial
 Hessians and objective outputs

---
 fides/hessian_approximation.py |  4 ++--
 fides/minimize.py              | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 52a5fc8..6545e38 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -45,7 +45,7 @@ class HessianApproximation:
                     f'dimension, was {hess.shape[0]}, '
                     f'but should be {dim}.'
                 )
-            self._hess = hess.copy()
+            self._hess = np.array(hess, dtype=float)
         self._diff = np.zeros_like(self._hess)
 
     def get_mat(self) -> np.ndarray:
@@ -79,7 +79,7 @@ class HessianApproximation:
                 f'shape, was {mat.shape}, '
                 f'but should be {self._hess.shape}.'
             )
-        self._hess = mat.copy()
+        self._hess = np.array(mat, dtype=float)
 
     @property
     def requires_resfun(self):
diff --git a/fides/minimize.py b/fides/minimize.py
index bbb1015..deac683 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -250,8 +250,8 @@ class Optimizer:
                 f'function with argument resfun set to `True`.'
             )
 
-        self.lb: np.ndarray = np.array(lb)
-        self.ub: np.ndarray = np.array(ub)
+        self.lb: np.ndarray = np.array(lb, dtype=float)
+        self.ub: np.ndarray = np.array(ub, dtype=float)
 
         if options is None:
             options = {}
@@ -354,7 +354,7 @@ class Optimizer:
         """
         self._reset(start_id)
 
-        self.x = np.array(x0).copy()
+        self.x = np.array(x0, dtype=float)
         if self.x.ndim > 1:
             raise ValueError('x0 must be a vector with x.ndim == 1!')
         self.make_non_degenerate()
@@ -516,7 +516,7 @@ class Optimizer:
                 if isinstance(self.hessian_update, (TSSM, GNSBFGS)):
                     # TSSM: Equation (2.5)/(2.6) in [Huschens 1994]
                     # GNSBFGS: Equation (2.1) in [Zhou & Chen 2010]
-                    yb *= norm(funout_new.res) / norm(funout.res)
+                    yb = yb * (norm(funout_new.res) / norm(funout.res))
                 self.hessian_update.update(
                     s=s, y=y, yb=yb, r=funout_new.res, hess=funout_new.hess
                 )
@@ -729,7 +729,7 @@ class Optimizer:
         """
         # this implements no scaling for variables that are not constrained by
         # bounds ((iii) and (iv) in Definition 2)
-        v = np.sign(self.grad) + (self.grad == 0)
+        v = (np.sign(self.grad) + (self.grad == 0)).astype(float)
         dv = np.zeros(self.x.shape)
 
         # this implements scaling for variables that are constrained by
-- 
2.43.0


From 84793926054d93a0b6a81a2696c90097b0c9c475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:48 +0000
Subject: [PATCH 15/27] fix: validate enum valued options that are specified
 via string keys

---
 fides/constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fides/constants.py b/fides/constants.py
index b5161be..9dce9f8 100644
--- a/fides/constants.py
+++ b/fides/constants.py
@@ -128,10 +128,10 @@ def validate_options(options: dict):
                 f'{option_key} is not a valid options field.'
             ) from None
 
-        if option_key is Options.SUBSPACE_DIM:
+        if option is Options.SUBSPACE_DIM:
             option_value = SubSpaceDim(option_value)
 
-        if option_key is Options.STEPBACK_STRAT:
+        if option is Options.STEPBACK_STRAT:
             option_value = StepBackStrategy(option_value)
 
         expected_type = expected_types[option]
-- 
2.43.0


From 14b4b185ea4c7051920c2e0f38a37501d4202355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 16/27] fix: reset exitflag and hybrid Hessian approximations
 when starting a new run

---
 fides/hessian_approximation.py | 5 +++++
 fides/minimize.py              | 1 +
 2 files changed, 6 insertions(+)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 6545e38..8b844ad 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -277,6 +277,11 @@ class HybridApproximation(HessianApproximation):
 
 
 class HybridSwitchApproximation(HybridApproximation):
+    def _init_mat(self, dim: int, hess: np.ndarray | None = None):
+        # start over with the dynamic approximation
+        self._switched = False
+        super()._init_mat(dim, hess)
+
     def _switched_update(self, s: np.ndarray, y: np.ndarray, hess: np.ndarray):
         self.hessian_update.update(s, y)
         new_hess = self.hessian_update.get_mat() if self._switched else hess
diff --git a/fides/minimize.py b/fides/minimize.py
index deac683..de8c287 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -301,6 +301,7 @@ class Optimizer:
         self.iterations_since_tr_update = 0
         self.n_intermediate_tr_radius = 0
         self.converged = False
+        self.exitflag = ExitFlag.DID_NOT_RUN
         self.delta = self.get_option(Options.DELTA_INIT)
         self.delta_iter = self.delta
         self.fval_min = np.inf
-- 
2.43.0


From 30a23c2fc2319be90088a6a5e64ceaa95335046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 17/27] fix: check dimensions of objective outputs before using
 them

---
 fides/minimize.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index de8c287..1e8c9e6 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -362,6 +362,7 @@ class Optimizer:
         self.check_in_bounds()
 
         funout = self.fevaler(self.x)
+        funout.checkdims()
 
         self.fval, self.grad = funout.fval, funout.grad
         if self.hessian_update is not None:
@@ -373,8 +374,6 @@ class Optimizer:
         else:
             self.hess = funout.hess.copy()
 
-        funout.checkdims()
-
         self.track_minimum(funout)
         self.log_header()
         self.log_step_initial()
-- 
2.43.0


From a8516ea6ac367ca96a72c8da446c42d34280bee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 18/27] fix: do not share arrays between objective function and
 optimizer state

---
 fides/minimize.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 1e8c9e6..a95077a 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -9,6 +9,7 @@ import time
 import uuid
 from collections import defaultdict
 from collections.abc import Callable
+from copy import copy
 
 import h5py
 import numpy as np
@@ -49,7 +50,7 @@ class FunEvaluator:
         self.funargs = funargs
 
     def __call__(self, x: np.ndarray):
-        ret = self.fun(x, **self.funargs)
+        ret = self.fun(x.copy(), **self.funargs)
 
         if not isinstance(ret, tuple) or len(ret) != self.nargout:
             nargout = len(ret) if isinstance(ret, tuple) else 1
@@ -63,6 +64,9 @@ class FunEvaluator:
                 f'needs to return 3 values (fval, grad, hess).'
             )
 
+        # the function may reuse the returned arrays in later evaluations
+        ret = tuple(copy(val) for val in ret)
+
         if self.resfun:
             res, sres = ret
             return Funout(
@@ -361,7 +365,7 @@ class Optimizer:
         self.make_non_degenerate()
         self.check_in_bounds()
 
-        funout = self.fevaler(self.x)
+        funout = self.fevaler(self.x.copy())
         funout.checkdims()
 
         self.fval, self.grad = funout.fval, funout.grad
@@ -528,7 +532,8 @@ class Optimizer:
             self.hess = funout_new.hess.copy()
         self.check_in_bounds(funout_new.x)
         self.fval = funout_new.fval
-        self.x = funout_new.x
+        # make_non_degenerate may modify x, but not the evaluated point
+        self.x = funout_new.x.copy()
         self.grad = funout_new.grad
         self.make_non_degenerate()
 
-- 
2.43.0


From 58c3acebfb1e9cd4b10ab100707ef1bee281bdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 19/27] fix: avoid division by zero in TSSM for zero residuals

---
 fides/hessian_approximation.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 8b844ad..4309c11 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -555,9 +555,17 @@ class TSSM(StructuredApproximation):
         # Equation (2.6)
         ys = hess.dot(s) + yb
         # Equation (2.10)
-        self._structured_diff = broyden_class_update(
-            ys, s, bs, phi=self.phi, enforce_curv_cond=self.enforce_curv_cond
-        ) / norm(r)
+        if norm(r) > 0:
+            self._structured_diff = broyden_class_update(
+                ys,
+                s,
+                bs,
+                phi=self.phi,
+                enforce_curv_cond=self.enforce_curv_cond,
+            ) / norm(r)
+        else:
+            # second order term vanishes for zero residuals
+            self._structured_diff = np.zeros_like(self.A)
         self.A += self._structured_diff
         # Equation (2.9)
         self._update_hess_and_store_diff(hess + norm(r) * self.A)
-- 
2.43.0


From 2951e76a4292392df4d17d6ec2aa15bc86fa0844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 20/27] fix: ensure that concurrent optimizations use different
 loggers

---
 fides/logging.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/fides/logging.py b/fides/logging.py
index ce2112f..30b652b 100644
--- a/fides/logging.py
+++ b/fides/logging.py
@@ -8,9 +8,10 @@ optimizer as well as debugging information
     logging.Logger instance that can be used throughout fides
 """
 
+import itertools
 import logging
 
-logger_count = 0
+logger_count = itertools.count(1)
 
 
 def create_logger(level: int) -> logging.Logger:
@@ -24,11 +25,9 @@ def create_logger(level: int) -> logging.Logger:
     :return:
         logger instance
     """
-    global logger_count
-    logger_count += 1
     # add logger count to differentiate between different fides
-    # optimization instances and avoid deadlocks
-    logger = logging.getLogger(f'fides_{logger_count}')
+    # optimization instances and avoid deadlocks, next() is atomic
+    logger = logging.getLogger(f'fides_{next(logger_count)}')
     ch = logging.StreamHandler()
     formatter = logging.Formatter(
         fmt='%(asctime)s fides(%(levelname)s) %(message)s',
-- 
2.43.0


From 43030b46a6dbd9dd49af251a841cb06ba1e24c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 21/27] fix: support residual functions without Hessian
 approximation

---
 fides/minimize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index a95077a..35ea69b 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -230,9 +230,10 @@ class Optimizer:
         """
         nargout = (
             3
-            if hessian_update is None
+            if (hessian_update is None and not resfun)
             or (
-                hessian_update.requires_hess
+                hessian_update is not None
+                and hessian_update.requires_hess
                 and not hessian_update.requires_resfun
             )
             else 2
-- 
2.43.0


From eba4b0725988107ccdbfc981866af1a246e0646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:44 +0000
Subject: [PATCH 22/27] fix: subproblem solution close to the hard case

eigvals + lam is subject to cancellation if the gap between the smallest
eigenvalues is small, so steps could exceed the trust-region radius or be far
from optimal. Shift eigenvalues and bracket the root of the secular equation.
---
 fides/subproblem.py | 58 +++++++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 34 deletions(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index 748e12b..07332c3 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -166,22 +166,21 @@ def solve_nd_trust_region_subproblem(
             logger.debug('Interior subproblem solution')
             return s, 'posdef'
 
-    # the tolerances below are absolute, so proceed in dimensionless
-    # coordinates with s/delta and lam/scale of order one
+    # proceed in dimensionless coordinates with s/delta and lam/scale of order
+    # one and shift eigenvalues such that the smallest one is exactly zero, as
+    # eigvals + lam would be subject to cancellation close to the hard case
     scale = max(np.max(np.abs(eigvals)), norm(w) / delta)
     if scale > 0:
         eigvals /= scale
         w /= scale * delta
         mineig /= scale
+    eigvals -= mineig
     radius, delta = delta, 1.0
 
-    if mineig > 0:
-        laminit = 0
-    else:
-        # ||s(lam)|| >= ||w_min|| / (lam + mineig), where w_min are the
-        # coefficients for the smallest eigenvalue, so this is a lower bound
-        # for the root
-        laminit = -mineig + norm(w[ismin])
+    # ||s(lam)|| >= ||w_min|| / lam, where w_min are the coefficients for the
+    # smallest eigenvalue, so this is a lower bound for the root (with some
+    # slack for rounding errors)
+    laminit = max(mineig, (1 - 1e-8) * norm(w[ismin]) / delta, 0.0)
 
     # INDEFINITE CASE
     # note that this includes what Nocedal calls the "hard case" but with
@@ -205,30 +204,21 @@ def solve_nd_trust_region_subproblem(
         except RuntimeError:
             pass
         try:
-            xa = laminit
-            xb = (laminit + np.sqrt(np.spacing(1))) * 10
-            # search to the right for a change of sign
-            while secular(xb, w, eigvals, eigvecs, delta) < 0 and maxiter > 0:
-                xa = xb
-                xb = xb * 10
-                maxiter -= 1
-            if maxiter > 0:
-                r = brentq(
-                    secular,
-                    xa,
-                    xb,
-                    xtol=1e-12,
-                    maxiter=maxiter,
-                    args=(w, eigvals, eigvecs, delta),
-                )
-                s = slam(r, w, eigvals, eigvecs)
-                if delta * (1 - 1e-6) <= norm(s) <= delta + np.sqrt(
-                    np.spacing(1)
-                ):
-                    logger.debug(
-                        'Found boundary subproblem solution via brentq'
-                    )
-                    return radius * s, 'indef'
+            # ||s(lam)|| <= ||w|| / lam, so this bounds the root from above
+            r = brentq(
+                secular,
+                laminit,
+                2 * norm(w) / delta,
+                xtol=np.finfo(float).tiny,
+                maxiter=10 * maxiter,
+                args=(w, eigvals, eigvecs, delta),
+            )
+            s = slam(r, w, eigvals, eigvecs)
+            if delta * (1 - 1e-6) <= norm(s) <= delta + np.sqrt(
+                np.spacing(1)
+            ):
+                logger.debug('Found boundary subproblem solution via brentq')
+                return radius * s, 'indef'
         except RuntimeError:
             pass  # may end up here due to ill-conditioning, treat as hard case
 
@@ -238,7 +228,7 @@ def solve_nd_trust_region_subproblem(
     v_min = eigvecs[:, ismin].dot(w[ismin])
     v_min = v_min / norm(v_min) if norm(v_min) > 0 else eigvecs[:, jmin]
     w[ismin] = 0
-    s = slam(-mineig, w, eigvals, eigvecs)
+    s = slam(0, w, eigvals, eigvecs)
     # we know that ||s(lam) + sigma*v_min|| = delta, since v_min is
     # orthonormal, we can just substract the difference in norm to get
     # the right length.
-- 
2.43.0


From d9d05dcdd4bfbfe1dadf26fd2a21c5d678f027ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:31 +0000
Subject: [PATCH 23/27] fix: skip Broyden class updates with degenerate
 denominators

---
 fides/hessian_approximation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 4309c11..e899d9d 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -649,6 +649,10 @@ def broyden_class_update(
     if b <= 0 and enforce_curv_cond:
         return np.zeros_like(mat)
 
+    if b == 0 or c == 0:
+        # the update is not defined for degenerate denominators
+        return np.zeros_like(mat)
+
     update = np.outer(y, y.T) / b - np.outer(u, u.T) / c
 
     if phi != 0.0:
-- 
2.43.0


From f3bfd867b55d69c44cfd33c0dfd32150a146f83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 24/27] fix: refuse starts and initial Hessians of inconsistent
 shape

---
 fides/hessian_approximation.py | 6 +++---
 fides/minimize.py              | 8 +++++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index e899d9d..e463ab2 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -39,11 +39,11 @@ class HessianApproximation:
         if hess is None:
             self._hess = np.eye(dim)
         else:
-            if hess.shape[0] != dim:
+            if hess.shape != (dim, dim):
                 raise ValueError(
                     'Initial approximation had inconsistent '
-                    f'dimension, was {hess.shape[0]}, '
-                    f'but should be {dim}.'
+                    f'shape, was {hess.shape}, '
+                    f'but should be {(dim, dim)}.'
                 )
             self._hess = np.array(hess, dtype=float)
         self._diff = np.zeros_like(self._hess)
diff --git a/fides/minimize.py b/fides/minimize.py
index 35ea69b..99a55db 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -361,8 +361,14 @@ class Optimizer:
         self._reset(start_id)
 
         self.x = np.array(x0, dtype=float)
-        if self.x.ndim > 1:
+        if self.x.ndim != 1:
             raise ValueError('x0 must be a vector with x.ndim == 1!')
+        if self.x.shape != self.lb.shape or self.x.shape != self.ub.shape:
+            raise ValueError(
+                'x0 must have the same shape as the boundaries, was '
+                f'{self.x.shape}, but boundaries have shape {self.lb.shape} '
+                f'and {self.ub.shape}!'
+            )
         self.make_non_degenerate()
         self.check_in_bounds()
 
-- 
2.43.0


From c3d361183c19e90fb605efe8862559aa022d758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 25/27] fix: limit number of conjugate gradient iterations

---
 fides/steps.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 7ff836d..e706e8e 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -377,7 +377,9 @@ class TRStepSteihaug(CGStep):
             self.ss = z
             return
 
-        while True:
+        # rounding errors and overflows may prevent convergence
+        maxiter = 10 * len(z)
+        for iteration in range(maxiter):
             bd = self.shess.dot(d)
             c = d.dot(bd)
             r2 = np.dot(r, r)
@@ -397,7 +399,7 @@ class TRStepSteihaug(CGStep):
                 return
             rp = r + alpha * bd
             rp2 = np.dot(rp, rp)
-            if np.sqrt(rp2) < eps:
+            if np.sqrt(rp2) < eps or iteration + 1 == maxiter:
                 normalize(d)
                 self.subspace = np.expand_dims(d, 1)
                 self.sc = zp.dot(d) * np.ones((1,))
-- 
2.43.0


From 722c66f34308eb6b4fb591aeec075f213f2f4f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:07 +0000
Subject: [PATCH 26/27] fix: truncated variables were moved again because of
 rounding errors

---
 fides/steps.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index e706e8e..08ebc9d 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -499,14 +499,15 @@ class TRStepTruncated(Step):
         subspace[iminbr, :] = 0
         # reduce subspace
         subspace = subspace[:, (subspace != 0).any(axis=0)]
+        self.truncation_indices = step.truncation_indices | set(step.iminbr)
+
         # orthonormalize subspace
         if subspace.shape[1] > 0:
             subspace = linalg.orth(subspace)
+            # rounding errors must not reintroduce truncated variables
+            subspace[list(self.truncation_indices), :] = 0
         self.subspace = subspace
 
-        for iminbr in step.iminbr:
-            self.truncation_indices.add(iminbr)
-
 
 class GradientStep(Step):
     """
-- 
2.43.0


From b16c4e630f724f11fe3e9aa9c738efc0f26b1da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:28 +0000
Subject: [PATCH 27/27] fix: integer outputs of small or unsigned types
 overflowed

---
 fides/minimize.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 99a55db..caf3d32 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -49,6 +49,18 @@ class FunEvaluator:
             funargs = {}
         self.funargs = funargs
 
+    @staticmethod
+    def _copy(val):
+        """
+        Copies a returned value, as the function may reuse the returned arrays
+        in later evaluations. Integers and floating point numbers of lower
+        precision are converted, since computations with them may overflow.
+        """
+        if isinstance(val, (np.ndarray, np.generic)):
+            if val.dtype.kind in 'biuf':
+                return val.astype(np.promote_types(val.dtype, np.float64))
+        return copy(val)
+
     def __call__(self, x: np.ndarray):
         ret = self.fun(x.copy(), **self.funargs)
 
@@ -64,8 +76,7 @@ class FunEvaluator:
                 f'needs to return 3 values (fval, grad, hess).'
             )
 
-        # the function may reuse the returned arrays in later evaluations
-        ret = tuple(copy(val) for val in ret)
+        ret = tuple(self._copy(val) for val in ret)
 
         if self.resfun:
             res, sres = ret
-- 
2.43.0

