From 29e277a23f934ae7a13ea50e0e9dd806d558057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:53 +0000
Subject: [PATCH 01/14] fix: EllStable immediate scaling must not scale the L
 factor

With no_defer_trick the whole factor storage, including the unit lower
triangular L, was multiplied by kappa, so the ellipsoid was corrupted after
the first cut. Scale only the diagonal (inverse of D).
---
 src/ellalgo/ell_stable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index d0786f1..573285e 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -253,6 +253,8 @@ class EllStable(SearchSpace[ArrayType]):
         self._kappa *= delta
 
         if self.no_defer_trick:
-            self._mq *= self._kappa
+            # only inv(D) on the diagonal carries the scale; L must stay unscaled
+            for i in range(self._ndim):
+                self._mq[i, i] *= self._kappa
             self._kappa = 1.0
         return status
-- 
2.43.0


From 2b07946e9b06061bc3dc03d0624316a3c9e1e877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:53 +0000
Subject: [PATCH 02/14] fix: EllStable rejects a zero gradient like Ell does

A zero gradient made a central cut return Success with a NaN centre and
factors (and a bias cut raise ZeroDivisionError). Raise the same ValueError
as Ell, and return NoEffect when omega underflows to zero, before anything
is written.
---
 src/ellalgo/ell_stable.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 573285e..267e285 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -193,6 +193,8 @@ class EllStable(SearchSpace[ArrayType]):
             CutStatus.Success
         """
         g, beta = cut
+        if np.all(g == 0.0):
+            raise ValueError("Gradient cannot be a zero vector.")
 
         # calculate inv(L)*g: (n-1)*n/2 multiplications
         inv_lower_g = g.copy()  # initially
@@ -212,6 +214,8 @@ class EllStable(SearchSpace[ArrayType]):
         # calculate omega: n
         gg_t = inv_lower_g * inv_diag_inv_lower_g
         omega = sum(gg_t)
+        if omega == 0.0:
+            return CutStatus.NoEffect
 
         self._tsq = self._kappa * omega  # need for helper
 
-- 
2.43.0


From 6e86ea45b7a0f9d39ea2572124e33016a1ed223b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:53 +0000
Subject: [PATCH 03/14] fix: EllStable must not truncate with integer gradients

The work vectors were copies of the gradient and inherited its integer
dtype, so every intermediate value was truncated silently and feasible
points were cut off. Ell handles such gradients correctly.
---
 src/ellalgo/ell_stable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 267e285..52aa201 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -197,7 +197,7 @@ class EllStable(SearchSpace[ArrayType]):
             raise ValueError("Gradient cannot be a zero vector.")
 
         # calculate inv(L)*g: (n-1)*n/2 multiplications
-        inv_lower_g = g.copy()  # initially
+        inv_lower_g = g.astype(float)  # initially (copy)
 
         for j in range(self._ndim - 1):
             for i in range(j + 1, self._ndim):
@@ -242,7 +242,7 @@ class EllStable(SearchSpace[ArrayType]):
         if mu == 0.0:
             return status
         oldt = omega / mu  # initially
-        v = g.copy()
+        v = g.astype(float)
         for j in range(self._ndim):
             p = v[j]
             temp = inv_diag_inv_lower_g[j]
-- 
2.43.0


From 395cc055f0bd64994d452c4010b7bfec3ba543ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:53 +0000
Subject: [PATCH 04/14] fix: search spaces copy the centre they are given

Ell and EllStable kept the caller's array and updated it in place, so the
start point passed in was overwritten and two spaces built from one start
point moved each other's centre.
---
 src/ellalgo/ell.py        | 5 +++--
 src/ellalgo/ell_stable.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ellalgo/ell.py b/src/ellalgo/ell.py
index ca45145..78dbd97 100644
--- a/src/ellalgo/ell.py
+++ b/src/ellalgo/ell.py
@@ -12,6 +12,7 @@ Key operations:
     - update_q: Apply a cut for discrete/quantized optimization
 """
 
+import copy
 from typing import Callable, Tuple, Union
 
 import numpy as np
@@ -74,7 +75,7 @@ class Ell(SearchSpace[ArrayType]):
         """
         ndim = len(x_center)
         self.helper = EllCalc(ndim)
-        self._xc = x_center
+        self._xc = copy.copy(x_center)
         self._tsq = 0.0
         if isinstance(val, (int, float)):
             # Case 1: val is a scalar (kappa), create identity matrix
@@ -101,7 +102,7 @@ class Ell(SearchSpace[ArrayType]):
         Args:
             x_center: The new center point for the ellipsoid
         """
-        self._xc = x_center
+        self._xc = copy.copy(x_center)
 
     def tsq(self) -> float:
         """
diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 52aa201..e37ca4c 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -12,6 +12,7 @@ Key differences from `Ell`:
     - Implements rank-one updates for the LDL^T factors
 """
 
+import copy
 from typing import Callable, Tuple, Union
 
 import numpy as np
@@ -68,7 +69,7 @@ class EllStable(SearchSpace[ArrayType]):
         """
         ndim = len(x_center)
         self.helper = EllCalc(ndim)
-        self._xc = x_center
+        self._xc = copy.copy(x_center)
         self._tsq = 0.0
         self._ndim = ndim
         if isinstance(val, (int, float)):
@@ -92,7 +93,7 @@ class EllStable(SearchSpace[ArrayType]):
         :param x_center: The parameter `x_center` is of type `ArrayType`
         :type x_center: ArrayType
         """
-        self._xc = x_center
+        self._xc = copy.copy(x_center)
 
     def tsq(self) -> float:
         """
-- 
2.43.0


From 17b28f361f78c16f7fff7318a02f7d8d2cf209be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:53 +0000
Subject: [PATCH 05/14] fix: cutting_plane_optim_q snapshots the best
 evaluation point

An oracle may return the current centre (or a buffer it reuses) as the
evaluation point; without a copy later updates changed x_best so that it no
longer matched gamma. cutting_plane_optim already copies.
---
 src/ellalgo/cutting_plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ellalgo/cutting_plane.py b/src/ellalgo/cutting_plane.py
index aa022eb..ea0a2ce 100644
--- a/src/ellalgo/cutting_plane.py
+++ b/src/ellalgo/cutting_plane.py
@@ -276,7 +276,7 @@ def cutting_plane_optim_q(
         cut, x_q, gamma1, more_alt = omega.assess_optim_q(space_q.xc(), gamma, retry)
         if gamma1 is not None:  # Improved objective value
             gamma = gamma1
-            x_best = x_q
+            x_best = copy.copy(x_q)
         # Update search space with quantized cut
         status = space_q.update_q(cut)
         if status == CutStatus.Success:
-- 
2.43.0


From a2b22dcb773c9eb81ede834cb3a08abb93325692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:53 +0000
Subject: [PATCH 06/14] fix: cutting_plane_feas returns a copy of the feasible
 centre

The returned solution was the live centre of the space and changed when the
space was used again. cutting_plane_optim already copies.
---
 src/ellalgo/cutting_plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ellalgo/cutting_plane.py b/src/ellalgo/cutting_plane.py
index ea0a2ce..3fd731f 100644
--- a/src/ellalgo/cutting_plane.py
+++ b/src/ellalgo/cutting_plane.py
@@ -117,7 +117,7 @@ def cutting_plane_feas(
         # Evaluate current solution
         cut = omega.assess_feas(space.xc())
         if cut is None:  # Found feasible point
-            return space.xc(), niter
+            return copy.copy(space.xc()), niter
         # Update search space with new constraint
         status = space.update_bias_cut(cut)
         if status != CutStatus.Success or space.tsq() < options.tolerance:
-- 
2.43.0


From 4d3744fa28e013736364637e49ebd8be8ccedeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:10 +0000
Subject: [PATCH 07/14] fix: round-robin positions recover from an interrupted
 query

An interrupt between the increment and the wrap-around left the position at
the limit; the next increment stepped over the equality test and the oracle
indexed constraints outside the band (or raised IndexError) from then on.
---
 src/ellalgo/oracles/lowpass_oracle.py | 6 +++---
 src/ellalgo/oracles/profit_oracle.py  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ellalgo/oracles/lowpass_oracle.py b/src/ellalgo/oracles/lowpass_oracle.py
index 90b91d0..c647e23 100644
--- a/src/ellalgo/oracles/lowpass_oracle.py
+++ b/src/ellalgo/oracles/lowpass_oracle.py
@@ -156,7 +156,7 @@ class LowpassOracle(OracleOptim):
         # Check passband frequencies (0 to nwpass)
         for _ in range(self.nwpass):
             self.idx1 += 1
-            if self.idx1 == self.nwpass:
+            if self.idx1 >= self.nwpass:
                 self.idx1 = 0  # round robin - wrap around to start
 
             col_k = self.spectrum[self.idx1, :]  # Get frequency point coefficients
@@ -179,7 +179,7 @@ class LowpassOracle(OracleOptim):
         # Check stopband frequencies (nwstop to end)
         for _ in range(self.nwstop, mdim):
             self.idx3 += 1
-            if self.idx3 == mdim:
+            if self.idx3 >= mdim:
                 self.idx3 = self.nwstop  # round robin - wrap around to start
 
             col_k = self.spectrum[self.idx3, :]
@@ -202,7 +202,7 @@ class LowpassOracle(OracleOptim):
         # Only need to ensure non-negativity here
         for _ in range(self.nwpass, self.nwstop):
             self.idx2 += 1
-            if self.idx2 == self.nwstop:
+            if self.idx2 >= self.nwstop:
                 self.idx2 = self.nwpass  # round robin - wrap around to start
 
             col_k = self.spectrum[self.idx2, :]
diff --git a/src/ellalgo/oracles/profit_oracle.py b/src/ellalgo/oracles/profit_oracle.py
index 0506c69..71004bc 100644
--- a/src/ellalgo/oracles/profit_oracle.py
+++ b/src/ellalgo/oracles/profit_oracle.py
@@ -150,7 +150,7 @@ class ProfitOracle(OracleOptim):
         """
         for _ in [0, 1]:
             self.idx += 1
-            if self.idx == 2:
+            if self.idx >= 2:
                 self.idx = 0  # Round-robin reset
             if (fj := self.fns[self.idx](xc, gamma)) > 0:
                 return self.grads[self.idx](gamma), fj
-- 
2.43.0


From 1101581178711148632e1279502d2f5d623f4a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:45 +0000
Subject: [PATCH 08/14] fix: semidefinite factorization drops factors of
 earlier matrices in skipped columns

---
 src/ellalgo/oracles/ldlt_mgr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ellalgo/oracles/ldlt_mgr.py b/src/ellalgo/oracles/ldlt_mgr.py
index 4cce5c0..e3b9451 100644
--- a/src/ellalgo/oracles/ldlt_mgr.py
+++ b/src/ellalgo/oracles/ldlt_mgr.py
@@ -149,6 +149,7 @@ class LDLTMgr:
         start: int = 0  # range start
         self.pos = (0, 0)
         for i in range(self._ndim):
+            self._storage[i, :start] = 0.0  # skipped columns: drop earlier factors
             diag = get_elem(i, start)
             for j in range(start, i):
                 self._storage[j, i] = diag  # keep it for later use
-- 
2.43.0


From bc970290996205f12ce7a16f532c574aec52ebd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:04 +0000
Subject: [PATCH 09/14] fix: EllStable survives cuts that leave a flat region

A parallel cut with equal offsets, or a cut touching the region in one
point, made the rank-one update divide by zero: the centre had already
moved when it raised, or the factors became NaN. Ell handles both.
---
 src/ellalgo/ell_stable.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index e37ca4c..eeac408 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -239,17 +239,23 @@ class EllStable(SearchSpace[ArrayType]):
 
         # rank-one update: 3*n + (n-1)*n/2
         # r = self._sigma / omega
-        mu = sigma / (1.0 - sigma)
-        if mu == 0.0:
-            return status
-        oldt = omega / mu  # initially
+        if sigma == 1.0:  # the cut leaves a flat region
+            oldt = 0.0
+        else:
+            mu = sigma / (1.0 - sigma)
+            if mu == 0.0:
+                return status
+            oldt = omega / mu  # initially
         v = g.astype(float)
         for j in range(self._ndim):
             p = v[j]
             temp = inv_diag_inv_lower_g[j]
             newt = oldt + p * temp
-            beta2 = temp / newt
-            self._mq[j, j] *= oldt / newt  # update invD
+            if newt != 0.0:
+                beta2 = temp / newt
+                self._mq[j, j] *= oldt / newt  # update invD
+            else:  # flat region, nothing of the gradient seen yet
+                beta2 = 0.0
             for k in range(j + 1, self._ndim):
                 v[k] -= self._mq[j, k]
                 self._mq[k, j] += beta2 * v[k]
-- 
2.43.0


From e0db237c092decae48c281e3a29636fd267f18b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:00 +0000
Subject: [PATCH 10/14] fix: search spaces accept integer radii

A list of integer radii made an integer shape matrix: Ell moved its centre
and then raised, EllStable silently truncated its factors.
---
 src/ellalgo/ell.py        | 2 +-
 src/ellalgo/ell_stable.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ellalgo/ell.py b/src/ellalgo/ell.py
index 78dbd97..cb82ea2 100644
--- a/src/ellalgo/ell.py
+++ b/src/ellalgo/ell.py
@@ -84,7 +84,7 @@ class Ell(SearchSpace[ArrayType]):
         else:
             # Case 2: val is a list/array, create diagonal matrix
             self._kappa = 1.0
-            self._mq = np.diag(val)
+            self._mq = np.diag(val).astype(float)
 
     def xc(self) -> ArrayType:
         """
diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index eeac408..40bdf72 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -77,7 +77,7 @@ class EllStable(SearchSpace[ArrayType]):
             self._mq = np.eye(ndim)
         else:
             self._kappa = 1.0
-            self._mq = np.diag(val)
+            self._mq = np.diag(val).astype(float)
 
     def xc(self) -> ArrayType:
         """
-- 
2.43.0


From 785c730e1c9cc3c3bdda648f0ae6f91dcca758b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:00 +0000
Subject: [PATCH 11/14] fix: LMIOldOracle accepts integer matrices like
 LMIOracle does

---
 src/ellalgo/oracles/lmi_old_oracle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ellalgo/oracles/lmi_old_oracle.py b/src/ellalgo/oracles/lmi_old_oracle.py
index e9b6a10..f17c850 100644
--- a/src/ellalgo/oracles/lmi_old_oracle.py
+++ b/src/ellalgo/oracles/lmi_old_oracle.py
@@ -76,7 +76,7 @@ class LMIOldOracle(OracleFeas):
             True
         """
         n = len(xc)
-        A = self.mat_f0.copy()
+        A = self.mat_f0.astype(float)
         A -= sum(self.mat_f[k] * xc[k] for k in range(n))
         if not self.ldlt_mgr.factorize(A):
             ep = self.ldlt_mgr.witness()
-- 
2.43.0


From 6d21ecf2a0e4886571b26e66cbdab116d07b4e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:21 +0000
Subject: [PATCH 12/14] fix: Ell treats a rounded-negative width of a flat
 region as zero

---
 src/ellalgo/ell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ellalgo/ell.py b/src/ellalgo/ell.py
index cb82ea2..985e02f 100644
--- a/src/ellalgo/ell.py
+++ b/src/ellalgo/ell.py
@@ -239,7 +239,7 @@ class Ell(SearchSpace[ArrayType]):
         grad_t = self._mq @ grad  # n^2 multiplications
         # Calculate grad^T * (M * grad)
         omega = grad.dot(grad_t)  # n multiplications
-        if omega == 0.0:
+        if omega <= 0.0:
             return CutStatus.NoEffect
         # Update tsq measure
         self._tsq = self._kappa * omega
-- 
2.43.0


From ae03085a2ad9c312aa3eaa6da22e8ece688743ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:52 +0000
Subject: [PATCH 13/14] fix: EllStable kept a slightly negative width after a
 parallel cut with equal offsets

When rounding made sigma exceed 1, the rank-one update started from a negative
value and left a negative entry in D; the next cut along that direction raised
ValueError (math domain error) or was answered NoSoln.
---
 src/ellalgo/ell_stable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 40bdf72..8181751 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -239,7 +239,7 @@ class EllStable(SearchSpace[ArrayType]):
 
         # rank-one update: 3*n + (n-1)*n/2
         # r = self._sigma / omega
-        if sigma == 1.0:  # the cut leaves a flat region
+        if sigma >= 1.0:  # the cut leaves a flat region
             oldt = 0.0
         else:
             mu = sigma / (1.0 - sigma)
-- 
2.43.0


From 776471e46b6db2466b79f8e6c6750f7cf2ac8e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:33 +0000
Subject: [PATCH 14/14] fix: a cut of a region reduced to one point raised or
 made the centre NaN

An exactly tangent deep cut leaves a single point (kappa = 0). The next deep cut
through it raised ZeroDivisionError, or with two equal offsets turned the centre
into NaN, while the immediate-scaling mode answers NoEffect.
---
 src/ellalgo/ell.py        | 2 +-
 src/ellalgo/ell_stable.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ellalgo/ell.py b/src/ellalgo/ell.py
index 985e02f..186cd3b 100644
--- a/src/ellalgo/ell.py
+++ b/src/ellalgo/ell.py
@@ -239,7 +239,7 @@ class Ell(SearchSpace[ArrayType]):
         grad_t = self._mq @ grad  # n^2 multiplications
         # Calculate grad^T * (M * grad)
         omega = grad.dot(grad_t)  # n multiplications
-        if omega <= 0.0:
+        if self._kappa * omega <= 0.0:
             return CutStatus.NoEffect
         # Update tsq measure
         self._tsq = self._kappa * omega
diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 8181751..71e625f 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -215,7 +215,7 @@ class EllStable(SearchSpace[ArrayType]):
         # calculate omega: n
         gg_t = inv_lower_g * inv_diag_inv_lower_g
         omega = sum(gg_t)
-        if omega == 0.0:
+        if self._kappa * omega <= 0.0:
             return CutStatus.NoEffect
 
         self._tsq = self._kappa * omega  # need for helper
-- 
2.43.0

