From 99c62541226d47d33aa713f5631389b598de897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 01/24] fix: include the exponent in the damage derivative of
 the Hayhurst-Leckie rate

---
 pyoptmat/damage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/damage.py b/pyoptmat/damage.py
index 32cce5c..6ad56ca 100644
--- a/pyoptmat/damage.py
+++ b/pyoptmat/damage.py
@@ -111,9 +111,9 @@ class HayhurstLeckie(DamageModel):
         """
         return (torch.abs(s) / self.A(T)) ** self.xi(T) * (1 - d) ** (
             self.xi(T) - self.phi(T)
-        ), -((torch.abs(s) / self.A(T)) ** self.xi(T)) * (1 - d) ** (
-            self.xi(T) - self.phi(T) - 1
-        )
+        ), -(self.xi(T) - self.phi(T)) * (
+            (torch.abs(s) / self.A(T)) ** self.xi(T)
+        ) * (1 - d) ** (self.xi(T) - self.phi(T) - 1)
 
     def d_damage_rate_d_s(self, s, d, t, T, e):
         """
-- 
2.43.0


From 302d0c2333ed2db33107eeeaf5bbeaab21da00b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 02/24] fix: include the inner derivative in the stress
 derivative of the Hayhurst-Leckie rate

---
 pyoptmat/damage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/damage.py b/pyoptmat/damage.py
index 6ad56ca..3ad5ead 100644
--- a/pyoptmat/damage.py
+++ b/pyoptmat/damage.py
@@ -126,7 +126,9 @@ class HayhurstLeckie(DamageModel):
           T (torch.tensor):      temperature
         """
         return (
-            (torch.abs(s) / self.A(T)) ** (self.xi(T) - 1)
+            self.xi(T)
+            / self.A(T)
+            * (torch.abs(s) / self.A(T)) ** (self.xi(T) - 1)
             * (1 - d) ** (self.xi(T) - self.phi(T))
             * torch.sign(s)
         )
-- 
2.43.0


From e329d5ef34f34d346da040198f3ad6c497c17b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 03/24] fix: include the effective stress in the damage-damage
 entry of the Jacobian

---
 pyoptmat/models.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/models.py b/pyoptmat/models.py
index 19d4d1d..fc2a3e0 100644
--- a/pyoptmat/models.py
+++ b/pyoptmat/models.py
@@ -237,7 +237,14 @@ class DamagedInelasticModel(nn.Module):
                     / (1 - d)
                 )[..., None, None],
                 torch.zeros_like(h).unsqueeze(-2),
-                ddrate[..., None, None],
+                (
+                    ddrate
+                    + self.dmodel.d_damage_rate_d_s(
+                        stress / (1 - d), d, t, T, erate
+                    )
+                    * stress
+                    / (1 - d) ** 2
+                )[..., None, None],
             ],
             dim=-1,
         )
-- 
2.43.0


From 43548970739e655f4066be1632d1316d2885d975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 04/24] fix: account for the state dependence of the strain
 rate in the stress control Jacobian

---
 pyoptmat/models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyoptmat/models.py b/pyoptmat/models.py
index fc2a3e0..ba83235 100644
--- a/pyoptmat/models.py
+++ b/pyoptmat/models.py
@@ -559,6 +559,9 @@ class StressBasedModel(nn.Module):
 
         # Rescale the jacobian
         J[..., 0, :] = -J[..., 0, :] / Je[..., 0][..., None]
+        J[..., 1:, :] = J[..., 1:, :] + (
+            Je[..., 1:, None] * J[..., :1, :].clone()
+        )
         J[..., :, 0] = 0
 
         # Insert the strain rate
-- 
2.43.0


From 6dc7fe34432506b68da9a8732d265d6493cf5994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 05/24] fix: keep the off-diagonal blocks of PCR and hybrid
 factorizations intact across solves

---
 pyoptmat/chunktime.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index a84e0c1..9721672 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -229,17 +229,14 @@ class BidiagonalPCRFactorization(LUFactorization):
             v (torch.tensor): tensor of shape (nblk, sbat, sblk, 1)
         """
         # We could do this in place if it wasn't for the pad
-        self.B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
+        B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
 
         # Now figure out how many powers of 2 we need to complete our matrix
         for s, e in zip(*self._pow2(self.nblk)):
-            self.B[s + 1 : e], v[s + 1 : e] = self._solve_block(
-                self.lu[s:e], self.pivots[s:e], self.B[s:e], v[s:e]
+            B[s + 1 : e], v[s + 1 : e] = self._solve_block(
+                self.lu[s:e], self.pivots[s:e], B[s:e], v[s:e]
             )
 
-        # To retain consistent sizes
-        self.B = self.B[1:]
-
         return torch.linalg.lu_solve(self.lu, self.pivots, v)
 
     def _solve_block(self, lu, pivots, B, v):
@@ -355,20 +352,17 @@ class BidiagonalHybridFactorization(BidiagonalPCRFactorization):
             v (torch.tensor): tensor of shape (nblk, sbat, sblk, 1)
         """
         # We could do this in place if it wasn't for the pad
-        self.B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
+        B = pad(self.B, (0, 0, 0, 0, 0, 0, 1, 0))
 
         # Get the PCR blocks to actually use
         start, end, last = self._pcr_blocks()
 
         # Do PCR
         for s, e in zip(start, end):
-            self.B[s + 1 : e], v[s + 1 : e] = self._solve_block(
-                self.lu[s:e], self.pivots[s:e], self.B[s:e], v[s:e]
+            B[s + 1 : e], v[s + 1 : e] = self._solve_block(
+                self.lu[s:e], self.pivots[s:e], B[s:e], v[s:e]
             )
 
-        # To retain consistent sizes
-        self.B = self.B[1:]
-
         # We still need to solve the first block even if last is 0
 
         # The actual LU solve for the solution
-- 
2.43.0


From 237f54ef11ac292a81ef626e146e7fe9e0df113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 06/24] fix: do not overwrite the right hand side when solving
 with a single batch or block

---
 pyoptmat/chunktime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 9721672..65d387e 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -163,7 +163,7 @@ class LUFactorization(BidiagonalOperator):
                 v.reshape((self.sbat, self.nblk, self.sblk))
                 .transpose(0, 1)
                 .unsqueeze(-1)
-                .contiguous()
+                .clone(memory_format=torch.contiguous_format)
             )
             .squeeze(-1)
             .transpose(0, 1)
-- 
2.43.0


From 649100f63abafbb314cc193aa6f823f3919503b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 07/24] fix: do not overwrite the initial guess in the Newton
 solvers

---
 pyoptmat/chunktime.py | 2 +-
 pyoptmat/solvers.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 65d387e..771a9b8 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -48,7 +48,7 @@ def newton_raphson_chunk(
     i = 0
 
     while (i < miter) and torch.any(nR > atol) and torch.any(nR / nR0 > rtol):
-        x -= solver.solve(J, R)
+        x = x - solver.solve(J, R)
         R, J = fn(x)
         nR = torch.norm(R, dim=-1)
         i += 1
diff --git a/pyoptmat/solvers.py b/pyoptmat/solvers.py
index 5044715..cb46282 100644
--- a/pyoptmat/solvers.py
+++ b/pyoptmat/solvers.py
@@ -114,7 +114,7 @@ def newton_raphson(fn, x0, linsolver="lu", rtol=1e-6, atol=1e-10, miter=100):
     i = 0
 
     while (i < miter) and torch.any(nR > atol) and torch.any(nR / nR0 > rtol):
-        x -= solver(J, R)
+        x = x - solver(J, R)
         R, J = fn(x)
         nR = torch.norm(R, dim=-1)
         i += 1
@@ -418,7 +418,7 @@ class PreconditionerReuseNonlinearSolver:
                 return_iters=True,
                 tol=ltol,
             )
-            x -= dx
+            x = x - dx
             R, J = fn(x)
             if niter > l_refactor:
                 self._update_preconditioner(J)
-- 
2.43.0


From cb9dd601e07bfd080e6b4b8d7104b763476b7006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 08/24] fix: report nonlinear solves that stop at a non-finite
 residual

---
 pyoptmat/chunktime.py | 2 +-
 pyoptmat/solvers.py   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 771a9b8..457f698 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -53,7 +53,7 @@ def newton_raphson_chunk(
         nR = torch.norm(R, dim=-1)
         i += 1
 
-    if i == miter:
+    if i == miter or not torch.all(torch.isfinite(nR)):
         if throw_on_fail:
             raise RuntimeError("Implicit solve did not succeed.")
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
diff --git a/pyoptmat/solvers.py b/pyoptmat/solvers.py
index cb46282..ee2c053 100644
--- a/pyoptmat/solvers.py
+++ b/pyoptmat/solvers.py
@@ -69,7 +69,7 @@ def newton_raphson_bt(
         x = xp
         i += 1
 
-    if i == miter:
+    if i == miter or not torch.all(torch.isfinite(nR)):
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
 
     return x, J
@@ -119,7 +119,7 @@ def newton_raphson(fn, x0, linsolver="lu", rtol=1e-6, atol=1e-10, miter=100):
         nR = torch.norm(R, dim=-1)
         i += 1
 
-    if i == miter:
+    if i == miter or not torch.all(torch.isfinite(nR)):
         warnings.warn("Implicit solve did not succeed.  Results may be inaccurate...")
 
     return x, J
@@ -425,7 +425,7 @@ class PreconditionerReuseNonlinearSolver:
             nR = torch.norm(R, dim=-1)
             i += 1
 
-        if i == miter:
+        if i == miter or not torch.all(torch.isfinite(nR)):
             warnings.warn(
                 "Implicit solve did not succeed.  Results may be inaccurate..."
             )
-- 
2.43.0


From 0669fe1a395baec9a4f3b457985b21db80aafb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:01 +0000
Subject: [PATCH 09/24] fix: apply the scaling of the shear modulus in the
 Kocks-Mecking flow rules

---
 pyoptmat/flowrules.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyoptmat/flowrules.py b/pyoptmat/flowrules.py
index 249ba36..9af4224 100644
--- a/pyoptmat/flowrules.py
+++ b/pyoptmat/flowrules.py
@@ -208,7 +208,7 @@ class KocksMeckingRegimeFlowRule(FlowRule):
         return (
             self.k
             * T
-            / (self.mu.value(T) * self.b**3.0)
+            / (self.mu(T) * self.b**3.0)
             * torch.log(self.eps0 / (torch.abs(e) + self.eps))
         )
 
@@ -473,7 +473,7 @@ class SoftKocksMeckingRegimeFlowRule(FlowRule):
         return (
             self.k
             * T
-            / (self.mu.value(T) * self.b**3.0)
+            / (self.mu(T) * self.b**3.0)
             * torch.log(self.eps0 / (torch.abs(e) + self.eps))
         )
 
@@ -490,7 +490,7 @@ class SoftKocksMeckingRegimeFlowRule(FlowRule):
             torch.tensor:       derivative of the activation energy
         """
         return -(
-            self.k * T / (self.mu.value(T) * self.b**3.0) / (torch.abs(e) + self.eps)
+            self.k * T / (self.mu(T) * self.b**3.0) / (torch.abs(e) + self.eps)
         ) * torch.sign(e)
 
     def f(self, T, e):
-- 
2.43.0


From 26a4416b09c0f27bffed6cc217652b0d56a25bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 10/24] fix: allocate the perfect viscoplasticity history
 Jacobian on the device of the state

---
 pyoptmat/flowrules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/flowrules.py b/pyoptmat/flowrules.py
index 9af4224..cf7474b 100644
--- a/pyoptmat/flowrules.py
+++ b/pyoptmat/flowrules.py
@@ -1123,7 +1123,9 @@ class PerfectViscoplasticity(FlowRule):
                                                 derivative of the history rate
                                                 with respect to history
         """
-        return torch.zeros_like(h), torch.zeros(h.shape + h.shape[-1:])
+        return torch.zeros_like(h), torch.zeros(
+            h.shape + h.shape[-1:], device=h.device
+        )
 
 
 class IsoKinViscoplasticity(FlowRule):
-- 
2.43.0


From 367727c8c184ad41e9a07c962014fb8ea260ccdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 11/24] fix: generate creep tests on the device of the inputs

---
 pyoptmat/experiments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/experiments.py b/pyoptmat/experiments.py
index 4a9afd0..03ea8d5 100644
--- a/pyoptmat/experiments.py
+++ b/pyoptmat/experiments.py
@@ -344,7 +344,7 @@ def make_creep_tests(
     nbatch = stress.shape[0]
     nsteps = nsteps_load + nsteps_hold
 
-    stresses = torch.zeros(nsteps, nbatch)
+    stresses = torch.zeros(nsteps, nbatch, device=stress.device)
     times = torch.zeros_like(stresses)
     temperatures = torch.zeros_like(stresses)
 
-- 
2.43.0


From cefbfbd2525aa71a69a40c98c8610e003b65c338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 12/24] fix: allocate the COO indices on the device of the
 operator

---
 pyoptmat/chunktime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index 457f698..ad1142a 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -648,7 +648,7 @@ class SquareBatchedBlockDiagonalMatrix:
         and 1 "dense" dimension.  So it will be the transpose of the shape of the
         to_dense function.
         """
-        inds = torch.zeros(2, self.nnz)
+        inds = torch.zeros(2, self.nnz, device=self.device)
         data = torch.zeros(self.nnz, self.sbat, dtype=self.dtype, device=self.device)
 
         # Order doesn't matter, nice!
-- 
2.43.0


From 36f8e2995efbdf8785cf2617820de2ac43d148ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 13/24] fix: differentiate on the device of the input

---
 pyoptmat/utility.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 2e57e0c..1d3a45a 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -246,13 +246,13 @@ def differentiate(fn, x0, eps=1.0e-6):
     s2 = x0.shape[1:]
 
     if len(s1) == 0 and len(s2) == 0:
-        d = torch.empty((nbatch,))
+        d = torch.empty((nbatch,), device=x0.device)
     elif len(s1) == 0:
-        d = torch.empty((nbatch,) + s2)
+        d = torch.empty((nbatch,) + s2, device=x0.device)
     elif len(s2) == 0:
-        d = torch.empty((nbatch,) + s1)
+        d = torch.empty((nbatch,) + s1, device=x0.device)
     else:
-        d = torch.empty((nbatch,) + s1 + s2)
+        d = torch.empty((nbatch,) + s1 + s2, device=x0.device)
 
     for i2 in np.ndindex(s2):
         dx = torch.zeros_like(x0)
-- 
2.43.0


From a4b3a1bcfdd94ba73f6e45260da6bce82667a410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:31 +0000
Subject: [PATCH 14/24] fix: previous-increment guess works when the first
 block is shorter than block_size

---
 pyoptmat/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/ode.py b/pyoptmat/ode.py
index cb7989f..262a4d5 100644
--- a/pyoptmat/ode.py
+++ b/pyoptmat/ode.py
@@ -402,7 +402,7 @@ class FixedGridBlockSolver:
                 guess = torch.zeros_like(result[k : k + self.n])
             else:
                 guess = result[(k - self.n) : k] - result[k - self.n - 1].unsqueeze(0)
-            blk = self.n - result[k : k + self.n].shape[0]
+            blk = guess.shape[0] - result[k : k + self.n].shape[0]
             guess = guess[blk:]
         else:
             raise ValueError(f"Unknown initial guess strategy {self.guess_type}!")
-- 
2.43.0


From ddb79cebd14a3ed7f593a7bd3c2d033026119540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:58 +0000
Subject: [PATCH 15/24] fix: give the unrolled CSR matrices the size of the
 operator

---
 pyoptmat/chunktime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/chunktime.py b/pyoptmat/chunktime.py
index ad1142a..1cb34c6 100644
--- a/pyoptmat/chunktime.py
+++ b/pyoptmat/chunktime.py
@@ -705,6 +705,8 @@ class SquareBatchedBlockDiagonalMatrix:
         """
         coo = self.to_batched_coo()
         return [
-            torch.sparse_coo_tensor(coo.indices(), coo.values()[:, i]).to_sparse_csr()
+            torch.sparse_coo_tensor(
+                coo.indices(), coo.values()[:, i], size=(self.n, self.n)
+            ).to_sparse_csr()
             for i in range(self.sbat)
         ]
-- 
2.43.0


From f78a18b454406c05480ce9a8e8ab3b21dac0d1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 16/24] fix: format relaxation, creep and cyclic results by
 each test's own cycle markers

---
 pyoptmat/experiments.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/pyoptmat/experiments.py b/pyoptmat/experiments.py
index 03ea8d5..c92a31a 100644
--- a/pyoptmat/experiments.py
+++ b/pyoptmat/experiments.py
@@ -252,15 +252,13 @@ def format_relaxation(cycles, predictions):
     Returns:
       torch.tensor:                 processed results
     """
-    result = torch.zeros_like(predictions)
-    rcurve = cycles[:, 0] == 1  # This is right, but dangerous in the future
-
-    curve = predictions[rcurve]
-    curve = curve - curve[0]
+    hold = cycles == 1
 
-    result[rcurve] = curve
+    # First point in the hold for each test
+    _, index = torch.max(hold, 0)
+    start = predictions.gather(0, index.view(1, -1))
 
-    return result
+    return torch.where(hold, predictions - start, 0.0)
 
 
 def format_cyclic(cycles, predictions):
@@ -281,11 +279,10 @@ def format_cyclic(cycles, predictions):
     """
     # If this is slow we can probably remove the for loop
     result = torch.zeros_like(predictions)
-    uc = cycles[:, 0]  # Correct but dangerous for future expansion
-    for i in range(uc[-1] + 1):
-        curr = uc == i
-        vals, _ = torch.max(predictions[curr], axis=0)
-        result[curr] = vals
+    for i in range(torch.max(cycles) + 1):
+        curr = cycles == i
+        vals, _ = torch.max(torch.where(curr, predictions, -torch.inf), 0)
+        result = torch.where(curr, vals, result)
 
     return result
 
-- 
2.43.0


From b146124ae4bf4586386f2bb300e172bd2058d4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:26 +0000
Subject: [PATCH 17/24] fix: interpolate a single test and times with any
 number of leading dimensions

---
 pyoptmat/utility.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 1d3a45a..9e84732 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -310,11 +310,11 @@ class ArbitraryBatchTimeSeriesInterpolator(nn.Module):
         Returns:
           torch.tensor:       batched values at :code:`t`
         """
-        squeeze = t.dim() == 1
+        shape = t.shape
 
-        t = t.t()  # Transpose so the common dimension is first
-        if squeeze:
-            t = t.unsqueeze(-1)
+        # Flatten the broadcast dimensions and transpose so the common
+        # dimension is first
+        t = t.reshape(-1, shape[-1]).t()
 
         # Which dimensions to offset -- likely there is some efficiency
         # to be gained by flipping these, but probably depends on the
@@ -336,10 +336,7 @@ class ArbitraryBatchTimeSeriesInterpolator(nn.Module):
             locs[..., 0], t == self.times[..., 0].unsqueeze(-1)
         )
 
-        if squeeze:
-            return poss[locs].squeeze(-1).t()
-
-        return poss[locs].reshape(t.shape).t()
+        return poss[locs].reshape(t.shape).t().reshape(shape)
 
 
 class BatchTimeSeriesInterpolator(nn.Module):
-- 
2.43.0


From c4b7d931925fd751829b890bb2bae938f031dcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 18/24] fix: divide by the perturbed component's increment in
 differentiate

---
 pyoptmat/utility.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 9e84732..492eebb 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -258,20 +258,19 @@ def differentiate(fn, x0, eps=1.0e-6):
         dx = torch.zeros_like(x0)
         if len(s2) == 0:
             dx = torch.abs(x0) * eps
+            dx[dx < eps] = eps
         else:
-            inc = torch.abs(x0[..., i2]) * eps
+            inc = torch.abs(x0[(...,) + i2]) * eps
             inc[inc < eps] = eps
-            dx[..., i2] = inc
+            dx[(...,) + i2] = inc
         v1 = fn(x0 + dx)
 
         if len(s1) == 0 and len(s2) == 0:
             d = (v1 - v0) / dx
         elif len(s2) == 0:
-            d[...] = (v1 - v0) / dx.reshape(v1.shape)
-        elif len(s1) == 0:
-            d[..., i2] = ((v1 - v0) / dx.reshape(v1.shape))[:, None]
+            d[...] = (v1 - v0) / dx.reshape((nbatch,) + (1,) * len(s1))
         else:
-            d[..., i2] = ((v1 - v0) / dx)[..., None]
+            d[(...,) + i2] = (v1 - v0) / inc.reshape((nbatch,) + (1,) * len(s1))
 
     return d
 
-- 
2.43.0


From 95dc9fd4205d0234c7bbfdfe0702d78f67dfffc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:33 +0000
Subject: [PATCH 19/24] fix: take new_differentiate's increment from each
 test's own scalar argument

---
 pyoptmat/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index 492eebb..dccfcbb 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -210,7 +210,7 @@ def new_differentiate(fn, x0, eps=1.0e-6):
 
     for i2 in np.ndindex(s2):
         dx = torch.zeros_like(x0.reshape(fs2))
-        inc = torch.abs(x0[..., i2]) * eps
+        inc = torch.abs(x0.reshape(fs2)[..., i2]) * eps
         inc[inc < eps] = eps
         dx[..., i2] = inc
 
-- 
2.43.0


From 2b93c6c2f45bafe780de2e4f718ad3f5617c43ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:33 +0000
Subject: [PATCH 20/24] fix: keep the guide's trainable locations apart from
 the prior tensors

---
 pyoptmat/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/optimize.py b/pyoptmat/optimize.py
index c9d80e9..c4715bb 100644
--- a/pyoptmat/optimize.py
+++ b/pyoptmat/optimize.py
@@ -433,7 +433,8 @@ class HierarchicalStatisticalModel(PyroModule):
             ):
                 dim = loc_loc.dim()
                 loc_param = pyro.param(
-                    var + self.loc_suffix + self.param_suffix, loc_loc
+                    var + self.loc_suffix + self.param_suffix,
+                    loc_loc.detach().clone(),
                 )
                 scale_param = pyro.param(
                     var + self.scale_suffix + self.param_suffix,
-- 
2.43.0


From d5b1c9b90bfa383853ce1c9f153298210f2f745d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:17 +0000
Subject: [PATCH 21/24] fix: report the batch shape of piecewise temperature
 parameters

---
 pyoptmat/temperature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/temperature.py b/pyoptmat/temperature.py
index 52ddc3f..1f64f57 100644
--- a/pyoptmat/temperature.py
+++ b/pyoptmat/temperature.py
@@ -576,7 +576,7 @@ class PiecewiseScaling(TemperatureParameter):
         """
         Shape of the underlying parameter
         """
-        return self.values.shape[1:]
+        return self.values.shape[:-1]
 
 
 class ArrheniusScaling(TemperatureParameter):
-- 
2.43.0


From 2ade3a1dd90cb2fec78ab2cc7c12e6d18dbf7dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:39 +0000
Subject: [PATCH 22/24] fix: plot the variance of fewer tests than 1/alpha

---
 pyoptmat/utility.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyoptmat/utility.py b/pyoptmat/utility.py
index dccfcbb..38c5e3e 100644
--- a/pyoptmat/utility.py
+++ b/pyoptmat/utility.py
@@ -77,13 +77,13 @@ def visualize_variance(strain, stress_true, stress_calc, alpha=0.05):
       alpha (float): alpha value for shading
     """
     ntrue = stress_true.shape[1]
-    max_true, _ = stress_true.kthvalue(int(ntrue * (1 - alpha)), dim=1)
-    min_true, _ = stress_true.kthvalue(int(ntrue * alpha), dim=1)
+    max_true, _ = stress_true.kthvalue(max(int(ntrue * (1 - alpha)), 1), dim=1)
+    min_true, _ = stress_true.kthvalue(max(int(ntrue * alpha), 1), dim=1)
     mean_true = torch.mean(stress_true, 1)
 
     npred = stress_calc.shape[1]
-    max_pred, _ = stress_calc.kthvalue(int(npred * (1 - alpha)), dim=1)
-    min_pred, _ = stress_calc.kthvalue(int(npred * alpha), dim=1)
+    max_pred, _ = stress_calc.kthvalue(max(int(npred * (1 - alpha)), 1), dim=1)
+    min_pred, _ = stress_calc.kthvalue(max(int(npred * alpha), 1), dim=1)
     mean_pred = torch.mean(stress_calc, 1)
 
     plt.figure()
-- 
2.43.0


From 3d365335bbe64d1fb7d21b5815c0cec3a4a44a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:14 +0000
Subject: [PATCH 23/24] fix: adjoint pass with frozen parameters and parameters
 without influence on the rates

---
 pyoptmat/ode.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyoptmat/ode.py b/pyoptmat/ode.py
index 262a4d5..a26c214 100644
--- a/pyoptmat/ode.py
+++ b/pyoptmat/ode.py
@@ -420,7 +420,18 @@ class FixedGridBlockSolver:
         """
         with torch.enable_grad():
             ydot = self.func(t, y)[0]
-            return torch.autograd.grad(ydot, self.adjoint_params, a)
+            if ydot.requires_grad:
+                grads = torch.autograd.grad(
+                    ydot, self.adjoint_params, a, allow_unused=True
+                )
+            else:
+                grads = (None,) * len(self.adjoint_params)
+
+        # Parameters which do not affect the rates
+        return tuple(
+            torch.zeros_like(p) if g is None else g
+            for p, g in zip(self.adjoint_params, grads)
+        )
 
     def rewind(self, output_grad):
         """
@@ -660,6 +671,7 @@ def odeint_adjoint(
     if extra_params is None:
         extra_params = []
     adjoint_params = tuple(p for p in func.parameters()) + tuple(extra_params)
+    adjoint_params = tuple(p for p in adjoint_params if p.requires_grad)
 
     solver = FixedGridBlockSolver(
         func, y0, scheme=int_methods[method], adjoint_params=adjoint_params, **kwargs
-- 
2.43.0


From 51f8f396063548e059bd84fc889d52e4f4d9088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:15 +0000
Subject: [PATCH 24/24] fix: Jacobian of a neural ODE without forcing

---
 pyoptmat/neuralode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyoptmat/neuralode.py b/pyoptmat/neuralode.py
index d96a9e6..488239b 100644
--- a/pyoptmat/neuralode.py
+++ b/pyoptmat/neuralode.py
@@ -62,4 +62,4 @@ class NeuralODE(torch.nn.Module):
 
         val, jac = self.m_and_j(x)
 
-        return val, jac[0][..., : -f.shape[-1]]
+        return val, jac[0][..., : y.shape[-1]]
-- 
2.43.0

