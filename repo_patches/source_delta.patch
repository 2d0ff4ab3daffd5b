From 2ecb8a743e567caa757274429c39580f6aecd027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 01/34] fix: 'Reject' keeps feasible samples (return the
 feasibility test)

---
 stochopy/sample/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/sample/_common.py b/stochopy/sample/_common.py
index 79ab58a..f841e1a 100644
--- a/stochopy/sample/_common.py
+++ b/stochopy/sample/_common.py
@@ -4,6 +4,6 @@ import numpy as np
 def in_search_space(x, lower, upper, constraints):
     """Determine feasibility of a sample."""
     if constraints == "Reject":
-        np.logical_and(np.all(x >= lower), np.all(x <= upper))
+        return np.logical_and(np.all(x >= lower), np.all(x <= upper))
     else:
         return True
-- 
2.43.0


From be6e97241d3c1e6173921363318cdec10a779901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 02/34] fix: HMC no longer recurses forever when a gradient is
 supplied

---
 stochopy/sample/hmc/_hmc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 82199ac..b0dacf3 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -112,9 +112,9 @@ def sample(
         raise TypeError()
 
     if jac is None:
-        jac = lambda x: numerical_gradient(x, fun, args, finite_diff_abs_step)
+        grad = lambda x: numerical_gradient(x, fun, args, finite_diff_abs_step)
     else:
-        jac = lambda x: jac(x, *args)
+        grad = lambda x: jac(x, *args)
 
     # Seed
     if seed is not None:
@@ -147,12 +147,12 @@ def sample(
         q0 = q.copy()
         p0 = p.copy()
 
-        p -= 0.5 * stepsize * jac(q)  # First half momentum step
+        p -= 0.5 * stepsize * grad(q)  # First half momentum step
         q += stepsize * p  # First full position step
         for _ in range(nleap):
-            p -= stepsize * jac(q)  # Momentum
+            p -= stepsize * grad(q)  # Momentum
             q += stepsize * p  # Position
-        p -= 0.5 * stepsize * jac(q)  # Last half momentum step
+        p -= 0.5 * stepsize * grad(q)  # Last half momentum step
 
         accept = False
         if in_search_space(q, lower, upper, constraints):
-- 
2.43.0


From 142d986980722ad2f6dfe0ccba85321af9ada5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 03/34] fix: MCMC last block of coordinates stays within the
 vector

---
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index cd47e83..eab85a5 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -122,7 +122,7 @@ def sample(
     imin, fmin = 0, np.Inf
     while i < maxiter:
         for j in np.arange(0, ndim, ndim_per_iter):
-            jmax = min(ndim, j + ndim_per_iter - 1)
+            jmax = min(ndim - 1, j + ndim_per_iter - 1)
             perturbation = np.random.randn(jmax - j + 1) * stepsize[j : jmax + 1]
 
             xall[i] = xall[i - 1].copy()
-- 
2.43.0


From 5731f124d1e95355457fe789bfcbc4af0ce55521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 04/34] fix: samplers count the first sample when reporting the
 best

---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index b0dacf3..03fa744 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -140,7 +140,7 @@ def sample(
 
     # Leap-frog algorithm
     n_accepted = 0
-    imin, fmin = 0, np.Inf
+    imin, fmin = 0, funall[0]
     for i in range(1, maxiter):
         q = xall[i - 1].copy()
         p = np.random.randn(ndim)  # Random momentum
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index eab85a5..fd0cc47 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -119,7 +119,7 @@ def sample(
     # Metropolis-Hastings algorithm
     i = 1
     n_accepted = 0
-    imin, fmin = 0, np.Inf
+    imin, fmin = 0, funall[0]
     while i < maxiter:
         for j in np.arange(0, ndim, ndim_per_iter):
             jmax = min(ndim - 1, j + ndim_per_iter - 1)
-- 
2.43.0


From b4507c2b02d54ebfc3c16cc68bc765a1b3a1cd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 05/34] fix: sampler callbacks receive the history including
 the newest sample

---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 03fa744..f4ba322 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -182,7 +182,7 @@ def sample(
                 accept_ratio=n_accepted / (i + 1),
             )
             if return_all:
-                res.update({"xall": xall[:i], "funall": funall[:i]})
+                res.update({"xall": xall[: i + 1], "funall": funall[: i + 1]})
 
             callback(xall[i], res)
 
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index fd0cc47..7b7cbcc 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -151,7 +151,7 @@ def sample(
                     accept_ratio=n_accepted / i,
                 )
                 if return_all:
-                    res.update({"xall": xall[: i - 1], "funall": funall[: i - 1]})
+                    res.update({"xall": xall[:i], "funall": funall[:i]})
 
                 callback(xall[i - 1], res)
 
-- 
2.43.0


From a7a4a293e8212f9f3ebcd9d11065da2a20b3c856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 06/34] fix: samplers leave the step size argument untouched
 and accept integers

---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index f4ba322..805daf9 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -105,7 +105,7 @@ def sample(
     if len(stepsize) != ndim:
         raise ValueError()
 
-    stepsize *= 0.5 * (upper - lower)
+    stepsize = np.asarray(stepsize, dtype=float) * (0.5 * (upper - lower))
 
     # Jacobian
     if not (jac is None or hasattr(jac, "__call__")):
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index 7b7cbcc..36256f0 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -86,7 +86,7 @@ def sample(
     if len(stepsize) != ndim:
         raise ValueError()
 
-    stepsize *= 0.5 * (upper - lower)
+    stepsize = np.asarray(stepsize, dtype=float) * (0.5 * (upper - lower))
 
     # Number of dimensions to perturb per iteration
     if not 0.0 <= perc <= 1.0:
-- 
2.43.0


From 0bfea39eb989cbaffed7d6dd518e0a50ce66659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 07/34] fix: DE, PSO and CPSO copy the initial population as
 floats

---
 stochopy/optimize/cpso/_cpso.py | 2 +-
 stochopy/optimize/de/_de.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 4ff9398..089800e 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -216,7 +216,7 @@ def cpso(
         delta = np.log(1.0 + 0.003 * popsize) / np.max((0.2, np.log(0.01 * maxiter)))
 
     # Initial population
-    X = x0 if x0 is not None else lhs(popsize, ndim, bounds)
+    X = np.array(x0, dtype=float) if x0 is not None else lhs(popsize, ndim, bounds)
     V = np.zeros((popsize, ndim))
     pbest = X.copy()
 
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index d1185ed..db11acc 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -205,7 +205,7 @@ def de(
     de_iter = de_sync if sync else de_async
 
     # Initial population
-    X = x0 if x0 is not None else lhs(popsize, ndim, bounds)
+    X = np.array(x0, dtype=float) if x0 is not None else lhs(popsize, ndim, bounds)
     U = np.empty((popsize, ndim))
 
     # Evaluate initial population
-- 
2.43.0


From 8b03b4f2aec438a74440a6cf974de839c6a0beb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 08/34] fix: DE records the function values of the recorded
 population

---
 stochopy/optimize/de/_de.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index db11acc..28b6730 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -270,12 +270,12 @@ def de(
         if return_all:
             if nout > 0:
                 xall[it - 1] = X[:nout].copy()
-                funall[it - 1] = pfit[:nout].copy()
+                funall[it - 1] = pbestfit[:nout].copy()
 
             else:
-                idx = pfit.argmin()
+                idx = pbestfit.argmin()
                 xall[it - 1] = X[idx].copy()
-                funall[it - 1] = pfit[idx].copy()
+                funall[it - 1] = pbestfit[idx].copy()
 
         converged = status is not None
 
-- 
2.43.0


From cb8ffc1e06be4bc5859e10833cd7fee10e1fb976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 09/34] fix: NA records the initial population in the caller's
 coordinates

---
 stochopy/optimize/na/_na.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index 97b1bdc..7b69a50 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -190,13 +190,13 @@ def na(
         if nout > 0:
             xall = np.empty((maxiter, nout, ndim))
             funall = np.empty((maxiter, nout))
-            xall[0] = X[:nout].copy()
+            xall[0] = unnormalize(X[:nout])
             funall[0] = pfit[:nout].copy()
 
         else:
             xall = np.empty((maxiter, 1, ndim))
             funall = np.empty((maxiter, 1))
-            xall[0] = gbest
+            xall[0] = unnormalize(gbest)
             funall[0] = gfit
 
     # First iteration for callback
-- 
2.43.0


From 99d2d5bb9814fbb58e3b027063fa6a5ca0ede886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 10/34] fix: NA can be called directly without a callback

---
 stochopy/optimize/na/_na.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index 7b69a50..df1b975 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -23,7 +23,7 @@ def minimize(
     backend=None,
     return_all=False,
     verbosity=1.0,
-    callback=True,
+    callback=None,
 ):
     """
     Minimize an objective function using Neighborhood Algorithm (NA).
-- 
2.43.0


From 959adba7f06cb96dee309199b64fa55703c07b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 11/34] fix: asynchronous DE and PSO stop when the best
 solution meets ftol

---
 stochopy/optimize/cpso/_cpso.py | 4 ++++
 stochopy/optimize/de/_de.py     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 089800e..fd9e2a3 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -395,6 +395,10 @@ def pso_async(
             it, X, gbest, gfit, pbest, pbestfit, maxiter, xtol, ftol, fun, i
         )
 
+    # Stop if best solution value is less than ftol
+    if status is None and gfit <= ftol:
+        status = 1
+
     # Stop if maximum iteration is reached
     if status is None and it >= maxiter:
         status = -1
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index 28b6730..c1b2b75 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -387,6 +387,10 @@ def de_async(
             it, U, gbest, gfit, X, pbestfit, maxiter, xtol, ftol, fun, i
         )
 
+    # Stop if best solution value is less than ftol
+    if status is None and gfit <= ftol:
+        status = 1
+
     # Stop if maximum iteration is reached
     if status is None and it >= maxiter:
         status = -1
-- 
2.43.0


From d3af597d2554e0ef3bddee024d92f9e9efdaed29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 12/34] fix: DE, PSO, CPSO and NA respect maxiter=1

---
 stochopy/optimize/cpso/_cpso.py | 8 +++++++-
 stochopy/optimize/de/_de.py     | 8 +++++++-
 stochopy/optimize/na/_na.py     | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index fd9e2a3..86fdb5e 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -255,7 +255,13 @@ def cpso(
 
     # Iterate until one of the termination criterion is satisfied
     it = 1
-    converged = False
+    status = None
+
+    # Stop if the initial population exhausts the number of iterations
+    if maxiter <= 1:
+        status = 1 if gfit <= ftol else -1
+
+    converged = status is not None
     while not converged:
         it += 1
 
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index c1b2b75..fa1821a 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -243,7 +243,13 @@ def de(
 
     # Iterate until one of the termination criterion is satisfied
     it = 1
-    converged = False
+    status = None
+
+    # Stop if the initial population exhausts the number of iterations
+    if maxiter <= 1:
+        status = 1 if gfit <= ftol else -1
+
+    converged = status is not None
     while not converged:
         it += 1
 
diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index df1b975..6cc7c1e 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -209,7 +209,13 @@ def na(
 
     # Iterate until one of the termination criterion is satisfied
     it = 1
-    converged = False
+    status = None
+
+    # Stop if the initial population exhausts the number of iterations
+    if maxiter <= 1:
+        status = 1 if gfit <= ftol else -1
+
+    converged = status is not None
     while not converged:
         it += 1
 
-- 
2.43.0


From f7c0428709794d11f78564db19a11b1cc0c32660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 13/34] fix: CMA-ES and VD-CMA keep at least one parent for
 small muperc

---
 stochopy/optimize/cmaes/_cmaes.py | 2 +-
 stochopy/optimize/vdcma/_vdcma.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index 00f1e15..fde98d4 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -181,7 +181,7 @@ def cmaes(
     xold = np.empty(ndim)
 
     # Number of parents
-    mu = int(muperc * popsize)
+    mu = max(1, int(muperc * popsize))
 
     # Strategy parameter setting: Selection
     weights = np.log(mu + 0.5) - np.log(np.arange(1, mu + 1))
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 032d32c..03b66d9 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -182,7 +182,7 @@ def vdcma(
     xold = np.empty(ndim)
 
     # Number of parents
-    mu = int(muperc * popsize)
+    mu = max(1, int(muperc * popsize))
 
     # Strategy parameter setting: Selection
     weights = np.log(mu + 0.5) - np.log(np.arange(1, mu + 1))
-- 
2.43.0


From 7560689d72101eba7e9773fc9527ea84d1c98404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 14/34] fix: CPSO restart erases personal bests whatever the
 objective's magnitude

---
 stochopy/optimize/cpso/_cpso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 86fdb5e..060ed8d 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -431,7 +431,7 @@ def restart(it, X, V, pbest, gbest, pbestfit, lower, upper, gamma, delta, maxite
             V[idx] = np.zeros((nw, ndim))
             X[idx] = np.random.uniform(lower, upper, (nw, ndim))
             pbest[idx] = X[idx].copy()
-            pbestfit[idx] = np.full(nw, 1.0e30)
+            pbestfit[idx] = np.full(nw, np.inf)
 
     return X, V, pbest, pbestfit
 
-- 
2.43.0


From 4e5e23353547e7cfe832c2175b8db49ab6ee2097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 15/34] fix: 'Shrink' keeps shortened moves inside the bounds
 despite rounding

---
 stochopy/optimize/cpso/_constraints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cpso/_constraints.py b/stochopy/optimize/cpso/_constraints.py
index 7f43cbc..3515f31 100644
--- a/stochopy/optimize/cpso/_constraints.py
+++ b/stochopy/optimize/cpso/_constraints.py
@@ -50,7 +50,7 @@ def Shrink(lower, upper, sync):
             )
             V *= beta[:, None]
 
-            return X + V, V
+            return np.clip(X + V, lower, upper), V
 
     else:
 
@@ -61,7 +61,7 @@ def Shrink(lower, upper, sync):
             beta = shrink(X, V, maskl, masku)
             V *= beta
 
-            return X + V, V
+            return np.clip(X + V, lower, upper), V
 
     return cons
 
-- 
2.43.0


From 6f333dd85bd057fe4178bc4b6387d9d88fae1762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 16/34] fix: 'Penalize' corrects the mean below the lower
 bounds too

---
 stochopy/optimize/cmaes/_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/cmaes/_constraints.py b/stochopy/optimize/cmaes/_constraints.py
index 0009593..3178d5d 100644
--- a/stochopy/optimize/cmaes/_constraints.py
+++ b/stochopy/optimize/cmaes/_constraints.py
@@ -51,7 +51,7 @@ def Penalize(
     # Corrected mean
     ti = np.logical_or(xmean < -ones, xmean > ones)
     tx = np.where(xmean < -ones, -ones, xmean)
-    tx = np.where(xmean > ones, ones, xmean)
+    tx = np.where(xmean > ones, ones, tx)
 
     # Set initial weights
     if iniphase and ti.any():
-- 
2.43.0


From d812a1812134670938dd8a3b34ad96e83471e2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 17/34] fix: CMA-ES/VD-CMA stop tests use recorded function
 values only

---
 stochopy/optimize/cmaes/_cmaes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index fde98d4..e4e6dee 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -408,8 +408,8 @@ def converge(
     # EqualFunValues: stop if the range of fitness values is zero
     elif (
         it >= ilim
-        and arbestfitness[it - ilim : it + 1].max()
-        - arbestfitness[it - ilim : it + 1].min()
+        and arbestfitness[it - ilim : it].max()
+        - arbestfitness[it - ilim : it].min()
         < 1.0e-10
     ):
         status = -5
@@ -421,8 +421,8 @@ def converge(
     # TolFun: stop if fun-changes smaller than 1e-12
     elif (
         it > 2
-        and np.append(arfitness, arbestfitness).max()
-        - np.append(arfitness, arbestfitness).min()
+        and np.append(arfitness, arbestfitness[:it]).max()
+        - np.append(arfitness, arbestfitness[:it]).min()
         < 1.0e-12
     ):
         status = -7
-- 
2.43.0


From 19445cb36cfcdfb7279634442b06780816e8a4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 18/34] fix: unknown parallel backends are rejected

---
 stochopy/optimize/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index d81155e..3331ba2 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -97,7 +97,7 @@ def optimizer(optfun):
                 res = optfun(fun, args, sync, workers, backend, *optargs)
 
         else:
-            parallel = backend == "mpi"
+            parallel = backend == "mpi" or workers not in {0, 1}
             fun = wrapper(fun, args, sync, backend, parallel)
             res = optfun(fun, args, sync, workers, backend, *optargs)
 
-- 
2.43.0


From 9bb5f1b65e50af2cc3f9db20ba1b9842f00a295c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 19/34] fix: MPI ranks share the random state in unseeded runs

---
 stochopy/optimize/_common.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index 3331ba2..4155c41 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -55,6 +55,11 @@ def optimizer(optfun):
                         mpi_size = mpi_comm.Get_size()
                         mpi_double = MPI.DOUBLE
 
+                        # All ranks must draw the same random numbers
+                        np.random.set_state(
+                            mpi_comm.bcast(np.random.get_state(), root=0)
+                        )
+
                         def wrapper(x):
                             popsize = len(x)
                             f = np.zeros(popsize)
-- 
2.43.0


From a8f71ec03c6645d6057dea47d05bf336403deca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 20/34] fix: CMA-ES and VD-CMA no longer read an uninitialized
 mean

---
 stochopy/optimize/cmaes/_cmaes.py | 2 +-
 stochopy/optimize/vdcma/_vdcma.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index e4e6dee..c2cc3a2 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -178,7 +178,7 @@ def cmaes(
 
     # Initial mean
     xmean = np.random.uniform(-1.0, 1.0, ndim) if x0 is None else standardize(x0)
-    xold = np.empty(ndim)
+    xold = xmean.copy()
 
     # Number of parents
     mu = max(1, int(muperc * popsize))
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 03b66d9..05058fb 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -179,7 +179,7 @@ def vdcma(
 
     # Initial mean
     xmean = np.random.uniform(-1.0, 1.0, ndim) if x0 is None else standardize(x0)
-    xold = np.empty(ndim)
+    xold = xmean.copy()
 
     # Number of parents
     mu = max(1, int(muperc * popsize))
-- 
2.43.0


From 7b9dbf3180a106283731debb5638ffe3b01e1a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 21/34] fix: NA ignores fixed coordinates in Voronoi distances

---
 stochopy/optimize/na/_na.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index 6cc7c1e..505c57f 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -157,7 +157,7 @@ def na(
     span = upper - lower
     span_mask = span > 0.0
     span[~span_mask] = 1.0  # Avoid zero division in normalize
-    normalize = lambda x: np.where(span_mask, (x - lower) / span, upper)
+    normalize = lambda x: np.where(span_mask, (x - lower) / span, 0.0)
     unnormalize = lambda x: np.where(span_mask, x * span + lower, upper)
 
     fun = lambda x: funnorm(unnormalize(x))
@@ -289,20 +289,17 @@ def mutation(Xall, Xallfit, popsize, ndim, nr, span_mask):
         d2 = ((U[:, 1:] - X[i, 1:]) ** 2).sum(axis=1)
 
         for j in range(ndim):
-            if not span_mask[j]:
-                # Value does not matter as it will be fixed by unnormalize
-                X[i, j] = 0.0
-                continue
+            # Fixed coordinates are zero and do not contribute to distances
+            if span_mask[j]:
+                lim = 0.5 * (Xall[k, j] + U[:, j] + (d1 - d2) / (Xall[k, j] - U[:, j]))
 
-            lim = 0.5 * (Xall[k, j] + U[:, j] + (d1 - d2) / (Xall[k, j] - U[:, j]))
+                idx = lim <= X[i, j]
+                low = max(lim[idx].max(), 0.0) if idx.sum() else 0.0
 
-            idx = lim <= X[i, j]
-            low = max(lim[idx].max(), 0.0) if idx.sum() else 0.0
+                idx = lim >= X[i, j]
+                high = min(lim[idx].min(), 1.0) if idx.sum() else 1.0
 
-            idx = lim >= X[i, j]
-            high = min(lim[idx].min(), 1.0) if idx.sum() else 1.0
-
-            X[i, j] = np.random.uniform(low, high)
+                X[i, j] = np.random.uniform(low, high)
 
             if j < ndim - 1:
                 d1 += (Xall[k, j] - X[i, j]) ** 2 - (Xall[k, j + 1] - X[i, j + 1]) ** 2
-- 
2.43.0


From a42fd09a591a36b079d6c2cd7a51c4fbef78023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 22/34] fix: HMC callback reports the number of function
 evaluations

---
 stochopy/sample/hmc/_hmc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 805daf9..ad2e022 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -132,7 +132,9 @@ def sample(
 
     # First iteration for callback
     if callback is not None:
-        res = SampleResult(x=xall[0], fun=funall[0], nit=1, accept_ratio=1.0)
+        res = SampleResult(
+            x=xall[0], fun=funall[0], nfev=fun.nfev, nit=1, accept_ratio=1.0
+        )
         if return_all:
             res.update({"xall": xall[:1], "funall": funall[:1]})
 
@@ -178,6 +180,7 @@ def sample(
             res = SampleResult(
                 x=xall[imin],
                 fun=funall[imin],
+                nfev=fun.nfev,
                 nit=i + 1,
                 accept_ratio=n_accepted / (i + 1),
             )
-- 
2.43.0


From 3ad2083cf3edcce38f309ac64f4660b9890d04f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 23/34] fix: HMC performs the requested number of leap-frog
 steps

---
 stochopy/sample/hmc/_hmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index ad2e022..cfd3a53 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -151,7 +151,7 @@ def sample(
 
         p -= 0.5 * stepsize * grad(q)  # First half momentum step
         q += stepsize * p  # First full position step
-        for _ in range(nleap):
+        for _ in range(nleap - 1):
             p -= stepsize * grad(q)  # Momentum
             q += stepsize * p  # Position
         p -= 0.5 * stepsize * grad(q)  # Last half momentum step
-- 
2.43.0


From bf896acb9e9b73e366411c75b09f39bcfab8bcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 24/34] fix: DE rejects populations too small for the strategy

---
 stochopy/optimize/de/_de.py       | 5 ++++-
 stochopy/optimize/de/_strategy.py | 8 ++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index fa1821a..e2dc9cd 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -3,7 +3,7 @@ import numpy as np
 from .._common import lhs, messages, optimizer, selection_async, selection_sync
 from .._helpers import OptimizeResult, register
 from ._constraints import _constraints_map
-from ._strategy import _strategy_map
+from ._strategy import _ndonors_map, _strategy_map
 
 __all__ = [
     "minimize",
@@ -139,6 +139,9 @@ def minimize(
     CR = recombination
     mut = _strategy_map[strategy]
 
+    if popsize - 1 < _ndonors_map[strategy]:
+        raise ValueError()
+
     # Synchronize
     sync = updating == "deferred"
     sync = sync or workers not in {0, 1}
diff --git a/stochopy/optimize/de/_strategy.py b/stochopy/optimize/de/_strategy.py
index ff95f5a..5b03574 100644
--- a/stochopy/optimize/de/_strategy.py
+++ b/stochopy/optimize/de/_strategy.py
@@ -38,6 +38,14 @@ def best2bin(i, F, X, gbest):
     return gbest + F * (X[i[0]] + X[i[1]] - X[i[2]] - X[i[3]])
 
 
+# Number of other solutions required by each strategy
+_ndonors_map = {
+    "rand1bin": 3,
+    "rand2bin": 5,
+    "best1bin": 2,
+    "best2bin": 4,
+}
+
 _strategy_map = {
     "rand1bin": rand1bin,
     "rand2bin": rand2bin,
-- 
2.43.0


From 904cc4b182db770a7574ff062b73043af87152c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 25/34] fix: samplers reject unknown constraints

---
 stochopy/sample/hmc/_hmc.py   | 4 ++++
 stochopy/sample/mcmc/_mcmc.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index cfd3a53..b2012a2 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -116,6 +116,10 @@ def sample(
     else:
         grad = lambda x: jac(x, *args)
 
+    # Constraints
+    if constraints not in {None, "Reject"}:
+        raise ValueError()
+
     # Seed
     if seed is not None:
         np.random.seed(seed)
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index 36256f0..8d71ff1 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -94,6 +94,10 @@ def sample(
 
     ndim_per_iter = max(1, int(perc * ndim))
 
+    # Constraints
+    if constraints not in {None, "Reject"}:
+        raise ValueError()
+
     # Seed
     if seed is not None:
         np.random.seed(seed)
-- 
2.43.0


From 30a1845cb33efb0379515ac6cf5e2b23377014f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 26/34] fix: integer-valued objectives do not truncate later
 values

---
 stochopy/optimize/_common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index 4155c41..9a0c490 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -40,7 +40,7 @@ def optimizer(optfun):
 
                         def wrapper(x):
                             f = parallel(fun(xx, *args) for xx in x)
-                            return np.array(f)
+                            return np.array(f, dtype=float)
 
                     elif backend == "mpi":
                         try:
@@ -82,13 +82,13 @@ def optimizer(optfun):
                 else:
 
                     def wrapper(x):
-                        return np.array([fun(xx, *args) for xx in x])
+                        return np.array([fun(xx, *args) for xx in x], dtype=float)
 
             else:
 
                 def wrapper(x):
                     if x.ndim == 2:
-                        return np.array([fun(xx, *args) for xx in x])
+                        return np.array([fun(xx, *args) for xx in x], dtype=float)
                     else:
                         return fun(x, *args)
 
-- 
2.43.0


From 057a67025d277fa5e904c8dab02616f4ff8fb751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 27/34] fix: benchmark functions compute in floating point

---
 stochopy/factory/benchmark.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/stochopy/factory/benchmark.py b/stochopy/factory/benchmark.py
index b39cd52..daa6530 100644
--- a/stochopy/factory/benchmark.py
+++ b/stochopy/factory/benchmark.py
@@ -26,7 +26,7 @@ def ackley(x):
         The value of the Ackley function.
 
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     ndim = x.size
     e = 2.7182818284590451
     sum1 = np.sqrt(1.0 / ndim * np.square(x).sum())
@@ -49,7 +49,7 @@ def griewank(x):
         The value of the Griewank function.
 
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     ndim = x.size
     sum1 = np.square(x).sum() / 4000.0
     prod1 = np.prod(np.cos(x / np.sqrt(np.arange(1, ndim + 1))))
@@ -71,7 +71,7 @@ def quartic(x):
         The value of the Quartic function.
 
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     ndim = x.size
     return (np.arange(1, ndim + 1) * np.power(x, 4)).sum()
 
@@ -91,7 +91,7 @@ def rastrigin(x):
         The value of the Rastrigin function.
 
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     ndim = x.size
     sum1 = (np.square(x) - 10.0 * np.cos(2.0 * np.pi * x)).sum()
     return 10.0 * ndim + sum1
@@ -112,7 +112,7 @@ def rosenbrock(x):
         The value of the Rosenbrock function.
 
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     sum1 = ((x[1:] - x[:-1] ** 2) ** 2).sum()
     sum2 = np.square(1.0 - x[:-1]).sum()
     return 100.0 * sum1 + sum2
@@ -133,6 +133,7 @@ def sphere(x):
         The value of the Sphere function.
 
     """
+    x = np.asarray(x, dtype=float)
     return np.square(x).sum()
 
 
@@ -151,6 +152,6 @@ def styblinski_tang(x):
         The value of the Styblinski-Tang function.
 
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     sum1 = (np.power(x, 4) - 16.0 * np.square(x) + 5.0 * x).sum()
     return 0.5 * sum1 + 39.16599 * x.size
-- 
2.43.0


From 6fe38ec36adf8d77393f429beaaa18adedd600d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:57 +0000
Subject: [PATCH 28/34] fix: VD-CMA rejects populations of one

---
 stochopy/optimize/vdcma/_vdcma.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 05058fb..52425a4 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -106,6 +106,10 @@ def minimize(
         if np.ndim(x0) != 1 or len(x0) != len(bounds):
             raise ValueError()
 
+    # Population size
+    if popsize < 2:
+        raise ValueError()
+
     # VDCMA parameters
     if sigma <= 0.0:
         raise ValueError()
-- 
2.43.0


From d76a26d227181c7daea87750c7c528dfd898c364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:05 +0000
Subject: [PATCH 29/34] fix: HMC rejects diverged trajectories

---
 stochopy/sample/hmc/_hmc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index b2012a2..93dd9b7 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -169,6 +169,7 @@ def sample(
 
             log_alpha = min(0.0, U0 - U + K0 - K)
             accept = log_alpha > np.log(np.random.rand())
+            accept = accept and not np.isnan(K)  # Diverged trajectory
 
         if accept:
             n_accepted += 1
-- 
2.43.0


From dccbc9839cd3eafd8e8bc120f168f9bf7bf4573a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:54 +0000
Subject: [PATCH 30/34] fix: undefined objective values count as infinite

---
 stochopy/_common.py           | 14 ++++++++++++++
 stochopy/optimize/_common.py  |  3 +++
 stochopy/sample/hmc/_hmc.py   |  3 ++-
 stochopy/sample/mcmc/_mcmc.py |  3 +++
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/stochopy/_common.py b/stochopy/_common.py
index 87e5ba7..b9ead2f 100644
--- a/stochopy/_common.py
+++ b/stochopy/_common.py
@@ -1,3 +1,17 @@
+import numpy as np
+
+
+def defined(fun):
+    """Wrap objective function such that undefined values (NaN) are infinite."""
+
+    def wrapper(*args):
+        f = fun(*args)
+
+        return np.inf if f != f else f
+
+    return wrapper
+
+
 class BaseResult(dict):
     """
     Represent the optimization or sampling result.
diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index 9a0c490..ac37c36 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -3,6 +3,8 @@ from functools import wraps
 import numpy as np
 from joblib import Parallel, delayed
 
+from .._common import defined
+
 prefer = {
     "loky": "processes",
     "threading": "threads",
@@ -94,6 +96,7 @@ def optimizer(optfun):
 
             return wrapper
 
+        fun = defined(fun)
         backend = backend if backend else "threading"
 
         if backend in prefer and workers not in {0, 1}:
diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 93dd9b7..92ae555 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+from ..._common import defined
 from .._common import in_search_space
 from .._helpers import SampleResult, register
 
@@ -81,7 +82,7 @@ def sample(
     if not hasattr(fun, "__call__"):
         raise TypeError()
 
-    fun = count(fun)  # Wrap to count the number of function evaluations
+    fun = count(defined(fun))  # Wrap to count the number of function evaluations
 
     # Dimensionality and search space
     if np.ndim(bounds) != 2:
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index 8d71ff1..f374479 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+from ..._common import defined
 from .._common import in_search_space
 from .._helpers import SampleResult, register
 
@@ -68,6 +69,8 @@ def sample(
     if not hasattr(fun, "__call__"):
         raise TypeError()
 
+    fun = defined(fun)
+
     # Dimensionality and search space
     if np.ndim(bounds) != 2:
         raise ValueError()
-- 
2.43.0


From 48376802de29710700b42bf68d2132c8a3498c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:28 +0000
Subject: [PATCH 31/34] fix: non-finite fitness ranges do not spoil penalty
 weights

---
 stochopy/optimize/cmaes/_constraints.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stochopy/optimize/cmaes/_constraints.py b/stochopy/optimize/cmaes/_constraints.py
index 3178d5d..9550dad 100644
--- a/stochopy/optimize/cmaes/_constraints.py
+++ b/stochopy/optimize/cmaes/_constraints.py
@@ -36,7 +36,9 @@ def Penalize(
     delta = (perc[1] - perc[0]) / ndim / diagC.mean() / sigma**2
 
     # Catch non-sensible values
-    if delta == 0:
+    if not np.isfinite(delta):
+        delta = dfithist.max()
+    elif delta == 0:
         delta = dfithist[dfithist > 0.0].min()
     elif not validfitval:
         dfithist = np.empty(0)
-- 
2.43.0


From 02974d03a6a95042126cd28b131e6255131d0951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:30 +0000
Subject: [PATCH 32/34] fix: CMA-ES and VD-CMA standardise initial guesses with
 fixed coordinates

---
 stochopy/optimize/cmaes/_cmaes.py | 2 +-
 stochopy/optimize/vdcma/_vdcma.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index c2cc3a2..704e893 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -167,7 +167,7 @@ def cmaes(
     # Standardize and unstandardize
     xm = 0.5 * (upper + lower)
     xstd = 0.5 * (upper - lower)
-    standardize = lambda x: (x - xm) / xstd
+    standardize = lambda x: (x - xm) / np.where(xstd > 0.0, xstd, 1.0)
     unstandardize = lambda x: x * xstd + xm
 
     fun = lambda x: funstd(unstandardize(x))
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 52425a4..f184bdc 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -172,7 +172,7 @@ def vdcma(
     # Standardize and unstandardize
     xm = 0.5 * (upper + lower)
     xstd = 0.5 * (upper - lower)
-    standardize = lambda x: (x - xm) / xstd
+    standardize = lambda x: (x - xm) / np.where(xstd > 0.0, xstd, 1.0)
     unstandardize = lambda x: x * xstd + xm
 
     fun = lambda x: funstd(unstandardize(x))
-- 
2.43.0


From 915923a390787478c0ba40e5fd36cc2fca491b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:33 +0000
Subject: [PATCH 33/34] fix: bound penalties do not depend on memory layout

---
 stochopy/optimize/cmaes/_constraints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stochopy/optimize/cmaes/_constraints.py b/stochopy/optimize/cmaes/_constraints.py
index 9550dad..e99d8de 100644
--- a/stochopy/optimize/cmaes/_constraints.py
+++ b/stochopy/optimize/cmaes/_constraints.py
@@ -76,7 +76,8 @@ def Penalize(
         )
 
     # Calculate scaling biased to unity, product is one
-    bnd_scale = np.exp(0.9 * (np.log(diagC) - np.log(diagC).mean()))
+    log_diagC = np.log(diagC.copy())  # Last bit depends on memory layout for views
+    bnd_scale = np.exp(0.9 * (log_diagC - log_diagC.mean()))
 
     # Assigned penalized fitness
     arfitness += np.dot((arxvalid - arx) ** 2, bnd_weights / bnd_scale)
-- 
2.43.0


From c424c555fdd4f92b5b47f49047c1145a2dc6e3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:37 +0000
Subject: [PATCH 34/34] fix: CMA-ES and VD-CMA reject an undefined or infinite
 sigma

---
 stochopy/optimize/cmaes/_cmaes.py | 2 +-
 stochopy/optimize/vdcma/_vdcma.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index 704e893..12bd806 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -106,7 +106,7 @@ def minimize(
             raise ValueError()
 
     # CMA-ES parameters
-    if sigma <= 0.0:
+    if not 0.0 < sigma < np.inf:
         raise ValueError()
 
     if not 0.0 < muperc <= 1.0:
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index f184bdc..26f1131 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -111,7 +111,7 @@ def minimize(
         raise ValueError()
 
     # VDCMA parameters
-    if sigma <= 0.0:
+    if not 0.0 < sigma < np.inf:
         raise ValueError()
 
     if not 0.0 < muperc <= 1.0:
-- 
2.43.0

