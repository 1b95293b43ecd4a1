From 2458caea49b2bf01fcb75f1f8c2e3ba194e67865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 01/26] fix: samplers with constraints='Reject' rejected every
 proposal

in_search_space computed the feasibility of a sample but did not return it,
so chains never moved.
---
 stochopy/sample/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/sample/_common.py b/stochopy/sample/_common.py
index 79ab58a..f841e1a 100644
--- a/stochopy/sample/_common.py
+++ b/stochopy/sample/_common.py
@@ -4,6 +4,6 @@ import numpy as np
 def in_search_space(x, lower, upper, constraints):
     """Determine feasibility of a sample."""
     if constraints == "Reject":
-        np.logical_and(np.all(x >= lower), np.all(x <= upper))
+        return np.logical_and(np.all(x >= lower), np.all(x <= upper))
     else:
         return True
-- 
2.43.0


From e0cea0a1ef75f059f4bee626fe42b024c41027f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 02/26] fix: HMC with a user-supplied jac recursed without end

The lambda wrapping jac called itself instead of the user's function.
---
 stochopy/sample/hmc/_hmc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 82199ac..b0dacf3 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -112,9 +112,9 @@ def sample(
         raise TypeError()
 
     if jac is None:
-        jac = lambda x: numerical_gradient(x, fun, args, finite_diff_abs_step)
+        grad = lambda x: numerical_gradient(x, fun, args, finite_diff_abs_step)
     else:
-        jac = lambda x: jac(x, *args)
+        grad = lambda x: jac(x, *args)
 
     # Seed
     if seed is not None:
@@ -147,12 +147,12 @@ def sample(
         q0 = q.copy()
         p0 = p.copy()
 
-        p -= 0.5 * stepsize * jac(q)  # First half momentum step
+        p -= 0.5 * stepsize * grad(q)  # First half momentum step
         q += stepsize * p  # First full position step
         for _ in range(nleap):
-            p -= stepsize * jac(q)  # Momentum
+            p -= stepsize * grad(q)  # Momentum
             q += stepsize * p  # Position
-        p -= 0.5 * stepsize * jac(q)  # Last half momentum step
+        p -= 0.5 * stepsize * grad(q)  # Last half momentum step
 
         accept = False
         if in_search_space(q, lower, upper, constraints):
-- 
2.43.0


From 10b4b210e7f32c291cc805626c069600a8ad7513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 03/26] fix: samplers ignored the initial sample when looking
 for the best one

MCMC returned a worse sample than x0 (or fun=inf if nothing was accepted),
and the state given to callbacks of MCMC and HMC was wrong the same way.
---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index b0dacf3..03fa744 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -140,7 +140,7 @@ def sample(
 
     # Leap-frog algorithm
     n_accepted = 0
-    imin, fmin = 0, np.Inf
+    imin, fmin = 0, funall[0]
     for i in range(1, maxiter):
         q = xall[i - 1].copy()
         p = np.random.randn(ndim)  # Random momentum
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index cd47e83..5fc5389 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -119,7 +119,7 @@ def sample(
     # Metropolis-Hastings algorithm
     i = 1
     n_accepted = 0
-    imin, fmin = 0, np.Inf
+    imin, fmin = 0, funall[0]
     while i < maxiter:
         for j in np.arange(0, ndim, ndim_per_iter):
             jmax = min(ndim, j + ndim_per_iter - 1)
-- 
2.43.0


From 52da1682ec95cf23206fa18a8103894268bdda69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 04/26] fix: sampler callback state missed the latest sample in
 xall and funall

---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 03fa744..f4ba322 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -182,7 +182,7 @@ def sample(
                 accept_ratio=n_accepted / (i + 1),
             )
             if return_all:
-                res.update({"xall": xall[:i], "funall": funall[:i]})
+                res.update({"xall": xall[: i + 1], "funall": funall[: i + 1]})
 
             callback(xall[i], res)
 
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index 5fc5389..34fb4a3 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -151,7 +151,7 @@ def sample(
                     accept_ratio=n_accepted / i,
                 )
                 if return_all:
-                    res.update({"xall": xall[: i - 1], "funall": funall[: i - 1]})
+                    res.update({"xall": xall[:i], "funall": funall[:i]})
 
                 callback(xall[i - 1], res)
 
-- 
2.43.0


From f6a4a7ce6bf87cd3bdc789cc9415e90acc78ba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 05/26] fix: samplers modified the stepsize array of the caller

The in-place scaling also failed for integers, lists and tuples.
---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index f4ba322..0ba48b8 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -105,7 +105,7 @@ def sample(
     if len(stepsize) != ndim:
         raise ValueError()
 
-    stepsize *= 0.5 * (upper - lower)
+    stepsize = 0.5 * (upper - lower) * stepsize
 
     # Jacobian
     if not (jac is None or hasattr(jac, "__call__")):
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index 34fb4a3..bac580a 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -86,7 +86,7 @@ def sample(
     if len(stepsize) != ndim:
         raise ValueError()
 
-    stepsize *= 0.5 * (upper - lower)
+    stepsize = 0.5 * (upper - lower) * stepsize
 
     # Number of dimensions to perturb per iteration
     if not 0.0 <= perc <= 1.0:
-- 
2.43.0


From 58b4a210083fa15137e71d4f47e057564df1af70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 06/26] fix: neighborhood algorithm raised ValueError when
 called without callback

---
 stochopy/optimize/na/_na.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index 97b1bdc..2c60ee0 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -23,7 +23,7 @@ def minimize(
     backend=None,
     return_all=False,
     verbosity=1.0,
-    callback=True,
+    callback=None,
 ):
     """
     Minimize an objective function using Neighborhood Algorithm (NA).
-- 
2.43.0


From 9944dfd9a37cc81ef0c43e6d757295ef48a17d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 07/26] fix: NA recorded the initial population in normalised
 coordinates

---
 stochopy/optimize/na/_na.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index 2c60ee0..df1b975 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -190,13 +190,13 @@ def na(
         if nout > 0:
             xall = np.empty((maxiter, nout, ndim))
             funall = np.empty((maxiter, nout))
-            xall[0] = X[:nout].copy()
+            xall[0] = unnormalize(X[:nout])
             funall[0] = pfit[:nout].copy()
 
         else:
             xall = np.empty((maxiter, 1, ndim))
             funall = np.empty((maxiter, 1))
-            xall[0] = gbest
+            xall[0] = unnormalize(gbest)
             funall[0] = gfit
 
     # First iteration for callback
-- 
2.43.0


From 76ec593cc6b39e56d7f3e58774f7b0f4fff7ad0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 08/26] fix: x0 was used in place as population

DE, PSO and CPSO overwrote the caller's x0, failed on lists and truncated
solutions to integers when x0 had an integer dtype.
---
 stochopy/optimize/cpso/_cpso.py | 2 +-
 stochopy/optimize/de/_de.py     | 2 +-
 stochopy/optimize/na/_na.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 4ff9398..089800e 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -216,7 +216,7 @@ def cpso(
         delta = np.log(1.0 + 0.003 * popsize) / np.max((0.2, np.log(0.01 * maxiter)))
 
     # Initial population
-    X = x0 if x0 is not None else lhs(popsize, ndim, bounds)
+    X = np.array(x0, dtype=float) if x0 is not None else lhs(popsize, ndim, bounds)
     V = np.zeros((popsize, ndim))
     pbest = X.copy()
 
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index d1185ed..db11acc 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -205,7 +205,7 @@ def de(
     de_iter = de_sync if sync else de_async
 
     # Initial population
-    X = x0 if x0 is not None else lhs(popsize, ndim, bounds)
+    X = np.array(x0, dtype=float) if x0 is not None else lhs(popsize, ndim, bounds)
     U = np.empty((popsize, ndim))
 
     # Evaluate initial population
diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index df1b975..7cb35bb 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -166,7 +166,7 @@ def na(
     nr = max(1, int(nrperc * popsize))
 
     # Initial population
-    X = x0 if x0 is not None else lhs(popsize, ndim, bounds)
+    X = np.array(x0, dtype=float) if x0 is not None else lhs(popsize, ndim, bounds)
     X = normalize(X)
     pbest = X.copy()
 
-- 
2.43.0


From 960a9f866353a4186649330e24d393e55fcda62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 09/26] fix: maxiter=1 ran two iterations and failed with
 return_all

DE, PSO, CPSO and NA now stop after the initial population.
---
 stochopy/optimize/cpso/_cpso.py | 3 ++-
 stochopy/optimize/de/_de.py     | 3 ++-
 stochopy/optimize/na/_na.py     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 089800e..01fa745 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -255,7 +255,8 @@ def cpso(
 
     # Iterate until one of the termination criterion is satisfied
     it = 1
-    converged = False
+    status = -1 if it >= maxiter else None
+    converged = status is not None
     while not converged:
         it += 1
 
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index db11acc..37957cb 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -243,7 +243,8 @@ def de(
 
     # Iterate until one of the termination criterion is satisfied
     it = 1
-    converged = False
+    status = -1 if it >= maxiter else None
+    converged = status is not None
     while not converged:
         it += 1
 
diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index 7cb35bb..bc57efa 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -209,7 +209,8 @@ def na(
 
     # Iterate until one of the termination criterion is satisfied
     it = 1
-    converged = False
+    status = -1 if it >= maxiter else None
+    converged = status is not None
     while not converged:
         it += 1
 
-- 
2.43.0


From a7f52263070ca0b3b446bd8d863001cebb037e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 10/26] fix: asynchronous DE and PSO missed convergence

The termination status of an individual was overwritten by the ones after it,
and an initial best solution below ftol went unnoticed.
---
 stochopy/optimize/cpso/_cpso.py | 8 +++++++-
 stochopy/optimize/de/_de.py     | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 01fa745..4fc4ed2 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -384,6 +384,7 @@ def pso_async(
 ):
     """Asynchronous PSO."""
     popsize = len(X)
+    status = None
 
     for i in range(popsize):
         # Mutation
@@ -392,9 +393,14 @@ def pso_async(
         )
 
         # Selection
-        gbest, gfit, pfit[i], status = selection_async(
+        gbest, gfit, pfit[i], istatus = selection_async(
             it, X, gbest, gfit, pbest, pbestfit, maxiter, xtol, ftol, fun, i
         )
+        status = istatus if istatus is not None else status
+
+    # Stop if best solution of a previous iteration is already less than ftol
+    if status is None and gfit <= ftol:
+        status = 0
 
     # Stop if maximum iteration is reached
     if status is None and it >= maxiter:
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index 37957cb..c626cd6 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -372,6 +372,7 @@ def de_async(
 ):
     """Asynchronous DE."""
     popsize, ndim = X.shape
+    status = None
 
     for i in range(popsize):
         # Mutation
@@ -384,9 +385,14 @@ def de_async(
         U[i] = cons(np.where(np.logical_or(mask, r1[i] <= CR), V, X[i]))
 
         # Selection
-        gbest, gfit, pfit[i], status = selection_async(
+        gbest, gfit, pfit[i], istatus = selection_async(
             it, U, gbest, gfit, X, pbestfit, maxiter, xtol, ftol, fun, i
         )
+        status = istatus if istatus is not None else status
+
+    # Stop if best solution of a previous iteration is already less than ftol
+    if status is None and gfit <= ftol:
+        status = 0
 
     # Stop if maximum iteration is reached
     if status is None and it >= maxiter:
-- 
2.43.0


From a259e28c9370b7e7bf81ea3cd5a8a852ae4f30b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 11/26] fix: DE recorded in funall the values of the trials,
 not of the population

xall holds the surviving population, funall held the values of all trials,
kept or not.
---
 stochopy/optimize/de/_de.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index c626cd6..b9982c7 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -271,12 +271,12 @@ def de(
         if return_all:
             if nout > 0:
                 xall[it - 1] = X[:nout].copy()
-                funall[it - 1] = pfit[:nout].copy()
+                funall[it - 1] = pbestfit[:nout].copy()
 
             else:
-                idx = pfit.argmin()
+                idx = pbestfit.argmin()
                 xall[it - 1] = X[idx].copy()
-                funall[it - 1] = pfit[idx].copy()
+                funall[it - 1] = pbestfit[idx].copy()
 
         converged = status is not None
 
-- 
2.43.0


From 20f56dc66ac91503b417df82c4d782421a710b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 12/26] fix: CPSO gave restarted particles the value 1e30

With larger objective values that number beat the real best and was returned
as solution value.
---
 stochopy/optimize/cpso/_cpso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 4fc4ed2..3bf4f1c 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -428,7 +428,7 @@ def restart(it, X, V, pbest, gbest, pbestfit, lower, upper, gamma, delta, maxite
             V[idx] = np.zeros((nw, ndim))
             X[idx] = np.random.uniform(lower, upper, (nw, ndim))
             pbest[idx] = X[idx].copy()
-            pbestfit[idx] = np.full(nw, 1.0e30)
+            pbestfit[idx] = np.full(nw, np.inf)
 
     return X, V, pbest, pbestfit
 
-- 
2.43.0


From 4a22c9562d2ca2faf946b133cc0b2415aed4a6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 13/26] fix: MPI ranks diverged when no seed was given

Each rank drew its own random numbers: ranks returned different results and
could deadlock when they stopped at different iterations.
---
 stochopy/optimize/_common.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index d81155e..e8644f8 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -55,6 +55,11 @@ def optimizer(optfun):
                         mpi_size = mpi_comm.Get_size()
                         mpi_double = MPI.DOUBLE
 
+                        # All ranks must draw the same random numbers
+                        np.random.set_state(
+                            mpi_comm.bcast(np.random.get_state(), root=0)
+                        )
+
                         def wrapper(x):
                             popsize = len(x)
                             f = np.zeros(popsize)
-- 
2.43.0


From 11639f4834fe11c3b60bdf6387afc02c6db15557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 14/26] fix: objectives returning integers

An initial population with integer values made later values be truncated to
integers, and 'Penalize' and CPSO's restart fail.
---
 stochopy/optimize/_common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index e8644f8..4f72e41 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -40,7 +40,7 @@ def optimizer(optfun):
 
                         def wrapper(x):
                             f = parallel(fun(xx, *args) for xx in x)
-                            return np.array(f)
+                            return np.array(f, dtype=float)
 
                     elif backend == "mpi":
                         try:
@@ -82,13 +82,13 @@ def optimizer(optfun):
                 else:
 
                     def wrapper(x):
-                        return np.array([fun(xx, *args) for xx in x])
+                        return np.array([fun(xx, *args) for xx in x], dtype=float)
 
             else:
 
                 def wrapper(x):
                     if x.ndim == 2:
-                        return np.array([fun(xx, *args) for xx in x])
+                        return np.array([fun(xx, *args) for xx in x], dtype=float)
                     else:
                         return fun(x, *args)
 
-- 
2.43.0


From 8da7383a7214a3a2c7eb8459b46b93c6c19ab006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 15/26] fix: a NaN in the initial population was never replaced

DE, PSO, CPSO and NA returned NaN whatever was found afterwards.
---
 stochopy/optimize/cpso/_cpso.py | 2 +-
 stochopy/optimize/de/_de.py     | 2 +-
 stochopy/optimize/na/_na.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 3bf4f1c..9e12e7c 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -222,7 +222,7 @@ def cpso(
 
     # Evaluate initial population
     pfit = fun(X)
-    pbestfit = pfit.copy()
+    pbestfit = np.where(np.isnan(pfit), np.inf, pfit)
 
     # Initial best solution
     gbidx = np.argmin(pbestfit)
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index b9982c7..bc56f14 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -210,7 +210,7 @@ def de(
 
     # Evaluate initial population
     pfit = fun(X)
-    pbestfit = pfit.copy()
+    pbestfit = np.where(np.isnan(pfit), np.inf, pfit)
 
     # Initial best solution
     gbidx = np.argmin(pbestfit)
diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index bc57efa..f5d27ab 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -172,7 +172,7 @@ def na(
 
     # Evaluate initial population
     pfit = fun(X)
-    pbestfit = pfit.copy()
+    pbestfit = np.where(np.isnan(pfit), np.inf, pfit)
 
     # Initial best solution
     gbidx = np.argmin(pbestfit)
-- 
2.43.0


From 415a6bb93f5ece522970e5884d9f6d6fdd58c60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 16/26] fix: samplers accepted samples whose value is NaN

min(0.0, nan) is 0.0.
---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 0ba48b8..18cf874 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -161,7 +161,7 @@ def sample(
             U = fun(q, *args)
             K = 0.5 * np.square(p).sum()
 
-            log_alpha = min(0.0, U0 - U + K0 - K)
+            log_alpha = np.minimum(0.0, U0 - U + K0 - K)
             accept = log_alpha > np.log(np.random.rand())
 
         if accept:
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index bac580a..f512504 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -131,7 +131,7 @@ def sample(
             accept = False
             if in_search_space(xall[i], lower, upper, constraints):
                 funall[i] = fun(xall[i], *args)
-                log_alpha = min(0.0, funall[i - 1] - funall[i])
+                log_alpha = np.minimum(0.0, funall[i - 1] - funall[i])
                 accept = log_alpha > np.log(np.random.rand())
 
             if accept:
-- 
2.43.0


From 86c34fac5582a84ade52e99d52070a95cf2be7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 17/26] fix: with verbosity=0 a NaN was recorded as best
 solution

---
 stochopy/optimize/_common.py      | 5 +++++
 stochopy/optimize/cmaes/_cmaes.py | 4 ++--
 stochopy/optimize/cpso/_cpso.py   | 4 ++--
 stochopy/optimize/na/_na.py       | 4 ++--
 stochopy/optimize/vdcma/_vdcma.py | 4 ++--
 5 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index 4f72e41..5da7ae1 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -125,6 +125,11 @@ def lhs(popsize, ndim, bounds=None):
     return pop
 
 
+def argmin(f):
+    """Return the index of the smallest value, ignoring NaN."""
+    return np.argmin(np.where(np.isnan(f), np.inf, f))
+
+
 def selection_sync(it, cand, xbest, x, xfun, maxiter, xtol, ftol, fun):
     """Synchronous selection."""
     # Selection
diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index 00f1e15..395900a 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from .._common import messages, optimizer
+from .._common import argmin, messages, optimizer
 from .._helpers import OptimizeResult, register
 from ._constraints import _constraints_map
 
@@ -264,7 +264,7 @@ def cmaes(
                 funall[it - 1] = arfitness[:nout].copy()
 
             else:
-                idx = arfitness.argmin()
+                idx = argmin(arfitness)
                 xall[it - 1] = unstandardize(arxvalid[idx])
                 funall[it - 1] = arfitness[idx].copy()
 
diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 9e12e7c..efcc142 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from .._common import lhs, messages, optimizer, selection_async, selection_sync
+from .._common import argmin, lhs, messages, optimizer, selection_async, selection_sync
 from .._helpers import OptimizeResult, register
 from ._constraints import _constraints_map
 
@@ -289,7 +289,7 @@ def cpso(
                 funall[it - 1] = pfit[:nout].copy()
 
             else:
-                idx = pfit.argmin()
+                idx = argmin(pfit)
                 xall[it - 1] = X[idx].copy()
                 funall[it - 1] = pfit[idx].copy()
 
diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index f5d27ab..5c0cc1c 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from .._common import lhs, messages, optimizer, selection_sync
+from .._common import argmin, lhs, messages, optimizer, selection_sync
 from .._helpers import OptimizeResult, register
 
 __all__ = [
@@ -230,7 +230,7 @@ def na(
                 funall[it - 1] = pfit[:nout].copy()
 
             else:
-                idx = pfit.argmin()
+                idx = argmin(pfit)
                 xall[it - 1] = unnormalize(X[idx])
                 funall[it - 1] = pfit[idx].copy()
 
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 032d32c..ae16d64 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from .._common import messages, optimizer
+from .._common import argmin, messages, optimizer
 from .._helpers import OptimizeResult, register
 from ..cmaes._cmaes import converge
 from ..cmaes._constraints import _constraints_map
@@ -282,7 +282,7 @@ def vdcma(
                 funall[it - 1] = arfitness[:nout].copy()
 
             else:
-                idx = arfitness.argmin()
+                idx = argmin(arfitness)
                 xall[it - 1] = unstandardize(arxvalid[idx])
                 funall[it - 1] = arfitness[idx].copy()
 
-- 
2.43.0


From 93908e545aa0adc2ee2e4293be81d1f53981a97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 18/26] fix: constraints='Penalize' with NaN or infinite values

One such value made the boundary weights NaN for the rest of the run, hence
all later fitness values.
---
 stochopy/optimize/cmaes/_constraints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stochopy/optimize/cmaes/_constraints.py b/stochopy/optimize/cmaes/_constraints.py
index 0009593..e009877 100644
--- a/stochopy/optimize/cmaes/_constraints.py
+++ b/stochopy/optimize/cmaes/_constraints.py
@@ -32,7 +32,8 @@ def Penalize(
     arfitness = fun(arxvalid)
 
     # Get delta fitness values
-    perc = np.percentile(arfitness, [25.0, 75.0])
+    valid = arfitness[np.isfinite(arfitness)]
+    perc = np.percentile(valid, [25.0, 75.0]) if valid.size else np.zeros(2)
     delta = (perc[1] - perc[0]) / ndim / diagC.mean() / sigma**2
 
     # Catch non-sensible values
-- 
2.43.0


From eab9a98291cd588ba546ab82faf768553315c15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 19/26] fix: 'Shrink' could reverse and amplify velocities of
 particles at a bound

For a particle outside by rounding error, the shrink factor was negative or
larger than one (up to infinite), which sent it far outside the bounds.
---
 stochopy/optimize/cpso/_constraints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cpso/_constraints.py b/stochopy/optimize/cpso/_constraints.py
index 7f43cbc..ec68822 100644
--- a/stochopy/optimize/cpso/_constraints.py
+++ b/stochopy/optimize/cpso/_constraints.py
@@ -48,7 +48,7 @@ def Shrink(lower, upper, sync):
             beta = np.array(
                 [shrink(x, v, ml, mu) for x, v, ml, mu in zip(X, V, maskl, masku)]
             )
-            V *= beta[:, None]
+            V *= np.clip(beta, 0.0, 1.0)[:, None]
 
             return X + V, V
 
@@ -59,7 +59,7 @@ def Shrink(lower, upper, sync):
             maskl = Xcand < lower
             masku = Xcand > upper
             beta = shrink(X, V, maskl, masku)
-            V *= beta
+            V *= np.clip(beta, 0.0, 1.0)
 
             return X + V, V
 
-- 
2.43.0


From bb8415937c7d99f6d3e459f18b8bcacc5c9a7eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 20/26] fix: MCMC failed when the number of dimensions is not a
 multiple of the block size

---
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index f512504..5a616d2 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -122,7 +122,7 @@ def sample(
     imin, fmin = 0, funall[0]
     while i < maxiter:
         for j in np.arange(0, ndim, ndim_per_iter):
-            jmax = min(ndim, j + ndim_per_iter - 1)
+            jmax = min(ndim, j + ndim_per_iter) - 1
             perturbation = np.random.randn(jmax - j + 1) * stepsize[j : jmax + 1]
 
             xall[i] = xall[i - 1].copy()
-- 
2.43.0


From 6cd9392622ae6d47f8c8fe23c187218396806e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 21/26] fix: accept_ratio in the first callback of the samplers

No proposal has been accepted yet; with maxiter=1 the last callback state
disagreed with the result.
---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 18cf874..5331b79 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -132,7 +132,7 @@ def sample(
 
     # First iteration for callback
     if callback is not None:
-        res = SampleResult(x=xall[0], fun=funall[0], nit=1, accept_ratio=1.0)
+        res = SampleResult(x=xall[0], fun=funall[0], nit=1, accept_ratio=0.0)
         if return_all:
             res.update({"xall": xall[:1], "funall": funall[:1]})
 
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index 5a616d2..90e3658 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -110,7 +110,7 @@ def sample(
 
     # First iteration for callback
     if callback is not None:
-        res = SampleResult(x=xall[0], fun=funall[0], nit=1, accept_ratio=1.0)
+        res = SampleResult(x=xall[0], fun=funall[0], nit=1, accept_ratio=0.0)
         if return_all:
             res.update({"xall": xall[:1], "funall": funall[:1]})
 
-- 
2.43.0


From 571ebbd3091ab8e48f29b13329565da31ab63c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 22/26] fix: NA keeps Voronoi distances right in the presence
 of zero-width dimensions

---
 stochopy/optimize/na/_na.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index 5c0cc1c..1e51368 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -157,7 +157,7 @@ def na(
     span = upper - lower
     span_mask = span > 0.0
     span[~span_mask] = 1.0  # Avoid zero division in normalize
-    normalize = lambda x: np.where(span_mask, (x - lower) / span, upper)
+    normalize = lambda x: np.where(span_mask, (x - lower) / span, 0.0)
     unnormalize = lambda x: np.where(span_mask, x * span + lower, upper)
 
     fun = lambda x: funnorm(unnormalize(x))
@@ -284,6 +284,10 @@ def mutation(Xall, Xallfit, popsize, ndim, nr, span_mask):
         d2 = ((U[:, 1:] - X[i, 1:]) ** 2).sum(axis=1)
 
         for j in range(ndim):
+            if j > 0:
+                d1 += (Xall[k, j - 1] - X[i, j - 1]) ** 2 - (Xall[k, j] - X[i, j]) ** 2
+                d2 += (U[:, j - 1] - X[i, j - 1]) ** 2 - (U[:, j] - X[i, j]) ** 2
+
             if not span_mask[j]:
                 # Value does not matter as it will be fixed by unnormalize
                 X[i, j] = 0.0
@@ -299,10 +303,6 @@ def mutation(Xall, Xallfit, popsize, ndim, nr, span_mask):
 
             X[i, j] = np.random.uniform(low, high)
 
-            if j < ndim - 1:
-                d1 += (Xall[k, j] - X[i, j]) ** 2 - (Xall[k, j + 1] - X[i, j + 1]) ** 2
-                d2 += (U[:, j] - X[i, j]) ** 2 - (U[:, j + 1] - X[i, j + 1]) ** 2
-
     return X
 
 
-- 
2.43.0


From 8a05eff33d9d45a58a093db8ed8ce82adb7326da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:12 +0000
Subject: [PATCH 23/26] fix: round the same wherever the covariance diagonal
 lies in memory

np.log of the strided view returned by np.diag is computed by another loop
when its result happens to be placed right behind it, so that the penalised
values of a seeded run, and those of different MPI ranks, differed in the last
digits from time to time.
---
 stochopy/optimize/cmaes/_constraints.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stochopy/optimize/cmaes/_constraints.py b/stochopy/optimize/cmaes/_constraints.py
index e009877..7d6035c 100644
--- a/stochopy/optimize/cmaes/_constraints.py
+++ b/stochopy/optimize/cmaes/_constraints.py
@@ -26,6 +26,9 @@ def Penalize(
     popsize, ndim = arx.shape
     ones = np.ones(ndim)
 
+    # Logarithms of a strided view may be rounded according to its place in memory
+    diagC = diagC.copy()
+
     # Clip to boundaries
     arxvalid = np.where(arxvalid < -1.0, -ones, arxvalid)
     arxvalid = np.where(arxvalid > 1.0, ones, arxvalid)
-- 
2.43.0


From e10011411a453e629438e2f326a1de50ba792a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:23 +0000
Subject: [PATCH 24/26] fix: start the boundary handling of CMA-ES and VD-CMA
 from a defined mean

With 'Penalize' and a mean outside the bounds (x0 outside, or on them up to
rounding) the first iteration compared it with the contents of an
uninitialised array: seeded runs were not repeatable and MPI ranks diverged.
---
 stochopy/optimize/cmaes/_cmaes.py | 2 +-
 stochopy/optimize/vdcma/_vdcma.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index 395900a..cd2717e 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -178,7 +178,7 @@ def cmaes(
 
     # Initial mean
     xmean = np.random.uniform(-1.0, 1.0, ndim) if x0 is None else standardize(x0)
-    xold = np.empty(ndim)
+    xold = xmean.copy()
 
     # Number of parents
     mu = int(muperc * popsize)
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index ae16d64..62cc686 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -179,7 +179,7 @@ def vdcma(
 
     # Initial mean
     xmean = np.random.uniform(-1.0, 1.0, ndim) if x0 is None else standardize(x0)
-    xold = np.empty(ndim)
+    xold = xmean.copy()
 
     # Number of parents
     mu = int(muperc * popsize)
-- 
2.43.0


From e78797bc1b3085ea881cf96ba296b360f119dc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:43 +0000
Subject: [PATCH 25/26] fix: reject CMA-ES and VD-CMA populations below two or
 without a parent

---
 stochopy/optimize/cmaes/_cmaes.py | 7 +++++++
 stochopy/optimize/vdcma/_vdcma.py | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index cd2717e..2dbdf42 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -105,6 +105,10 @@ def minimize(
         if np.ndim(x0) != 1 or len(x0) != len(bounds):
             raise ValueError()
 
+    # Population size
+    if popsize < 2:
+        raise ValueError()
+
     # CMA-ES parameters
     if sigma <= 0.0:
         raise ValueError()
@@ -112,6 +116,9 @@ def minimize(
     if not 0.0 < muperc <= 1.0:
         raise ValueError()
 
+    if int(muperc * popsize) < 1:
+        raise ValueError()
+
     # Seed
     if seed is not None:
         np.random.seed(seed)
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 62cc686..5fe4279 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -106,6 +106,10 @@ def minimize(
         if np.ndim(x0) != 1 or len(x0) != len(bounds):
             raise ValueError()
 
+    # Population size
+    if popsize < 2:
+        raise ValueError()
+
     # VDCMA parameters
     if sigma <= 0.0:
         raise ValueError()
@@ -113,6 +117,9 @@ def minimize(
     if not 0.0 < muperc <= 1.0:
         raise ValueError()
 
+    if int(muperc * popsize) < 1:
+        raise ValueError()
+
     # Seed
     if seed is not None:
         np.random.seed(seed)
-- 
2.43.0


From cc8b39212fe04e26c4a7f0c956f63a17ec674b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:43 +0000
Subject: [PATCH 26/26] fix: raise the error for unknown backends instead of
 running serially

---
 stochopy/optimize/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index 5da7ae1..a001ee1 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -102,7 +102,7 @@ def optimizer(optfun):
                 res = optfun(fun, args, sync, workers, backend, *optargs)
 
         else:
-            parallel = backend == "mpi"
+            parallel = backend not in prefer
             fun = wrapper(fun, args, sync, backend, parallel)
             res = optfun(fun, args, sync, workers, backend, *optargs)
 
-- 
2.43.0

