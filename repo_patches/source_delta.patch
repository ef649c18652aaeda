From aa796afbeb43eb8d1e83b40969e52d0f2547ee17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 01/18] fix: max_sharpe honours constants and infinite bounds
 in affine constraints

---
 .../efficient_frontier/efficient_frontier.py  | 53 ++++++++++++++++---
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index bec2fe0..ee4e6b9 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -222,6 +222,46 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         else:
             return res
 
+    def _scale_constraint(self, constr, k):
+        """
+        Helper method to rewrite both sides of a constraint on the weights ``w`` as a
+        constraint on ``k * w``, for the variable transformation of ``max_sharpe()``.
+
+        :param constr: equality or inequality constraint
+        :type constr: cp.Constraint
+        :param k: scaling variable
+        :type k: cp.Variable
+        :return: the two sides, or None if the constraint is an infinite bound
+        :rtype: (cp.Expression, cp.Expression)
+        """
+        lhs, rhs = constr.args
+
+        # Infinite bounds can't be scaled, and need not be
+        for const in (lhs, rhs):
+            if const.is_constant() and not np.all(np.isfinite(const.value)):
+                finite = np.isfinite(const.value)
+                if not np.any(finite):
+                    return None
+                lhs, rhs = [
+                    arg if arg.is_scalar() else arg[finite] for arg in (lhs, rhs)
+                ]
+
+        def scale(expr):
+            if expr.is_constant():
+                return expr * k
+            if not expr.is_affine():
+                return expr
+            # k * (A @ w + b) = A @ (k * w) + b * k, where b is the value at zero
+            previous_values = [(var, var.value) for var in expr.variables()]
+            for var, _ in previous_values:
+                var.value = np.zeros(var.shape)
+            offset = expr.value
+            for var, value in previous_values:
+                var.value = value
+            return expr + offset * (k - 1) if np.any(offset) else expr
+
+        return scale(lhs), scale(rhs)
+
     def max_sharpe(self, risk_free_rate=0.0):
         """
         Maximise the Sharpe Ratio. The result is also referred to as the tangency portfolio,
@@ -266,15 +306,12 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         # Must rebuild the constraints
         for constr in self._constraints:
             if isinstance(constr, cp.constraints.nonpos.Inequality):
-                # Either the first or second item is the expression
-                if isinstance(
-                    constr.args[0], cp.expressions.constants.constant.Constant
-                ):
-                    new_constraints.append(constr.args[1] >= constr.args[0] * k)
-                else:
-                    new_constraints.append(constr.args[0] <= constr.args[1] * k)
+                sides = self._scale_constraint(constr, k)
+                if sides is not None:
+                    new_constraints.append(sides[0] <= sides[1])
             elif isinstance(constr, cp.constraints.zero.Equality):
-                new_constraints.append(constr.args[0] == constr.args[1] * k)
+                lhs, rhs = self._scale_constraint(constr, k)
+                new_constraints.append(lhs == rhs)
             else:
                 raise TypeError(
                     "Please check that your constraints are in a suitable format"
-- 
2.43.0


From 0983ce0e2215d1f8b5a6152cfceff358e0bff899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:57 +0000
Subject: [PATCH 02/18] fix: efficient_return can be re-solved when the maximum
 return is exactly zero

---
 pypfopt/efficient_frontier/efficient_frontier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index ee4e6b9..9428e33 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -430,7 +430,7 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         """
         if not isinstance(target_return, float):
             raise ValueError("target_return should be a float")
-        if not self._max_return_value:
+        if self._max_return_value is None:
             a = self.deepcopy()
             self._max_return_value = a._max_return()
         if target_return > self._max_return_value:
-- 
2.43.0


From 94a2f8c4dab210a52562635fad3cdb15074457ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:47 +0000
Subject: [PATCH 03/18] fix: read None, numpy scalars and pairs of arrays as
 bounds pairs with two assets

---
 pypfopt/base_optimizer.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index f988409..a92d00d 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -211,9 +211,21 @@ class BaseConvexOptimizer(BaseOptimizer):
         :return: bounds suitable for cvxpy
         :rtype: tuple pair of np.ndarray
         """
+        # A scalar, None or a tuple of two arrays can only be a (lower, upper) pair.
+        is_pair = isinstance(test_bounds, (tuple, list)) and (
+            len(test_bounds) == 2
+            and (
+                test_bounds[0] is None
+                or np.isscalar(test_bounds[0])
+                or isinstance(test_bounds, tuple)
+                and all(isinstance(bound, np.ndarray) for bound in test_bounds)
+            )
+        )
         # If it is a collection with the right length, assume they are all bounds.
-        if len(test_bounds) == self.n_assets and not isinstance(
-            test_bounds[0], (float, int)
+        if (
+            len(test_bounds) == self.n_assets
+            and not is_pair
+            and not isinstance(test_bounds[0], (float, int))
         ):
             bounds = np.array(test_bounds, dtype=float)
             self._lower_bounds = np.nan_to_num(bounds[:, 0], nan=-np.inf)
-- 
2.43.0


From ce97ffa7f4257ce45eea931a73b5cf503de0dd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:03 +0000
Subject: [PATCH 04/18] fix: market-neutral semivariance optimisation keeps the
 benchmark

---
 .../efficient_semivariance.py                 | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_semivariance.py b/pypfopt/efficient_frontier/efficient_semivariance.py
index 89d520c..8f4a458 100644
--- a/pypfopt/efficient_frontier/efficient_semivariance.py
+++ b/pypfopt/efficient_frontier/efficient_semivariance.py
@@ -123,8 +123,7 @@ class EfficientSemivariance(EfficientFrontier):
         for obj in self._additional_objectives:
             self._objective += obj
 
-        B = (self.returns.values - self.benchmark) / np.sqrt(self._T)
-        self.add_constraint(lambda w: B @ w - p + n == 0)
+        self._add_semivariance_constraint(p, n)
         self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
@@ -161,11 +160,17 @@ class EfficientSemivariance(EfficientFrontier):
             for obj in self._additional_objectives:
                 self._objective += obj
 
-            B = (self.returns.values - self.benchmark) / np.sqrt(self._T)
-            self.add_constraint(lambda w: B @ w - p + n == 0)
+            self._add_semivariance_constraint(p, n)
             self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
+    def _add_semivariance_constraint(self, p, n) -> None:
+        # p - n is the (scaled) portfolio return in excess of the benchmark, whatever
+        # the sum of the weights
+        B = self.returns.values / np.sqrt(self._T)
+        b = self.benchmark / np.sqrt(self._T)
+        self.add_constraint(lambda w: B @ w - b - p + n == 0)
+
     def efficient_risk(self, target_semideviation, market_neutral=False):
         """
         Maximise return for a target semideviation (downside standard deviation).
@@ -200,8 +205,7 @@ class EfficientSemivariance(EfficientFrontier):
             self.add_constraint(
                 lambda _: self.frequency * cp.sum(cp.square(n)) <= target_semivariance
             )
-            B = (self.returns.values - self.benchmark) / np.sqrt(self._T)
-            self.add_constraint(lambda w: B @ w - p + n == 0)
+            self._add_semivariance_constraint(p, n)
             self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
@@ -241,8 +245,7 @@ class EfficientSemivariance(EfficientFrontier):
             self.add_constraint(
                 lambda w: cp.sum(w @ self.expected_returns) >= target_return_par
             )
-            B = (self.returns.values - self.benchmark) / np.sqrt(self._T)
-            self.add_constraint(lambda w: B @ w - p + n == 0)
+            self._add_semivariance_constraint(p, n)
             self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
-- 
2.43.0


From 0e71bdf42bb9120cceb03ec7f5eaccce97aeb1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:40 +0000
Subject: [PATCH 05/18] fix: semivariance, CVaR and CDaR optimisers work
 without expected returns

---
 pypfopt/efficient_frontier/efficient_cdar.py  | 19 +++++++++++++-----
 pypfopt/efficient_frontier/efficient_cvar.py  | 12 +++++++----
 .../efficient_semivariance.py                 | 20 +++++++++++++------
 3 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_cdar.py b/pypfopt/efficient_frontier/efficient_cdar.py
index febd6e3..a81e729 100644
--- a/pypfopt/efficient_frontier/efficient_cdar.py
+++ b/pypfopt/efficient_frontier/efficient_cdar.py
@@ -75,9 +75,14 @@ class EfficientCDaR(EfficientFrontier):
         :type solver_options: dict, optional
         :raises TypeError: if ``expected_returns`` is not a series, list or array
         """
+        if expected_returns is None:
+            num_assets = returns.shape[1]
+        else:
+            num_assets = len(expected_returns)
+
         super().__init__(
             expected_returns=expected_returns,
-            cov_matrix=np.zeros((len(expected_returns),) * 2),  # dummy
+            cov_matrix=np.zeros((num_assets,) * 2),  # dummy
             weight_bounds=weight_bounds,
             solver=solver,
             verbose=verbose,
@@ -221,9 +226,12 @@ class EfficientCDaR(EfficientFrontier):
         :return: expected return, CDaR.
         :rtype: (float, float)
         """
-        mu = objective_functions.portfolio_return(
-            self.weights, self.expected_returns, negative=False
-        )
+        if self.expected_returns is None:
+            mu = None
+        else:
+            mu = objective_functions.portfolio_return(
+                self.weights, self.expected_returns, negative=False
+            )
 
         cdar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
             self._z
@@ -231,7 +239,8 @@ class EfficientCDaR(EfficientFrontier):
         cdar_val = cdar.value
 
         if verbose:
-            print("Expected annual return: {:.1f}%".format(100 * mu))
+            if mu is not None:
+                print("Expected annual return: {:.1f}%".format(100 * mu))
             print("Conditional Drawdown at Risk: {:.2f}%".format(100 * cdar_val))
 
         return mu, cdar_val
diff --git a/pypfopt/efficient_frontier/efficient_cvar.py b/pypfopt/efficient_frontier/efficient_cvar.py
index d456f79..c755153 100644
--- a/pypfopt/efficient_frontier/efficient_cvar.py
+++ b/pypfopt/efficient_frontier/efficient_cvar.py
@@ -228,9 +228,12 @@ class EfficientCVaR(EfficientFrontier):
         :return: expected return, CVaR.
         :rtype: (float, float)
         """
-        mu = objective_functions.portfolio_return(
-            self.weights, self.expected_returns, negative=False
-        )
+        if self.expected_returns is None:
+            mu = None
+        else:
+            mu = objective_functions.portfolio_return(
+                self.weights, self.expected_returns, negative=False
+            )
 
         cvar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
             self._u
@@ -238,7 +241,8 @@ class EfficientCVaR(EfficientFrontier):
         cvar_val = cvar.value
 
         if verbose:
-            print("Expected annual return: {:.1f}%".format(100 * mu))
+            if mu is not None:
+                print("Expected annual return: {:.1f}%".format(100 * mu))
             print("Conditional Value at Risk: {:.2f}%".format(100 * cvar_val))
 
         return mu, cvar_val
diff --git a/pypfopt/efficient_frontier/efficient_semivariance.py b/pypfopt/efficient_frontier/efficient_semivariance.py
index 8f4a458..d9d7856 100644
--- a/pypfopt/efficient_frontier/efficient_semivariance.py
+++ b/pypfopt/efficient_frontier/efficient_semivariance.py
@@ -264,19 +264,27 @@ class EfficientSemivariance(EfficientFrontier):
         :return: expected return, semideviation, Sortino ratio.
         :rtype: (float, float, float)
         """
-        mu = objective_functions.portfolio_return(
-            self.weights, self.expected_returns, negative=False
-        )
+        if self.expected_returns is None:
+            mu = None
+        else:
+            mu = objective_functions.portfolio_return(
+                self.weights, self.expected_returns, negative=False
+            )
 
         portfolio_returns = self.returns @ self.weights
         drops = np.fmin(portfolio_returns - self.benchmark, 0)
         semivariance = np.sum(np.square(drops)) / self._T * self.frequency
         semi_deviation = np.sqrt(semivariance)
-        sortino_ratio = (mu - risk_free_rate) / semi_deviation
+        if mu is None:
+            sortino_ratio = None
+        else:
+            sortino_ratio = (mu - risk_free_rate) / semi_deviation
 
         if verbose:
-            print("Expected annual return: {:.1f}%".format(100 * mu))
+            if mu is not None:
+                print("Expected annual return: {:.1f}%".format(100 * mu))
             print("Annual semi-deviation: {:.1f}%".format(100 * semi_deviation))
-            print("Sortino Ratio: {:.2f}".format(sortino_ratio))
+            if mu is not None:
+                print("Sortino Ratio: {:.2f}".format(sortino_ratio))
 
         return mu, semi_deviation, sortino_ratio
-- 
2.43.0


From b4af5cf58ad9ddfcdddb7275880b09cbcea1c8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:36 +0000
Subject: [PATCH 06/18] fix: CLA accepts integer bounds and pairs of lists with
 two assets

---
 pypfopt/cla.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 910d598..4830b65 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -68,20 +68,21 @@ class CLA(base_optimizer.BaseOptimizer):
         self.cov_matrix = np.asarray(cov_matrix)
 
         # Bounds
-        if len(weight_bounds) == len(self.mean) and not isinstance(
-            weight_bounds[0], (float, int)
-        ):
-            self.lB = np.array([b[0] for b in weight_bounds]).reshape(-1, 1)
-            self.uB = np.array([b[1] for b in weight_bounds]).reshape(-1, 1)
+        if isinstance(weight_bounds[0], (float, int)):
+            self.lB = np.ones(self.mean.shape) * weight_bounds[0]
+            self.uB = np.ones(self.mean.shape) * weight_bounds[1]
         else:
-            if isinstance(weight_bounds[0], (float, int)):
-                self.lB = np.ones(self.mean.shape) * weight_bounds[0]
+            # A tuple of two lists or arrays is a (lower, upper) pair
+            is_pair = isinstance(weight_bounds, tuple) and all(
+                isinstance(bound, (list, np.ndarray)) for bound in weight_bounds
+            )
+            if len(weight_bounds) == len(self.mean) and not is_pair:
+                lower, upper = zip(*weight_bounds)
             else:
-                self.lB = np.array(weight_bounds[0]).reshape(self.mean.shape)
-            if isinstance(weight_bounds[0], (float, int)):
-                self.uB = np.ones(self.mean.shape) * weight_bounds[1]
-            else:
-                self.uB = np.array(weight_bounds[1]).reshape(self.mean.shape)
+                lower, upper = weight_bounds
+            # The weights are copies of the bounds, so these can't be integers
+            self.lB = np.array(lower, dtype=float).reshape(self.mean.shape)
+            self.uB = np.array(upper, dtype=float).reshape(self.mean.shape)
 
         self.w = []  # solution
         self.ls = []  # lambdas
-- 
2.43.0


From f265279d6a5580fdd1bb2788dd66fa5f8aa47d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:48 +0000
Subject: [PATCH 07/18] fix: CLA's frontier keeps both ends with many turning
 points or few points

---
 pypfopt/cla.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 4830b65..a55bd7a 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -424,13 +424,14 @@ class CLA(base_optimizer.BaseOptimizer):
 
         mu, sigma, weights = [], [], []
         # remove the 1, to avoid duplications
-        a = np.linspace(0, 1, points // len(self.w))[:-1]
+        n_points = max(2, points // len(self.w))  # each segment has two ends
+        a = np.linspace(0, 1, n_points)[:-1]
         b = list(range(len(self.w) - 1))
         for i in b:
             w0, w1 = self.w[i], self.w[i + 1]
             if i == b[-1]:
                 # include the 1 in the last iteration
-                a = np.linspace(0, 1, points // len(self.w))
+                a = np.linspace(0, 1, n_points)
             for j in a:
                 w = w1 * j + (1 - j) * w0
                 weights.append(np.copy(w))
-- 
2.43.0


From 624a744bbeb3df7c0fe6c7c1638d200840cf76d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:04 +0000
Subject: [PATCH 08/18] fix: CLA skips bounded assets that no lambda frees

---
 pypfopt/cla.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index a55bd7a..ede5378 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -336,6 +336,9 @@ class CLA(base_optimizer.BaseOptimizer):
                         meanF.shape[0] - 1,
                         self.w[-1][i],
                     )
+                    if l is None and len(f) > 1:
+                        # i's distance from its bound is the same for all lambdas
+                        continue
                     if (self.ls[-1] is None or l < self.ls[-1]) and l > CLA._infnone(
                         l_out
                     ):
-- 
2.43.0


From aa5c67fa42e4bcb9429d042aab699a0bb0abdaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:16 +0000
Subject: [PATCH 09/18] fix: CLA's turning points where an asset leaves use its
 bound

---
 pypfopt/cla.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index ede5378..cb130ad 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -359,6 +359,8 @@ class CLA(base_optimizer.BaseOptimizer):
                     self.ls.append(l_out)
                     f.append(i_out)
                 covarF, covarFB, meanF, wB = self._get_matrices(f)
+                # the last solution doesn't have i_in at its boundary yet
+                wB = self._reduce_matrix(w, self._get_b(f), [0])
                 covarF_inv = np.linalg.inv(covarF)
             # 5) compute solution vector
             wF, g = self._compute_w(covarF_inv, covarFB, meanF, wB)
-- 
2.43.0


From 214dabad72b709087c5e1559d902d13731872af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:38 +0000
Subject: [PATCH 10/18] fix: market-implied prior with a covariance matrix
 given as an array

---
 pypfopt/black_litterman.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index f24df06..bd3f106 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -272,7 +272,8 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
             market_prior = market_implied_prior_returns(
                 market_caps, self.risk_aversion, self._raw_cov_matrix, risk_free_rate
             )
-            self.pi = market_prior.values.reshape(-1, 1)
+            # the prior is only labelled if the covariance matrix is
+            self.pi = np.asarray(market_prior).reshape(-1, 1)
         elif pi == "equal":
             self.pi = np.ones((self.n_assets, 1)) / self.n_assets
         else:
-- 
2.43.0


From 4cc2a46a998ccc92c6ed81889082446601e66b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:38 +0000
Subject: [PATCH 11/18] fix: bl_weights solves its own system when the
 covariance matrix is singular

---
 pypfopt/black_litterman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index bd3f106..dddc674 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -467,7 +467,7 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
             weight_solution = np.linalg.solve(A, b)
         except np.linalg.LinAlgError as e:
             if "Singular matrix" in str(e):
-                weight_solution = np.linalg.lstsq(self._A, b, rcond=None)[0]
+                weight_solution = np.linalg.lstsq(A, b, rcond=None)[0]
             else:
                 raise e
         raw_weights = weight_solution
-- 
2.43.0


From 6b3c112615cf09fe987e83f52608efca2d8b65be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:38 +0000
Subject: [PATCH 12/18] fix: Black-Litterman performance reports the return of
 weights set by the user

---
 pypfopt/black_litterman.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index dddc674..7d505f6 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -496,6 +496,8 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
         :return: expected return, volatility, Sharpe ratio.
         :rtype: (float, float, float)
         """
+        if self.posterior_rets is None:
+            self.posterior_rets = self.bl_returns()
         if self.posterior_cov is None:
             self.posterior_cov = self.bl_cov()
         return base_optimizer.portfolio_performance(
-- 
2.43.0


From fc5c831222bfab6cf62d9886f50fffa91ee16793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 13/18] fix: greedy allocation with integer prices or before
 any share is bought

Integer prices made the in-place division fail, and while nothing had been
bought the deficits were NaN, so that shares of an asset with zero weight
could be bought.
---
 pypfopt/discrete_allocation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index d67f911..ee6d439 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -210,7 +210,9 @@ class DiscreteAllocation:
             # Calculate the equivalent continuous weights of the shares that
             # have already been bought
             current_weights = np.array(buy_prices) * np.array(shares_bought)
-            current_weights /= current_weights.sum()
+            total_bought = current_weights.sum()
+            if total_bought > 0:
+                current_weights = current_weights / total_bought
             ideal_weights = np.array([i[1] for i in self.weights])
             deficit = ideal_weights - current_weights
 
-- 
2.43.0


From 207dcbd83512aa0b5050e544b7dbbe497ccf639f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 14/18] fix: integer-programming allocation pairs prices with
 weights by ticker

The prices were used in their own order, so any other order than that of the
weights (also the one left by greedy_portfolio) allocated at wrong prices, and
prices of further tickers made the problem fail.
---
 pypfopt/discrete_allocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index ee6d439..9ff17d8 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -308,7 +308,7 @@ class DiscreteAllocation:
             self.allocation = self._remove_zero_positions(self.allocation)
             return self.allocation, long_leftover + short_leftover
 
-        p = self.latest_prices.values
+        p = self.latest_prices[[i[0] for i in self.weights]].values
         n = len(p)
         w = np.fromiter([i[1] for i in self.weights], dtype=float)
 
-- 
2.43.0


From c5a734468a33cd9ddca02e68ce2555b2d38a68ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 15/18] fix: allocation without long positions or with a short
 ratio of zero

Weights that are all short raised IndexError or a solver error, and a short
ratio of zero, which is allowed, raised a ValueError about the portfolio value.
---
 pypfopt/discrete_allocation.py | 64 ++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index 9ff17d8..221381b 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -153,7 +153,11 @@ class DiscreteAllocation:
             # Make them sum to one
             long_total_weight = sum(longs.values())
             short_total_weight = sum(shorts.values())
-            longs = {t: w / long_total_weight for t, w in longs.items()}
+            # (without long weights, or without a short budget, that book is empty)
+            if long_total_weight > 0:
+                longs = {t: w / long_total_weight for t, w in longs.items()}
+            else:
+                longs = {}
             shorts = {t: w / short_total_weight for t, w in shorts.items()}
 
             # Construct long-only discrete allocations for each
@@ -164,19 +168,25 @@ class DiscreteAllocation:
 
             if verbose:
                 print("\nAllocating long sub-portfolio...")
-            da1 = DiscreteAllocation(
-                longs, self.latest_prices[longs.keys()], total_portfolio_value=long_val
-            )
-            long_alloc, long_leftover = da1.greedy_portfolio()
+            long_alloc, long_leftover = {}, long_val
+            if longs:
+                da1 = DiscreteAllocation(
+                    longs,
+                    self.latest_prices[longs.keys()],
+                    total_portfolio_value=long_val,
+                )
+                long_alloc, long_leftover = da1.greedy_portfolio()
 
             if verbose:
                 print("\nAllocating short sub-portfolio...")
-            da2 = DiscreteAllocation(
-                shorts,
-                self.latest_prices[shorts.keys()],
-                total_portfolio_value=short_val,
-            )
-            short_alloc, short_leftover = da2.greedy_portfolio()
+            short_alloc, short_leftover = {}, short_val
+            if short_val > 0:
+                da2 = DiscreteAllocation(
+                    shorts,
+                    self.latest_prices[shorts.keys()],
+                    total_portfolio_value=short_val,
+                )
+                short_alloc, short_leftover = da2.greedy_portfolio()
             short_alloc = {t: -w for t, w in short_alloc.items()}
 
             # Combine and return
@@ -276,7 +286,11 @@ class DiscreteAllocation:
             # Make them sum to one
             long_total_weight = sum(longs.values())
             short_total_weight = sum(shorts.values())
-            longs = {t: w / long_total_weight for t, w in longs.items()}
+            # (without long weights, or without a short budget, that book is empty)
+            if long_total_weight > 0:
+                longs = {t: w / long_total_weight for t, w in longs.items()}
+            else:
+                longs = {}
             shorts = {t: w / short_total_weight for t, w in shorts.items()}
 
             # Construct long-only discrete allocations for each
@@ -287,19 +301,25 @@ class DiscreteAllocation:
 
             if verbose:
                 print("\nAllocating long sub-portfolio:")
-            da1 = DiscreteAllocation(
-                longs, self.latest_prices[longs.keys()], total_portfolio_value=long_val
-            )
-            long_alloc, long_leftover = da1.lp_portfolio(solver=solver)
+            long_alloc, long_leftover = {}, long_val
+            if longs:
+                da1 = DiscreteAllocation(
+                    longs,
+                    self.latest_prices[longs.keys()],
+                    total_portfolio_value=long_val,
+                )
+                long_alloc, long_leftover = da1.lp_portfolio(solver=solver)
 
             if verbose:
                 print("\nAllocating short sub-portfolio:")
-            da2 = DiscreteAllocation(
-                shorts,
-                self.latest_prices[shorts.keys()],
-                total_portfolio_value=short_val,
-            )
-            short_alloc, short_leftover = da2.lp_portfolio(solver=solver)
+            short_alloc, short_leftover = {}, short_val
+            if short_val > 0:
+                da2 = DiscreteAllocation(
+                    shorts,
+                    self.latest_prices[shorts.keys()],
+                    total_portfolio_value=short_val,
+                )
+                short_alloc, short_leftover = da2.lp_portfolio(solver=solver)
             short_alloc = {t: -w for t, w in short_alloc.items()}
 
             # Combine and return
-- 
2.43.0


From ecab81390a9d49c4eeb32d3702fab8cf6c6ad6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:40 +0000
Subject: [PATCH 16/18] fix: capm_return no longer renames the caller's market
 returns

---
 pypfopt/expected_returns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/expected_returns.py b/pypfopt/expected_returns.py
index b9ab02e..a47de83 100644
--- a/pypfopt/expected_returns.py
+++ b/pypfopt/expected_returns.py
@@ -245,7 +245,7 @@ def capm_return(
     if returns_data:
         returns = prices.copy()
         if market_prices is not None:
-            market_returns = market_prices
+            market_returns = market_prices.copy()
     else:
         returns = returns_from_prices(prices, log_returns)
 
-- 
2.43.0


From c5757d56975d6fb0aa2018bad1f851ad8113a872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:40 +0000
Subject: [PATCH 17/18] fix: frontier plots draw no point for a parameter
 without a portfolio

---
 pypfopt/plotting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypfopt/plotting.py b/pypfopt/plotting.py
index 54fcf48..2d8e32d 100644
--- a/pypfopt/plotting.py
+++ b/pypfopt/plotting.py
@@ -255,6 +255,7 @@ def _plot_ef(ef, ef_param, ef_param_range, ax, show_assets, show_tickers, intera
                     param_value
                 )
             )
+            continue
 
         ret, sigma, _ = ef.portfolio_performance()
         mus.append(ret)
-- 
2.43.0


From 799cf3a240bba3f1a29d81447474e3a2c1dd0fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:36 +0000
Subject: [PATCH 18/18] fix: portfolio_performance of EfficientCVaR,
 EfficientCDaR and EfficientSemivariance raises ValueError before weights are
 calculated, as documented

---
 pypfopt/efficient_frontier/efficient_cdar.py         | 3 +++
 pypfopt/efficient_frontier/efficient_cvar.py         | 3 +++
 pypfopt/efficient_frontier/efficient_semivariance.py | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/pypfopt/efficient_frontier/efficient_cdar.py b/pypfopt/efficient_frontier/efficient_cdar.py
index a81e729..d060fe4 100644
--- a/pypfopt/efficient_frontier/efficient_cdar.py
+++ b/pypfopt/efficient_frontier/efficient_cdar.py
@@ -226,6 +226,9 @@ class EfficientCDaR(EfficientFrontier):
         :return: expected return, CDaR.
         :rtype: (float, float)
         """
+        if self.weights is None:
+            raise ValueError("Weights have not been calculated yet")
+
         if self.expected_returns is None:
             mu = None
         else:
diff --git a/pypfopt/efficient_frontier/efficient_cvar.py b/pypfopt/efficient_frontier/efficient_cvar.py
index c755153..4d8a506 100644
--- a/pypfopt/efficient_frontier/efficient_cvar.py
+++ b/pypfopt/efficient_frontier/efficient_cvar.py
@@ -228,6 +228,9 @@ class EfficientCVaR(EfficientFrontier):
         :return: expected return, CVaR.
         :rtype: (float, float)
         """
+        if self.weights is None:
+            raise ValueError("Weights have not been calculated yet")
+
         if self.expected_returns is None:
             mu = None
         else:
diff --git a/pypfopt/efficient_frontier/efficient_semivariance.py b/pypfopt/efficient_frontier/efficient_semivariance.py
index d9d7856..89c8631 100644
--- a/pypfopt/efficient_frontier/efficient_semivariance.py
+++ b/pypfopt/efficient_frontier/efficient_semivariance.py
@@ -264,6 +264,9 @@ class EfficientSemivariance(EfficientFrontier):
         :return: expected return, semideviation, Sortino ratio.
         :rtype: (float, float, float)
         """
+        if self.weights is None:
+            raise ValueError("Weights have not been calculated yet")
+
         if self.expected_returns is None:
             mu = None
         else:
-- 
2.43.0

