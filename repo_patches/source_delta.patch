From f730b478abaf803b75d769b7da9715989581051a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:39 +0000
Subject: [PATCH 01/59] fix: matmul_scalar accepts plain Python scalars as
 documented

---
 pynare/utils/numpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index ecb49fb..a4a99ff 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -50,12 +50,12 @@ def matmul_scalar(
     """
     try:
         x1_ = x1.item()
-    except ValueError:
+    except (AttributeError, ValueError):
         x1_ = x1
 
     try:
         x2_ = x2.item()
-    except ValueError:
+    except (AttributeError, ValueError):
         x2_ = x2
 
     if np.isscalar(x1_) or np.isscalar(x2_):
-- 
2.43.0


From fe620cd3b05561f22ceb06ae029506b19192a946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:41 +0000
Subject: [PATCH 02/59] fix: count every static variable and list each variable
 once in the DR order

---
 pynare/core/variables.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 9bef434..b7d955c 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -576,8 +576,7 @@ class VariableIndexManager(object):
 
         static_idx = np.where(np.isnan(llx[0]) & np.isnan(llx[2]))[0]
 
-        not_forward = np.isnan(llx[1:]).any(axis=0)
-        back_idx = np.where(~np.isnan(llx[0]) & not_forward)[0]
+        back_idx = np.where(~np.isnan(llx[0]) & np.isnan(llx[2]))[0]
 
         mixed_idx = np.where(~np.isnan(llx[0]) & ~np.isnan(llx[2]))[0]
         pure_for_idx = np.where(np.isnan(llx[0]) & ~np.isnan(llx[2]))[0]
@@ -591,7 +590,7 @@ class VariableIndexManager(object):
     @cached_property
     def n_static(self):
         llx = self.llx
-        return np.count_nonzero(llx[1, np.isnan(llx[0]) & np.isnan(llx[2])])
+        return np.count_nonzero(np.isnan(llx[0]) & np.isnan(llx[2]))
 
     @cached_property
     def n_forward(self):
-- 
2.43.0


From 294a4cb8e514030fd59486133405892b5c50c606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:41 +0000
Subject: [PATCH 03/59] fix: partition the QZ decomposition by modulus, also
 when nothing is explosive

---
 pynare/utils/numpy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index a4a99ff..48672e9 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -266,8 +266,10 @@ def partitioned_qz(
         # locally silence RuntimeWarnings about dividing by zero or infinity
         eigs = alph/bet
 
-    # explosive eigenvalues
-    expl = find_first((eigs > 1) | np.isinf(eigs))
+    # explosive eigenvalues, by modulus. without any, everything is in the first block
+    expl = find_first((np.absolute(eigs) > 1) | np.isinf(eigs))
+    if expl == -1:
+        expl = len(eigs)
 
     # unitary matrix first
     Z = np.transpose(Zt)
-- 
2.43.0


From 72712573adcada8d3af38733daf3e125665c6d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:11 +0000
Subject: [PATCH 04/59] fix: solve models with variables that do not appear at
 time t, or without pure backward variables

---
 pynare/core/solve/first_order.py | 11 +++++------
 pynare/core/solve/statespace.py  | 28 +++++++++++-----------------
 pynare/utils/numpy.py            | 27 +++++++++++++++++++++++++++
 3 files changed, 43 insertions(+), 23 deletions(-)

diff --git a/pynare/core/solve/first_order.py b/pynare/core/solve/first_order.py
index 71f159e..23296ac 100644
--- a/pynare/core/solve/first_order.py
+++ b/pynare/core/solve/first_order.py
@@ -176,9 +176,7 @@ def solve_static_endo(
 
     # the indices are the Jacobian column indices corresponding to the
     #    dynamic variables, but we ensure they're in DR-order
-    dr_llx = indexes.dr.llx
-    _dj = dr_llx[1, ~(np.isnan(dr_llx[0, :]) & np.isnan(dr_llx[2, :]))]
-    A0d_cup = A[:ns, _dj[~np.isnan(_dj)].astype(int)]
+    A0d_cup = unp.take_columns(A[:ns], indexes.dr.llx[1, indexes.dr.dynamic])
 
     # merging forward- and backward-looking dynamic response
     gyd = unp.array_shingle(gym, gyp, indexes.n_mixed)
@@ -215,9 +213,10 @@ def solve_exo(
     np.ndarray
         the state response to exogenous variables
     """
-    cont_static = A[:, indexes.dr.static_timed[0]]
-    cont_backward = A[:, indexes.dr.backward_timed[0]]
-    cont_forward = A[:, indexes.dr.pure_forward_timed[0]]
+    cont = indexes.dr.llx[1]
+    cont_static = unp.take_columns(A, cont[indexes.dr.static])
+    cont_backward = unp.take_columns(A, cont[indexes.dr.backward])
+    cont_forward = unp.take_columns(A, cont[indexes.dr.pure_forward])
 
     Ap = A[:, indexes.dr.forward_timed[1]]
     implied_backward = np.dot(Ap, gyp) + cont_backward
diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index 7e484d3..59e6b7d 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -159,14 +159,14 @@ def _compute_structural_state_space(model: Model):
 
     # partition as according to section 4.1 of Villemot (2011)
     nd = indexes.n_dynamic
-    Ap_tilde = A[-nd:, indexes.dr.forward_timed[1]]
-    Am_tilde = A[-nd:, indexes.dr.backward_timed[-1]]
-    A0p_tilde = A[-nd:, indexes.dr.forward_timed[0]]
+    Ad = A[indexes.n_static:]
+    Ap_tilde = Ad[:, indexes.dr.forward_timed[1]]
+    Am_tilde = Ad[:, indexes.dr.backward_timed[-1]]
 
-    # model might not have any backward variables
-    A0m_tilde = A[-nd:, indexes.dr.pure_backward_timed[0]]
-    if A0m_tilde.size == 0:
-        A0m_tilde = np.zeros((nd, 1))
+    # dynamic variables might not appear at time t
+    cont = indexes.dr.llx[1]
+    A0p_tilde = unp.take_columns(Ad, cont[indexes.dr.forward])
+    A0m_tilde = unp.take_columns(Ad, cont[indexes.dr.pure_backward])
 
     # set up the structural state space representation
     nm = indexes.n_mixed
@@ -175,19 +175,13 @@ def _compute_structural_state_space(model: Model):
         nb, nf = indexes.n_backward, indexes.n_forward
 
         # in section 4.1, two definitions of A0m_tilde and Ap_tilde are given - we
-        #   use the first, which means A0m_tilde needs to be augmented with zeros if
-        #   n_endog - (n_forward + n_static) > 0
+        #   use the first, which means A0m_tilde needs to be augmented with zeros
         n_diff = indexes.n_endog - (nf + indexes.n_static)
 
-        if n_diff:
-            zeros = np.zeros((nd, nm), dtype=float)
-            A0m_tilde = np.hstack((A0m_tilde, zeros))
-
-            Im = np.eye(nm, nb, k=n_diff)
-
-        else:
-            Im = np.eye(nm, nb)
+        zeros = np.zeros((nd, nm), dtype=float)
+        A0m_tilde = np.hstack((A0m_tilde, zeros))
 
+        Im = np.eye(nm, nb, k=n_diff)
         Ip = np.eye(nm, nf)
 
         D = np.block([[A0m_tilde, Ap_tilde], [Im, np.zeros((nm, nf))]])
diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index 48672e9..00ce608 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -18,6 +18,33 @@ def find_first(
 
 
 
+def take_columns(
+    arr: np.ndarray,
+    idx: np.ndarray
+):
+    """
+    select columns of an array, given indices that may contain nans. columns whose index
+    is nan are filled with zeros
+
+    Parameters
+    ----------
+    arr : numpy ndarray
+        the two-dimensional array to select columns of
+    idx : numpy ndarray
+        vector of column indices, possibly nan
+
+    Returns
+    -------
+    numpy ndarray
+    """
+    there = ~np.isnan(idx)
+
+    cols = np.zeros((arr.shape[0], len(idx)), dtype=float)
+    cols[:, there] = arr[:, idx[there].astype(int)]
+    return cols
+
+
+
 def hermitian(arr: np.ndarray):
     """
     simple function for computing the hermitian (complex conjugate) of an array
-- 
2.43.0


From ec964ababad06844a24ba0325acdf85570e65f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:11 +0000
Subject: [PATCH 05/59] fix: first-order solution of models without shocks or
 with a single variable

---
 pynare/core/solve/first_order.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pynare/core/solve/first_order.py b/pynare/core/solve/first_order.py
index 23296ac..b09cd01 100644
--- a/pynare/core/solve/first_order.py
+++ b/pynare/core/solve/first_order.py
@@ -89,15 +89,14 @@ def solve_first_order(
     gys = solve_static_endo(A, indexes, gym, gyp)
     gy = np.vstack((gys, gyd))
 
-    if indexes.n_exog > 0:
-        fu = A[:, indexes.exogenous_jacobian]
-    else:
-        fu = J[:, indexes.exogenous_jacobian]
+    fu = A[:, indexes.exogenous_jacobian]
     gu = solve_exo(A, indexes, gyp, fu)
 
-    # remove any 1-dimensional axes
-    gy = gy.squeeze()
-    gu = gu.squeeze()
+    # vectors for a single state or a single exogenous variable
+    if gy.shape[1] == 1:
+        gy = gy[:, 0]
+    if gu.shape[1] == 1:
+        gu = gu[:, 0]
 
     return gy, gu
 
-- 
2.43.0


From bafe9ed04fc56670fe829f35ca9be88069b97e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:53 +0000
Subject: [PATCH 06/59] fix: solve models whose variables are all static

---
 pynare/utils/numpy.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index 00ce608..a14c079 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -287,14 +287,19 @@ def partitioned_qz(
         lower right submatrix of triangular matrix S
     """
 
-    S, T, alph, bet, Q, Zt = scipy.linalg.ordqz(B, A, sort='iuc')
+    if A.size == 0:
+        # nothing to decompose
+        S, T, Zt = np.zeros((3, 0, 0), dtype=float)
+        alph, bet = np.zeros((2, 0), dtype=float)
+    else:
+        S, T, alph, bet, Q, Zt = scipy.linalg.ordqz(B, A, sort='iuc')
 
     with np.errstate(divide='ignore', invalid='ignore'):
         # locally silence RuntimeWarnings about dividing by zero or infinity
         eigs = alph/bet
 
     # explosive eigenvalues, by modulus. without any, everything is in the first block
-    expl = find_first((np.absolute(eigs) > 1) | np.isinf(eigs))
+    expl = find_first((np.absolute(eigs) > 1) | np.isinf(eigs)) if len(eigs) else -1
     if expl == -1:
         expl = len(eigs)
 
-- 
2.43.0


From f121336d9e63a4ee7902cab06aa3b38f43436753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:32 +0000
Subject: [PATCH 07/59] fix: second-order solution of models with one state,
 one shock or no forward-looking variable

---
 pynare/core/solve/second_order.py | 73 ++++++++++++-------------------
 1 file changed, 28 insertions(+), 45 deletions(-)

diff --git a/pynare/core/solve/second_order.py b/pynare/core/solve/second_order.py
index 9ba9172..1d353c2 100644
--- a/pynare/core/solve/second_order.py
+++ b/pynare/core/solve/second_order.py
@@ -4,6 +4,7 @@ second-order approximation of the policy function
 
 from __future__ import annotations
 
+from collections import namedtuple
 from scipy import linalg
 
 import numpy as np
@@ -57,7 +58,12 @@ class SecondOrderSolver(object):
 
     def __init__(self, model: Model, lower_sol: FirstOrderSolution):
         self.model = model
-        self.lower_solution = lower_sol
+
+        # with a single state variable or shock the policy arrays are vectors. the
+        #    kronecker products below need to tell their rows from their columns
+        self.lower_solution = PolicyArrays(
+            *unp.ensure_2darray((lower_sol.gy, lower_sol.gu))
+        )
 
     def _setup_indices(self):
         """
@@ -69,11 +75,7 @@ class SecondOrderSolver(object):
         ns, nt = indexes.n_static, indexes.n_state
 
         # decision-rule indices of state vars
-        self.tloc_arr = np.arange(ns, ns+nt, dtype=int)
-        try:
-            self.tloc = self.tloc_arr.item()
-        except ValueError:
-            self.tloc = self.tloc_arr
+        self.tloc = np.arange(ns, ns+nt, dtype=int)
 
         # re-arrange lead-lag incidence to DR order
         dr_llx = indexes.dr.llx
@@ -115,14 +117,14 @@ class SecondOrderSolver(object):
         # construct the [dfdy' * dgdx + dfdx' | dfdy] array
         A = np.zeros((indexes.n_endog, indexes.n_endog), dtype=float)
         A[:, ~np.isnan(self.dr_cont)] = cont_jac
-        tm1_update = unp.matmul_scalar(fore_jac, gy[~np.isnan(self.dr_fore)])
+        tm1_update = np.matmul(fore_jac, gy[~np.isnan(self.dr_fore)])
         A[:, self.tloc] = A[:, self.tloc] + tm1_update
 
         B = np.identity(nt**2, dtype=float)
 
         # construct the [0 | dfdy'] array
         C = np.zeros((indexes.n_endog, indexes.n_endog), dtype=float)
-        C[:, -len(_nonnan_int(self.dr_fore)):] = fore_jac
+        C[:, ~np.isnan(self.dr_fore)] = fore_jac
 
         gy_state = gy[self.tloc]
         D = np.transpose(np.kron(gy_state, gy_state))
@@ -145,10 +147,10 @@ class SecondOrderSolver(object):
 
         state_eye = np.identity(nt, dtype=float)
         cont_gy = gy[~np.isnan(self.dr_cont)]
-        fore_gy = unp.matmul_scalar(gy[~np.isnan(self.dr_fore)], gy[self.tloc])
+        fore_gy = np.matmul(gy[~np.isnan(self.dr_fore)], gy[self.tloc])
         exo_block = np.zeros((indexes.n_exog, nt), dtype=float)
 
-        E = unp.concatenate_maybe_1d((state_eye, cont_gy, fore_gy, exo_block))
+        E = np.concatenate((state_eye, cont_gy, fore_gy, exo_block))
         return E
 
 
@@ -167,15 +169,11 @@ class SecondOrderSolver(object):
         state_zero = np.zeros((nt, ne), dtype=float)
         cont_gu = gu[~np.isnan(self.dr_cont)]
 
-        try:
-            fore_gy = unp.matmul_scalar(gy[~np.isnan(self.dr_fore)], gu[self.tloc])
-        except ValueError:
-            # one state var, > 1 stoch vars
-            fore_gy = np.outer(gy[~np.isnan(self.dr_fore)], gu[self.tloc])
+        fore_gy = np.matmul(gy[~np.isnan(self.dr_fore)], gu[self.tloc])
 
         exo_eye = np.identity(ne, dtype=float)
 
-        E = unp.concatenate_maybe_1d((state_zero, cont_gu, fore_gy, exo_eye))
+        E = np.concatenate((state_zero, cont_gu, fore_gy, exo_eye))
         return E
 
 
@@ -202,10 +200,16 @@ class SecondOrderSolver(object):
             self.model.jacobian.array, self.model.hessian.array
         )
 
+        # vectors for arrays of a single column
+        ghxx, ghxu, ghuu = [g[:, 0] if g.shape[1] == 1 else g for g in (ghxx, ghxu, ghuu)]
         return ghxx, ghxu, ghuu, del2
 
 
 
+PolicyArrays = namedtuple('PolicyArrays', ('gy', 'gu'))
+
+
+
 def solve_ghxx(
     A: np.ndarray,
     B: np.ndarray,
@@ -256,7 +260,7 @@ def solve_ghxu(
     lower_sol : FirstOrderSolution
         the first-order solution to the model that contains the `gy` and `gu`
         arrays that define that linearized approximation
-    tloc : np.ndarray | int
+    tloc : np.ndarray
         the location (in DR order) of the state variables
     A : np.ndarray
         the (n_endog, n_endog) array `A` in the generalized sylvester equation
@@ -279,24 +283,12 @@ def solve_ghxu(
     -------
     ghxu : np.ndarray
     """
-    # if theres only one state variable, zx will be a vector, and if there is
-    #    only a single shock, zu will be too. for these to conform with one another
-    #    in the kronecker product, ensure 2d
-    zx, zu = unp.ensure_2darray((zx, zu))
-    E = -unp.matrix_kronecker_product(hess, zx, zu).squeeze()
-
-    # `matrix_kronecker_product` throws ValueErrors when scalars are passed or matrix
-    #    dimensions depend on row/column orientation. just cast to 2dims for now
-    gy, gu = lower_sol.gy, lower_sol.gu
-    ghxx_arr, gy_arr, gu_arr = unp.ensure_2darray((ghxx, gy[tloc], gu[tloc]))
-
-    if gu_arr.shape[1] == 1:
-        # row-orient to conform with the following matrix product
-        gu_arr = np.transpose(gu_arr)
+    E = -unp.matrix_kronecker_product(hess, zx, zu)
 
-    cross_prod = unp.matrix_kronecker_product(ghxx_arr, gy_arr, gu_arr).squeeze()
+    gy, gu = lower_sol.gy, lower_sol.gu
+    cross_prod = unp.matrix_kronecker_product(ghxx, gy[tloc], gu[tloc])
 
-    rhs = E - unp.matmul_scalar(C, cross_prod)
+    rhs = E - np.matmul(C, cross_prod)
     return linalg.solve(A, rhs)
 
 
@@ -343,16 +335,7 @@ def solve_ghuu(
     ghxx_tp1 = np.matmul(C, ghxx)
     state_du = lower_sol.gu[tloc]
 
-    # if theres only one state variable, ghxx_tp1 will be a vector (if there is
-    #    additionally only a single shock, state_du will be a scalar). for these
-    #    to conform with one another in the kronecker product, ensure 2d
-    ghxx_tp1, state_du = unp.ensure_2darray((ghxx_tp1, state_du))
-
-    if state_du.shape[1] == 1:
-        # row-orient to conform with the following matrix product
-        state_du = np.transpose(state_du)
-
-    ghxx_tp1_evaluated = unp.matrix_kronecker_product(ghxx_tp1, state_du).squeeze()
+    ghxx_tp1_evaluated = unp.matrix_kronecker_product(ghxx_tp1, state_du)
 
     rhs = E - ghxx_tp1_evaluated
     return linalg.solve(A, rhs)
@@ -413,7 +396,7 @@ def solve_del2(
     B1 = unp.matrix_kronecker_product(hess[:, fore_sq], gu[~fore_nan])
 
     rhs = np.matmul(jac[:, fore_idx], ghuu[~fore_nan]) + B1
-    rhs = -unp.matmul_scalar(rhs, np.transpose(sigma).flatten())
+    rhs = -np.matmul(rhs, np.transpose(sigma).flatten())
 
 
     n_fore = np.count_nonzero(~fore_nan)
@@ -424,7 +407,7 @@ def solve_del2(
     pfore_zero = np.zeros((n_fore, npf), dtype=float)
     gy_fore = gy[~fore_nan]
 
-    d_fore = unp.concatenate_maybe_1d((static_zero, gy_fore, pfore_zero), axis=1)
+    d_fore = np.concatenate((static_zero, gy_fore, pfore_zero), axis=1)
     deriv_fore = endo_eye[~fore_nan] + d_fore
 
     lhs = np.zeros((n_endog, n_endog), dtype=float)
-- 
2.43.0


From d0ae20248d3a6fc060ef117faa8cc2cd1178c46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:35 +0000
Subject: [PATCH 08/59] fix: second-order simulation applies the solution's
 coefficients as stored, for any number of states and shocks

---
 pynare/simul.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pynare/simul.py b/pynare/simul.py
index 1555eed..a989e2c 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -227,27 +227,26 @@ class LinearSimulator(ModelSimulator):
         sol = self.model.solution
         first_sol = sol.lower_solution
         ghxx, ghxu, ghuu, del2 = unp.ensure_2darray(
-            (sol.ghxx/2, sol.ghxu, sol.ghuu/2, sol.del2/2))
-        gy, gu = first_sol.gy, first_sol.gu
+            (sol.ghxx, sol.ghxu, sol.ghuu, sol.del2))
+        gy, gu = unp.ensure_2darray((first_sol.gy, first_sol.gu))
 
         # index management. use array of indices because of kronecker products
         dr_order = self.dr_order
-        lag = [self.lag_state] if isinstance(self.lag_state, int) else self.lag_state
-        dr_state = dr_order[lag]
+        dr_state = dr_order[np.atleast_1d(self.lag_state)]
 
-        const = del2.squeeze() + ys[dr_order]
+        const = del2[:, 0] + ys[dr_order]
         for t in range(1, T):
             yhat = paths[t-1, dr_state] - ys[dr_state]
             ut = shocks[t-1, :]
 
             # first-order terms
-            dy = unp.matmul_scalar(gy, yhat)
-            du = unp.matmul_scalar(gu, ut)
+            dy = np.matmul(gy, yhat)
+            du = np.matmul(gu, ut)
 
             # second-order terms
-            dydy = unp.matrix_kronecker_product(ghxx, yhat)
-            dudu = unp.matrix_kronecker_product(ghuu, ut)
-            dydu = unp.matrix_kronecker_product(ghxu, yhat, ut)
+            dydy = np.matmul(ghxx, np.kron(yhat, yhat))
+            dudu = np.matmul(ghuu, np.kron(ut, ut))
+            dydu = np.matmul(ghxu, np.kron(yhat, ut))
 
             paths[t, dr_order] = const + dy + du + dydy + dudu + dydu
 
-- 
2.43.0


From cbfef791d41df07ab1b544e4b703f2539e868cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:02 +0000
Subject: [PATCH 09/59] fix: look up the locations of several variables at once

---
 pynare/core/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index b7d955c..3711bcd 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -113,7 +113,7 @@ class VarArray(np.ndarray):
                 loc = np.where(name == self.names)[0]
                 if not loc.size:
                     raise KeyError(f"{repr(var)} is not a variable")
-                idx[i] = loc
+                idx[i] = loc.item()
 
             return idx
 
-- 
2.43.0


From 9afeb0e907261801b8da34686461def6c6c882a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:02 +0000
Subject: [PATCH 10/59] fix: second-order means use the solution's coefficients
 as stored

---
 pynare/stats/moments.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pynare/stats/moments.py b/pynare/stats/moments.py
index f498047..781f8a9 100644
--- a/pynare/stats/moments.py
+++ b/pynare/stats/moments.py
@@ -46,17 +46,20 @@ def mean(md: Model):
         dr_sidx = md.indexes.dr.state
         del2, ghxx, ghuu = md.solution.del2, md.solution.ghxx, md.solution.ghuu
 
-        # x_{t+1} = g_{xt+1, x}*x_t + g_{ut+1}*u_{t+1}
-        #               + (1/2) * (del2 + G_{x,x}*x_t^2 + G_{u,u}*u_t^2
-        # yields E[x] = g_{xt+1,x}*E[x] + (1/2)*(del2 + G_{x,x}*Var[x] + G_{u,u}*Var[u]
-        second_order = (del2[dr_sidx] + np.dot(ghxx[dr_sidx], var_state.flatten()) \
-            + np.dot(ghuu[dr_sidx], md.sigma.flatten()))/2
+        # vectors if there is a single state variable or a single shock
+        ghxx, ghuu, gy = unp.ensure_2darray((ghxx, ghuu, md.solution.lower_solution.gy))
+
+        # the solution arrays already contain the factor (1/2) of the expansion, so
+        # x_{t+1} = g_{xt+1, x}*x_t + g_{ut+1}*u_{t+1} + del2 + G_{x,x}*x_t^2 + G_{u,u}*u_t^2
+        # yields E[x] = g_{xt+1,x}*E[x] + del2 + G_{x,x}*Var[x] + G_{u,u}*Var[u]
+        second_order = del2[dr_sidx] + np.dot(ghxx[dr_sidx], var_state.flatten()) \
+            + np.dot(ghuu[dr_sidx], md.sigma.flatten())
         expt_x = linalg.solve(np.eye(*g_xtp1x.shape) - g_xtp1x, second_order)
 
         # calculate mean adjustment for observables & make them declaration order
-        adj_mean_inv = unp.matmul_scalar(md.solution.lower_solution.gy, expt_x) \
-            + ( del2 + unp.matmul_scalar(ghxx, var_state.flatten()) \
-            + unp.matmul_scalar(ghuu, md.sigma.flatten()) ) / 2
+        adj_mean_inv = np.matmul(gy, expt_x) + del2 \
+            + np.matmul(ghxx, var_state.flatten()) \
+            + np.matmul(ghuu, md.sigma.flatten())
         adj_mean = adj_mean_inv[md.indexes.dc_order]
 
         return ss + adj_mean
-- 
2.43.0


From 6647a49a04b05172906a1ef767b06b9e1fefea1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:11 +0000
Subject: [PATCH 11/59] fix: reject unknown shocks in variance decompositions
 of single-shock models

---
 pynare/stats/var.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pynare/stats/var.py b/pynare/stats/var.py
index 6e70982..7b5a0a8 100644
--- a/pynare/stats/var.py
+++ b/pynare/stats/var.py
@@ -41,6 +41,10 @@ def var_decomp(
         # quick check for models with only one stochastic variable
         decomp_shares = np.ones((len(md.endog), 1), dtype=float)
 
+        for sc in ensure_list(stoch) if stoch else []:
+            if sc not in md.stoch:
+                raise ValueError(f"'{sc}' is not a stochastic variable") from None
+
         if endog:
             endog_names = md.endog.names
             endog_idx = []
-- 
2.43.0


From 1a6b39a915fa90548de8ca696455545e533898b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:20 +0000
Subject: [PATCH 12/59] fix: reject leads and lags of more than one period

A second lag was read as a lead, since it indexed the incidence array from
the end. A second lead, or a variable that never appears, raised an unrelated
error or left the variable out.
---
 pynare/core/variables.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 3711bcd..ed11c20 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -539,17 +539,18 @@ class VariableIndexManager(object):
         # prepare the lead-lag incidence array by creating indicators for locations
         #    of endogenous variables at all periods
         llx = np.full((3, len(endog)), fill_value=np.nan)
-        for idx, ll in enumerate(self.lead_lags.values()):
-            lead_lag = np.array(list(ll)) + 1
-            try:
-                llx[lead_lag, idx] = 1
-            except IndexError:
-                if not lead_lag:
-                    problem_endog = endog[idx]
-                    raise EndogIndexError(
-                        f"variable '{str(problem_endog)}' was declared as endog but "
-                        "was not seen at any time period"
-                    ) from None
+        for idx, (name, ll) in enumerate(self.lead_lags.items()):
+            if not ll:
+                raise EndogIndexError(
+                    f"variable '{name}' was declared as endog but "
+                    "was not seen at any time period"
+                )
+            if ll[0] < -1 or ll[-1] > 1:
+                raise EndogIndexError(
+                    f"variable '{name}' appears at the periods {ll}. only one lag and "
+                    "one lead are supported"
+                )
+            llx[np.array(ll) + 1, idx] = 1
 
         # number of endog variables incidences at all periods. then replace indicators
         #   with the jacobian column index
-- 
2.43.0


From 2067c4385edda960023c11493c36f71537bf0fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:27 +0000
Subject: [PATCH 13/59] fix: keep lagged and led variables apart from variables
 named like them

The lag of 'k' was called 'km1' internally, which clashed with a declared
variable 'km1', and a zero offset was read as a lag.
---
 pynare/core/expressions.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index 1d99f42..a62e2f7 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -307,6 +307,21 @@ class SteadyFunc(base._BaseEvaluator):
 
 
 
+def _period_name(
+    name: str,
+    offset: int
+) -> str:
+    """
+    the argument name of the variable `name` in the period `offset`. the separator can
+    be part of a python identifier but not of a model variable, so the lag of `x` is
+    different from every declared variable
+    """
+    if offset == 0:
+        return name
+    return f'{name}\u00b7p1' if offset > 0 else f'{name}\u00b7m1'
+
+
+
 def dynamic_func(
     node: AST,
     endo: tuple,
@@ -346,7 +361,7 @@ def dynamic_func(
     # `llx` has `len(endo)` columns by construction, so we make use of that
     #    to get the `endos` names in the correct order
     endo_suffix = np.array(
-        [[f'{v}{s}' for v in endo] for s in ('m1', '', 'p1')], dtype=object
+        [[_period_name(v, p) for v in endo] for p in (-1, 0, 1)], dtype=object
     )
     dyn_vars = list(endo_suffix[~np.isnan(llx)])
     dyn_vars.extend(exo) # `exo` in declaration order by construction
@@ -384,10 +399,7 @@ class DynamicFunc(base._BaseEvaluator):
         return self.dyn_vals[node.value]
 
     def visit_PeriodVar(self, node):
-        var_name = node.value
-        offset = node.period_offset
-        name_offset = f'{var_name}p1' if offset > 0 else f'{var_name}m1'
-        return self.dyn_vals[name_offset]
+        return self.dyn_vals[_period_name(node.value, node.period_offset)]
 
 
 
@@ -429,9 +441,9 @@ class _DynamicSubsitution(base._ASTSubstitution):
     in the `tree`. Var variables are recorded with no name modifications,
     so variable `x` will be added to `self.not_provided` as `x`. However,
     PeriodVars are altered in accordance with the naming scheme used in
-    dynamic_func:
-        PeriodVar(name='x', period_offset=-1) -> 'xm1'
-        PeriodVar(name='y', period_offset=1)  -> 'ym1'
+    dynamic_func (see `_period_name`):
+        PeriodVar(name='x', period_offset=-1) -> 'x\u00b7m1'
+        PeriodVar(name='y', period_offset=1)  -> 'y\u00b7p1'
     """
 
     def __init__(
@@ -455,9 +467,7 @@ class _DynamicSubsitution(base._ASTSubstitution):
                 self.not_provided.add(var_name)
 
         elif isinstance(attribute, ast.PeriodVar):
-            var_name = attribute.value
-            offset = attribute.period_offset
-            name_offset = f'{var_name}p1' if offset > 0 else f'{var_name}m1'
+            name_offset = _period_name(attribute.value, attribute.period_offset)
             self.not_provided.add(name_offset)
 
 
-- 
2.43.0


From 3aaced4ebf6c2f24c0fa7b980340e7f4aadfad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:08 +0000
Subject: [PATCH 14/59] fix: differentiate expressions with a unary plus

---
 pynare/parsing/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pynare/parsing/base.py b/pynare/parsing/base.py
index 62e3271..a590f65 100644
--- a/pynare/parsing/base.py
+++ b/pynare/parsing/base.py
@@ -205,7 +205,8 @@ class _BaseEvaluator(ABCVisitor):
 
     def visit_UnaryOp(self, node):
         if node.op.type == PLUS:
-            return + self.visit(node.expr)
+            # autograd's boxes have no unary plus
+            return self.visit(node.expr)
         elif node.op.type == MINUS:
             return - self.visit(node.expr)
 
-- 
2.43.0


From 3a54f7b412d0f7eaf16702f8724035a7230c5964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:57 +0000
Subject: [PATCH 15/59] fix: assemble the shock covariance from all declared
 variances, correlations and covariances

---
 pynare/core/generic.py    | 24 ++++++++++++------------
 pynare/core/variables.py  | 17 ++++++++++++++---
 pynare/parsing/factory.py |  8 ++------
 3 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 8685c63..92b106b 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import copy
+import numbers
 import numpy as np
 
 from pynare.core.expressions import (
@@ -398,27 +399,26 @@ class DynamicModel(StructuredModel):
         """
 
         # pre-allocate
-        stoch_names = self.stoch.names
         n_stoch = len(self.stoch)
         sig = np.zeros((n_stoch, n_stoch), dtype=float)
 
         # first initialize variance, in case a correlated variable is given
         #    and needs to be rescaled to covariance
         for i, shk in enumerate(self.stoch):
-            if isinstance(shk.variance, (int, float)):
+            if isinstance(shk.variance, numbers.Real):
                 sig[i, i] = shk.variance
 
         for i, shk in enumerate(self.stoch):
-            if isinstance(shk.corr, (int, float)):
-                j = np.where(stoch_names == shk.other)[0]
-                cov = np.sqrt(shk.variance*sig[j, j]) * shk.corr
-
+            for other, corr in shk.moments('corr').items():
+                j = self.stoch.get_loc(other)
+                cov = np.sqrt(sig[i, i]*sig[j, j]) * corr
                 sig[i, j], sig[j, i] = cov, cov
 
-            # with an `if` here, any correlated variables that are declared as
-            #    covarying ones later in the shock block are overwritten
-            if isinstance(shk.cov, (int, float)):
-                j, cov = np.where(stoch_names == shk.other)[0], shk.cov
+        # any correlated variables that are also declared as covarying ones are
+        #    overwritten
+        for i, shk in enumerate(self.stoch):
+            for other, cov in shk.moments('cov').items():
+                j = self.stoch.get_loc(other)
                 sig[i, j], sig[j, i] = cov, cov
 
         return sig
@@ -464,8 +464,8 @@ class DynamicModel(StructuredModel):
 
             if o is not None: sc_dict['other'] = o
             if v is not None: sc_dict['variance'] = v
-            if r is not None: sc_dict['corr'] = r
-            if c is not None: sc_dict['cov'] = c
+            if r is not None: sc_dict['corr'] = copy.copy(r)
+            if c is not None: sc_dict['cov'] = copy.copy(c)
 
             shocks[name] = sc_dict
 
diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index ed11c20..a3e00b0 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -202,8 +202,8 @@ class StochVar(ExogVar):
         name: str,
         other: str = '',
         variance: Union[int, float] = None,
-        corr: Union[int, float] = None,
-        cov: Union[int, float] = None
+        corr: Union[int, float, dict] = None,
+        cov: Union[int, float, dict] = None
     ):
         super().__init__(name, 'stoch')
         self.other = other
@@ -212,6 +212,15 @@ class StochVar(ExogVar):
         self.corr = corr
         self.cov = cov
 
+    def moments(self, kind: str) -> dict:
+        """
+        the 'corr' or 'cov' moments of the shock, as a dict of `other: value`
+        """
+        value = getattr(self, kind)
+        if value is None:
+            return {}
+        return value if isinstance(value, dict) else {self.other: value}
+
     def __repr__(self):
         name = self.name
         if self.other:
@@ -328,6 +337,8 @@ def _create_stoch_vars(
             `variance` : the variance of the shock `name`
             `corr`     : the correlation of `name` and `other`
             `cov`      : the covariance of `name` and `other`
+        shocks that are related to several others give a dict `other: value` as `corr`
+        or `cov`. the variance is 1 if not provided
 
     Returns
     -------
@@ -342,7 +353,7 @@ def _create_stoch_vars(
         if isinstance(name, StochVar):
             return name
 
-        shock_dict = shocks.get(name, default_dict)
+        shock_dict = {**default_dict, **shocks.get(name, {})}
         return StochVar(name, **shock_dict)
 
     if is_iterable_not_str(names):
diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 4568268..1a2d6a0 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -408,14 +408,10 @@ class DynareModelFactory(base.ABCVisitor):
                 shock['variance'] = moment ** 2
 
             elif shock_type == 'correlated':
-                oname = sdef.other.value
-                shock['other'] = oname
-                shock['corr'] = moment
+                shock.setdefault('corr', {})[sdef.other.value] = moment
 
             elif shock_type == 'covarying':
-                oname = sdef.other.value
-                shock['other'] = oname
-                shock['cov'] = moment
+                shock.setdefault('cov', {})[sdef.other.value] = moment
 
             else:
                 raise NotImplementedError(f"unrecognized shock type: {shock_type}")
-- 
2.43.0


From 2f7373d86acc9dfec2ee32dcdaa6298af1586451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:20 +0000
Subject: [PATCH 16/59] fix: calibrations own their definitions and reject
 edits that cannot be solved

---
 pynare/core/generic.py   |  3 +--
 pynare/core/variables.py | 29 ++++++++++++++++-------------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 92b106b..db9a0e0 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -110,8 +110,7 @@ class ModelSkeleton(object):
         -------
         None
         """
-        for k, v in kwargs.items():
-            self.params[k] = v
+        self.params.update(kwargs)
 
         self.is_altered = True
 
diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index a3e00b0..05382f6 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -794,17 +794,16 @@ class ModelCalibration(MutableMapping):
     """
 
     def __init__(self, defs):
+        # the definitions belong to this calibration alone, and the ones of another
+        #    calibration are kept as they were defined
+        defs = defs.defs if isinstance(defs, ModelCalibration) else defs
+        self._define(dict(defs))
+
+    def _define(self, defs):
+        # definitions that cannot be solved leave the calibration unchanged
+        self.calib = solve_calibration(defs)
         self.defs = defs
 
-        calib = {}
-        for k, v in self.defs.items():
-            if isinstance(v, float):
-                calib[k] = v
-            elif isinstance(v, ast.Num):
-                calib[k] = v.value
-
-        self.calib = solve_calibration(self.defs)
-
     def __getitem__(self, key):
         try:
             return self.calib[key]
@@ -812,12 +811,16 @@ class ModelCalibration(MutableMapping):
             raise KeyError(f"'{key}' is not a parameter") from None
 
     def __setitem__(self, key, value):
-        self.defs[key] = value
-        self.calib = solve_calibration(self.defs) # inefficient
+        self._define({**self.defs, key: value}) # inefficient
 
     def __delitem__(self, key):
-        del self.defs[key]
-        del self.calib[key]
+        if key not in self.defs:
+            raise KeyError(f"'{key}' is not a parameter")
+        self._define({k: v for k, v in self.defs.items() if k != key})
+
+    def update(self, *args, **kwargs):
+        # all at once, since definitions can depend on each other
+        self._define({**self.defs, **dict(*args, **kwargs)})
 
     def __iter__(self):
         return iter(self.calib)
-- 
2.43.0


From 7ff9925323bfb449ef92f55b896da2813dc1f69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:43 +0000
Subject: [PATCH 17/59] fix: a unary sign applies to one factor, not to the
 rest of the product

---
 pynare/parsing/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index b534eac..a5c9edc 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -66,7 +66,7 @@ class BaseParser(object):
         atom : ID
              | NUMBER
              | LPARE expr RPARE
-             | (NIMUS | PLUS) term
+             | (MINUS | PLUS) exponent
         """
         token = self.current_token
 
@@ -86,11 +86,11 @@ class BaseParser(object):
 
         elif token.type in (base.MINUS, base.PLUS):
             self.eat(token.type)
-            # sending 'expr' to term() instead of expr() is what ensures
+            # sending 'expr' to exponent() instead of expr() is what ensures
             #    the proper unary operation functionality
             return ast.UnaryOp(
                 op=token,
-                expr=self.term()
+                expr=self.exponent()
             )
 
         self.error()
@@ -515,7 +515,7 @@ class DynareParser(BaseParser):
             self.eat(token.type)
             node = ast.UnaryOp(
                 op=token,
-                expr=self.mterm()
+                expr=self.mexponent()
             )
             return node
 
-- 
2.43.0


From 08d05ea70f928784189fecafe1acb2d06872f2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:51 +0000
Subject: [PATCH 18/59] fix: adjacent function calls dropped all but the last
 one

---
 pynare/parsing/parser.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index a5c9edc..1f0bd46 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -104,7 +104,7 @@ class BaseParser(object):
         methods, because the atom() method doesn't recognize tokens of type
         FUNCTION. Instead we do the try ... except below
         """
-        while self.current_token.type == base.FUNCTION:
+        if self.current_token.type == base.FUNCTION:
             token = self.current_token
             self.eat(base.FUNCTION)
             self.eat(base.LPARE)
@@ -115,11 +115,9 @@ class BaseParser(object):
             )
 
             self.eat(base.RPARE)
-
-        try:
             return node
-        except UnboundLocalError:
-            return self.atom()
+
+        return self.atom()
 
     def exponent(self) -> AST:
         """
@@ -522,7 +520,7 @@ class DynareParser(BaseParser):
         self.error()
 
     def mcall(self) -> AST:
-        while self.current_token.type == base.FUNCTION:
+        if self.current_token.type == base.FUNCTION:
             token = self.current_token
             self.eat(base.FUNCTION)
             self.eat(base.LPARE)
@@ -531,11 +529,9 @@ class DynareParser(BaseParser):
                 expr=self.mexpr()
             )
             self.eat(base.RPARE)
-
-        try:
             return node
-        except UnboundLocalError:
-            return self.matom()
+
+        return self.matom()
 
     def mexponent(self) -> AST:
         node = self.mcall()
-- 
2.43.0


From 1d1fd52c6d06eb035430c45b04319f1c92372e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:00 +0000
Subject: [PATCH 19/59] fix: trailing input after an expression was silently
 ignored

---
 pynare/core/expressions.py |  7 ++++++-
 pynare/parsing/parser.py   | 10 +++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index a62e2f7..491e0be 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -113,7 +113,12 @@ class ExprParser(DynareParser):
 
 
     def parse(self):
-        return self.model_expression()
+        node = self.model_expression()
+        # equations may be given with or without their closing semicolon
+        if self.current_token.type == base.SEMI:
+            self.eat(base.SEMI)
+        self.eat_end()
+        return node
 
 
 
diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index 1f0bd46..d1eb4a9 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -55,6 +55,11 @@ class BaseParser(object):
         else:
             self.error()
 
+    def eat_end(self):
+        """ error out if there are tokens remaining """
+        if self.current_token.type != base.EOF:
+            self.error()
+
     def peek(self, k=0):
         return self.lexer.see_future_token(k=k)
 
@@ -201,7 +206,10 @@ class BaseParser(object):
         return node
 
     def parse(self) -> AST:
-        return self.comp_expr()
+        node = self.comp_expr()
+        # anything left over isn't part of a well-formed expression
+        self.eat_end()
+        return node
 
 COMPS = (base.LT, base.LTOE, base.GT, base.GTOE, base.EQUALITY)
 
-- 
2.43.0


From 1f64d6aedcba5daaa7ff3ce1758432e087a302c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:07 +0000
Subject: [PATCH 20/59] fix: fractional period offsets were silently truncated

---
 pynare/parsing/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index d1eb4a9..ecfdbf3 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -364,6 +364,9 @@ class DynareParser(BaseParser):
         else:
             self.error()
         periods = self.current_token
+        if periods.type == base.NUMBER and periods.value != int(periods.value):
+            # offsets count whole periods
+            self.error()
         self.eat(base.NUMBER)
         self.eat(base.RPARE)
 
-- 
2.43.0


From f7f47924da8d78f8fd19534f6aa3b399fff57be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:38 +0000
Subject: [PATCH 21/59] fix: comments ended at the first '*' or '/', or never
 at the end of the text

---
 pynare/parsing/lexer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pynare/parsing/lexer.py b/pynare/parsing/lexer.py
index 6c0d7e2..11485b8 100644
--- a/pynare/parsing/lexer.py
+++ b/pynare/parsing/lexer.py
@@ -33,7 +33,7 @@ class BaseLexer(object):
 
         self.line_pos = self.pos = 0
         self.current_line = 1 # I don't know any text editors that 0-index rows
-        self.current_char = self.text[self.pos]
+        self.current_char = self.text[self.pos] if self.text else None
 
 
     # basic lexer functionality
@@ -422,7 +422,7 @@ class DynareLexer(BaseLexer):
 
     def skip_singleline_comment(self):
         """ single line comments are signified by '%' or '//' """
-        while self.current_char != '\n':
+        while self.current_char is not None and self.current_char != '\n':
             self.advance()
         self.skip_whitespace() # just in case
 
@@ -434,7 +434,9 @@ class DynareLexer(BaseLexer):
     def skip_multiline_comment(self):
         # multiline comments begin '/*' and end '*/' 
         self.advance(n=2)
-        while (self.current_char != '*') and (self.peek() != '/'):
+        while not (self.current_char == '*' and self.peek() == '/'):
+            if self.current_char is None:
+                raise SyntaxError(f'unterminated comment at line {self.current_line}')
             self.advance()
 
         # skipping the closing '*/'
-- 
2.43.0


From 45b1b87122a9efafc2299f04f95575fc90817e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:47 +0000
Subject: [PATCH 22/59] fix: reading a string without its closing quote raised
 a TypeError

---
 pynare/parsing/lexer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pynare/parsing/lexer.py b/pynare/parsing/lexer.py
index 11485b8..caba5a6 100644
--- a/pynare/parsing/lexer.py
+++ b/pynare/parsing/lexer.py
@@ -173,7 +173,9 @@ class BaseLexer(object):
         """
         result = ''
         self.advance()
-        while self.current_char is not quote:
+        while self.current_char != quote:
+            if self.current_char is None:
+                raise SyntaxError(f'unterminated string at line {self.current_line}')
             result += self.current_char
             self.advance()
         self.advance()
-- 
2.43.0


From f159637ef6dca1dd86a354d0da27b75c73da131e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 23/59] fix: a comment right after a multi-line comment was
 read as code

---
 pynare/parsing/lexer.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pynare/parsing/lexer.py b/pynare/parsing/lexer.py
index caba5a6..2815c45 100644
--- a/pynare/parsing/lexer.py
+++ b/pynare/parsing/lexer.py
@@ -235,11 +235,12 @@ class BaseLexer(object):
                 else:
                     self.error(self.current_char)
 
-            while self.is_singleline_comment():
-                self.skip_singleline_comment()
-
-            while self.is_multiline_comment():
-                self.skip_multiline_comment()
+            # comments of either kind can follow one another
+            while self.is_singleline_comment() or self.is_multiline_comment():
+                if self.is_singleline_comment():
+                    self.skip_singleline_comment()
+                else:
+                    self.skip_multiline_comment()
 
             if self.valid_begchar(self.current_char):
                 return self._id()
-- 
2.43.0


From c1628779b8d711e41a86520db16d5252ab0a0542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:41 +0000
Subject: [PATCH 24/59] fix: reading a model file never ended when something
 unexpected preceded the model block

---
 pynare/parsing/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index ecfdbf3..b92a119 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -266,7 +266,7 @@ class DynareParser(BaseParser):
 
         declaration_list = ast.CompoundASTList()
         parameter_list = ast.CompoundASTList()
-        while self.current_token.type is not dyn.MODEL:
+        while self.current_token.type != dyn.MODEL:
 
             if self.current_token.type in dynare_variable_types:
                 declared_variables = self.variable_type_declaration()
@@ -276,6 +276,9 @@ class DynareParser(BaseParser):
                 assigned_parameter = self.variable_assignment()
                 parameter_list.append(assigned_parameter)
 
+            else:
+                self.error()
+
         return ast.VariablePreamble(
             declared_variables=declaration_list,
             assigned_parameters=parameter_list
-- 
2.43.0


From 6e34335d7661e5d1b92be882cffd735e8263a974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:51 +0000
Subject: [PATCH 25/59] fix: model files without a shocks block could not be
 read

---
 pynare/parsing/factory.py   | 3 ++-
 pynare/parsing/semantics.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 1a2d6a0..6ac66f1 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -351,7 +351,8 @@ class DynareModelFactory(base.ABCVisitor):
     # 
     def visit_ModelActions(self, node):
         self.visit(node.boundaries)
-        self.visit(node.shocks)
+        if node.shocks is not None:
+            self.visit(node.shocks)
 
 
     def visit_ModelBoundaryValues(self, node):
diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index 1df7b10..7b03a41 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -275,7 +275,8 @@ class DynareSemanticAnalyzer(ABCVisitor):
     #
     def visit_ModelActions(self, node):
         self.visit(node.boundaries)
-        self.visit(node.shocks)
+        if node.shocks is not None:
+            self.visit(node.shocks)
 
 
     def visit_ModelBoundaryValues(self, node):
-- 
2.43.0


From 3a3967ac5b7a8d8b4630bd03c0641ed36244e043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:01 +0000
Subject: [PATCH 26/59] fix: historical values were replaced by the terminal
 ones, or could not be read without them

---
 pynare/parsing/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 6ac66f1..a9ea22e 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -366,7 +366,7 @@ class DynareModelFactory(base.ABCVisitor):
 
         if node.histval:
             hist_values = self.calculate_ModelBoundaryValues(node.histval)
-            self.outline._historical_values = end_values
+            self.outline._historical_values = hist_values
 
 
     def calculate_ModelBoundaryValues(self, boundaries):
-- 
2.43.0


From 19f09ddee2d732099f237d582de3b7d0cbef4845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:36 +0000
Subject: [PATCH 27/59] fix: model files that assign a value to a non-model
 variable twice could not be read

---
 pynare/parsing/semantics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index 7b03a41..fbb81a4 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -199,13 +199,14 @@ class DynareSemanticAnalyzer(ABCVisitor):
 
         if var_symbol is None:
             # assigning non-model parameters, validating the expression
-            var_symbol = VarSymbol(var_name, 'non_model')
+            stype = self.current_scope.lookup('non_model')
+            var_symbol = VarSymbol(var_name, stype)
             self.current_scope.insert(var_symbol)
             self.visit(node.right)
 
         else:
             # we don't want to assign values to non-parameter values
-            if var_symbol.stype.name != 'parameters':
+            if var_symbol.stype.name not in ('parameters', 'non_model'):
                 token = node.left.token
                 raise TypeError(
                     f'row {token.line_number}, column {token.line_pos}. '
-- 
2.43.0


From 0236c84c2b31e54c06fe7f2cc60db7bbca986cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:46 +0000
Subject: [PATCH 28/59] fix: parameters defined by non-model variables could
 not be calibrated

---
 pynare/parsing/factory.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index a9ea22e..7127d43 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -120,6 +120,11 @@ class ScopedMemory(object):
     def insert(self, var_name, value):
         self._symbols[var_name] = value
 
+    @property
+    def symbols(self):
+        """ values assigned in this scope, but not in the ones enclosing it """
+        return dict(self._symbols)
+
     def lookup(self, var_name):
 
         value = self._symbols.get(var_name)
@@ -240,9 +245,12 @@ class DynareModelFactory(base.ABCVisitor):
                 var_name=var_name,
                 value=value
             )
+            # the calibration only knows about parameters, so that the other variables
+            #   have to be replaced with the values they have at this point
+            definition = ast.UnaryOp(base.Token(base.PLUS, '+'), node.right)
             self.outline.set_model_parameter(
                 var_name=var_name,
-                value=node.right
+                value=base.ASTSubstitution(definition, self.file_scope.symbols).expr
             )
 
         else:
-- 
2.43.0


From 84ed618d2cffb94bce131bf8ef0ad96ee2e0dd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:54 +0000
Subject: [PATCH 29/59] fix: boundary values given in terms of other boundary
 values were dropped

---
 pynare/parsing/factory.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 7127d43..bc8136a 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -134,7 +134,7 @@ class ScopedMemory(object):
         if self.enclosing_scope is not None:
             return self.enclosing_scope.lookup(var_name)
 
-        return None
+        raise KeyError(var_name)
 
 
 
@@ -381,14 +381,18 @@ class DynareModelFactory(base.ABCVisitor):
 
         bound_dict = dict()
 
+        # values can be given in terms of those set earlier in the same block
+        bound_scope = ScopedMemory(enclosing_scope=self.file_scope)
+
         # self.visit(boundaries.arguments)
         for assignment in boundaries._list:
             var_name = assignment.left.value
             var_value = base.BaseEvaluator(
                 tree=assignment.right,
-                scope=self.file_scope
+                scope=bound_scope
             )
 
+            bound_scope.insert(var_name, var_value)
             bound_dict[var_name] = var_value
 
         return bound_dict
-- 
2.43.0


From 8855c948b23d1354c467bdd76857c974a5358d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:03 +0000
Subject: [PATCH 30/59] fix: all but the last shocks block of a model file were
 ignored

---
 pynare/parsing/ast.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pynare/parsing/ast.py b/pynare/parsing/ast.py
index f3023bb..13b8bf3 100644
--- a/pynare/parsing/ast.py
+++ b/pynare/parsing/ast.py
@@ -337,7 +337,11 @@ class ModelActions(AST):
         self.boundaries.set_boundary(values, boundary)
 
     def set_shocks(self, shocks):
-        self.shocks = shocks
+        if self.shocks is None:
+            self.shocks = shocks
+        else:
+            # shocks can be spread over more than one block
+            self.shocks.extend(shocks._list)
 
 
 class ModelBoundaryValues(AST):
-- 
2.43.0


From 38b3ce0cdce73a1fffb762160d371493a3f15e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:44 +0000
Subject: [PATCH 31/59] fix: variables with only a terminal or historical value
 started the steady state search at NaN

---
 pynare/core/variables.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 05382f6..e1b4374 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -165,12 +165,9 @@ class EndogVar(ModelVar):
 
         self.lead_lag = lead_lag
 
-        # if all three boundary values are not provided, default to initial
-        #    value of 0
-        if (terminal is None) and (historical is None):
-            self.initial = initial if initial else 0
-        else:
-            self.initial = initial
+        # the steady state is sought from the initial value, with or without the other
+        #    boundary values. it defaults to 0
+        self.initial = 0 if initial is None else initial
 
         self.terminal = terminal
         self.historical = historical
-- 
2.43.0


From 29a03dffae655f5da0419856609c0704a863ede6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:01 +0000
Subject: [PATCH 32/59] fix: solution summaries raised AttributeError as
 np.in1d no longer exists

---
 pynare/io/summary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index 6530636..c6afb4b 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -401,7 +401,7 @@ class FirstOrderSummary(SolutionSummary):
         # reorder gy columns (displayed as rows in string) to declaration order
         #   to align with labels, and match stoch vars which are also in dc order
         dr_idx = idx.dr_order
-        gy = gy[:, np.argsort(dr_idx[np.in1d(dr_idx, idx.state)])]
+        gy = gy[:, np.argsort(dr_idx[np.isin(dr_idx, idx.state)])]
 
         arr = np.transpose(np.hstack((ss, gy, gu)))
 
@@ -532,7 +532,7 @@ class SecondOrderSummary(SolutionSummary):
         #   to align with labels, and match stoch vars which are also in dc order
         idx = self.obj.model.indexes
         dr_idx = idx.dr_order
-        st_idx = np.argsort(dr_idx[np.in1d(dr_idx, idx.state)])
+        st_idx = np.argsort(dr_idx[np.isin(dr_idx, idx.state)])
 
         # reorder the second-order matrices in the same was as gy
         n_st, n_exog = len(st_idx), self.obj.model.indexes.n_exog
-- 
2.43.0


From dba391b976ac8de6dc9811b4d3a44ba7a76f840a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:12 +0000
Subject: [PATCH 33/59] fix: second-order summaries labelled the state-shock
 coefficients wrongly

---
 pynare/io/summary.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index c6afb4b..d937d39 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -537,8 +537,7 @@ class SecondOrderSummary(SolutionSummary):
         # reorder the second-order matrices in the same was as gy
         n_st, n_exog = len(st_idx), self.obj.model.indexes.n_exog
         gyx_idx = n_st*np.repeat(st_idx, n_st) + np.tile(st_idx, n_st)
-        gyu_idx = n_st*np.repeat(np.arange(n_exog), n_st) \
-            + np.tile(np.arange(n_st), n_exog)
+        gyu_idx = n_exog*np.repeat(st_idx, n_exog) + np.tile(np.arange(n_exog), n_st)
 
         gy = gy[:, st_idx]
         gyx = gyx[:, gyx_idx]
-- 
2.43.0


From 576c68ebf5a25bfca0338b4dc9bab3a6815136c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:22 +0000
Subject: [PATCH 34/59] fix: second-order summaries left out rows whose
 coefficients are all negative

---
 pynare/io/summary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index d937d39..b41a4a8 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -480,7 +480,7 @@ class SecondOrderSummary(SolutionSummary):
             thresh = 10**(-(self.sig + self.thresh))
         else:
             thresh = 10**(-self.sig)
-        tloc = ~np.all(arr_dc < thresh, axis=1)
+        tloc = ~np.all(np.absolute(arr_dc) < thresh, axis=1)
 
         # always display steady state and del2 array
         tloc[0] = True
-- 
2.43.0


From 59caf306c1e38ac1616932b996e2e46004147d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:23 +0000
Subject: [PATCH 35/59] fix: first-order summaries failed with a display
 threshold or without shocks

---
 pynare/io/summary.py | 70 ++++++++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 31 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index b41a4a8..6196c1f 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -386,10 +386,11 @@ class FirstOrderSummary(SolutionSummary):
     ):
         super().__init__(sol, sig, pad, thresh, 1)
 
-    def policy_arrays(self):
-
-        # prepare column labels - the endogenous variable names
-        endog = self.obj.model.endog.names
+    @cached_property
+    def _policy_array(self):
+        """
+        the steady state, then one row per state and stoch var, in declaration order
+        """
         idx = self.obj.model.indexes
 
         # steady-state values are already in declaration order
@@ -404,28 +405,49 @@ class FirstOrderSummary(SolutionSummary):
         gy = gy[:, np.argsort(dr_idx[np.isin(dr_idx, idx.state)])]
 
         arr = np.transpose(np.hstack((ss, gy, gu)))
+        return arr[:, idx.dc_order]
 
-        arr_dc = arr[:, self.obj.model.indexes.dc_order]
+    @cached_property
+    def _threshold_locs(self):
+
+        arr = self._policy_array
+        if self.thresh is None:
+            return np.ones(arr.shape[0], dtype=bool)
+
+        tloc = ~np.all(np.absolute(arr) < 10**(-(self.sig + self.thresh)), axis=1)
+
+        # always display steady state
+        tloc[0] = True
+        return tloc
+
+    def policy_arrays(self):
+
+        # column labels are the endogenous variable names
         arr_str = _summarize_array(
-            arr=arr_dc,
-            labels=endog,
+            arr=self._policy_array[self._threshold_locs],
+            labels=self.obj.model.endog.names,
             sig=self.sig,
-            use_labels=True,
-            thresh=self.thresh
+            use_labels=True
         )
 
-        # with widths matched, we split the arrays
-        n_gy, n_gu = gy.shape[1], gu.shape[1]
-        gy_str, gu_str = arr_str[:n_gy+2], arr_str[-n_gu:]
-        return gy_str, gu_str
+        # with widths matched, we split the arrays after the steady state and state vars
+        n_state = len(self.obj.model.state_vars)
+        n_gy = np.count_nonzero(self._threshold_locs[:n_state+1])
+        return arr_str[:n_gy+1], arr_str[n_gy+1:]
 
     def row_labels(self):
 
         state = [f"{st}(-1)" for st in self.obj.model.state_vars.names]
-        stoch = self.obj.model.stoch.names
+        stoch = list(self.obj.model.stoch.names)
+
+        # only the rows that meet the threshold are labelled
+        n_state = len(state)
+        shown = self._threshold_locs
+        first = [lab for lab, s in zip(['steady'] + state, shown) if s]
+        second = [lab for lab, s in zip(stoch, shown[n_state+1:]) if s]
 
         # join variable names and find maximum length
-        labels = np.concatenate((['', 'steady'], state, [''], stoch))
+        labels = [''] + first + [''] + second
         lpad = max(map(len, labels)) + 1
 
         return [lab.ljust(lpad) for lab in labels]
@@ -443,7 +465,7 @@ class FirstOrderSummary(SolutionSummary):
         plus_sign = ' '*(n_chars // 2) + '+' + ' '*(n_chars // 2 - 1)
         fillers = [plus_sign.rjust(n_chars)]
 
-        policy = gyn + fillers + gun
+        policy = gyn + fillers + gun if gun else gyn
         for lab, pol in zip(labels, policy):
             row = ''.join((lab, pol))
             feat.append(row)
@@ -630,26 +652,12 @@ def _summarize_array(
     arr: np.ndarray,
     labels: Iterable[str],
     sig: int,
-    use_labels: bool = True,
-    thresh: float = None
+    use_labels: bool = True
 ):
     """
 
     """
 
-    # optionally select a subset of displayed array
-    if thresh is not None:
-        thresh_ = 10 ** (-(sig + thresh))
-        pidx = ~np.all(arr < thresh_, axis=1)
-    else:
-        pidx = np.ones(arr.shape[1], dtype=bool)
-
-    # ensure that `labels` is an array so indexing with list works right
-    labels = np.array(labels)
-
-    # only select rows that meet threshold
-    arr, labels = arr[:, pidx], labels[pidx]
-
     # number of points to right and left of decimal. `+3` factors in minus signs
     with np.errstate(divide='ignore', invalid='ignore'):
         # locally silence RuntimeWarnings about dividing by zero or infinity
-- 
2.43.0


From 7e3c9bad7326302ce2652cac86a66b0726b4f37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:57 +0000
Subject: [PATCH 36/59] fix: one-period autocorrelations were shown as
 autocovariances at lag zero

---
 README.md            | 4 ++--
 pynare/io/summary.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/README.md b/README.md
index e90ba0d..d31508a 100644
--- a/README.md
+++ b/README.md
@@ -152,8 +152,8 @@ correlation:
     x      -0.8384   0.9950   0.7896  -0.2569   0.0497   0.1161   1.0000   0.2569
     rn      0.2899   0.2589  -0.3902  -1.0000   0.0000   0.0000   0.2569   1.0000
 
-autocovariance of endogenous variables:
-             p = 0    p = 1    p = 2    p = 3    p = 4
+autocorrelation of endogenous variables:
+             p = 1    p = 2    p = 3    p = 4    p = 5
     r       0.6056   0.3740   0.2363   0.1533   0.1024
     infl    0.5686   0.3233   0.1838   0.1045   0.0594
     y       0.6286   0.4054   0.2689   0.1836   0.1290
diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index 6196c1f..8b2693d 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -308,7 +308,7 @@ class ModelStatisticsSummary(Summary):
         arr = np.transpose(np.array([np.diagonal(arr) for arr in acr_3d]))
 
         # column labels to display
-        headings = [f"p = {i}" for i in range(self.autocorr)]
+        headings = [f"p = {i}" for i in range(1, self.autocorr+1)]
         arr_str = _summarize_array(
             arr=arr,
             labels=headings,
@@ -322,7 +322,7 @@ class ModelStatisticsSummary(Summary):
         labels = [en.ljust(lpad) for en in endog]
 
         # add heading and pad all rows
-        acr_str = ['autocovariance of endogenous variables:']
+        acr_str = ['autocorrelation of endogenous variables:']
         acr_str = acr_str + [''.join((l, a)) for l, a in zip(labels, arr_str)]
         delim = f"\n{self.pad}"
         return delim.join(acr_str)
-- 
2.43.0


From c2176ae04b813f0070a43589253b219864af6b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:07 +0000
Subject: [PATCH 37/59] fix: summaries raised for models without shocks or
 parameters, or with only zeros to show

---
 pynare/core/variables.py | 10 ++++------
 pynare/io/summary.py     | 27 ++++++++-------------------
 pynare/utils/numpy.py    | 22 ++++++++++++++++++++++
 3 files changed, 34 insertions(+), 25 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index e1b4374..d5a64d2 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -10,6 +10,7 @@ from pynare.errors import (
 )
 
 from pynare.utils.dtypes import is_iterable_not_str
+import pynare.utils.numpy as unp
 
 from pynare.parsing import parse_string
 import pynare.parsing.base as base
@@ -829,14 +830,11 @@ class ModelCalibration(MutableMapping):
         return f"ModelCalibration({len(self)} params)"
 
     def __str__(self):
-        width = max(map(len, self.calib)) + 1
+        width = max(map(len, self.calib), default=0) + 1
         sig, pad = 6, 4*' '
 
-        # number of points to left of decimal. '+3' factors in minus signs
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            values = list(self.calib.values())
-            l = int(np.fix(np.nanmax(np.log10(np.absolute(values)))) + 3)
+        # number of points to left of decimal
+        l = unp.integer_width(list(self.calib.values()))
 
         heading = 'ModelCalibration'
         string = [heading]
diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index 8b2693d..5f22bea 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -128,11 +128,7 @@ class ModelSummary(Summary):
         r, c, m = np.real(eigs), np.imag(eigs), np.absolute(eigs)
 
         # record number of points to left and right of decimal
-        arr = np.absolute(np.concatenate((r, c, m)))
-        good = (arr > 0) & np.isfinite(arr) & ~np.isnan(arr)
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            l = int(np.floor(np.max(np.log10(arr[good]))) + 3)
+        l = unp.integer_width(np.concatenate((r, c, m)))
         d = self.sig
 
         # float fmt depends on significant digit and magnitude of largest float
@@ -155,12 +151,10 @@ class ModelSummary(Summary):
         print the covariance matrix of shocks
         """
         stoch = self.obj.stoch.names
-        lpad = max(map(len, stoch)) + 1
+        lpad = max(map(len, stoch), default=0) + 1
 
         # record number of points to left and right of decimal
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            l = int(np.floor(np.nanmax(np.log10(np.absolute(self.obj.sigma)))) + 3)
+        l = unp.integer_width(self.obj.sigma)
         d = self.sig
 
         # float fmt depends on significant digit and magnitude of largest float
@@ -189,14 +183,11 @@ class ModelSummary(Summary):
             param_strs = ['partial model calibration:']
 
         # format width and number of digits
-        width = max(map(len, display)) + 1
+        width = max(map(len, display), default=0) + 1
         sig, pad = self.sig, self.pad
 
-        # number of points to left of decimal. '+3' factors in minus signs
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            values = list(display.values())
-            l = int(np.fix(np.nanmax(np.log10(np.absolute(values)))) + 3)
+        # number of points to left of decimal
+        l = unp.integer_width(list(display.values()))
 
         for k, v in display.items():
             row = '= '.join([pad+k.ljust(width), f"{v:{l+sig}.{sig}f}"])
@@ -658,10 +649,8 @@ def _summarize_array(
 
     """
 
-    # number of points to right and left of decimal. `+3` factors in minus signs
-    with np.errstate(divide='ignore', invalid='ignore'):
-        # locally silence RuntimeWarnings about dividing by zero or infinity
-        l = int(np.fix(np.nanmax(np.log10(np.absolute(arr)))) + 3)
+    # number of points to left of decimal
+    l = unp.integer_width(arr)
 
     # horizontal spacing determined by width of label variable name or float repr
     w = max([l+sig] + [len(lab) for lab in labels]) + 1
diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index a14c079..dd75fbb 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -91,6 +91,28 @@ def matmul_scalar(
         return np.matmul(x1_, x2_, out=out, **kwargs)
 
 
+def integer_width(values: Iterable[float]):
+    """
+    number of characters needed to the left of the decimal point to display values, with
+    two extra for minus signs. zeros, and values that aren't finite, don't count
+
+    Parameters
+    ----------
+    values : Iterable[float]
+        the values to be displayed
+
+    Returns
+    -------
+    int
+    """
+    with np.errstate(divide='ignore', invalid='ignore'):
+        # locally silence RuntimeWarnings about dividing by zero or infinity
+        magnitude = np.log10(np.absolute(values))
+
+    finite = magnitude[np.isfinite(magnitude)]
+    return int(np.fix(np.max(finite, initial=0))) + 3
+
+
 def ensure_2darray(
     arrs: Union[np.ndarray, Iterable[np.ndarray]],
     orient='column'
-- 
2.43.0


From f48562d873918dd8fc3b583a175fe898bf5e108b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:09 +0000
Subject: [PATCH 38/59] fix: dropping every simulated period is an error

---
 pynare/simul.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pynare/simul.py b/pynare/simul.py
index a989e2c..44b93c7 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -378,10 +378,10 @@ def _drop_simulated_paths(
         raise ValueError(f"if provided, `drop` must be greater than zero: {drop}")
 
     periods = paths.shape[0]
-    if drop > periods:
+    if drop >= periods:
         raise ValueError(
-            "the number of dropped periods exceeds the number of simulated "
-            f"periods: {drop} > {periods}"
+            "the number of dropped periods leaves none of the simulated "
+            f"periods: {drop} >= {periods}"
         )
 
     # drop requested number of periods
-- 
2.43.0


From 6e50aa1bbbde53fdcd755ac99adda6e407143816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:17 +0000
Subject: [PATCH 39/59] fix: as many autocorrelation lags as periods is an
 error

---
 pynare/simul.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/simul.py b/pynare/simul.py
index 44b93c7..925c4a2 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -105,10 +105,10 @@ class ModelSimulation(object):
         periods = paths.shape[0]
 
         # check there are enough periods to compute p-th autocorrelation
-        if p > periods:
+        if p >= periods:
             raise ValueError(
                 "too many autocorrelation lags given this many periods: "
-                f"{p} > {periods}"
+                f"{p} >= {periods}"
             )
 
         # compute empirical moments of simulated data
-- 
2.43.0


From 95efd8c84db6f12782dd7d03f7d93bfdef7e97ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:04 +0000
Subject: [PATCH 40/59] fix: piecewise solutions of models with one state
 variable raised ValueError

---
 pynare/core/solve/binding.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index 2ebd71c..c3fcf5b 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -9,6 +9,7 @@ from scipy import linalg
 import numpy as np
 import warnings
 
+import pynare.utils.numpy as unp
 from pynare.parsing import parse_string, evaluate
 from pynare.regimes import RegimeSwitchingModel
 
@@ -289,7 +290,8 @@ def solve_occbin_one_constraint(
     idx = ref.indexes
 
     gy_dc = np.zeros((idx.n_endog, idx.n_endog), dtype=float)
-    gy_dc[:, idx.state] = ref.first_order_solution.arrays.gy[idx.dc_order]
+    gy = unp.ensure_2darray(ref.first_order_solution.arrays.gy)
+    gy_dc[:, idx.state] = gy[idx.dc_order]
     gu_dc = ref.first_order_solution.arrays.gu[idx.dc_order]
 
     # partition the jacobian matrix of each regime
@@ -446,7 +448,8 @@ def solve_occbin_two_constraints(
     ridx = ref.indexes
 
     gy_dc = np.zeros((ridx.n_endog, ridx.n_endog), dtype=float)
-    gy_dc[:, ridx.state] = ref.first_order_solution.arrays.gy[ridx.dc_order]
+    gy = unp.ensure_2darray(ref.first_order_solution.arrays.gy)
+    gy_dc[:, ridx.state] = gy[ridx.dc_order]
     gu_dc = ref.first_order_solution.arrays.gu[ridx.dc_order]
 
     # partition the jacobian matrix of each regime
-- 
2.43.0


From e5d60ac306dfc244fc0375a8fa8c1711be26b7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:10 +0000
Subject: [PATCH 41/59] fix: piecewise solutions did not warn when the
 constraint binds in the last expected period

---
 pynare/core/solve/binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index c3fcf5b..77b3066 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -876,7 +876,7 @@ def _locate_regime_changes(vec: np.ndarray):
     regime_starts = np.array([0], dtype=int)
 
     n_switches = 0
-    for i in range(1, len(vec)-1):
+    for i in range(1, len(vec)):
 
         if vec[i] != latest_regime[n_switches]:
             n_switches += 1
-- 
2.43.0


From a50a3bf98c084b875636ee6d0408c48e5da0df39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:59 +0000
Subject: [PATCH 42/59] fix: linearize alternative regimes around the steady
 state of the reference regime

---
 pynare/core/solve/binding.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index 77b3066..5e55b3d 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -296,7 +296,7 @@ def solve_occbin_one_constraint(
 
     # partition the jacobian matrix of each regime
     C, B, A, E = _occbin_partitioned_jacobian(ref)
-    Cstar, Bstar, Astar, Estar = _occbin_partitioned_jacobian(alt)
+    Cstar, Bstar, Astar, Estar = _occbin_partitioned_jacobian(alt, ref.ss.values)
 
     # correction for alt regime due to linearizing around the reference one
     Dstar = alt.dynamic_repr(_translate_ss(ref.ss.values, alt))
@@ -454,9 +454,9 @@ def solve_occbin_two_constraints(
 
     # partition the jacobian matrix of each regime
     C, B, A, E = _occbin_partitioned_jacobian(ref)
-    C_alt0, B_alt0, A_alt0, E_alt0 = _occbin_partitioned_jacobian(alt0)
-    C_alt1, B_alt1, A_alt1, E_alt1 = _occbin_partitioned_jacobian(alt1)
-    C_dbl, B_dbl, A_dbl, E_dbl = _occbin_partitioned_jacobian(dbl)
+    C_alt0, B_alt0, A_alt0, E_alt0 = _occbin_partitioned_jacobian(alt0, ref.ss.values)
+    C_alt1, B_alt1, A_alt1, E_alt1 = _occbin_partitioned_jacobian(alt1, ref.ss.values)
+    C_dbl, B_dbl, A_dbl, E_dbl = _occbin_partitioned_jacobian(dbl, ref.ss.values)
 
     # correction for alt regimes due to linearizing around the reference one
     D_alt0 = alt0.dynamic_repr(_translate_ss(ref.ss.values, alt0))
@@ -830,12 +830,18 @@ def _process_occbin_parameters(
     return exog_idx, shocks, init, periods
 
 
-def _occbin_partitioned_jacobian(model: Model):
+def _occbin_partitioned_jacobian(model: Model, ref_ss: np.ndarray = None):
     """
     the occbin algorithm partitions the jacobian matrix column-wise based on what time
-    period the endogenous variable corresponding to that column appears in
+    period the endogenous variable corresponding to that column appears in. alternative
+    regimes are linearized around the steady state of the reference one, `ref_ss`
     """
-    J, idx = model.jacobian.array, model.indexes
+    idx = model.indexes
+    if ref_ss is None:
+        J = model.jacobian.array
+    else:
+        point = np.concatenate((_translate_ss(ref_ss, model), np.zeros(len(model.stoch))))
+        J = np.array([func(point) for func in model.jacobian.linearized_funcs])
 
     # partition the jacobian based on whether the column is a derivative with respect
     #   to time t-1, t, or t+1 variables
-- 
2.43.0


From d88268affdcc8443a87d93c6b2122b0095deddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:29 +0000
Subject: [PATCH 43/59] fix: piecewise solutions could not be given an initial
 point through Model.solve

---
 pynare/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/model.py b/pynare/core/model.py
index 22812fb..21f5780 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -178,7 +178,7 @@ class Model(DynamicModel):
 
             # occasionally-bound solutions are always conditional on shock paths
             exog, shocks = kwargs.pop('exog', None), kwargs.pop('shocks', 100)
-            init = kwargs.get('init', None)
+            init = kwargs.pop('init', None)
 
             solution = OccBinSolution(
                 self,
-- 
2.43.0


From b5a6c9ec7879115d020b8b7eeb73f4a7a52f65f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:36 +0000
Subject: [PATCH 44/59] fix: copies of models lost the locally-defined
 parameters

---
 pynare/core/generic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index db9a0e0..d12f02c 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -481,6 +481,11 @@ class DynamicModel(StructuredModel):
 
             shocks[name] = dt_dict
 
+        # only some models have locally-defined parameters
+        local = {}
+        if hasattr(self, 'local_params'):
+            local['local_params'] = copy.deepcopy(self.local_params)
+
         class_ = self.__class__
         return class_(
             endog=endog,
@@ -493,5 +498,6 @@ class DynamicModel(StructuredModel):
             terminal=term,
             historical=hist,
             language=self.language,
-            name=self.name
+            name=self.name,
+            **local
         )
-- 
2.43.0


From c4681a132b3262affe3ed032413a04568902f300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:46 +0000
Subject: [PATCH 45/59] fix: models built from the expressions of another one
 shared its list of equations

---
 pynare/core/expressions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index 491e0be..ee183c3 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -32,8 +32,9 @@ class ModelExprs(MutableSequence):
     def __init__(self, exprs: Iterable[AST, str] = []):
         super().__init__()
         if isinstance(exprs, ModelExprs):
-            self.exprs = exprs.exprs
-            self.exprs_str = exprs.exprs_str
+            # each list can be changed without the other
+            self.exprs = list(exprs.exprs)
+            self.exprs_str = list(exprs.exprs_str)
 
         else:
             self.exprs = [self.parse(ep) for ep in exprs]
-- 
2.43.0


From 030acd688ae6cb2a1650c053d382f7557d011680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:53 +0000
Subject: [PATCH 46/59] fix: regime-switching models miscounted their regimes
 and hid errors behind others

---
 pynare/core/solve/binding.py | 4 ++--
 pynare/regimes.py            | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index 5e55b3d..5f3f1d4 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -167,7 +167,7 @@ class OccBinSolution(BindingSolution):
         # occbin solutions are conditional on the shocks to the model & the starting
         #   location of the endog vars, so we receive them upon initialization
         _, shocks, init, _ = _process_occbin_parameters(
-            ref=self.model[0], # assume first model is reference regime
+            ref=model, # the baseline model is the reference regime
             exog=exog,
             shocks=shocks,
             init=init,
@@ -271,7 +271,7 @@ def solve_occbin_one_constraint(
     """
 
     if len(constraint) != 1:
-        raise ValueError(f"n constraints = {len(constraints)}")
+        raise ValueError(f"n constraints = {len(constraint)}")
 
     # throws an error if endog, stoch, or params are misaligned between models
     _ensure_variables_match(ref, alt)
diff --git a/pynare/regimes.py b/pynare/regimes.py
index de4466c..38bac62 100644
--- a/pynare/regimes.py
+++ b/pynare/regimes.py
@@ -65,7 +65,7 @@ class RegimeSwitchingModel(object):
         return self.models[key]
 
     def __len__(self):
-        return len(self.exprs) + 1
+        return len(self.models)
 
     def __repr__(self):
         return f"RegimeSwitchingModel(n={len(self)})"
-- 
2.43.0


From f5ca843f9159f0d7f770c513e26f88aeb0a434e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:01 +0000
Subject: [PATCH 47/59] fix: adding variables to a model lost the names of all
 its variables

---
 pynare/core/generic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index d12f02c..f5329b0 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -92,7 +92,7 @@ class ModelSkeleton(object):
         None
         """
         _endog = _create_endog_vars(endog, **kwargs)
-        self.endog = np.concatenate((self.endog, _endog))
+        self.endog = VarArray([*self.endog, *_endog])
 
         self.is_altered = True
 
@@ -282,7 +282,7 @@ class DynamicModel(StructuredModel):
         None
         """
         _stoch = _create_stoch_vars(stoch, **kwargs)
-        self.stoch = np.concatenate((self.stoch, _stoch))
+        self.stoch = VarArray([*self.stoch, *_stoch])
 
         self.is_altered = True
 
@@ -303,7 +303,7 @@ class DynamicModel(StructuredModel):
         None
         """
         _determ = _create_determ_vars(determ, **kwargs)
-        self.determ = np.concatenate((self.determ, _determ))
+        self.determ = VarArray([*self.determ, *_determ])
 
         self.is_altered = True
 
-- 
2.43.0


From 663dd7f036dab88e4bb017fd9cbc4cb0016e2ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:21 +0000
Subject: [PATCH 48/59] fix: the attributes of added exogenous variables were
 rejected

---
 pynare/core/generic.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index f5329b0..e403524 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -281,7 +281,12 @@ class DynamicModel(StructuredModel):
         -------
         None
         """
-        _stoch = _create_stoch_vars(stoch, **kwargs)
+        # the attributes hold for every variable, unless given by name as `shocks`
+        names = stoch if is_iterable_not_str(stoch) else [stoch]
+        default = {name: kwargs for name in names} if kwargs else {}
+        shocks = kwargs.pop('shocks', default)
+
+        _stoch = _create_stoch_vars(names, shocks=shocks)
         self.stoch = VarArray([*self.stoch, *_stoch])
 
         self.is_altered = True
@@ -302,7 +307,12 @@ class DynamicModel(StructuredModel):
         -------
         None
         """
-        _determ = _create_determ_vars(determ, **kwargs)
+        # the attributes hold for every variable, unless given by name as `shocks`
+        names = determ if is_iterable_not_str(determ) else [determ]
+        default = {name: kwargs for name in names} if kwargs else {}
+        shocks = kwargs.pop('shocks', default)
+
+        _determ = _create_determ_vars(names, shocks=shocks)
         self.determ = VarArray([*self.determ, *_determ])
 
         self.is_altered = True
-- 
2.43.0


From f5e204c5e48c23f488d62c51b9520cb879c81ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:39 +0000
Subject: [PATCH 49/59] fix: changed models kept the solution they had before

---
 pynare/core/generic.py |  4 +++-
 pynare/core/model.py   | 16 ++++++++++++++++
 pynare/simul.py        |  5 +----
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index e403524..ca9b319 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -364,8 +364,10 @@ class DynamicModel(StructuredModel):
     @property
     def sigma(self):
         """returns the covariance matrix of the stochastic shocks"""
-        if self.is_altered or not hasattr(self, '_sigma'):
+        if self.is_altered:
             self.update()
+        if not hasattr(self, '_sigma'):
+            self._sigma = self._define_sigma()
         return self._sigma
 
     @property
diff --git a/pynare/core/model.py b/pynare/core/model.py
index 21f5780..e53f724 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -286,6 +286,13 @@ class Model(DynamicModel):
         return ModelSummary(self, **kwargs)
 
 
+    def update(self, *args, **kwargs):
+        # the solution was the one of the model before it changed
+        self.__dict__.pop('_solution', None)
+
+        super().update(*args, **kwargs)
+
+
     @property
     def model_scope(self):
         return {**self.params, **self.local_params}
@@ -306,6 +313,9 @@ class Model(DynamicModel):
         explicitly been called, then the default parameter values are used to
         derive the solution
         """
+        if self.is_altered:
+            self.update()
+
         try:
             return self._solution
         except AttributeError:
@@ -318,6 +328,9 @@ class Model(DynamicModel):
         """
         returns the solution order. if the model hasn't been solved yet, return None
         """
+        if self.is_altered:
+            self.update()
+
         try:
             return self._solution.order
         except AttributeError:
@@ -331,6 +344,9 @@ class Model(DynamicModel):
         solved at order 1, return. if the model is already solved at order 2, return
         the reference to `lower_solution`. if not solve, solve at default order
         """
+        if self.is_altered:
+            self.update()
+
         try:
             sol = self._solution
         except AttributeError:
diff --git a/pynare/simul.py b/pynare/simul.py
index 925c4a2..acec6d8 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -313,10 +313,7 @@ def simulate(
         solution = model.solve(order=order)
     else:
         # if no `order`, use existing solution if there is one. otherwise, default
-        try:
-            solution = model._solution
-        except AttributeError:
-            solution = model.solve()
+        solution = model.solution
 
     if isinstance(solution, LinearSolution):
         simulator = LinearSimulator(model)
-- 
2.43.0


From 6459b00d39528e3a326ed37569a1bc7a470acbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:07 +0000
Subject: [PATCH 50/59] fix: copies of models shared the paths of deterministic
 variables

---
 pynare/core/generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index ca9b319..667fe2d 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -488,8 +488,8 @@ class DynamicModel(StructuredModel):
             determ.append(name)
             dt_dict = {}
 
-            if p is not None: dt_dict['periods'] = p
-            if v is not None: dt_dict['values'] = v
+            if p is not None: dt_dict['periods'] = copy.copy(p)
+            if v is not None: dt_dict['values'] = copy.copy(v)
 
             shocks[name] = dt_dict
 
-- 
2.43.0


From 0e9421e997055bbf5bfda421f8aa17d1347b3389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:36 +0000
Subject: [PATCH 51/59] fix: single series could not be plotted, and columns of
 axes left out series

---
 pynare/plotting/base.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pynare/plotting/base.py b/pynare/plotting/base.py
index 5666cc9..e893856 100644
--- a/pynare/plotting/base.py
+++ b/pynare/plotting/base.py
@@ -50,15 +50,16 @@ class PynarePlot(object):
 
     def _plot_column(self, **kwargs):
 
-        nsubs = self.axes.size
+        # a single subplot is not in an array
+        axes = np.atleast_1d(self.axes)
+        nsubs = axes.size
 
         nplots = min(nsubs, self._nseries)
         for k in range(nplots):
-            ts = self.data[:, k]
-            label = self.labels[k]
+            sub = self.data[:, k::nsubs]
+            labels = self.labels[k::nsubs]
 
-            ax = self.axes[k]
-            self._plot(ax, ts, label, **kwargs)
+            self._plot(axes[k], sub, labels, **kwargs)
 
 
     def arrange_plot(
@@ -114,7 +115,7 @@ class PynarePlot(object):
         self.figure, self.axes = _generate_subplots(kwargs)
 
         if subplots:
-            if len(self.axes.shape) == 1:
+            if np.ndim(self.axes) < 2:
                 self._plot_column(**kwargs)
             else:
                 self._plot_grid(**kwargs)
-- 
2.43.0


From 4deac1df424b2d29fbe70536ec87bc8a3911bf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:45 +0000
Subject: [PATCH 52/59] fix: the documented layout 'row' of plots was rejected

---
 pynare/plotting/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pynare/plotting/base.py b/pynare/plotting/base.py
index e893856..5c2ca03 100644
--- a/pynare/plotting/base.py
+++ b/pynare/plotting/base.py
@@ -94,6 +94,9 @@ class PynarePlot(object):
                     elif layout == 'column':
                         nrows, ncols = self._nseries, 1
 
+                    elif layout == 'row':
+                        nrows, ncols = 1, self._nseries
+
                     else:
                         raise ValueError(f"unrecognized value of layout: {layout}")
 
-- 
2.43.0


From ae48dfc5b9d9befde4378c8261e3fd2dbc4de5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:26 +0000
Subject: [PATCH 53/59] fix: simulating a model discarded its solution and used
 the default order

---
 pynare/simul.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pynare/simul.py b/pynare/simul.py
index acec6d8..c409260 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -153,7 +153,10 @@ class ModelSimulator(object):
 
     def __init__(self, model):
         self.model = model
-        self.model.update()
+
+        # updating an unchanged model would discard its solution
+        if self.model.is_altered:
+            self.model.update()
 
 
 
-- 
2.43.0


From 3e2a5a6b7cbeddc2ad73fd8521a84d0fc640e6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:27 +0000
Subject: [PATCH 54/59] fix: the Kalman likelihood was not returned and never
 updated the state variance

---
 pynare/stats/filters.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/pynare/stats/filters.py b/pynare/stats/filters.py
index 49074a9..6dc206c 100644
--- a/pynare/stats/filters.py
+++ b/pynare/stats/filters.py
@@ -217,10 +217,6 @@ def _kalman_filter_loglikelihood(
     xt, Pt = x0, P0
     n_obs, n_vars = data.shape
 
-    print(xt)
-    print(Z)
-    print(data[0])
-
     for i in range(n_obs):
         vt = data[i] - np.dot(Z, xt)
 
@@ -229,12 +225,6 @@ def _kalman_filter_loglikelihood(
         Ft = np.matmul(Z, PtZh)
         Ft = (Ft + Ft.T) / 2
 
-        if np.any(Ft < 0):
-            print(i)
-            print(Ft)
-            print(linalg.det(Ft))
-            print('')
-
         # log-likelihood terms
         det_Ft = np.log(linalg.det(Ft))
         invFt_vt = linalg.solve(Ft, vt, assume_a='sym')
@@ -243,8 +233,12 @@ def _kalman_filter_loglikelihood(
             llk -= ( n_vars * pi2 + det_Ft + np.dot(vt, invFt_vt) ) / 2
 
         xtt = xt + np.matmul(PtZh, invFt_vt)
+        Ptt = Pt - np.matmul(PtZh, linalg.solve(Ft, PtZh.T, assume_a='sym'))
+
         xt = np.dot(T, xtt)
-        # print(vt)
+        Pt = np.matmul(T, np.matmul(Ptt, np.transpose(T))) + Q
+
+    return llk
 
 
 def _simple_kalman_transition_selection(
-- 
2.43.0


From ce3c74b2a3c7d2ffc34c79652499a69aa19cb32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:37 +0000
Subject: [PATCH 55/59] fix: the likelihood of filters with selected states
 only summed log determinants

---
 pynare/stats/filters.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pynare/stats/filters.py b/pynare/stats/filters.py
index 6dc206c..e459066 100644
--- a/pynare/stats/filters.py
+++ b/pynare/stats/filters.py
@@ -262,6 +262,8 @@ def _simple_kalman_transition_selection(
     """
 
     llk = 0
+    pi2 = np.log(2*np.pi)
+
     x, P = x0, P0
 
     for i in range(data.shape[0]):
@@ -276,8 +278,8 @@ def _simple_kalman_transition_selection(
         x = np.dot(T, xtt)
         P = np.matmul(T, np.matmul(Ptt, np.transpose(T))) + Q
 
-        llk_ = np.log(linalg.det(Ft))
-        llk += llk_
+        det_Ft = np.log(linalg.det(Ft))
+        llk -= ( len(vt) * pi2 + det_Ft + np.dot(vt, np.dot(Ft_inv, vt)) ) / 2
 
     return llk
 
-- 
2.43.0


From 63e1f84c9f82d102949cae1a751470e3ff4529e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:45 +0000
Subject: [PATCH 56/59] fix: data of three or more observed variables were
 assigned to the wrong ones

---
 pynare/stats/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/stats/filters.py b/pynare/stats/filters.py
index e459066..b066502 100644
--- a/pynare/stats/filters.py
+++ b/pynare/stats/filters.py
@@ -59,7 +59,7 @@ class ModelFilter(object):
                     raise NameError(f"{repr(lb)} is not an observed var")
 
             # reordering data if columns are different from observed vars decl order
-            idx = self.obs.get_loc(labels)
+            idx = [labels.index(name) for name in self.obs.names]
             self.data = self.data[:, idx]
 
         else:
-- 
2.43.0


From e4b107287007150cc6cc19069de3b55f5b590a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:12 +0000
Subject: [PATCH 57/59] fix: observed models could not be built when the model
 has locally-defined parameters

---
 pynare/stats/observation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pynare/stats/observation.py b/pynare/stats/observation.py
index f43025d..f05a8cc 100644
--- a/pynare/stats/observation.py
+++ b/pynare/stats/observation.py
@@ -49,7 +49,7 @@ class ObservedModel(DynamicModel):
         observation_exprs = [' = '.join((k, v)) for k, v in exprs.items()]
         model_exprs.extend(observation_exprs)
 
-        self.local_params = model.local_params
+        self.local_params = copy.deepcopy(model.local_params)
         endog_names = model.endog.names
         super().__init__(
             endog=endog,
@@ -65,6 +65,10 @@ class ObservedModel(DynamicModel):
             name=model.name
         )
 
+    @property
+    def model_scope(self):
+        return {**self.params, **self.local_params}
+
     @property
     def solution(self):
         return ObservedSolution(self).solve()
-- 
2.43.0


From 8cf66c7ddf3f28bf495ccb11e7cb881cb460f1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:27 +0000
Subject: [PATCH 58/59] fix: a model that failed the Blanchard-Kahn conditions
 fails them every time they are checked

---
 pynare/core/solve/statespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index 59e6b7d..27e1915 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -46,7 +46,7 @@ class StateSpace(object):
         front-facing method for checking whether or not the BK conditions are met
         by this model specification
         """
-        if self.is_verified is None:
+        if not self.is_verified:
             self._run_verification()
         return None
 
-- 
2.43.0


From 94a6a7db0b7e7e968188125e623a6048e1b083d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:03 +0000
Subject: [PATCH 59/59] fix: equations that were parsed from a file or have no
 equals sign could not be printed

---
 pynare/core/expressions.py | 49 ++++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index ee183c3..3a5b841 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -84,12 +84,16 @@ class ModelExprs(MutableSequence):
 
     def __str__(self):
         lhs, rhs = [], []
-        for expr in self.exprs_str:
-            l, r = expr.split('=')
+        for expr, expr_str in zip(self.exprs, self.exprs_str):
+            # equations given as ASTs have no text
+            text = expr_str if expr_str else ExprText(expr).text()
+
+            # equations without an equals sign are homogenous
+            l, _, r = text.strip('; \n').partition('=')
             lhs.append(l.strip())
-            rhs.append(r.strip())
+            rhs.append(r.strip() if r else '0')
 
-        width = max(map(len, lhs))
+        width = max(map(len, lhs), default=0)
         pad = 4*' '
 
         heading = 'Model Expressions'
@@ -123,6 +127,43 @@ class ExprParser(DynareParser):
 
 
 
+class ExprText(base.ABCVisitor):
+    """
+    the text of a parsed expression, which reads back as the same expression
+    """
+
+    def text(self):
+        return self.visit(self.tree)
+
+    def _operand(self, node):
+        text = self.visit(node)
+        compound = isinstance(node, (ast.BinaryOp, ast.UnaryOp)) or text.startswith('-')
+        return f"({text})" if compound else text
+
+    def visit_ModelExpression(self, node):
+        return ' = '.join((self.visit(node.left), self.visit(node.right)))
+
+    def visit_BinaryOp(self, node):
+        op = '^' if node.op.type == base.POWER else node.op.value
+        return f" {op} ".join((self._operand(node.left), self._operand(node.right)))
+
+    def visit_UnaryOp(self, node):
+        return f"{node.op.value}{self._operand(node.expr)}"
+
+    def visit_Function(self, node):
+        return f"{node.value}({self.visit(node.expr)})"
+
+    def visit_Num(self, node):
+        return np.format_float_positional(node.value, trim='-')
+
+    def visit_Var(self, node):
+        return node.value
+
+    def visit_PeriodVar(self, node):
+        return f"{node.value}({node.period_offset:+d})"
+
+
+
 class ModelRepr(object):
 
     # dynamic or steady state
-- 
2.43.0

