From 3c5b7b61a54640ad6605bcd3de39753ff489e6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:34 +0000
Subject: [PATCH 01/25] fix: Polyhedron.contains with several equalities or no
 inequalities

abs(max(.)) accepted points that violate an equality from below whenever
another one is satisfied; max over zero inequalities raised.
---
 pympc/geometry/polyhedron.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index aa5f3e8..0ebc38e 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -593,12 +593,12 @@ class Polyhedron(object):
         """
 
         # check inequalities
-        in_ineq = np.max(self.A.dot(x) - self.b) <= tol
+        in_ineq = np.all(self.A.dot(x) - self.b <= tol)
 
         # check equalities
         in_eq = True
         if self.C.shape[0] > 0:
-            in_eq = np.abs(np.max(self.C.dot(x) - self.d)) <= tol
+            in_eq = np.max(np.abs(self.C.dot(x) - self.d)) <= tol
         contains_x = in_ineq and in_eq
 
         return contains_x
-- 
2.43.0


From eb27f96a489944d8225e98f38ed8b7fa1303e215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:34 +0000
Subject: [PATCH 02/25] fix: apply constraints on x[indices] in the order of
 the indices

The selection matrix ignored the order of the indices, so that, e.g., bounds on
x[[2, 0]] were applied to x[[0, 2]].
---
 pympc/geometry/polyhedron.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 0ebc38e..fa40e0e 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -230,9 +230,8 @@ class Polyhedron(object):
         if indices is None:
             indices = range(n)
 
-        # delete from the identity matrix all the rows that are not in indices
-        complement = [i for i in range(n) if i not in indices]
-        S = np.delete(np.eye(n), complement, 0)
+        # select from the identity matrix the rows in indices (in the given order)
+        S = np.eye(n)[list(indices)]
 
         return S
 
-- 
2.43.0


From f20b37d8cd5283d92ea4c8ea6bf2c188a301de7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:34 +0000
Subject: [PATCH 03/25] fix: Polyhedron.normalize wrote in the arrays of the
 caller

With integer arrays the normalized rows were truncated (changing the set), and
every polyhedron (or user array) sharing A, b, C, d with this one was modified.
---
 pympc/geometry/polyhedron.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index fa40e0e..d441eab 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -385,19 +385,17 @@ class Polyhedron(object):
             Threshold value for the norm of the rows of A and C under which the related inequality (or equality) is not normalized.
         """
 
-        # inequalities
-        for i in range(self.A.shape[0]):
-            r = np.linalg.norm(self.A[i])
-            if r > tol:
-                self.A[i] = self.A[i]/r
-                self.b[i] = self.b[i]/r
+        # inequalities (without modifying the arrays the polyhedron was built from)
+        r = np.linalg.norm(self.A, axis=1)
+        r[r <= tol] = 1.
+        self.A = self.A / r[:, np.newaxis]
+        self.b = self.b / r
 
         # equalities
-        for i in range(self.C.shape[0]):
-            r = np.linalg.norm(self.C[i])
-            if r > tol:
-                self.C[i] = self.C[i]/r
-                self.d[i] = self.d[i]/r
+        r = np.linalg.norm(self.C, axis=1)
+        r[r <= tol] = 1.
+        self.C = self.C / r[:, np.newaxis]
+        self.d = self.d / r
 
     def minimal_facets(self, tol=1.e-7):
         """
-- 
2.43.0


From 0bff4439ffa0cbfe65fcdb9a0dd9b034909320fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:34 +0000
Subject: [PATCH 04/25] fix: Polyhedron.is_included_in for empty and unbounded
 polyhedra

Raised a TypeError instead of returning True (False) if the polyhedron is empty
(unbounded in the direction of a facet of P2).
---
 pympc/geometry/polyhedron.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index d441eab..e6786ed 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -630,6 +630,11 @@ class Polyhedron(object):
         included = True
         for i in range(A2.shape[0]):
             sol = linear_program(-A2[i], P1.A, P1.b)
+
+            # no minimum: either P1 is empty or it is unbounded in the direction of the facet
+            if sol['min'] is None:
+                included = P1.empty
+                break
             penetration = - sol['min'] - b2[i]
             if penetration > tol:
                 included = False
-- 
2.43.0


From 90f15b7178b223d00ddee02aabc7586a268e56d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:34 +0000
Subject: [PATCH 05/25] fix: Chebyshev radius of unbounded polyhedra with
 equalities

Raised instead of returning None.
---
 pympc/geometry/polyhedron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index e6786ed..7e80ace 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -763,7 +763,7 @@ class Polyhedron(object):
             center = center[:-1]
 
         # go back to the original coordinates in case of equalities
-        if self.C.shape[0] > 0:
+        if self.C.shape[0] > 0 and center is not None:
             r = np.linalg.inv(self.C.dot(R)).dot(self.d)
             center = np.hstack((N, R)).dot(np.concatenate((center, r)))
 
-- 
2.43.0


From a91ba7f9d418600936c44a59a2832508af6be514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:34 +0000
Subject: [PATCH 06/25] fix: convex-hull method normalized b of the caller
 instead of the facet

---
 pympc/geometry/polyhedron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 7e80ace..f46d3b3 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -1110,7 +1110,7 @@ def _expand_simplex(A, b, hull, tol=1.e-7):
             d = - hull.equations[i, -1]
             a_norm = np.linalg.norm(a)
             a /= a_norm
-            b /= a_norm
+            d /= a_norm
 
             # check if the direction a has been explored so far
             is_explored = any((np.allclose(a, a2) for a2 in a_explored))
-- 
2.43.0


From af941f680369e6f0d5a9b7c13ab32ec54fa066f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:54 +0000
Subject: [PATCH 07/25] fix: vertices of orthogonal projections

The points found while expanding the hull were all returned as vertices, even
those that end up in the relative interior of a face of the projection.
---
 pympc/geometry/polyhedron.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index f46d3b3..26a1589 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -994,10 +994,10 @@ def convex_hull_method(A, b, resiudal_dimensions):
     hull = _expand_simplex(A, b, hull)
     hull.close()
 
-    # get outputs
+    # get outputs (not all the points used to expand the hull are vertices of it)
     E = hull.equations[:, :-1]
     f = - hull.equations[:, -1:].flatten()
-    vertices = hull.points
+    vertices = hull.points[hull.vertices]
 
     return E, f, vertices
 
-- 
2.43.0


From d7360a644fb07a7202e3f70d3560be1d1e5ba005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:54 +0000
Subject: [PATCH 08/25] fix: same_rows modified its arguments and failed with
 repeated rows

Normalization was in place (and truncated integer matrices); a matrix with a
row repeated twice was reported to be different from itself.
---
 pympc/geometry/utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pympc/geometry/utils.py b/pympc/geometry/utils.py
index ca1dc4a..969dce8 100644
--- a/pympc/geometry/utils.py
+++ b/pympc/geometry/utils.py
@@ -117,16 +117,15 @@ def same_rows(A, B, normalize=True):
 
     # if required, normalize
     if normalize:
-        for i in range(A.shape[0]):
-            A[i] = A[i] / np.linalg.norm(A[i])
-            B[i] = B[i] / np.linalg.norm(B[i])
+        A = A / np.linalg.norm(A, axis=1, keepdims=True)
+        B = B / np.linalg.norm(B, axis=1, keepdims=True)
 
     # check one row per time
     for a in A:
         i = np.where([np.allclose(a, b) for b in B])[0]
-        if len(i) != 1:
+        if len(i) == 0:
             return False
-        B = np.delete(B, i, 0)
+        B = np.delete(B, i[0], 0)
 
     return True
 
-- 
2.43.0


From c97b4c6d6128abbf136c089db44cf9adf808ef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:54 +0000
Subject: [PATCH 09/25] fix: linearly_independent_rows returned too few rows

The QR decomposition is not rank revealing and its diagonal stops at the number
of columns: rows after a dependent one (or after the first n) were lost.
---
 pympc/geometry/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pympc/geometry/utils.py b/pympc/geometry/utils.py
index 969dce8..6521ec0 100644
--- a/pympc/geometry/utils.py
+++ b/pympc/geometry/utils.py
@@ -42,14 +42,16 @@ def linearly_independent_rows(A, tol=1.e-6):
         List of indices of a set of independent rows of A.
     """
 
-    # QR decomposition
-    R = np.linalg.qr(A.T)[1]
+    # QR decomposition of the rows selected so far plus a candidate
+    independent_rows = []
+    for i in range(A.shape[0]):
+        R = np.linalg.qr(A[independent_rows + [i]].T)[1]
 
-    # check diagonal elements
-    R_diag = np.abs(np.diag(R))
-    independent_rows = list(np.where(R_diag > tol)[0])
+        # check the last diagonal element
+        if len(independent_rows) < A.shape[1] and np.abs(R[-1,-1]) > tol:
+            independent_rows.append(i)
 
-    return sorted(independent_rows)
+    return independent_rows
 
 def plane_through_points(points):
     """
-- 
2.43.0


From 296e0f469f926755799a182db0fb1d6504d5190e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:54 +0000
Subject: [PATCH 10/25] fix: PieceWiseAffineSystem replaced the systems in the
 list of the caller

---
 pympc/dynamics/discrete_time_systems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pympc/dynamics/discrete_time_systems.py b/pympc/dynamics/discrete_time_systems.py
index 7c59708..409920a 100644
--- a/pympc/dynamics/discrete_time_systems.py
+++ b/pympc/dynamics/discrete_time_systems.py
@@ -473,7 +473,8 @@ class PieceWiseAffineSystem(object):
         if list(nxu)[0] != self.nx + self.nu:
             raise ValueError('the domains and the affine systems must have coherent dimensions.')
 
-        # make instances of LinearSystem instances of AffineSystem
+        # make instances of LinearSystem instances of AffineSystem (in a copy of the given list)
+        affine_systems = list(affine_systems)
         for i, S in enumerate(affine_systems):
             if isinstance(S, LinearSystem):
                 c = np.zeros(self.nx)
-- 
2.43.0


From 3a81e2008d1fcc7bbc306c9091ca01b94bc37fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:54 +0000
Subject: [PATCH 11/25] fix: is_well_posed with unbounded intersections

Raised a TypeError instead of returning False when two domains share an
unbounded region with infinite Chebyshev radius.
---
 pympc/dynamics/discrete_time_systems.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pympc/dynamics/discrete_time_systems.py b/pympc/dynamics/discrete_time_systems.py
index 409920a..1c01c68 100644
--- a/pympc/dynamics/discrete_time_systems.py
+++ b/pympc/dynamics/discrete_time_systems.py
@@ -577,7 +577,11 @@ class PieceWiseAffineSystem(object):
                 Dij = Di.intersection(self.domains[j])
 
                 # check the Chebyshev radius of the intersection
-                if Dij.radius > tol:
+                radius = Dij.radius
+                if radius is None:
+                    if not Dij.empty:
+                        return False
+                elif radius > tol:
                     return False
 
         return True
-- 
2.43.0


From 3bf8d16fbe29e5a966d4d16b94be64db698f1d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:55 +0000
Subject: [PATCH 12/25] fix: text of plot_state_space_trajectory ignored dim

---
 pympc/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pympc/plot.py b/pympc/plot.py
index 63c69d7..d424c06 100644
--- a/pympc/plot.py
+++ b/pympc/plot.py
@@ -36,7 +36,7 @@ def plot_state_space_trajectory(x, dim=[0,1], text=False, label=None, **kwargs):
     # plot text
     for t in range(len(x)):
         if text:
-            plt.text(x[t][0], x[t][1], r'$x('+str(t)+')$')
+            plt.text(x[t][dim[0]], x[t][dim[1]], r'$x('+str(t)+')$')
 
     # scatter initial condition
     plt.scatter(
-- 
2.43.0


From 285b4141b7d974b0104b8f646e8e1af50a8a5ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:51 +0000
Subject: [PATCH 13/25] fix: programs and polyhedra without constraints

Unconstrained LPs and QPs, and boundedness and vertices of R^n, raised.
---
 pympc/geometry/utils.py             |  2 +-
 pympc/optimization/solvers/pnnls.py | 27 ++++++++++++++++++++++++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/pympc/geometry/utils.py b/pympc/geometry/utils.py
index 6521ec0..3f58721 100644
--- a/pympc/geometry/utils.py
+++ b/pympc/geometry/utils.py
@@ -20,7 +20,7 @@ def nullspace_basis(A):
     V = np.linalg.svd(A)[2].T
 
     # cut to the dimension of the rank
-    rank = np.linalg.matrix_rank(A)
+    rank = np.linalg.matrix_rank(A) if A.size > 0 else 0
     Z = V[:,rank:]
 
     return Z
diff --git a/pympc/optimization/solvers/pnnls.py b/pympc/optimization/solvers/pnnls.py
index c8b7d44..32db98a 100644
--- a/pympc/optimization/solvers/pnnls.py
+++ b/pympc/optimization/solvers/pnnls.py
@@ -1,6 +1,31 @@
 # external imports
 import numpy as np
-from scipy.optimize import nnls
+from scipy.optimize import nnls as scipy_nnls
+
+def nnls(A, b):
+    """
+    Solves the Non-Negative Least Squares problem min_v ||A v - b||_2 s.t. v >= 0, also in the case of no variables (which is not handled by scipy).
+
+    Arguments
+    ----------
+    A : numpy.ndarray
+        Coefficient matrix.
+    b : numpy.ndarray
+        Offset term.
+
+    Returns
+    ----------
+    v : numpy.ndarray
+        Optimal value of v.
+    r : float
+        2-norm of the residual.
+    """
+
+    # no variables
+    if A.shape[1] == 0:
+        return np.zeros(0), np.linalg.norm(b)
+
+    return scipy_nnls(A, b)
 
 def pnnls(A, B, c):
     """
-- 
2.43.0


From 92d1710b9e45b96f6e7c15c11efcc30bd5d0ad45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:51 +0000
Subject: [PATCH 14/25] fix: controllers ignored the equality constraints of D,
 D_i, and X_N

The condensed programs contained only the inequalities of the polyhedra, hence
the optimal inputs violated any equality constraint.
---
 pympc/control/controllers.py | 58 +++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/pympc/control/controllers.py b/pympc/control/controllers.py
index b7f7be4..b9dd6c4 100644
--- a/pympc/control/controllers.py
+++ b/pympc/control/controllers.py
@@ -384,6 +384,7 @@ class HybridModelPredictiveController(object):
 
         # outer loop over the number of affine systems
         for i, D_i in enumerate(self.S.domains):
+            A_i, b_i = inequality_form(D_i)
             gamma_i = []
 
             # inner loop over the number of affine systems
@@ -391,10 +392,10 @@ class HybridModelPredictiveController(object):
                 gamma_ij = []
 
                 # solve one LP for each inequality of the ith domain
-                for k in range(D_i.A.shape[0]):
-                    f = -D_i.A[k]
+                for k in range(A_i.shape[0]):
+                    f = -A_i[k]
                     sol = linear_program(f, D_j.A, D_j.b, D_j.C, D_j.d)
-                    gamma_ij.append(- sol['min'] - D_i.b[k])
+                    gamma_ij.append(- sol['min'] - b_i[k])
 
                 # close inner loop appending bigMs
                 gamma_i.append(np.vstack(gamma_ij))
@@ -463,7 +464,8 @@ class HybridModelPredictiveController(object):
         nx = self.S.nx
         nu = self.S.nu
         s  = self.S.nm
-        n_ineq = sum([D.A.shape[0] for D in self.S.domains])
+        A_domains, b_domains = zip(*[inequality_form(D) for D in self.S.domains])
+        n_ineq = sum([A.shape[0] for A in A_domains])
 
         # build blocks
         E = dict()
@@ -472,7 +474,7 @@ class HybridModelPredictiveController(object):
             np.zeros((nx*s, nx)),                             # Equation 2
             np.vstack([-S.A for S in self.S.affine_systems]), # Equation 3
             np.vstack([S.A for S in self.S.affine_systems]),  # Equation 4
-            np.vstack([D.A[:,:nx] for D in self.S.domains]),  # Equation 5
+            np.vstack([A[:,:nx] for A in A_domains]),         # Equation 5
             np.zeros((2, nx))                                 # Equation 6
             ))
         E['u'] = np.vstack((
@@ -480,7 +482,7 @@ class HybridModelPredictiveController(object):
             np.zeros((nx*s, nu)),                             # Equation 2
             np.vstack([-S.B for S in self.S.affine_systems]), # Equation 3
             np.vstack([S.B for S in self.S.affine_systems]),  # Equation 4
-            np.vstack([D.A[:,nx:] for D in self.S.domains]),  # Equation 5
+            np.vstack([A[:,nx:] for A in A_domains]),         # Equation 5
             np.zeros((2, nu))                                 # Equation 6
             ))
         E['z'] = np.vstack((
@@ -504,7 +506,7 @@ class HybridModelPredictiveController(object):
             np.zeros(nx*s),                                        # Equation 2
             np.concatenate([S.c for S in self.S.affine_systems]),  # Equation 3
             np.concatenate([-S.c for S in self.S.affine_systems]), # Equation 4
-            np.concatenate([D.b for D in self.S.domains]),         # Equation 5
+            np.concatenate(b_domains),                             # Equation 5
             np.array([1.,-1.])                                     # Equation 6
             ))
 
@@ -560,24 +562,25 @@ class HybridModelPredictiveController(object):
         """
 
         # build blocks
+        A_N, b_N = inequality_form(self.X_N)
         E_bar = dict()
-        E_bar['x'] = block_diag(*[E['x']]*self.N + [self.X_N.A])
+        E_bar['x'] = block_diag(*[E['x']]*self.N + [A_N])
         E_bar['u'] = block_diag(*[E['u']]*self.N)
         E_bar['u'] = np.vstack((
             E_bar['u'],
-            np.zeros((self.X_N.A.shape[0], E_bar['u'].shape[1]))
+            np.zeros((A_N.shape[0], E_bar['u'].shape[1]))
         ))
         E_bar['z'] = block_diag(*[E['z']]*self.N)
         E_bar['z'] = np.vstack((
             E_bar['z'],
-            np.zeros((self.X_N.A.shape[0], E_bar['z'].shape[1]))
+            np.zeros((A_N.shape[0], E_bar['z'].shape[1]))
         ))
         E_bar['d'] = block_diag(*[E['d']]*self.N)
         E_bar['d'] = np.vstack((
             E_bar['d'],
-            np.zeros((self.X_N.A.shape[0], E_bar['d'].shape[1]))
+            np.zeros((A_N.shape[0], E_bar['d'].shape[1]))
         ))
-        E_bar['0'] = np.concatenate([E['0']]*self.N + [self.X_N.b])
+        E_bar['0'] = np.concatenate([E['0']]*self.N + [b_N])
 
         return E_bar
 
@@ -679,6 +682,26 @@ class HybridModelPredictiveController(object):
         """
         return condense_optimal_control_problem(self.S, self.Q, self.R, self.P, self.X_N, mode_sequence)
 
+def inequality_form(P):
+    """
+    Returns the inequalities that describe the polyhedron P, with each equality stated as two inequalities.
+
+    Arguments
+    ----------
+    P : instance of Polyhedron
+        Polyhedron in the form {x | A x <= b, C x = d}.
+
+    Returns
+    ----------
+    A, b : numpy.ndarray
+        Left- and right-hand side of the inequalities.
+    """
+
+    A = np.vstack((P.A, P.C, -P.C))
+    b = np.concatenate((P.b, P.d, -P.d))
+
+    return A, b
+
 def condense_optimal_control_problem(S, Q, R, P, X_N, mode_sequence):
     """
     For a given mode sequences, condenses the optimal control problem for a PWA affine system
@@ -731,14 +754,15 @@ def condense_optimal_control_problem(S, Q, R, P, X_N, mode_sequence):
     g = .5 * c_bar.dot(Q_bar).dot(c_bar)
 
     # stack constraint matrices
-    D_sequence = [S.domains[m]for m in mode_sequence]
-    F_bar = block_diag(*[D.A[:,:S.nx] for D in D_sequence] + [X_N.A])
-    G_bar = block_diag(*[D.A[:,S.nx:] for D in D_sequence])
+    D_sequence = [inequality_form(S.domains[m]) for m in mode_sequence]
+    A_N, b_N = inequality_form(X_N)
+    F_bar = block_diag(*[A[:,:S.nx] for A, _ in D_sequence] + [A_N])
+    G_bar = block_diag(*[A[:,S.nx:] for A, _ in D_sequence])
     G_bar = np.vstack((
         G_bar,
-        np.zeros((X_N.A.shape[0], G_bar.shape[1]))
+        np.zeros((A_N.shape[0], G_bar.shape[1]))
         ))
-    h_bar = np.concatenate([D.b for D in D_sequence] + [X_N.b])
+    h_bar = np.concatenate([b for _, b in D_sequence] + [b_N])
 
     # get blocks for condensed contraints
     A = dict()
-- 
2.43.0


From 2f44e608d1d40e9fcb8e6f7f396e045159aa91aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:51 +0000
Subject: [PATCH 15/25] fix: explicit solution of mpQPs that are unfeasible in
 the origin

The exploration started from the origin only, and an empty solution was returned
when the origin is not a feasible parameter.
---
 pympc/optimization/parametric_programs.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pympc/optimization/parametric_programs.py b/pympc/optimization/parametric_programs.py
index 1c39c27..c7dfb37 100644
--- a/pympc/optimization/parametric_programs.py
+++ b/pympc/optimization/parametric_programs.py
@@ -200,8 +200,15 @@ class MultiParametricQuadraticProgram(object):
 
         """
 
-        # start from the origin and guess its active set
+        # start from the origin (if unfeasible, from the center of the constraint set) and guess its active set
         x = np.zeros(self.f['x'].size)
+        if self.solve(x)['min'] is None:
+            C = Polyhedron(
+                np.hstack((self.A['x'], self.A['u'])),
+                self.b
+                )
+            if not C.empty and C.center is not None:
+                x = C.center[:x.size]
         active_set_guess = []
         x_buffer = [(x, active_set_guess)]
         crs_found = []
-- 
2.43.0


From 51e176b7b40b394c5aca41d19a25245298aa3484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:49 +0000
Subject: [PATCH 16/25] fix: orthogonal projections raising QhullError

Qhull in incremental mode fails (QH6347) when the new point is coplanar with
facets of the current hull, which is the normal case here: one fifth of the
projections of boxes and simplices onto four dimensions raised.
---
 pympc/geometry/polyhedron.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 26a1589..9415df3 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -987,12 +987,8 @@ def convex_hull_method(A, b, resiudal_dimensions):
     vertices = _get_inner_simplex(A, b, vertices)
 
     # expand facets
-    hull = ConvexHull(
-        np.vstack(vertices),
-        incremental=True
-        )
+    hull = ConvexHull(np.vstack(vertices))
     hull = _expand_simplex(A, b, hull)
-    hull.close()
 
     # get outputs (not all the points used to expand the hull are vertices of it)
     E = hull.equations[:, :-1]
@@ -1128,7 +1124,8 @@ def _expand_simplex(A, b, hull, tol=1.e-7):
                 expansion = - sol['min'] - d # >= 0
                 if expansion > tol:
                     convergence = False
-                    hull.add_points(sol['argmin'][:n].reshape(1,n))
+                    new_point = sol['argmin'][:n].reshape(1,n)
+                    hull = ConvexHull(np.vstack((hull.points, new_point))) # adding points incrementally Qhull fails when these are coplanar with existing facets
                     break
 
     return hull
\ No newline at end of file
-- 
2.43.0


From d8c3c94cfad7d27c2a7275ad19cce305bb2d9f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:51 +0000
Subject: [PATCH 17/25] fix: vertices listed degenerate vertices more than once

---
 pympc/geometry/polyhedron.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 9415df3..c3c3927 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -816,7 +816,11 @@ class Polyhedron(object):
             halfspaces = np.column_stack((A, -b))
             polyhedron = HalfspaceIntersection(halfspaces, center)
             V = polyhedron.intersections
-            self._vertices = [V[i] for i in range(V.shape[0])]
+            # vertices where more facets than strictly needed meet are listed more than once
+            self._vertices = []
+            for v in V:
+                if not any(np.allclose(v, w, rtol=tol, atol=tol) for w in self._vertices):
+                    self._vertices.append(v)
 
         # go back to the original coordinates in case of equalities
         if self.C.shape[0] > 0:
-- 
2.43.0


From 3c25e6213b81c446853a5c2c2ca2f324075cb8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:55 +0000
Subject: [PATCH 18/25] fix: vertices of orthogonal projections included points
 that are not extreme

---
 pympc/geometry/polyhedron.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index c3c3927..c52ea02 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -994,10 +994,14 @@ def convex_hull_method(A, b, resiudal_dimensions):
     hull = ConvexHull(np.vstack(vertices))
     hull = _expand_simplex(A, b, hull)
 
-    # get outputs (not all the points used to expand the hull are vertices of it)
+    # get outputs (not all the points used to expand the hull are vertices of it: at least n independent facets must meet there)
     E = hull.equations[:, :-1]
     f = - hull.equations[:, -1:].flatten()
-    vertices = hull.points[hull.vertices]
+    tol = 1.e-7
+    vertices = np.vstack([
+        v for v in hull.points[hull.vertices]
+        if np.linalg.matrix_rank(E[np.abs(E.dot(v) - f) < tol], tol) == n
+        ])
 
     return E, f, vertices
 
-- 
2.43.0


From 68e1e64b879db8f8e4e067cab921fe4c2005690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:15 +0000
Subject: [PATCH 19/25] fix: explicit_solve could find the same critical region
 forever

---
 pympc/optimization/parametric_programs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pympc/optimization/parametric_programs.py b/pympc/optimization/parametric_programs.py
index c7dfb37..1350c60 100644
--- a/pympc/optimization/parametric_programs.py
+++ b/pympc/optimization/parametric_programs.py
@@ -225,8 +225,8 @@ class MultiParametricQuadraticProgram(object):
             cr = self.explicit_solve_given_point(x_buffer[0][0], x_buffer[0][1], verbose)
             del x_buffer[0]
 
-            # if feasible
-            if cr is not None:
+            # if feasible (and not already found: close to a facet the QP solver can return the active set on the other side)
+            if cr is not None and not any([set(cr.active_set) == set(cr_found.active_set) for cr_found in crs_found]):
 
                 # step outside each minimal facet
                 for i in cr.minimal_facets():
-- 
2.43.0


From 86065e80b7689c06992c7164625aa93131b46794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:20 +0000
Subject: [PATCH 20/25] fix: refused add_inequality and add_equality modified
 the polyhedron

A two-dimensional right-hand side was refused by numpy only after the left-hand side had been stored.
---
 pympc/geometry/polyhedron.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index c52ea02..0edab8f 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -80,10 +80,11 @@ class Polyhedron(object):
         # reset attributes to None
         self._delete_attributes()
 
-        # add inequalities
+        # add inequalities (b first: if it is refused the polyhedron is not modified)
         S = self._selection_matrix(indices)
-        self.A = np.vstack((self.A, A.dot(S)))
+        A = np.vstack((self.A, A.dot(S)))
         self.b = np.concatenate((self.b, b))
+        self.A = A
 
     def add_symbolic_inequality(self, x, ineq):
         """
@@ -119,10 +120,11 @@ class Polyhedron(object):
         # reset attributes to None
         self._delete_attributes()
 
-        # add equalities
+        # add equalities (d first: if it is refused the polyhedron is not modified)
         S = self._selection_matrix(indices)
-        self.C = np.vstack((self.C, C.dot(S)))
+        C = np.vstack((self.C, C.dot(S)))
         self.d = np.concatenate((self.d, d))
+        self.C = C
 
     def add_symbolic_equality(self, x, eq):
         """
-- 
2.43.0


From 4e07af837f1bd2a918b833d8c7b681b5e2d09415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:20 +0000
Subject: [PATCH 21/25] fix: refused add_bounds added the lower bound

---
 pympc/geometry/polyhedron.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 0edab8f..3e5447b 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -197,6 +197,10 @@ class Polyhedron(object):
             Set of indices of elements of x to which the inequality applies.
         """
 
+        # check size of the bounds (before adding one of the two)
+        if np.atleast_1d(x_min).shape != np.atleast_1d(x_max).shape:
+            raise ValueError("bounds must have the same size.")
+
         self.add_lower_bound(x_min, indices)
         self.add_upper_bound(x_max, indices)
 
-- 
2.43.0


From 426c4a7d6c619be157953e90d19f383fbb1b10cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:55 +0000
Subject: [PATCH 22/25] fix: gurobi ignored equalities given without C or d

As the other solvers do, refuse an equality matrix without its right-hand side and vice versa.
---
 pympc/optimization/solvers/gurobi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pympc/optimization/solvers/gurobi.py b/pympc/optimization/solvers/gurobi.py
index 258c808..177b88a 100644
--- a/pympc/optimization/solvers/gurobi.py
+++ b/pympc/optimization/solvers/gurobi.py
@@ -185,6 +185,10 @@ def _build_model(H=None, f=None, A=None, b=None, C=None, d=None):
         Model of the mathematical program.
     """
 
+    # check equalities
+    if (C is None) != (d is None):
+        raise ValueError('missing C or d.')
+
     # initialize model
     model = grb.Model()
     n_x = f.size
-- 
2.43.0


From 0b3c67f4588b01cfce2f1cac3d14d9c30f58e36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:45 +0000
Subject: [PATCH 23/25] fix: plot_optimal_value_function failed if the grid
 leaves the feasible set

---
 pympc/control/controllers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pympc/control/controllers.py b/pympc/control/controllers.py
index b9dd6c4..019bab6 100644
--- a/pympc/control/controllers.py
+++ b/pympc/control/controllers.py
@@ -239,8 +239,8 @@ class ModelPredictiveController(object):
         y = np.linspace(y_min, y_max, resolution)
         X, Y = np.meshgrid(x, y)
 
-        # evaluate grid
-        zs = np.array([self.explicit_solution.V(np.array([x,y])) for x,y in zip(np.ravel(X), np.ravel(Y))])
+        # evaluate grid (nan outside of the feasible set)
+        zs = np.array([self.explicit_solution.V(np.array([x,y])) for x,y in zip(np.ravel(X), np.ravel(Y))], dtype=float)
         Z = zs.reshape(X.shape)
 
         # plot
-- 
2.43.0


From bd69bfb5126cdc684887d7cb9f2c55e4448d0379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:59 +0000
Subject: [PATCH 24/25] fix: boundedness of polyhedra with badly scaled rows

---
 pympc/geometry/polyhedron.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 3e5447b..249dec0 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -565,6 +565,10 @@ class Polyhedron(object):
         if nullspace_basis(A).shape[1] > 0:
             return False
 
+        # scale the rows (boundedness does not depend on their norm, the multipliers y >= 1 do)
+        norms = np.linalg.norm(A, axis=1)
+        A = A/np.where(norms > 0., norms, 1.)[:, None]
+
         # check Stiemke's theorem of alternatives
         n, m = A.shape
         sol = linear_program(
-- 
2.43.0


From 9c812b00f936f65196ea454c9b0793a8ec4badbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:07 +0000
Subject: [PATCH 25/25] fix: facet_center kept the facet as an inequality made
 of rounding errors

---
 pympc/optimization/parametric_programs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pympc/optimization/parametric_programs.py b/pympc/optimization/parametric_programs.py
index 1350c60..033d726 100644
--- a/pympc/optimization/parametric_programs.py
+++ b/pympc/optimization/parametric_programs.py
@@ -344,11 +344,13 @@ class CriticalRegion(object):
         if self.polyhedron.A.shape[1] == 1:
             return self.polyhedron.b.flatten()[i] / self.polyhedron.A[i][0]
 
-        # add an equality to the original polyhedron
+        # make the i-th inequality an equality (kept as an inequality, in the affine hull of the facet it would be a row of rounding errors)
         facet = copy(self.polyhedron)
+        facet.A = np.delete(self.polyhedron.A, i, 0)
+        facet.b = np.delete(self.polyhedron.b, i)
         facet.add_equality(
-            facet.A[i:i+1, :],
-            facet.b[i:i+1]
+            self.polyhedron.A[i:i+1, :],
+            self.polyhedron.b[i:i+1]
             )
 
         return facet.center
-- 
2.43.0

