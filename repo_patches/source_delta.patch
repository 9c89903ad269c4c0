From 3c1bd3b79a9bad4e2b23dafb6b758f70937088d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:53 +0000
Subject: [PATCH 01/21] fix: membership test must bound every equality
 residual, not only the largest one

abs(max(r)) accepts a point whose residuals are all <= 0 with one of them
close to zero, whatever the others are; the test must be max(abs(r)).
---
 pympc/geometry/polyhedron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index aa5f3e8..21902fa 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -598,7 +598,7 @@ class Polyhedron(object):
         # check equalities
         in_eq = True
         if self.C.shape[0] > 0:
-            in_eq = np.abs(np.max(self.C.dot(x) - self.d)) <= tol
+            in_eq = np.max(np.abs(self.C.dot(x) - self.d)) <= tol
         contains_x = in_ineq and in_eq
 
         return contains_x
-- 
2.43.0


From 3013169e8f432c14c7b69ff5856e6438c33fc71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:53 +0000
Subject: [PATCH 02/21] fix: selection matrix must follow the order of the
 given indices

The documented S x = x[indices] only held for sorted indices: with
indices = [2, 0] bounds and inequalities were silently applied to the
wrong coordinates.
---
 pympc/geometry/polyhedron.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 21902fa..e65a701 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -230,9 +230,8 @@ class Polyhedron(object):
         if indices is None:
             indices = range(n)
 
-        # delete from the identity matrix all the rows that are not in indices
-        complement = [i for i in range(n) if i not in indices]
-        S = np.delete(np.eye(n), complement, 0)
+        # stack the rows of the identity matrix in the order given by indices
+        S = np.eye(n)[list(indices)]
 
         return S
 
-- 
2.43.0


From 06cc2ef23cc891dba43b0f99a92a50e372725e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:53 +0000
Subject: [PATCH 03/21] fix: a failing add_inequality must not leave A and b
 with different numbers of rows

---
 pympc/geometry/polyhedron.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index e65a701..bd2d23a 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -76,14 +76,17 @@ class Polyhedron(object):
 
         # check inequalities
         self._same_number_rows(A, b)
-    
+
+        # assemble both sides first, an error here must not leave A and b incoherent
+        S = self._selection_matrix(indices)
+        A = np.vstack((self.A, A.dot(S)))
+        b = np.concatenate((self.b, b))
+
         # reset attributes to None
         self._delete_attributes()
 
         # add inequalities
-        S = self._selection_matrix(indices)
-        self.A = np.vstack((self.A, A.dot(S)))
-        self.b = np.concatenate((self.b, b))
+        self.A, self.b = A, b
 
     def add_symbolic_inequality(self, x, ineq):
         """
-- 
2.43.0


From 3b70a379c3550e6b52eb9427c1de46a2df38fcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:53 +0000
Subject: [PATCH 04/21] fix: a failing add_equality must not leave C and d with
 different numbers of rows

---
 pympc/geometry/polyhedron.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index bd2d23a..2d15bce 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -119,13 +119,16 @@ class Polyhedron(object):
         # check equalities
         self._same_number_rows(C, d)
 
+        # assemble both sides first, an error here must not leave C and d incoherent
+        S = self._selection_matrix(indices)
+        C = np.vstack((self.C, C.dot(S)))
+        d = np.concatenate((self.d, d))
+
         # reset attributes to None
         self._delete_attributes()
 
         # add equalities
-        S = self._selection_matrix(indices)
-        self.C = np.vstack((self.C, C.dot(S)))
-        self.d = np.concatenate((self.d, d))
+        self.C, self.d = C, d
 
     def add_symbolic_equality(self, x, eq):
         """
-- 
2.43.0


From 26b297e19cd9c15b48658954ce9c7345ddeb0192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:53 +0000
Subject: [PATCH 05/21] fix: add_bounds must add both the bounds or none of
 them

---
 pympc/geometry/polyhedron.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 2d15bce..e9feae8 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -201,8 +201,19 @@ class Polyhedron(object):
             Set of indices of elements of x to which the inequality applies.
         """
 
-        self.add_lower_bound(x_min, indices)
-        self.add_upper_bound(x_max, indices)
+        # if the bounds are floats make them arrays
+        if isinstance(x_min, float):
+            x_min = np.array([x_min])
+        if isinstance(x_max, float):
+            x_max = np.array([x_max])
+
+        # check both the bounds before adding any of them
+        S = self._selection_matrix(indices)
+        self._same_number_rows(S, x_min)
+        self._same_number_rows(S, x_max)
+
+        # add the constraints - S x <= - x_min and S x <= x_max, with S selection matrix
+        self.add_inequality(np.vstack((-S, S)), np.concatenate((-x_min, x_max)))
 
     def _delete_attributes(self):
         """
-- 
2.43.0


From 61039777e5083f32f6f7c137c5044f93b2118c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:53 +0000
Subject: [PATCH 06/21] fix: normalize must not write in arrays shared with the
 user or other polyhedra

Polyhedra keep references to the arrays they are given (and shallow copies
share them), so scaling the rows in place corrupted every other polyhedron
built with only one of the two arrays, and truncated integer data.
---
 pympc/geometry/polyhedron.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index e9feae8..59d4185 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -402,19 +402,26 @@ class Polyhedron(object):
             Threshold value for the norm of the rows of A and C under which the related inequality (or equality) is not normalized.
         """
 
+        # work on copies, the arrays can be shared with the user or with other polyhedra
+        A, b = np.array(self.A, dtype=float), np.array(self.b, dtype=float)
+        C, d = np.array(self.C, dtype=float), np.array(self.d, dtype=float)
+
         # inequalities
-        for i in range(self.A.shape[0]):
-            r = np.linalg.norm(self.A[i])
+        for i in range(A.shape[0]):
+            r = np.linalg.norm(A[i])
             if r > tol:
-                self.A[i] = self.A[i]/r
-                self.b[i] = self.b[i]/r
+                A[i] = A[i]/r
+                b[i] = b[i]/r
 
         # equalities
-        for i in range(self.C.shape[0]):
-            r = np.linalg.norm(self.C[i])
+        for i in range(C.shape[0]):
+            r = np.linalg.norm(C[i])
             if r > tol:
-                self.C[i] = self.C[i]/r
-                self.d[i] = self.d[i]/r
+                C[i] = C[i]/r
+                d[i] = d[i]/r
+
+        # store normalized constraints
+        self.A, self.b, self.C, self.d = A, b, C, d
 
     def minimal_facets(self, tol=1.e-7):
         """
-- 
2.43.0


From 3f05239a8282f91c68a62eeb82c8ddf9149e102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:53 +0000
Subject: [PATCH 07/21] fix: projection must not rescale the right-hand side of
 the projected polyhedron

The offset to be scaled with the normal a of the facet is d; b is the array
of the polyhedron the user is projecting.
---
 pympc/geometry/polyhedron.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 59d4185..5bdf1bb 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -1130,8 +1130,8 @@ def _expand_simplex(A, b, hull, tol=1.e-7):
             a = hull.equations[i, :-1]
             d = - hull.equations[i, -1]
             a_norm = np.linalg.norm(a)
-            a /= a_norm
-            b /= a_norm
+            a = a / a_norm
+            d /= a_norm
 
             # check if the direction a has been explored so far
             is_explored = any((np.allclose(a, a2) for a2 in a_explored))
-- 
2.43.0


From 83dc3073c164f3c67e78afd605c895e0c8bfd161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:53 +0000
Subject: [PATCH 08/21] fix: radius and center of an unbounded polyhedron with
 equalities are None

---
 pympc/geometry/polyhedron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 5bdf1bb..31c7429 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -784,7 +784,7 @@ class Polyhedron(object):
             center = center[:-1]
 
         # go back to the original coordinates in case of equalities
-        if self.C.shape[0] > 0:
+        if self.C.shape[0] > 0 and center is not None:
             r = np.linalg.inv(self.C.dot(R)).dot(self.d)
             center = np.hstack((N, R)).dot(np.concatenate((center, r)))
 
-- 
2.43.0


From 1b6c4e0b77153ccd3a4c0001fd57e52f95f69108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:53 +0000
Subject: [PATCH 09/21] fix: store the vertices only once they are in the
 original coordinates

With equalities the vertices were first stored in reduced coordinates: an
error or an interrupt before the change of coordinates left them there for
good, and a concurrent reader could get them.
---
 pympc/geometry/polyhedron.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 31c7429..ffb36bd 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -830,21 +830,24 @@ class Polyhedron(object):
         if A.shape[1] == 1:
             p = Polyhedron(A, b)
             p.remove_redundant_inequalities()
-            self._vertices = [np.array([p.b[i] / p.A[i,0]]) for i in [0,1]]
+            vertices = [np.array([p.b[i] / p.A[i,0]]) for i in [0,1]]
 
         # call qhull through scipy
         else:
             halfspaces = np.column_stack((A, -b))
             polyhedron = HalfspaceIntersection(halfspaces, center)
             V = polyhedron.intersections
-            self._vertices = [V[i] for i in range(V.shape[0])]
+            vertices = [V[i] for i in range(V.shape[0])]
 
         # go back to the original coordinates in case of equalities
         if self.C.shape[0] > 0:
             r = np.linalg.inv(self.C.dot(R)).dot(self.d)
-            self._vertices = [T.dot(np.concatenate((v, r))) for v in self._vertices]
+            vertices = [T.dot(np.concatenate((v, r))) for v in vertices]
 
-        return self._vertices
+        # store the vertices only now that they are in the original coordinates
+        self._vertices = vertices
+
+        return vertices
 
     def project_to(self, residual_dimensions):
         """
-- 
2.43.0


From 41e365ad70243b9da63f4961ce526cdb0e67058b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:53 +0000
Subject: [PATCH 10/21] fix: inclusion of an unbounded polyhedron must return
 False, not raise

---
 pympc/geometry/polyhedron.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index ffb36bd..38b8780 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -656,8 +656,9 @@ class Polyhedron(object):
         included = True
         for i in range(A2.shape[0]):
             sol = linear_program(-A2[i], P1.A, P1.b)
-            penetration = - sol['min'] - b2[i]
-            if penetration > tol:
+
+            # P1 not empty and no minimum, then P1 is unbounded in this direction
+            if sol['min'] is None or - sol['min'] - b2[i] > tol:
                 included = False
                 break
 
-- 
2.43.0


From efbf26976d623131d3650d37bea26f8961ad7424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:53 +0000
Subject: [PATCH 11/21] fix: inclusion of the empty polyhedron must return
 True, not raise

---
 pympc/geometry/polyhedron.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 38b8780..40ed140 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -652,6 +652,10 @@ class Polyhedron(object):
         A2 = np.vstack((P2.A, P2.C, -P2.C))
         b2 = np.concatenate((P2.b, P2.d, -P2.d))
 
+        # the empty set is included in any other set
+        if P1.empty:
+            return True
+
         # check inclusion, one facet per time
         included = True
         for i in range(A2.shape[0]):
-- 
2.43.0


From 25923392e3a6a984b70a7462cda51cf8e29262bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:53 +0000
Subject: [PATCH 12/21] fix: comparing the rows of two matrices must not
 normalize them in place

---
 pympc/geometry/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pympc/geometry/utils.py b/pympc/geometry/utils.py
index ca1dc4a..dea5670 100644
--- a/pympc/geometry/utils.py
+++ b/pympc/geometry/utils.py
@@ -117,9 +117,8 @@ def same_rows(A, B, normalize=True):
 
     # if required, normalize
     if normalize:
-        for i in range(A.shape[0]):
-            A[i] = A[i] / np.linalg.norm(A[i])
-            B[i] = B[i] / np.linalg.norm(B[i])
+        A = A / np.linalg.norm(A, axis=1, keepdims=True)
+        B = B / np.linalg.norm(B, axis=1, keepdims=True)
 
     # check one row per time
     for a in A:
-- 
2.43.0


From 12f2fc780992f9b2ea065db372c4aeed6a5b19a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:53 +0000
Subject: [PATCH 13/21] fix: piecewise-affine system must not replace the
 elements of the user's list

---
 pympc/dynamics/discrete_time_systems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pympc/dynamics/discrete_time_systems.py b/pympc/dynamics/discrete_time_systems.py
index 7c59708..5238be3 100644
--- a/pympc/dynamics/discrete_time_systems.py
+++ b/pympc/dynamics/discrete_time_systems.py
@@ -473,7 +473,8 @@ class PieceWiseAffineSystem(object):
         if list(nxu)[0] != self.nx + self.nu:
             raise ValueError('the domains and the affine systems must have coherent dimensions.')
 
-        # make instances of LinearSystem instances of AffineSystem
+        # make instances of LinearSystem instances of AffineSystem (without modifying the list of the user)
+        affine_systems = list(affine_systems)
         for i, S in enumerate(affine_systems):
             if isinstance(S, LinearSystem):
                 c = np.zeros(self.nx)
-- 
2.43.0


From a48e6d691bee2c50eaf849fcccbe1b30c87b5a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:49 +0000
Subject: [PATCH 14/21] fix: inequalities constant on the affine hull must not
 spoil radius, center and vertices

---
 pympc/geometry/polyhedron.py | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 40ed140..ca179c9 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -525,6 +525,23 @@ class Polyhedron(object):
 
         return E, f, N, R
 
+    def _constant_inequalities(self, E):
+        """
+        Given the left-hand side E of the inequalities after the equalities have been removed, finds the inequalities that do not depend on the variables, up to roundoff errors (e.g., for the facet of a polyhedron, the inequality that is also an equality).
+
+        Arguments
+        ----------
+        E : numpy.ndarray
+            Left-hand side of the inequalities (one row per each row of self.A).
+
+        Returns
+        ----------
+        numpy.ndarray of bool
+            True for the constant inequalities.
+        """
+
+        return np.linalg.norm(E, axis=1) <= 1.e-10 * np.linalg.norm(self.A, axis=1)
+
     @property
     def empty(self):
         """
@@ -775,13 +792,19 @@ class Polyhedron(object):
             A = self.A
             b = self.b
 
+        # inequalities constant in z do not limit the ball, unless they are violated (empty polyhedron, negative radius)
+        constant = self._constant_inequalities(A)
+        keep = np.logical_not(constant) | (b < -1.e-7)
+        if not np.any(keep):
+            return None, None
+        A_row_norm = np.where(constant, 1., np.linalg.norm(A, axis=1))
+
         # assemble linear program
         f_lp = np.concatenate((np.zeros(A.shape[1]), np.ones(1)))
-        A_row_norm = np.reshape(np.linalg.norm(A, axis=1), (A.shape[0], 1))
-        A_lp = np.hstack((A, -A_row_norm))
+        A_lp = np.column_stack((A, -A_row_norm))[keep]
 
         # solve and reshape result
-        sol = linear_program(f_lp, A_lp, b)
+        sol = linear_program(f_lp, A_lp, b[keep])
         radius = sol['min']
         center = sol['argmin']
         if radius is not None:
@@ -831,6 +854,10 @@ class Polyhedron(object):
             b = self.b
             center = self.center
 
+        # inequalities that are constant (and verified) do not define vertices
+        varying = np.logical_not(self._constant_inequalities(A))
+        A, b = A[varying], b[varying]
+
         # handle 1d cases
         if A.shape[1] == 1:
             p = Polyhedron(A, b)
-- 
2.43.0


From 2533c043076b49e366f6fa9aa07f0dddef70a7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:27 +0000
Subject: [PATCH 15/21] fix: the value function can be plotted also when the
 grid has unfeasible points

---
 pympc/control/controllers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pympc/control/controllers.py b/pympc/control/controllers.py
index b7f7be4..7c944b8 100644
--- a/pympc/control/controllers.py
+++ b/pympc/control/controllers.py
@@ -240,7 +240,7 @@ class ModelPredictiveController(object):
         X, Y = np.meshgrid(x, y)
 
         # evaluate grid
-        zs = np.array([self.explicit_solution.V(np.array([x,y])) for x,y in zip(np.ravel(X), np.ravel(Y))])
+        zs = np.array([self.explicit_solution.V(np.array([x,y])) for x,y in zip(np.ravel(X), np.ravel(Y))], dtype=float)
         Z = zs.reshape(X.shape)
 
         # plot
-- 
2.43.0


From 33a14c65ea7e1a5dc9b5d6e104fa8840bd9c03eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:58 +0000
Subject: [PATCH 16/21] fix: MPC for linear systems ignored the equalities of
 stage and terminal constraints

---
 pympc/control/controllers.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/pympc/control/controllers.py b/pympc/control/controllers.py
index 7c944b8..69a59a8 100644
--- a/pympc/control/controllers.py
+++ b/pympc/control/controllers.py
@@ -4,6 +4,7 @@ import matplotlib.pyplot as plt
 from scipy.linalg import block_diag
 
 # internal inputs
+from pympc.geometry.polyhedron import Polyhedron
 from pympc.dynamics.discrete_time_systems import AffineSystem, PieceWiseAffineSystem
 from pympc.optimization.parametric_programs import MultiParametricQuadraticProgram, MultiParametricMixedIntegerQuadraticProgram
 from pympc.optimization.programs import linear_program
@@ -679,6 +680,29 @@ class HybridModelPredictiveController(object):
         """
         return condense_optimal_control_problem(self.S, self.Q, self.R, self.P, self.X_N, mode_sequence)
 
+def inequality_form(P):
+    """
+    Restates the equalities of the polyhedron P := {x | A x <= b, C x = d} as pairs of inequalities.
+
+    Arguments
+    ----------
+    P : instance of Polyhedron
+        Polyhedron with (or without) equalities.
+
+    Returns
+    ----------
+    instance of Polyhedron
+        The same set described only by inequalities.
+    """
+
+    if P.C.shape[0] == 0:
+        return P
+
+    return Polyhedron(
+        np.vstack((P.A, P.C, -P.C)),
+        np.concatenate((P.b, P.d, -P.d))
+        )
+
 def condense_optimal_control_problem(S, Q, R, P, X_N, mode_sequence):
     """
     For a given mode sequences, condenses the optimal control problem for a PWA affine system
@@ -731,7 +755,8 @@ def condense_optimal_control_problem(S, Q, R, P, X_N, mode_sequence):
     g = .5 * c_bar.dot(Q_bar).dot(c_bar)
 
     # stack constraint matrices
-    D_sequence = [S.domains[m]for m in mode_sequence]
+    D_sequence = [inequality_form(S.domains[m]) for m in mode_sequence]
+    X_N = inequality_form(X_N)
     F_bar = block_diag(*[D.A[:,:S.nx] for D in D_sequence] + [X_N.A])
     G_bar = block_diag(*[D.A[:,S.nx:] for D in D_sequence])
     G_bar = np.vstack((
-- 
2.43.0


From b082e6b8febd7fb6f519203883351f135965d565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:58 +0000
Subject: [PATCH 17/21] fix: hybrid MPC ignored the equalities of domains and
 terminal set

---
 pympc/control/controllers.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pympc/control/controllers.py b/pympc/control/controllers.py
index 69a59a8..e12cc30 100644
--- a/pympc/control/controllers.py
+++ b/pympc/control/controllers.py
@@ -382,13 +382,14 @@ class HybridModelPredictiveController(object):
 
         # initialize list of bigMs
         gamma = []
+        domains = [inequality_form(D) for D in self.S.domains]
 
         # outer loop over the number of affine systems
-        for i, D_i in enumerate(self.S.domains):
+        for i, D_i in enumerate(domains):
             gamma_i = []
 
             # inner loop over the number of affine systems
-            for j, D_j in enumerate(self.S.domains):
+            for j, D_j in enumerate(domains):
                 gamma_ij = []
 
                 # solve one LP for each inequality of the ith domain
@@ -464,7 +465,8 @@ class HybridModelPredictiveController(object):
         nx = self.S.nx
         nu = self.S.nu
         s  = self.S.nm
-        n_ineq = sum([D.A.shape[0] for D in self.S.domains])
+        domains = [inequality_form(D) for D in self.S.domains]
+        n_ineq = sum([D.A.shape[0] for D in domains])
 
         # build blocks
         E = dict()
@@ -473,7 +475,7 @@ class HybridModelPredictiveController(object):
             np.zeros((nx*s, nx)),                             # Equation 2
             np.vstack([-S.A for S in self.S.affine_systems]), # Equation 3
             np.vstack([S.A for S in self.S.affine_systems]),  # Equation 4
-            np.vstack([D.A[:,:nx] for D in self.S.domains]),  # Equation 5
+            np.vstack([D.A[:,:nx] for D in domains]),         # Equation 5
             np.zeros((2, nx))                                 # Equation 6
             ))
         E['u'] = np.vstack((
@@ -481,7 +483,7 @@ class HybridModelPredictiveController(object):
             np.zeros((nx*s, nu)),                             # Equation 2
             np.vstack([-S.B for S in self.S.affine_systems]), # Equation 3
             np.vstack([S.B for S in self.S.affine_systems]),  # Equation 4
-            np.vstack([D.A[:,nx:] for D in self.S.domains]),  # Equation 5
+            np.vstack([D.A[:,nx:] for D in domains]),         # Equation 5
             np.zeros((2, nu))                                 # Equation 6
             ))
         E['z'] = np.vstack((
@@ -505,7 +507,7 @@ class HybridModelPredictiveController(object):
             np.zeros(nx*s),                                        # Equation 2
             np.concatenate([S.c for S in self.S.affine_systems]),  # Equation 3
             np.concatenate([-S.c for S in self.S.affine_systems]), # Equation 4
-            np.concatenate([D.b for D in self.S.domains]),         # Equation 5
+            np.concatenate([D.b for D in domains]),                # Equation 5
             np.array([1.,-1.])                                     # Equation 6
             ))
 
@@ -561,24 +563,25 @@ class HybridModelPredictiveController(object):
         """
 
         # build blocks
+        X_N = inequality_form(self.X_N)
         E_bar = dict()
-        E_bar['x'] = block_diag(*[E['x']]*self.N + [self.X_N.A])
+        E_bar['x'] = block_diag(*[E['x']]*self.N + [X_N.A])
         E_bar['u'] = block_diag(*[E['u']]*self.N)
         E_bar['u'] = np.vstack((
             E_bar['u'],
-            np.zeros((self.X_N.A.shape[0], E_bar['u'].shape[1]))
+            np.zeros((X_N.A.shape[0], E_bar['u'].shape[1]))
         ))
         E_bar['z'] = block_diag(*[E['z']]*self.N)
         E_bar['z'] = np.vstack((
             E_bar['z'],
-            np.zeros((self.X_N.A.shape[0], E_bar['z'].shape[1]))
+            np.zeros((X_N.A.shape[0], E_bar['z'].shape[1]))
         ))
         E_bar['d'] = block_diag(*[E['d']]*self.N)
         E_bar['d'] = np.vstack((
             E_bar['d'],
-            np.zeros((self.X_N.A.shape[0], E_bar['d'].shape[1]))
+            np.zeros((X_N.A.shape[0], E_bar['d'].shape[1]))
         ))
-        E_bar['0'] = np.concatenate([E['0']]*self.N + [self.X_N.b])
+        E_bar['0'] = np.concatenate([E['0']]*self.N + [X_N.b])
 
         return E_bar
 
-- 
2.43.0


From 5d4c12b0d969272479065a67eb971b7ccba450f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:58 +0000
Subject: [PATCH 18/21] fix: mcais ignored the equalities of the constraint set
 along the trajectory

---
 pympc/dynamics/discrete_time_systems.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pympc/dynamics/discrete_time_systems.py b/pympc/dynamics/discrete_time_systems.py
index 5238be3..031f1d7 100644
--- a/pympc/dynamics/discrete_time_systems.py
+++ b/pympc/dynamics/discrete_time_systems.py
@@ -145,6 +145,10 @@ class LinearSystem(object):
             Determinedness index.
         """
 
+        # equalities are not supported
+        if D.C.shape[0] > 0:
+            raise ValueError('lower-dimensional constraint set, cannot derive maximal constraint-admissible set.')
+
         # closed loop dynamics
         A_cl = self.A + self.B.dot(K)
 
@@ -630,6 +634,8 @@ def mcais(A, X, verbose=False):
     [nc, nx] = X.A.shape
     if not X.contains(np.zeros((nx, 1))):
         raise ValueError('the origin is not contained in the constraint set, cannot derive maximal constraint-admissible set.')
+    if X.C.shape[0] > 0:
+        raise ValueError('lower-dimensional constraint set, cannot derive maximal constraint-admissible set.')
     if not X.bounded:
         raise ValueError('unbounded constraint set, cannot derive maximal constraint-admissible set.')
 
-- 
2.43.0


From d5b740415bd5e0ab80b675e072f94cf70bb70083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:14 +0000
Subject: [PATCH 19/21] fix: is_well_posed raised if two domains share an
 unbounded region

---
 pympc/dynamics/discrete_time_systems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pympc/dynamics/discrete_time_systems.py b/pympc/dynamics/discrete_time_systems.py
index 031f1d7..b75b32f 100644
--- a/pympc/dynamics/discrete_time_systems.py
+++ b/pympc/dynamics/discrete_time_systems.py
@@ -580,8 +580,8 @@ class PieceWiseAffineSystem(object):
             for j in range(i+1, self.nm):
                 Dij = Di.intersection(self.domains[j])
 
-                # check the Chebyshev radius of the intersection
-                if Dij.radius > tol:
+                # check the Chebyshev radius of the intersection (None if it contains arbitrarily large balls)
+                if Dij.radius is None or Dij.radius > tol:
                     return False
 
         return True
-- 
2.43.0


From b980be1c14bb59699650c2ca5b964e20b5c9df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:06 +0000
Subject: [PATCH 20/21] fix: equalities restated as inequality pairs need room
 for rounding

---
 pympc/control/controllers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pympc/control/controllers.py b/pympc/control/controllers.py
index e12cc30..9c72be6 100644
--- a/pympc/control/controllers.py
+++ b/pympc/control/controllers.py
@@ -683,14 +683,17 @@ class HybridModelPredictiveController(object):
         """
         return condense_optimal_control_problem(self.S, self.Q, self.R, self.P, self.X_N, mode_sequence)
 
-def inequality_form(P):
+def inequality_form(P, tol=1.e-9):
     """
     Restates the equalities of the polyhedron P := {x | A x <= b, C x = d} as pairs of inequalities.
+    The two inequalities of a pair are slightly relaxed: with no room at all between them, the rounding errors of the condensation can make them incompatible, and feasible programs are then reported as unfeasible.
 
     Arguments
     ----------
     P : instance of Polyhedron
         Polyhedron with (or without) equalities.
+    tol : float
+        Relaxation of the equalities.
 
     Returns
     ----------
@@ -703,7 +706,7 @@ def inequality_form(P):
 
     return Polyhedron(
         np.vstack((P.A, P.C, -P.C)),
-        np.concatenate((P.b, P.d, -P.d))
+        np.concatenate((P.b, P.d + tol, tol - P.d))
         )
 
 def condense_optimal_control_problem(S, Q, R, P, X_N, mode_sequence):
-- 
2.43.0


From a095260215154b1b80cbe8c995a4de7e28626bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:51 +0000
Subject: [PATCH 21/21] fix: feasible QPs with equalities could be reported as
 unfeasible by pnnls

---
 pympc/optimization/solvers/pnnls.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pympc/optimization/solvers/pnnls.py b/pympc/optimization/solvers/pnnls.py
index c8b7d44..7b97d31 100644
--- a/pympc/optimization/solvers/pnnls.py
+++ b/pympc/optimization/solvers/pnnls.py
@@ -198,10 +198,10 @@ def quadratic_program(H, f, A, b, C=None, d=None, tol=1.e-7):
     else:
         n_eq = 0
 
-    # state equalities as inequalities
+    # stack inequalities and equalities (the multipliers of the latter are free, hence no need to split these in pairs of inequalities)
     if n_eq > 0:
-        AC = np.vstack((A, C, -C))
-        bd = np.concatenate((b, d, -d))
+        AC = np.vstack((A, C))
+        bd = np.concatenate((b, d))
     else:
         AC = A
         bd = b
@@ -215,7 +215,11 @@ def quadratic_program(H, f, A, b, C=None, d=None, tol=1.e-7):
     gamma = np.ones(1)
     A_nnls = np.vstack((- M.T, - m))
     b_nnls = np.concatenate((np.zeros(n_x), gamma))
-    y, r = nnls(A_nnls, b_nnls)
+    if n_eq > 0:
+        v, u, r = pnnls(A_nnls[:, :n_ineq], A_nnls[:, n_ineq:], b_nnls)
+        y = np.concatenate((v, u))
+    else:
+        y, r = nnls(A_nnls, b_nnls)
 
     # initialize output
     sol = {
@@ -234,8 +238,6 @@ def quadratic_program(H, f, A, b, C=None, d=None, tol=1.e-7):
         sol['min'] = .5 * sol['argmin'].dot(H).dot(sol['argmin']) + f.dot(sol['argmin'])
         sol['active_set'] = sorted(np.where(sol['multiplier_inequality'] > tol)[0])
         if n_eq > 0:
-            mul_eq_pos = lam[n_ineq:n_ineq+n_eq]
-            mul_eq_neg = - lam[n_ineq+n_eq:n_ineq+2*n_eq]
-            sol['multiplier_equality'] = mul_eq_pos + mul_eq_neg
+            sol['multiplier_equality'] = lam[n_ineq:]
 
     return sol
\ No newline at end of file
-- 
2.43.0

