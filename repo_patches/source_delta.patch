From d0cb8b084617f91c6a1cca08e701ff436a7e3a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 01/46] fix: ComplexCircle exp drops imaginary parts, dist/log
 are NaN for close points

---
 src/pymanopt/manifolds/complex_circle.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pymanopt/manifolds/complex_circle.py b/src/pymanopt/manifolds/complex_circle.py
index 629b13b..e3c11d4 100644
--- a/src/pymanopt/manifolds/complex_circle.py
+++ b/src/pymanopt/manifolds/complex_circle.py
@@ -34,7 +34,8 @@ class ComplexCircle(RiemannianSubmanifold):
         return np.linalg.norm(tangent_vector)
 
     def dist(self, point_a, point_b):
-        return np.linalg.norm(np.arccos((point_a.conj() * point_b).real))
+        inner = np.clip((point_a.conj() * point_b).real, -1, 1)
+        return np.linalg.norm(np.arccos(inner))
 
     @property
     def typical_dist(self):
@@ -58,7 +59,7 @@ class ComplexCircle(RiemannianSubmanifold):
         tangent_vector_abs = np.abs(tangent_vector)
         mask = tangent_vector_abs > 0
         not_mask = np.logical_not(mask)
-        tangent_vector_new = np.zeros(self._dimension)
+        tangent_vector_new = np.zeros(self._dimension, dtype=complex)
         tangent_vector_new[mask] = point[mask] * np.cos(
             tangent_vector_abs[mask]
         ) + tangent_vector[mask] * (
@@ -73,9 +74,10 @@ class ComplexCircle(RiemannianSubmanifold):
     def log(self, point_a, point_b):
         v = self.projection(point_a, point_b - point_a)
         abs_v = np.abs(v)
-        di = np.arccos((point_a.conj() * point_b).real)
-        factors = di / abs_v
-        factors[di <= 1e-6] = 1
+        di = np.arccos(np.clip((point_a.conj() * point_b).real, -1, 1))
+        factors = np.ones_like(di)
+        mask = di > 1e-6
+        factors[mask] = di[mask] / abs_v[mask]
         return v * factors
 
     def random_point(self):
-- 
2.43.0


From 499c2db0eb21c8d356ebc28a102069b471283f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 02/46] fix: Oblique dist/log are NaN for coinciding or
 antipodal columns

---
 src/pymanopt/manifolds/oblique.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pymanopt/manifolds/oblique.py b/src/pymanopt/manifolds/oblique.py
index 16fd33e..13e9fc7 100644
--- a/src/pymanopt/manifolds/oblique.py
+++ b/src/pymanopt/manifolds/oblique.py
@@ -37,8 +37,7 @@ class Oblique(RiemannianSubmanifold):
         return np.linalg.norm(tangent_vector)
 
     def dist(self, point_a, point_b):
-        XY = (point_a * point_b).sum(0)
-        XY[XY > 1] = 1
+        XY = np.clip((point_a * point_b).sum(0), -1, 1)
         return np.linalg.norm(np.arccos(XY))
 
     def projection(self, point, vector):
@@ -66,7 +65,7 @@ class Oblique(RiemannianSubmanifold):
 
     def log(self, point_a, point_b):
         vector = self.projection(point_a, point_b - point_a)
-        distances = np.arccos((point_a * point_b).sum(0))
+        distances = np.arccos(np.clip((point_a * point_b).sum(0), -1, 1))
         norms = np.sqrt((vector**2).sum(0)).real
         # Try to avoid zero-division when both distances and norms are almost
         # zero.
-- 
2.43.0


From f9ac68a7ced51eb98b798f41ce06c0cf5dbcb165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 03/46] fix: to_tangent_space ignores projections overridden in
 subclasses

---
 src/pymanopt/manifolds/euclidean.py         | 3 ++-
 src/pymanopt/manifolds/positive_definite.py | 3 ++-
 src/pymanopt/manifolds/sphere.py            | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pymanopt/manifolds/euclidean.py b/src/pymanopt/manifolds/euclidean.py
index 5a78720..4b63b01 100644
--- a/src/pymanopt/manifolds/euclidean.py
+++ b/src/pymanopt/manifolds/euclidean.py
@@ -33,7 +33,8 @@ class _Euclidean(RiemannianSubmanifold):
     def projection(self, point, vector):
         return vector
 
-    to_tangent_space = projection
+    def to_tangent_space(self, point, vector):
+        return self.projection(point, vector)
 
     def euclidean_to_riemannian_hessian(
         self, point, euclidean_gradient, euclidean_hessian, tangent_vector
diff --git a/src/pymanopt/manifolds/positive_definite.py b/src/pymanopt/manifolds/positive_definite.py
index b30cca1..9673e76 100644
--- a/src/pymanopt/manifolds/positive_definite.py
+++ b/src/pymanopt/manifolds/positive_definite.py
@@ -49,7 +49,8 @@ class _PositiveDefiniteBase(RiemannianSubmanifold):
     def projection(self, point, vector):
         return multiherm(vector)
 
-    to_tangent_space = projection
+    def to_tangent_space(self, point, vector):
+        return self.projection(point, vector)
 
     def euclidean_to_riemannian_gradient(self, point, euclidean_gradient):
         return self.projection(point, point @ euclidean_gradient @ point)
diff --git a/src/pymanopt/manifolds/sphere.py b/src/pymanopt/manifolds/sphere.py
index 74871a6..80e5467 100644
--- a/src/pymanopt/manifolds/sphere.py
+++ b/src/pymanopt/manifolds/sphere.py
@@ -32,7 +32,8 @@ class _SphereBase(RiemannianSubmanifold):
     def projection(self, point, vector):
         return vector - self.inner_product(point, point, vector) * point
 
-    to_tangent_space = projection
+    def to_tangent_space(self, point, vector):
+        return self.projection(point, vector)
 
     def weingarten(self, point, tangent_vector, normal_vector):
         return (
-- 
2.43.0


From a039e476e0fcaccb94cb130c93da93bb40e7d3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 04/46] fix: UnitaryGroup projection is not skew-Hermitian and
 its metric is complex-valued

---
 src/pymanopt/manifolds/group.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pymanopt/manifolds/group.py b/src/pymanopt/manifolds/group.py
index 1c4f24d..831d4ee 100644
--- a/src/pymanopt/manifolds/group.py
+++ b/src/pymanopt/manifolds/group.py
@@ -9,7 +9,6 @@ from pymanopt.tools.multi import (
     multiherm,
     multilogm,
     multiqr,
-    multiskew,
     multiskewh,
     multitransp,
 )
@@ -32,7 +31,7 @@ class _UnitaryBase(RiemannianSubmanifold):
             tangent_vector_a.conj(),
             tangent_vector_b,
             axes=tangent_vector_a.ndim,
-        )
+        ).real
 
     def norm(self, point, tangent_vector):
         return np.linalg.norm(tangent_vector)
@@ -45,7 +44,7 @@ class _UnitaryBase(RiemannianSubmanifold):
         return self.norm(point_a, self.log(point_a, point_b))
 
     def projection(self, point, vector):
-        return multiskew(multihconj(point) @ vector)
+        return multiskewh(multihconj(point) @ vector)
 
     def to_tangent_space(self, point, vector):
         return multiskewh(vector)
-- 
2.43.0


From 595d66f14980d1b3d2ab374e8ae6bed48abe8ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 05/46] fix: Elliptope projection does not map to the
 horizontal space

---
 src/pymanopt/manifolds/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/psd.py b/src/pymanopt/manifolds/psd.py
index f01dc72..d8724f6 100644
--- a/src/pymanopt/manifolds/psd.py
+++ b/src/pymanopt/manifolds/psd.py
@@ -233,7 +233,7 @@ class Elliptope(Manifold, RetrAsExpMixin):
         eta = self._project_rows(point, vector)
         YtY = point.T @ point
         AS = point.T @ eta - vector.T @ point
-        Omega = scipy.linalg.solve_continuous_lyapunov(YtY, -AS)
+        Omega = scipy.linalg.solve_continuous_lyapunov(YtY, AS)
         return eta - point @ (Omega - Omega.T) / 2
 
     to_tangent_space = projection
-- 
2.43.0


From ea02cd59de9e96170d15671ff8c1c69a57eadf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 06/46] fix: PoincareBall log is NaN for identical points

---
 src/pymanopt/manifolds/hyperbolic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/hyperbolic.py b/src/pymanopt/manifolds/hyperbolic.py
index f343146..e038eae 100644
--- a/src/pymanopt/manifolds/hyperbolic.py
+++ b/src/pymanopt/manifolds/hyperbolic.py
@@ -144,7 +144,9 @@ class PoincareBall(Manifold):
         w = self.mobius_addition(-point_a, point_b)
         norm_w = np.linalg.norm(w, axis=-1, keepdims=True)
         factor = self.conformal_factor(point_a)
-        return np.arctanh(norm_w) * w / norm_w / (factor / 2)
+        return (
+            np.arctanh(norm_w) * w / (norm_w + (norm_w == 0)) / (factor / 2)
+        )
 
     def pair_mean(self, point_a, point_b):
         return self.exp(point_a, self.log(point_a, point_b) / 2)
-- 
2.43.0


From 6ba3e8763518c5c94f37f8d10df6abc1237ad386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 07/46] fix: FixedRankEmbedded projection of factored ambient
 vectors with non-symmetric core

---
 src/pymanopt/manifolds/fixed_rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/fixed_rank.py b/src/pymanopt/manifolds/fixed_rank.py
index 74901c3..3e2c4f8 100644
--- a/src/pymanopt/manifolds/fixed_rank.py
+++ b/src/pymanopt/manifolds/fixed_rank.py
@@ -85,7 +85,7 @@ class FixedRankEmbedded(RiemannianSubmanifold):
 
     def _apply_ambient_transpose(self, vector, matrix):
         if isinstance(vector, (list, tuple)):
-            return vector[2] @ vector[1] @ vector[0].T @ matrix
+            return vector[2] @ vector[1].T @ vector[0].T @ matrix
         return vector.T @ matrix
 
     def projection(self, point, vector):
-- 
2.43.0


From 5552dbfd987bf4681a9d5f819234f13712c8b623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 08/46] fix: Product does not embed tangent vectors of its
 factors

---
 src/pymanopt/manifolds/product.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pymanopt/manifolds/product.py b/src/pymanopt/manifolds/product.py
index 28f93b1..89af0ee 100644
--- a/src/pymanopt/manifolds/product.py
+++ b/src/pymanopt/manifolds/product.py
@@ -130,6 +130,19 @@ class Product(Manifold):
             point
         )
 
+    def embedding(self, point, tangent_vector):
+        # Points of manifolds with a compound point layout are represented in
+        # factored form. The embedding of their tangent vectors does not match
+        # the layout of points so leave these components untouched.
+        return _ProductTangentVector(
+            [
+                manifold.embedding(point[k], tangent_vector[k])
+                if manifold.point_layout == 1
+                else tangent_vector[k]
+                for k, manifold in enumerate(self.manifolds)
+            ]
+        )
+
 
 class _ProductTangentVector(ndarraySequenceMixin, list):
     @return_as_class_instance(unpack=False)
-- 
2.43.0


From 525ef415047e90635001bdefa781d5161028be6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:46 +0000
Subject: [PATCH 09/46] fix: user-supplied derivatives on Product manifolds are
 not usable as tangent vectors

---
 src/pymanopt/core/problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/core/problem.py b/src/pymanopt/core/problem.py
index bb71ca3..f73cb1d 100644
--- a/src/pymanopt/core/problem.py
+++ b/src/pymanopt/core/problem.py
@@ -7,6 +7,7 @@ import numpy as np
 
 from ..autodiff import Function
 from ..manifolds.manifold import Manifold
+from ..manifolds.product import _ProductTangentVector
 
 
 class Problem:
@@ -162,7 +163,7 @@ class Problem:
                     group = return_values[i : i + group_size]
                 groups.append(group)
                 i += group_size
-            return groups
+            return _ProductTangentVector(groups)
 
         return wrapper
 
-- 
2.43.0


From 2ea9eaf461bd59790f41dad57ce82917e5cd1822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 10/46] fix: Elliptope does not fall back to the retraction for
 exp

---
 src/pymanopt/manifolds/psd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/psd.py b/src/pymanopt/manifolds/psd.py
index d8724f6..982fddd 100644
--- a/src/pymanopt/manifolds/psd.py
+++ b/src/pymanopt/manifolds/psd.py
@@ -161,7 +161,7 @@ class PSDFixedRankComplex(_PSDFixedRank):
         ) + 1j * np.random.normal(size=(self._n, self._k))
 
 
-class Elliptope(Manifold, RetrAsExpMixin):
+class Elliptope(RetrAsExpMixin, Manifold):
     r"""Manifold of fixed-rank PSD matrices with unit diagonal elements.
 
     Args:
-- 
2.43.0


From 773c64d16f79581c471c1b8ce1d64eff67769613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:21 +0000
Subject: [PATCH 11/46] fix: NelderMead rejects initial simplices of the
 correct size and accepts all others

---
 src/pymanopt/optimizers/nelder_mead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index 609cc83..4801195 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -100,7 +100,7 @@ class NelderMead(Optimizer):
             x = [manifold.random_point() for _ in range(num_points)]
         elif (
             tools.is_sequence(initial_point)
-            and len(initial_point) != num_points
+            and len(initial_point) == num_points
         ):
             x = initial_point
         else:
-- 
2.43.0


From 0f8b62eb6a5d2aef6f79905431fb5bef404edd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 12/46] fix: NelderMead cannot compute centroids on product
 manifolds

---
 src/pymanopt/optimizers/nelder_mead.py | 40 +++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index 4801195..d292388 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -11,19 +11,45 @@ from pymanopt.optimizers.steepest_descent import SteepestDescent
 def compute_centroid(manifold, points):
     """Compute the centroid of `points` on the `manifold` as Karcher mean."""
 
+    point_layout = manifold.point_layout
+
+    def group(values):
+        # Undo the flattening of points by the problem class.
+        if isinstance(point_layout, int):
+            return values[0] if point_layout == 1 else values
+        groups = []
+        i = 0
+        for group_size in point_layout:
+            groups.append(
+                values[i] if group_size == 1 else values[i : i + group_size]
+            )
+            i += group_size
+        return groups
+
+    def flatten(tangent_vector):
+        if isinstance(point_layout, int):
+            return tangent_vector
+        values = []
+        for group_size, component in zip(point_layout, tangent_vector):
+            if group_size == 1:
+                values.append(component)
+            else:
+                values.extend(component)
+        return values
+
     @pymanopt.function.numpy(manifold)
     def objective(*y):
-        if manifold.num_values == 1:
-            (y,) = y
+        y = group(y)
         return sum([manifold.dist(y, point) ** 2 for point in points]) / 2
 
     @pymanopt.function.numpy(manifold)
     def gradient(*y):
-        if manifold.num_values == 1:
-            (y,) = y
-        return -sum(
-            [manifold.log(y, point) for point in points],
-            manifold.zero_vector(y),
+        y = group(y)
+        return flatten(
+            -sum(
+                [manifold.log(y, point) for point in points],
+                manifold.zero_vector(y),
+            )
         )
 
     optimizer = SteepestDescent(max_iterations=15, verbosity=0)
-- 
2.43.0


From f5b54d394d188cd8d4f94c4691da869da273e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 13/46] fix: NelderMead and ParticleSwarm leak
 problem-dependent defaults into later runs

---
 src/pymanopt/optimizers/nelder_mead.py    |  6 ++++--
 src/pymanopt/optimizers/particle_swarm.py | 21 ++++++++++++---------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index d292388..089ca5f 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -88,8 +88,8 @@ class NelderMead(Optimizer):
     ):
         super().__init__(*args, **kwargs)
 
-        self._max_cost_evaluations = max_cost_evaluations
-        self._max_iterations = max_iterations
+        self._requested_max_cost_evaluations = max_cost_evaluations
+        self._requested_max_iterations = max_iterations
         self._reflection = reflection
         self._expansion = expansion
         self._contraction = contraction
@@ -115,8 +115,10 @@ class NelderMead(Optimizer):
         # dimension of the manifold to limit the parameter range, so we have to
         # defer proper initialization until this point.
         dim = manifold.dim
+        self._max_cost_evaluations = self._requested_max_cost_evaluations
         if self._max_cost_evaluations is None:
             self._max_cost_evaluations = max(1000, 2 * dim)
+        self._max_iterations = self._requested_max_iterations
         if self._max_iterations is None:
             self._max_iterations = max(2000, 4 * dim)
 
diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index 9f9fb56..c9ceb7a 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -33,8 +33,8 @@ class ParticleSwarm(Optimizer):
     ):
         super().__init__(*args, **kwargs)
 
-        self._max_cost_evaluations = max_cost_evaluations
-        self._max_iterations = max_iterations
+        self._requested_max_cost_evaluations = max_cost_evaluations
+        self._requested_max_iterations = max_iterations
         self._population_size = population_size
         self._nostalgia = nostalgia
         self._social = social
@@ -60,27 +60,30 @@ class ParticleSwarm(Optimizer):
         # dimension of the manifold to limit the parameter range, so we have to
         # defer proper initialization until this point.
         dim = manifold.dim
+        self._max_cost_evaluations = self._requested_max_cost_evaluations
         if self._max_cost_evaluations is None:
             self._max_cost_evaluations = max(5000, 2 * dim)
+        self._max_iterations = self._requested_max_iterations
         if self._max_iterations is None:
             self._max_iterations = max(500, 4 * dim)
-        if self._population_size is None:
-            self._population_size = min(40, 10 * dim)
+        population_size = self._population_size
+        if population_size is None:
+            population_size = min(40, 10 * dim)
 
         # If no initial population x is given by the user, generate one at
         # random.
         if initial_point is None:
             x = [
                 manifold.random_point()
-                for i in range(int(self._population_size))
+                for i in range(int(population_size))
             ]
         elif tools.is_sequence(initial_point):
-            if len(initial_point) != self._population_size:
+            if len(initial_point) != population_size:
                 print(
                     "The population size was forced to the size of "
                     "the given initial population"
                 )
-                self._population_size = len(initial_point)
+                population_size = len(initial_point)
             x = initial_point
         else:
             raise ValueError("The initial population must be iterable")
@@ -97,7 +100,7 @@ class ParticleSwarm(Optimizer):
         # Compute cost for each particle xi.
         costs = np.array([objective(xi) for xi in x])
         fy = list(costs)
-        cost_evaluations = self._population_size
+        cost_evaluations = population_size
 
         # Identify the best particle and store its cost/position.
         imin = costs.argmin()
@@ -198,7 +201,7 @@ class ParticleSwarm(Optimizer):
                     if fy[i] < fbest:
                         fbest = fy[i]
                         xbest = xi
-            cost_evaluations += self._population_size
+            cost_evaluations += population_size
 
         return self._return_result(
             start_time=start_time,
-- 
2.43.0


From 504f87d9fa4bd7a66272422c0d4c67e82d2d17be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 14/46] fix: ParticleSwarm overwrites the caller's initial
 population

---
 src/pymanopt/optimizers/particle_swarm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index c9ceb7a..b8dfdaa 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -84,7 +84,7 @@ class ParticleSwarm(Optimizer):
                     "the given initial population"
                 )
                 population_size = len(initial_point)
-            x = initial_point
+            x = list(initial_point)
         else:
             raise ValueError("The initial population must be iterable")
 
-- 
2.43.0


From 3bbba71f5d150f16fc98400e41c6da1ef22653d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 15/46] fix: ParticleSwarm evaluates the cost at outdated
 particle positions

---
 src/pymanopt/optimizers/particle_swarm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index b8dfdaa..3424a29 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -187,7 +187,8 @@ class ParticleSwarm(Optimizer):
             # Update positions, personal bests and global best.
             for i, xi in enumerate(x):
                 # Compute new position of particle i.
-                x[i] = manifold.retraction(xi, v[i])
+                xi = manifold.retraction(xi, v[i])
+                x[i] = xi
                 # Compute new cost of particle i.
                 fxi = objective(xi)
 
-- 
2.43.0


From 6a8c9acfdd4df83eec570d0ccb2eba0444764b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:15 +0000
Subject: [PATCH 16/46] fix: SteepestDescent steps away from critical points
 and reports stale gradient norms

---
 src/pymanopt/optimizers/steepest_descent.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pymanopt/optimizers/steepest_descent.py b/src/pymanopt/optimizers/steepest_descent.py
index eabc4ef..36087ee 100644
--- a/src/pymanopt/optimizers/steepest_descent.py
+++ b/src/pymanopt/optimizers/steepest_descent.py
@@ -86,6 +86,7 @@ class SteepestDescent(Optimizer):
 
         # Initialize iteration counter and timer
         iteration = 0
+        step_size = np.nan
         start_time = time.time()
 
         while True:
@@ -105,14 +106,6 @@ class SteepestDescent(Optimizer):
                 gradient_norm=gradient_norm,
             )
 
-            # Descent direction is minus the gradient
-            desc_dir = -grad
-
-            # Perform line-search
-            step_size, x = line_searcher.search(
-                objective, manifold, x, desc_dir, cost, -(gradient_norm**2)
-            )
-
             stopping_criterion = self._check_stopping_criterion(
                 start_time=start_time,
                 step_size=step_size,
@@ -126,10 +119,18 @@ class SteepestDescent(Optimizer):
                     print("")
                 break
 
+            # Descent direction is minus the gradient
+            desc_dir = -grad
+
+            # Perform line-search
+            step_size, x = line_searcher.search(
+                objective, manifold, x, desc_dir, cost, -(gradient_norm**2)
+            )
+
         return self._return_result(
             start_time=start_time,
             point=x,
-            cost=objective(x),
+            cost=cost,
             iterations=iteration,
             stopping_criterion=stopping_criterion,
             cost_evaluations=iteration,
-- 
2.43.0


From 6f1b434913ea4a4cba384f3633dd2ffc37962bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:15 +0000
Subject: [PATCH 17/46] fix: TrustRegions yields NaN when started at a critical
 point

---
 src/pymanopt/optimizers/trust_regions.py | 26 ++++++++++++------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index ef199d0..67c5263 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -169,6 +169,19 @@ class TrustRegions(Optimizer):
         self._initialize_log()
 
         while True:
+            # ** CHECK STOPPING criteria
+            stopping_criterion = self._check_stopping_criterion(
+                start_time=start_time,
+                gradient_norm=norm_grad,
+                iteration=iteration,
+            )
+
+            if stopping_criterion:
+                if self._verbosity >= 1:
+                    print(stopping_criterion)
+                    print("")
+                break
+
             iteration += 1
 
             # *************************
@@ -416,19 +429,6 @@ class TrustRegions(Optimizer):
                 print(f"       f(x) : {fx:+e}     |grad| : {norm_grad:e}")
                 print(f"        rho : {rho:e}")
 
-            # ** CHECK STOPPING criteria
-            stopping_criterion = self._check_stopping_criterion(
-                start_time=start_time,
-                gradient_norm=norm_grad,
-                iteration=iteration,
-            )
-
-            if stopping_criterion:
-                if self._verbosity >= 1:
-                    print(stopping_criterion)
-                    print("")
-                break
-
         return self._return_result(
             start_time=start_time,
             point=x,
-- 
2.43.0


From 2e35fba7e9118d3aacc3294aabea33c7b3162c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:01 +0000
Subject: [PATCH 18/46] fix: reused line searchers start from negative or zero
 step sizes

---
 src/pymanopt/optimizers/line_search.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymanopt/optimizers/line_search.py b/src/pymanopt/optimizers/line_search.py
index 94dc725..b917650 100644
--- a/src/pymanopt/optimizers/line_search.py
+++ b/src/pymanopt/optimizers/line_search.py
@@ -35,7 +35,7 @@ class BackTrackingLineSearcher:
         # Compute the norm of the search direction
         norm_d = manifold.norm(x, d)
 
-        if self._oldf0 is not None:
+        if self._oldf0 is not None and self._oldf0 > f0:
             # Pick initial step size based on where we were last time.
             alpha = 2 * (f0 - self._oldf0) / df0
             # Look a little further
@@ -95,7 +95,7 @@ class AdaptiveLineSearcher:
     def search(self, objective, manifold, x, d, f0, df0):
         norm_d = manifold.norm(x, d)
 
-        if self._oldalpha is not None:
+        if self._oldalpha is not None and self._oldalpha > 0:
             alpha = self._oldalpha
         else:
             alpha = self._initial_step_size / norm_d
-- 
2.43.0


From 979cf406157468c67e9d06522bae1bd1234120ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:01 +0000
Subject: [PATCH 19/46] fix: conjugate gradient and line search divide by zero
 at critical points

---
 src/pymanopt/optimizers/conjugate_gradient.py | 12 ++++++++----
 src/pymanopt/optimizers/line_search.py        |  8 ++++++++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/pymanopt/optimizers/conjugate_gradient.py b/src/pymanopt/optimizers/conjugate_gradient.py
index b9fe6ef..befb18e 100644
--- a/src/pymanopt/optimizers/conjugate_gradient.py
+++ b/src/pymanopt/optimizers/conjugate_gradient.py
@@ -314,10 +314,14 @@ class ConjugateGradient(Optimizer):
 
             # Powell's restart strategy.
             oldgrad = manifold.transport(x, newx, grad)
-            orth_grads = (
-                manifold.inner_product(newx, oldgrad, Pnewgrad)
-                / newgradPnewgrad
-            )
+            if newgradPnewgrad > 0:
+                orth_grads = (
+                    manifold.inner_product(newx, oldgrad, Pnewgrad)
+                    / newgradPnewgrad
+                )
+            else:
+                # The gradient vanished so there is no direction to combine.
+                orth_grads = np.inf
             if abs(orth_grads) >= self._orth_value:
                 beta = 0
                 descent_direction = -Pnewgrad
diff --git a/src/pymanopt/optimizers/line_search.py b/src/pymanopt/optimizers/line_search.py
index b917650..b837411 100644
--- a/src/pymanopt/optimizers/line_search.py
+++ b/src/pymanopt/optimizers/line_search.py
@@ -35,6 +35,10 @@ class BackTrackingLineSearcher:
         # Compute the norm of the search direction
         norm_d = manifold.norm(x, d)
 
+        # There is nothing to search along a vanishing direction.
+        if norm_d == 0:
+            return 0, x
+
         if self._oldf0 is not None and self._oldf0 > f0:
             # Pick initial step size based on where we were last time.
             alpha = 2 * (f0 - self._oldf0) / df0
@@ -95,6 +99,10 @@ class AdaptiveLineSearcher:
     def search(self, objective, manifold, x, d, f0, df0):
         norm_d = manifold.norm(x, d)
 
+        # There is nothing to search along a vanishing direction.
+        if norm_d == 0:
+            return 0, x
+
         if self._oldalpha is not None and self._oldalpha > 0:
             alpha = self._oldalpha
         else:
-- 
2.43.0


From 93c016490f5abc6e46de284ea7fd1395a0451857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:01 +0000
Subject: [PATCH 20/46] fix: ParticleSwarm prints at verbosity 0

---
 src/pymanopt/optimizers/particle_swarm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index 3424a29..0bd8100 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -79,10 +79,11 @@ class ParticleSwarm(Optimizer):
             ]
         elif tools.is_sequence(initial_point):
             if len(initial_point) != population_size:
-                print(
-                    "The population size was forced to the size of "
-                    "the given initial population"
-                )
+                if self._verbosity >= 1:
+                    print(
+                        "The population size was forced to the size of "
+                        "the given initial population"
+                    )
                 population_size = len(initial_point)
             x = list(initial_point)
         else:
-- 
2.43.0


From b6c25b25eaac0864c8969f570af7863ac91a3ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:06 +0000
Subject: [PATCH 21/46] fix: HagerZhang rule divides by zero after a rejected
 step

---
 src/pymanopt/optimizers/conjugate_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymanopt/optimizers/conjugate_gradient.py b/src/pymanopt/optimizers/conjugate_gradient.py
index befb18e..2ab4bdc 100644
--- a/src/pymanopt/optimizers/conjugate_gradient.py
+++ b/src/pymanopt/optimizers/conjugate_gradient.py
@@ -91,6 +91,8 @@ def _beta_hager_zhang(
     Poldgrad = manifold.transport(x, newx, Pgrad)
     Pdiff = Pnewgrad - Poldgrad
     denominator = manifold.inner_product(newx, diff, descent_direction)
+    if denominator == 0:
+        return 0
     numerator = manifold.inner_product(newx, diff, Pnewgrad)
     numerator -= (
         2
-- 
2.43.0


From 559569ac14d6f6a5d32f125fc52fc7eb37e1f6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:46 +0000
Subject: [PATCH 22/46] fix: TrustRegions inner solver yields NaN once the
 residual vanishes

---
 src/pymanopt/optimizers/trust_regions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index 67c5263..5e7d02d 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -583,8 +583,10 @@ class TrustRegions(Optimizer):
             # criterion on the r's (the gradients) or on the z's (the
             # preconditioned gradients). [CGT2000], page 206, mentions both as
             # acceptable criteria.
-            if j >= mininner and norm_r <= norm_r0 * min(
-                norm_r0**theta, kappa
+            # An exactly vanishing residual leaves no search direction at all.
+            if norm_r == 0 or (
+                j >= mininner
+                and norm_r <= norm_r0 * min(norm_r0**theta, kappa)
             ):
                 # Residual is small enough to quit
                 if kappa < norm_r0**theta:
-- 
2.43.0


From 189b46e48448d3ce6b4d51bfd937d0884db97e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:54 +0000
Subject: [PATCH 23/46] fix: LiuStorey rule pairs tangent vectors of different
 points

---
 src/pymanopt/optimizers/conjugate_gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/optimizers/conjugate_gradient.py b/src/pymanopt/optimizers/conjugate_gradient.py
index 2ab4bdc..a8d0c3e 100644
--- a/src/pymanopt/optimizers/conjugate_gradient.py
+++ b/src/pymanopt/optimizers/conjugate_gradient.py
@@ -123,7 +123,7 @@ def _beta_liu_storey(
 ):
     diff = newgrad - oldgrad
     ip_diff = manifold.inner_product(newx, Pnewgrad, diff)
-    denominator = -manifold.inner_product(x, grad, descent_direction)
+    denominator = -manifold.inner_product(newx, oldgrad, descent_direction)
     beta_ls = ip_diff / denominator
     beta_cd = newgradPnewgrad / denominator
     return max(0, min(beta_ls, beta_cd))
-- 
2.43.0


From 552103ae0b33f3709243c3878103b8fdc883d3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:18 +0000
Subject: [PATCH 24/46] fix: steepest descent and conjugate gradient report
 iterations as cost evaluations

---
 src/pymanopt/optimizers/conjugate_gradient.py | 10 ++++++++--
 src/pymanopt/optimizers/steepest_descent.py   | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/pymanopt/optimizers/conjugate_gradient.py b/src/pymanopt/optimizers/conjugate_gradient.py
index a8d0c3e..e5f9d52 100644
--- a/src/pymanopt/optimizers/conjugate_gradient.py
+++ b/src/pymanopt/optimizers/conjugate_gradient.py
@@ -206,7 +206,13 @@ class ConjugateGradient(Optimizer):
             algorithm terminated before convergence.
         """
         manifold = problem.manifold
-        objective = problem.cost
+        cost_evaluations = 0
+
+        def objective(point):
+            nonlocal cost_evaluations
+            cost_evaluations += 1
+            return problem.cost(point)
+
         gradient = problem.riemannian_gradient
 
         if not reuse_line_searcher or self.line_searcher is None:
@@ -363,7 +369,7 @@ class ConjugateGradient(Optimizer):
             cost=cost,
             iterations=iteration,
             stopping_criterion=stopping_criterion,
-            cost_evaluations=iteration,
+            cost_evaluations=cost_evaluations,
             step_size=step_size,
             gradient_norm=gradient_norm,
         )
diff --git a/src/pymanopt/optimizers/steepest_descent.py b/src/pymanopt/optimizers/steepest_descent.py
index 36087ee..caca9f0 100644
--- a/src/pymanopt/optimizers/steepest_descent.py
+++ b/src/pymanopt/optimizers/steepest_descent.py
@@ -51,7 +51,13 @@ class SteepestDescent(Optimizer):
             algorithm terminated before convergence.
         """
         manifold = problem.manifold
-        objective = problem.cost
+        cost_evaluations = 0
+
+        def objective(point):
+            nonlocal cost_evaluations
+            cost_evaluations += 1
+            return problem.cost(point)
+
         gradient = problem.riemannian_gradient
 
         if not reuse_line_searcher or self.line_searcher is None:
@@ -133,7 +139,7 @@ class SteepestDescent(Optimizer):
             cost=cost,
             iterations=iteration,
             stopping_criterion=stopping_criterion,
-            cost_evaluations=iteration,
+            cost_evaluations=cost_evaluations,
             step_size=step_size,
             gradient_norm=gradient_norm,
         )
-- 
2.43.0


From 1ea83efbbc0360fb23d8b3b19729120ecac09d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:18 +0000
Subject: [PATCH 25/46] fix: gradient-based optimizers ignore
 max_cost_evaluations

---
 src/pymanopt/optimizers/conjugate_gradient.py | 1 +
 src/pymanopt/optimizers/steepest_descent.py   | 1 +
 src/pymanopt/optimizers/trust_regions.py      | 4 ++++
 3 files changed, 6 insertions(+)

diff --git a/src/pymanopt/optimizers/conjugate_gradient.py b/src/pymanopt/optimizers/conjugate_gradient.py
index e5f9d52..7e79ab5 100644
--- a/src/pymanopt/optimizers/conjugate_gradient.py
+++ b/src/pymanopt/optimizers/conjugate_gradient.py
@@ -281,6 +281,7 @@ class ConjugateGradient(Optimizer):
                 gradient_norm=gradient_norm,
                 iteration=iteration,
                 step_size=step_size,
+                cost_evaluations=cost_evaluations,
             )
 
             if stopping_criterion:
diff --git a/src/pymanopt/optimizers/steepest_descent.py b/src/pymanopt/optimizers/steepest_descent.py
index caca9f0..3297268 100644
--- a/src/pymanopt/optimizers/steepest_descent.py
+++ b/src/pymanopt/optimizers/steepest_descent.py
@@ -117,6 +117,7 @@ class SteepestDescent(Optimizer):
                 step_size=step_size,
                 gradient_norm=gradient_norm,
                 iteration=iteration,
+                cost_evaluations=cost_evaluations,
             )
 
             if stopping_criterion:
diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index 5e7d02d..6ecb751 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -149,6 +149,7 @@ class TrustRegions(Optimizer):
 
         # Initialize solution and companion measures: f(x), fgrad(x)
         fx = cost(x)
+        cost_evaluations = 1
         fgradx = gradient(x)
         norm_grad = manifold.norm(x, fgradx)
 
@@ -174,6 +175,7 @@ class TrustRegions(Optimizer):
                 start_time=start_time,
                 gradient_norm=norm_grad,
                 iteration=iteration,
+                cost_evaluations=cost_evaluations,
             )
 
             if stopping_criterion:
@@ -262,6 +264,7 @@ class TrustRegions(Optimizer):
 
             # Compute the function value of the proposal
             fx_prop = cost(x_prop)
+            cost_evaluations += 1
 
             # Will we accept the proposal or not? Check the performance of the
             # quadratic model against the actual cost.
@@ -435,6 +438,7 @@ class TrustRegions(Optimizer):
             cost=fx,
             iterations=iteration,
             stopping_criterion=stopping_criterion,
+            cost_evaluations=cost_evaluations,
             gradient_norm=norm_grad,
         )
 
-- 
2.43.0


From 26c00a36a432372b182af3c8fcb0df289162cc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:18 +0000
Subject: [PATCH 26/46] fix: NelderMead performs a cost evaluation it does not
 count

---
 src/pymanopt/optimizers/nelder_mead.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index 089ca5f..efedc86 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -253,12 +253,10 @@ class NelderMead(Optimizer):
                 costs[i] = objective(x[i])
             cost_evaluations += dim
 
-        x = x[0]
-        cost = objective(x)
         return self._return_result(
             start_time=start_time,
-            point=x,
-            cost=cost,
+            point=x[0],
+            cost=costs[0],
             iterations=iteration,
             stopping_criterion=stopping_criterion,
             cost_evaluations=cost_evaluations,
-- 
2.43.0


From b469a14c8edf8047adb91153b9bf312ac95ea65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:18 +0000
Subject: [PATCH 27/46] fix: trust regions and derivative-free optimizers log
 no iterations

---
 src/pymanopt/optimizers/nelder_mead.py    | 2 ++
 src/pymanopt/optimizers/particle_swarm.py | 2 ++
 src/pymanopt/optimizers/trust_regions.py  | 7 +++++++
 3 files changed, 11 insertions(+)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index efedc86..f93e061 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -169,6 +169,8 @@ class NelderMead(Optimizer):
             costs = costs[order]
             x = [x[i] for i in order]
 
+            self._add_log_entry(iteration=iteration, point=x[0], cost=costs[0])
+
             stopping_criterion = self._check_stopping_criterion(
                 start_time=start_time,
                 iteration=iteration,
diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index 0bd8100..2a444d6 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -134,6 +134,8 @@ class ParticleSwarm(Optimizer):
 
             column_printer.print_row([iteration, cost_evaluations, fbest])
 
+            self._add_log_entry(iteration=iteration, point=xbest, cost=fbest)
+
             # FIXME(nkoep): This only makes sense once we provide a custom
             #               callback mechanism that actually checks 'xi'.
             #               Right now this loop is pointless since our default
diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index 6ecb751..dd3af7e 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -170,6 +170,13 @@ class TrustRegions(Optimizer):
         self._initialize_log()
 
         while True:
+            self._add_log_entry(
+                iteration=iteration,
+                point=x,
+                cost=fx,
+                gradient_norm=norm_grad,
+            )
+
             # ** CHECK STOPPING criteria
             stopping_criterion = self._check_stopping_criterion(
                 start_time=start_time,
-- 
2.43.0


From 629a0d2b55f0fc9935f320bf2be9c8bb2ca33d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:44 +0000
Subject: [PATCH 28/46] fix: PoincareBall operations leave the open ball or
 yield NaN close to its boundary

---
 src/pymanopt/manifolds/hyperbolic.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/pymanopt/manifolds/hyperbolic.py b/src/pymanopt/manifolds/hyperbolic.py
index e038eae..09966d9 100644
--- a/src/pymanopt/manifolds/hyperbolic.py
+++ b/src/pymanopt/manifolds/hyperbolic.py
@@ -164,14 +164,23 @@ class PoincareBall(Manifold):
         Returns:
             The Möbius sum of ``point_a`` and ``point_b``.
         """
-        scalar_product = np.sum(point_a * point_b, axis=-1, keepdims=True)
-        norm_point_a = np.sum(point_a * point_a, axis=-1, keepdims=True)
-        norm_point_b = np.sum(point_b * point_b, axis=-1, keepdims=True)
+        # Written in terms of the sum of both points to avoid cancellation close
+        # to the boundary of the ball.
+        point_sum = point_a + point_b
+        norm_sum = np.sum(point_sum * point_sum, axis=-1, keepdims=True)
+        margin_a = 1 - np.sum(point_a * point_a, axis=-1, keepdims=True)
+        margin_b = 1 - np.sum(point_b * point_b, axis=-1, keepdims=True)
+        result = (point_a * norm_sum + point_sum * margin_a) / (
+            norm_sum + margin_a * margin_b
+        )
 
-        return (
-            point_a * (1 + 2 * scalar_product + norm_point_b)
-            + point_b * (1 - norm_point_a)
-        ) / (1 + 2 * scalar_product + norm_point_a * norm_point_b)
+        # The ball is open, but far away from the origin the result may get
+        # rounded to a point on or beyond its boundary.
+        norm = np.linalg.norm(result, axis=-1, keepdims=True)
+        max_norm = 1 - 1e-15
+        return np.where(
+            norm > max_norm, result / (norm + (norm == 0)) * max_norm, result
+        )
 
     def conformal_factor(self, point):
         """The conformal factor for a point.
-- 
2.43.0


From 48af3b270adbfd6b6204dc14342db224eef5953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:53 +0000
Subject: [PATCH 29/46] fix: PyTorch backend cannot return lazily conjugated
 derivatives

---
 src/pymanopt/autodiff/backends/_pytorch.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pymanopt/autodiff/backends/_pytorch.py b/src/pymanopt/autodiff/backends/_pytorch.py
index d72517e..4fecb76 100644
--- a/src/pymanopt/autodiff/backends/_pytorch.py
+++ b/src/pymanopt/autodiff/backends/_pytorch.py
@@ -39,18 +39,26 @@ class PyTorchBackend(Backend):
             array = array.copy()
         return torch.from_numpy(array)
 
+    @staticmethod
+    def _to_numpy(tensor):
+        """Convert ``tensor`` to a numpy ndarray.
+
+        Lazily conjugated or negated tensors cannot be converted directly.
+        """
+        return tensor.resolve_conj().resolve_neg().numpy()
+
     @Backend._assert_backend_available
     def prepare_function(self, function):
         @functools.wraps(function)
         def wrapper(*args):
-            return function(*map(self._from_numpy, args)).numpy()
+            return self._to_numpy(function(*map(self._from_numpy, args)))
 
         return wrapper
 
     def _sanitize_gradient(self, tensor):
         if tensor.grad is None:
             return torch.zeros_like(tensor).numpy()
-        return tensor.grad.numpy()
+        return self._to_numpy(tensor.grad)
 
     def _sanitize_gradients(self, tensors):
         return list(map(self._sanitize_gradient, tensors))
-- 
2.43.0


From adb97c73dd03f5689a9a88e0e2f7ae4d99e597ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:53 +0000
Subject: [PATCH 30/46] fix: PyTorch Hessians fail for linear costs and unused
 arguments

---
 src/pymanopt/autodiff/backends/_pytorch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/autodiff/backends/_pytorch.py b/src/pymanopt/autodiff/backends/_pytorch.py
index 4fecb76..1ffbbe0 100644
--- a/src/pymanopt/autodiff/backends/_pytorch.py
+++ b/src/pymanopt/autodiff/backends/_pytorch.py
@@ -91,10 +91,14 @@ class PyTorchBackend(Backend):
             )
             dot_product = 0
             for gradient, vector in zip(gradients, vectors):
+                if gradient is None or not gradient.requires_grad:
+                    # The gradient does not depend on the arguments.
+                    continue
                 dot_product += torch.tensordot(
                     gradient.conj(), vector, dims=gradient.ndim
                 ).real
-            dot_product.backward()
+            if torch.is_tensor(dot_product):
+                dot_product.backward()
             return self._sanitize_gradients(arguments)
 
         if num_arguments == 1:
-- 
2.43.0


From 646ea3650f8ca75014fc5eae90e0c408feeace4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:53 +0000
Subject: [PATCH 31/46] fix: TensorFlow Hessians fail for unused arguments

---
 src/pymanopt/autodiff/backends/_tensorflow.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/autodiff/backends/_tensorflow.py b/src/pymanopt/autodiff/backends/_tensorflow.py
index bbd08f2..9f82bc4 100644
--- a/src/pymanopt/autodiff/backends/_tensorflow.py
+++ b/src/pymanopt/autodiff/backends/_tensorflow.py
@@ -65,7 +65,11 @@ class TensorFlowBackend(Backend):
             ) as accumulator:
                 for argument in arguments:
                     tape.watch(argument)
-                gradients = tape.gradient(function(*arguments), arguments)
+                gradients = tape.gradient(
+                    function(*arguments),
+                    arguments,
+                    unconnected_gradients=tf.UnconnectedGradients.ZERO,
+                )
             return self._sanitize_gradients(
                 arguments, accumulator.jvp(gradients)
             )
-- 
2.43.0


From ef7deda2725389df2a7676376a14d13cdd8ab5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:53 +0000
Subject: [PATCH 32/46] fix: derivatives on product manifolds with a single
 factor

---
 src/pymanopt/core/problem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymanopt/core/problem.py b/src/pymanopt/core/problem.py
index f73cb1d..e924a12 100644
--- a/src/pymanopt/core/problem.py
+++ b/src/pymanopt/core/problem.py
@@ -148,6 +148,11 @@ class Problem:
         @functools.wraps(function)
         def wrapper(*args, **kwargs):
             return_values = function(*args, **kwargs)
+            if num_return_values == 1 and not isinstance(
+                return_values, (list, tuple)
+            ):
+                # Derivatives of functions of a single argument are unpacked.
+                return_values = [return_values]
             if not isinstance(return_values, (list, tuple)):
                 raise ValueError("Function returned an unexpected value")
             if len(return_values) != num_return_values:
-- 
2.43.0


From 3f2352096def73284970a5066935100910c73015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:13 +0000
Subject: [PATCH 33/46] fix: PyTorch and TensorFlow backends reject derivatives
 with several values

---
 src/pymanopt/autodiff/backends/_pytorch.py    | 5 ++++-
 src/pymanopt/autodiff/backends/_tensorflow.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pymanopt/autodiff/backends/_pytorch.py b/src/pymanopt/autodiff/backends/_pytorch.py
index 1ffbbe0..16841a7 100644
--- a/src/pymanopt/autodiff/backends/_pytorch.py
+++ b/src/pymanopt/autodiff/backends/_pytorch.py
@@ -51,7 +51,10 @@ class PyTorchBackend(Backend):
     def prepare_function(self, function):
         @functools.wraps(function)
         def wrapper(*args):
-            return self._to_numpy(function(*map(self._from_numpy, args)))
+            result = function(*map(self._from_numpy, args))
+            if isinstance(result, (list, tuple)):
+                return list(map(self._to_numpy, result))
+            return self._to_numpy(result)
 
         return wrapper
 
diff --git a/src/pymanopt/autodiff/backends/_tensorflow.py b/src/pymanopt/autodiff/backends/_tensorflow.py
index 9f82bc4..01b4539 100644
--- a/src/pymanopt/autodiff/backends/_tensorflow.py
+++ b/src/pymanopt/autodiff/backends/_tensorflow.py
@@ -36,7 +36,10 @@ class TensorFlowBackend(Backend):
     def prepare_function(self, function):
         @functools.wraps(function)
         def wrapper(*args):
-            return function(*map(self._from_numpy, args)).numpy()
+            result = function(*map(self._from_numpy, args))
+            if isinstance(result, (list, tuple)):
+                return [tensor.numpy() for tensor in result]
+            return result.numpy()
 
         return wrapper
 
-- 
2.43.0


From 4ffb158e449b9e0b330dc31c566694577e241e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:04 +0000
Subject: [PATCH 34/46] fix: check_retraction does not detect missing distance
 maps

---
 src/pymanopt/tools/diagnostics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymanopt/tools/diagnostics.py b/src/pymanopt/tools/diagnostics.py
index c6512c2..d7cfcb6 100644
--- a/src/pymanopt/tools/diagnostics.py
+++ b/src/pymanopt/tools/diagnostics.py
@@ -313,10 +313,10 @@ def check_retraction(manifold, point=None, tangent_vector=None):
             f"The manifold '{manifold_class}' provides no retraction"
         ) from None
     try:
-        manifold.retraction(point, tangent_vector)
+        manifold.dist(point, point)
     except NotImplementedError:
         raise RuntimeError(
-            f"This manifold '{manifold_class}'provides no distance map which "
+            f"This manifold '{manifold_class}' provides no distance map which "
             "is required to run this check"
         ) from None
 
-- 
2.43.0


From a5c581f5ccf2d4d1979c0ca277b1e5f83150d358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:04 +0000
Subject: [PATCH 35/46] fix: check_retraction reports NaN slopes

---
 src/pymanopt/tools/diagnostics.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pymanopt/tools/diagnostics.py b/src/pymanopt/tools/diagnostics.py
index d7cfcb6..e96d9d8 100644
--- a/src/pymanopt/tools/diagnostics.py
+++ b/src/pymanopt/tools/diagnostics.py
@@ -333,9 +333,17 @@ def check_retraction(manifold, point=None, tangent_vector=None):
     # Figure out the slope of the error in log-log, by identifying a piece of
     # the error curve which is mostly linear.
     window_length = 10
-    segment, poly = identify_linear_piece(
-        np.log10(step_sizes), np.log10(errors), window_length
-    )
+    # Distances this small are dominated by rounding errors (or exactly zero)
+    # and say nothing about the order of the retraction.
+    significant = errors > np.sqrt(np.finfo(errors.dtype).eps)
+    if np.count_nonzero(significant) > window_length:
+        step_sizes = step_sizes[significant]
+        errors = errors[significant]
+        segment, poly = identify_linear_piece(
+            np.log10(step_sizes), np.log10(errors), window_length
+        )
+    else:
+        segment, poly = np.array([], dtype=int), np.array([np.nan, np.nan])
 
     print(
         "The slope must be at least 2 to have a proper retraction.\n"
-- 
2.43.0


From 5582c722e4c15fc8b523b5d495b3b36b4af2eaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:04 +0000
Subject: [PATCH 36/46] fix: NelderMead reports outdated best costs

---
 src/pymanopt/optimizers/nelder_mead.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pymanopt/optimizers/nelder_mead.py b/src/pymanopt/optimizers/nelder_mead.py
index f93e061..67dad41 100644
--- a/src/pymanopt/optimizers/nelder_mead.py
+++ b/src/pymanopt/optimizers/nelder_mead.py
@@ -158,17 +158,17 @@ class NelderMead(Optimizer):
         while True:
             iteration += 1
 
+            # Sort simplex points by cost.
+            order = np.argsort(costs)
+            costs = costs[order]
+            x = [x[i] for i in order]
+
             if self._verbosity >= 2:
                 print(
                     f"Cost evals: {cost_evaluations:7d}\t"
                     f"Best cost: {costs[0]:+.8e}"
                 )
 
-            # Sort simplex points by cost.
-            order = np.argsort(costs)
-            costs = costs[order]
-            x = [x[i] for i in order]
-
             self._add_log_entry(iteration=iteration, point=x[0], cost=costs[0])
 
             stopping_criterion = self._check_stopping_criterion(
-- 
2.43.0


From 334d4ff119fbd73979286637a18a932868f956d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:19 +0000
Subject: [PATCH 37/46] fix: optimizers cannot print iterations if
 max_iterations is zero

---
 src/pymanopt/optimizers/conjugate_gradient.py | 4 +++-
 src/pymanopt/optimizers/particle_swarm.py     | 4 +++-
 src/pymanopt/optimizers/steepest_descent.py   | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pymanopt/optimizers/conjugate_gradient.py b/src/pymanopt/optimizers/conjugate_gradient.py
index 7e79ab5..e98c4d6 100644
--- a/src/pymanopt/optimizers/conjugate_gradient.py
+++ b/src/pymanopt/optimizers/conjugate_gradient.py
@@ -228,7 +228,9 @@ class ConjugateGradient(Optimizer):
         if self._verbosity >= 1:
             print("Optimizing...")
         if self._verbosity >= 2:
-            iteration_format_length = int(np.log10(self._max_iterations)) + 1
+            iteration_format_length = (
+                int(np.log10(max(self._max_iterations, 1))) + 1
+            )
             column_printer = printer.ColumnPrinter(
                 columns=[
                     ("Iteration", f"{iteration_format_length}d"),
diff --git a/src/pymanopt/optimizers/particle_swarm.py b/src/pymanopt/optimizers/particle_swarm.py
index 2a444d6..4fcba92 100644
--- a/src/pymanopt/optimizers/particle_swarm.py
+++ b/src/pymanopt/optimizers/particle_swarm.py
@@ -109,7 +109,9 @@ class ParticleSwarm(Optimizer):
         xbest = x[imin]
 
         if self._verbosity >= 2:
-            iteration_format_length = int(np.log10(self._max_iterations)) + 1
+            iteration_format_length = (
+                int(np.log10(max(self._max_iterations, 1))) + 1
+            )
             column_printer = printer.ColumnPrinter(
                 columns=[
                     ("Iteration", f"{iteration_format_length}d"),
diff --git a/src/pymanopt/optimizers/steepest_descent.py b/src/pymanopt/optimizers/steepest_descent.py
index 3297268..9d1e470 100644
--- a/src/pymanopt/optimizers/steepest_descent.py
+++ b/src/pymanopt/optimizers/steepest_descent.py
@@ -73,7 +73,9 @@ class SteepestDescent(Optimizer):
         if self._verbosity >= 1:
             print("Optimizing...")
         if self._verbosity >= 2:
-            iteration_format_length = int(np.log10(self._max_iterations)) + 1
+            iteration_format_length = (
+                int(np.log10(max(self._max_iterations, 1))) + 1
+            )
             column_printer = printer.ColumnPrinter(
                 columns=[
                     ("Iteration", f"{iteration_format_length}d"),
-- 
2.43.0


From e45aa28c2de6ed72ed28268dbeb16ff24d21f3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:45 +0000
Subject: [PATCH 38/46] fix: check_retraction fits slopes to rounding errors

---
 src/pymanopt/tools/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymanopt/tools/diagnostics.py b/src/pymanopt/tools/diagnostics.py
index e96d9d8..79f7551 100644
--- a/src/pymanopt/tools/diagnostics.py
+++ b/src/pymanopt/tools/diagnostics.py
@@ -335,7 +335,7 @@ def check_retraction(manifold, point=None, tangent_vector=None):
     window_length = 10
     # Distances this small are dominated by rounding errors (or exactly zero)
     # and say nothing about the order of the retraction.
-    significant = errors > np.sqrt(np.finfo(errors.dtype).eps)
+    significant = errors > 10 * np.sqrt(np.finfo(errors.dtype).eps)
     if np.count_nonzero(significant) > window_length:
         step_sizes = step_sizes[significant]
         errors = errors[significant]
-- 
2.43.0


From a2b69d1f21df60fc3b60b3ae836595798b7355bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 39/46] fix: norms of nearly Hermitian vectors are NaN on
 positive definite manifolds

---
 src/pymanopt/manifolds/positive_definite.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/positive_definite.py b/src/pymanopt/manifolds/positive_definite.py
index 9673e76..04b4628 100644
--- a/src/pymanopt/manifolds/positive_definite.py
+++ b/src/pymanopt/manifolds/positive_definite.py
@@ -63,8 +63,12 @@ class _PositiveDefiniteBase(RiemannianSubmanifold):
         )
 
     def norm(self, point, tangent_vector):
+        # Rounding errors may leave vectors with an anti-Hermitian part whose
+        # inner product with itself is negative.
         return np.sqrt(
-            self.inner_product(point, tangent_vector, tangent_vector)
+            self.inner_product(
+                point, tangent_vector, multihconj(tangent_vector)
+            )
         )
 
     def random_point(self):
-- 
2.43.0


From ef4f5832d462bf5b622c94f5649cb0f36fe097ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 40/46] fix: random points of U(1) are always the same

---
 src/pymanopt/manifolds/group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/manifolds/group.py b/src/pymanopt/manifolds/group.py
index 831d4ee..e253ce6 100644
--- a/src/pymanopt/manifolds/group.py
+++ b/src/pymanopt/manifolds/group.py
@@ -220,7 +220,9 @@ class UnitaryGroup(_UnitaryBase):
     def random_point(self):
         n, k = self._n, self._k
         if n == 1:
-            point = np.ones((k, 1, 1)) + 1j * np.ones((k, 1, 1))
+            point = np.random.normal(size=(k, 1, 1)) + 1j * np.random.normal(
+                size=(k, 1, 1)
+            )
             point /= np.abs(point)
         else:
             point, _ = multiqr(
-- 
2.43.0


From 6b83abf5c30be25f2e443543298519d5893d4bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 41/46] fix: norm on products combines the norms of the factors

---
 src/pymanopt/manifolds/product.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymanopt/manifolds/product.py b/src/pymanopt/manifolds/product.py
index 89af0ee..b0ab0ce 100644
--- a/src/pymanopt/manifolds/product.py
+++ b/src/pymanopt/manifolds/product.py
@@ -57,8 +57,8 @@ class Product(Manifold):
         return wrapper
 
     def norm(self, point, tangent_vector):
-        return np.sqrt(
-            self.inner_product(point, tangent_vector, tangent_vector)
+        return np.linalg.norm(
+            self._dispatch("norm")(point, tangent_vector)
         )
 
     def inner_product(self, point, tangent_vector_a, tangent_vector_b):
-- 
2.43.0


From 50b86f5cbdce5d984be9b0ff63bd144ed2d1abb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 42/46] fix: keep the residual of truncated conjugate gradients
 tangent

Once the model is minimized, the residual consists of rounding errors that are
not tangent. Their norm entered the step length while the direction had been
re-tangentialized to almost nothing, so the solver took an arbitrary step that
was worse than the Cauchy point (or computed the root of a negative number).
---
 src/pymanopt/optimizers/trust_regions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymanopt/optimizers/trust_regions.py b/src/pymanopt/optimizers/trust_regions.py
index dd3af7e..c131e3f 100644
--- a/src/pymanopt/optimizers/trust_regions.py
+++ b/src/pymanopt/optimizers/trust_regions.py
@@ -582,8 +582,10 @@ class TrustRegions(Optimizer):
             Heta = new_Heta
             model_value = new_model_value
 
-            # Update the residual.
-            r = r + alpha * Hdelta
+            # Update the residual. It is re-tangentialized since rounding errors
+            # normal to the tangent space dominate once the model has been
+            # minimized.
+            r = manifold.to_tangent_space(x, r + alpha * Hdelta)
 
             # Compute new norm of r.
             r_r = inner(x, r, r)
-- 
2.43.0


From 664d9e8629480aca7d569d26efb51bbc3e76e9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 43/46] fix: accept sparse gradients in the TensorFlow backend

---
 src/pymanopt/autodiff/backends/_tensorflow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymanopt/autodiff/backends/_tensorflow.py b/src/pymanopt/autodiff/backends/_tensorflow.py
index 01b4539..41344b0 100644
--- a/src/pymanopt/autodiff/backends/_tensorflow.py
+++ b/src/pymanopt/autodiff/backends/_tensorflow.py
@@ -27,7 +27,8 @@ class TensorFlowBackend(Backend):
     def _sanitize_gradient(self, tensor, grad):
         if grad is None:
             return np.zeros_like(tensor.numpy())
-        return grad.numpy()
+        # Gradients of sliced arguments may be sparse ('tf.IndexedSlices').
+        return tf.convert_to_tensor(grad).numpy()
 
     def _sanitize_gradients(self, tensors, grads):
         return list(map(self._sanitize_gradient, tensors, grads))
@@ -73,6 +74,7 @@ class TensorFlowBackend(Backend):
                     arguments,
                     unconnected_gradients=tf.UnconnectedGradients.ZERO,
                 )
+                gradients = list(map(tf.convert_to_tensor, gradients))
             return self._sanitize_gradients(
                 arguments, accumulator.jvp(gradients)
             )
-- 
2.43.0


From b0a1d5ae83f07ee4868bbe313d2b8b218218d82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:18 +0000
Subject: [PATCH 44/46] fix: HestenesStiefel rule divides by zero on manifolds
 with NumPy scalars

---
 src/pymanopt/optimizers/conjugate_gradient.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/pymanopt/optimizers/conjugate_gradient.py b/src/pymanopt/optimizers/conjugate_gradient.py
index e98c4d6..2a784c4 100644
--- a/src/pymanopt/optimizers/conjugate_gradient.py
+++ b/src/pymanopt/optimizers/conjugate_gradient.py
@@ -61,15 +61,10 @@ def _beta_hestenes_stiefel(
     descent_direction,
 ):
     diff = newgrad - oldgrad
-    try:
-        beta = max(
-            0,
-            manifold.inner_product(newx, Pnewgrad, diff)
-            / manifold.inner_product(newx, diff, descent_direction),
-        )
-    except ZeroDivisionError:
-        beta = 1
-    return beta
+    denominator = manifold.inner_product(newx, diff, descent_direction)
+    if denominator == 0:
+        return 1
+    return max(0, manifold.inner_product(newx, Pnewgrad, diff) / denominator)
 
 
 def _beta_hager_zhang(
-- 
2.43.0


From 14f4e9087fa4c37ab2323e5faea01d882609e08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 45/46] fix: stacks of random positive definite matrices share
 their eigenvectors

---
 src/pymanopt/manifolds/positive_definite.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymanopt/manifolds/positive_definite.py b/src/pymanopt/manifolds/positive_definite.py
index 04b4628..8c8ddd6 100644
--- a/src/pymanopt/manifolds/positive_definite.py
+++ b/src/pymanopt/manifolds/positive_definite.py
@@ -75,10 +75,10 @@ class _PositiveDefiniteBase(RiemannianSubmanifold):
         # Generate eigenvalues between 1 and 2.
         d = 1.0 + np.random.uniform(size=(self._k, self._n, 1))
 
-        # Generate a unitary matrix.
+        # Generate unitary matrices.
         q, _ = multiqr(
-            np.random.normal(size=(self._n, self._n))
-            + 1j * np.random.normal(size=(self._n, self._n))
+            np.random.normal(size=(self._k, self._n, self._n))
+            + 1j * np.random.normal(size=(self._k, self._n, self._n))
         )
         point = q @ (d * multihconj(q))
         return point if self._k > 1 else point[0]
-- 
2.43.0


From d9a4d6f160575d048efa2d8f73e66df27cf462d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 46/46] fix: logarithm of rotations is complex at and near
 half-turns

---
 src/pymanopt/manifolds/group.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/pymanopt/manifolds/group.py b/src/pymanopt/manifolds/group.py
index e253ce6..54274d8 100644
--- a/src/pymanopt/manifolds/group.py
+++ b/src/pymanopt/manifolds/group.py
@@ -1,4 +1,5 @@
 import numpy as np
+import scipy.linalg
 import scipy.special
 
 from pymanopt.manifolds.manifold import RiemannianSubmanifold
@@ -174,6 +175,11 @@ class SpecialOrthogonalGroup(_UnitaryBase):
             vector = vector[0]
         return vector / self.norm(point, vector)
 
+    def log(self, point_a, point_b):
+        return np.vectorize(_rotation_logarithm, signature="(n,n)->(n,n)")(
+            multitransp(point_a) @ point_b
+        )
+
 
 @extend_docstring(DOCSTRING_NOTE)
 class UnitaryGroup(_UnitaryBase):
@@ -244,6 +250,31 @@ class UnitaryGroup(_UnitaryBase):
         return vector / self.norm(point, vector)
 
 
+def _rotation_logarithm(rotation):
+    # Unlike the principal logarithm of a general matrix, which is complex at
+    # half-turns, the logarithm of a rotation is assembled from the angles of
+    # its real Schur form and hence always real.
+    schur, basis = scipy.linalg.schur(rotation, output="real")
+    logarithm = np.zeros_like(schur)
+    half_turns = []
+    index = 0
+    while index < len(schur):
+        block = schur[index : index + 2, index : index + 2]
+        if len(block) == 2 and block[1, 0] != 0:
+            logarithm[index + 1, index] = np.arctan2(
+                block[1, 0] - block[0, 1], block[0, 0] + block[1, 1]
+            )
+            index += 2
+            continue
+        if schur[index, index] < 0:
+            half_turns.append(index)
+        index += 1
+    for first, second in zip(half_turns[::2], half_turns[1::2]):
+        logarithm[second, first] = np.pi
+    logarithm -= multitransp(logarithm)
+    return multiskewh(basis @ logarithm @ multitransp(basis))
+
+
 def _random_skew_symmetric_matrix(n, k):
     if n == 1:
         return np.zeros((k, 1, 1))
-- 
2.43.0

