From 2d9f5af9d6b34437bc997452663034e2d0dfa670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:03 +0000
Subject: [PATCH 01/27] fix: the basis function of a zero-dimensional space is
 the constant one

---
 modepy/modes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index 9374a63..6258d5a 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -859,8 +859,7 @@ def monomial_basis_for_space(space: FunctionSpace, shape: Shape) -> Basis:
 
 def zerod_basis(x: ArrayF) -> ArrayF:
     assert len(x) == 0
-    x_sub = np.ones(x.shape[1:], x.dtype)
-    return 1 + x_sub
+    return np.ones(x.shape[1:], x.dtype)
 
 
 # {{{ PN bases
-- 
2.43.0


From ad36abc1678ade078e4e45b732241aa0cd4c0958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:03 +0000
Subject: [PATCH 02/27] fix: make QN spaces picklable and copyable

---
 modepy/spaces.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modepy/spaces.py b/modepy/spaces.py
index e328c54..ae5aefd 100644
--- a/modepy/spaces.py
+++ b/modepy/spaces.py
@@ -272,6 +272,11 @@ class QN(TensorProductSpace):
     def __init__(self, spatial_dim: int, order: int) -> None:
         super().__init__((PN(1, order),) * spatial_dim)
 
+    @override
+    def __getnewargs__(self):
+        # Ensures QN is picklable
+        return (self.spatial_dim, self.order)
+
     @property
     @override
     def order(self):
-- 
2.43.0


From bd790bff267179a158d8e6b87ebab39335420542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:03 +0000
Subject: [PATCH 03/27] fix: make tensor product shapes picklable and copyable

---
 modepy/shapes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 24f9363..6888a09 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -374,6 +374,10 @@ class TensorProductShape(Shape):
         super().__init__(dim)
         object.__setattr__(self, "bases", bases)
 
+    def __getnewargs__(self) -> tuple[Any, ...]:
+        # NOTE: ensures TensorProductShape is picklable
+        return (self.bases,)
+
     @property
     @override
     def nvertices(self) -> int:
-- 
2.43.0


From a074a7437473c5d26d3ea941f849955216d2a856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:58 +0000
Subject: [PATCH 04/27] fix: tensor product gradients can be evaluated at
 integer points

The in-place product failed when the first factor is integer-valued and
a later one is not.
---
 modepy/modes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index 6258d5a..2273e81 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -719,7 +719,7 @@ class _TensorProductGradientBasisFunction:
                     components = (components,) * self.dims_per_function[ider]
 
                 for j, comp in enumerate(components):
-                    result[n + j] *= comp
+                    result[n + j] = result[n + j] * comp
 
                 f += iaxis
             n += self.dims_per_function[ider]
-- 
2.43.0


From 8f24fd68581ac6bfc8d505786aab006a703b6fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:22 +0000
Subject: [PATCH 05/27] fix: weights of Jacobi-Gauss-Lobatto rules for nonzero
 alpha, beta

---
 modepy/quadrature/jacobi_gauss.py | 55 +++++++++++--------------------
 1 file changed, 19 insertions(+), 36 deletions(-)

diff --git a/modepy/quadrature/jacobi_gauss.py b/modepy/quadrature/jacobi_gauss.py
index 5f4ba4f..399e3ce 100644
--- a/modepy/quadrature/jacobi_gauss.py
+++ b/modepy/quadrature/jacobi_gauss.py
@@ -332,7 +332,7 @@ class JacobiGaussLobattoQuadrature(Quadrature):
 
         from math import gamma
 
-        from modepy.modes import binom, scaled_jacobi
+        from modepy.modes import binom
 
         # Formula numbers refer to https://doi.org/10.1023/A:1016689830453
         if N + 1 < 2:
@@ -347,43 +347,26 @@ class JacobiGaussLobattoQuadrature(Quadrature):
         # FIXME: Recurrences might be better than just typing up the formulas.
 
         # (3.10)
-        common_factor = (
-            2**(alpha + beta + 1)
-            * binom(n + alpha + 1, n)
-            / binom(n + beta + 1, n)
-            / binom(n + alpha + beta + 2, n)
-            * gamma(alpha + 2)
-            / gamma(alpha + beta + 3)
-        )
-        edge_weight = (
-            common_factor
-            * gamma(beta + 1)
-        )
-
-        # (4.7)
-        int_nodes = nodes[1:-1]
-        frac = (
-            4*(n+alpha+1) * (n+beta+1) + (alpha-beta)**2
-        ) / (
-            2*n + alpha + beta + 2
-        )**2
-
-        int_weights = (
-            common_factor
-            * gamma(beta + 2)
-
-            # FIXME: This is part of the paper, but tests only pass without it:
-            # / (n + 1)**2
-
-            / (frac - int_nodes**2)
-            * (1 - int_nodes**2)
-            / scaled_jacobi(alpha, beta, n + 1, int_nodes)**2
-        )
+        def edge_weight(alpha: float, beta: float) -> float:
+            return (
+                2**(alpha + beta + 1)
+                * binom(n + alpha + 1, n)
+                / binom(n + beta + 1, n)
+                / binom(n + alpha + beta + 2, n)
+                * gamma(alpha + 2)
+                / gamma(alpha + beta + 3)
+                * gamma(beta + 1)
+            )
 
         weights = np.empty_like(nodes)
-        weights[0] = edge_weight
-        weights[-1] = edge_weight
-        weights[1:-1] = int_weights
+        weights[0] = edge_weight(alpha, beta)
+        weights[-1] = edge_weight(beta, alpha)
+        if n > 0:
+            # The interior nodes are those of the Gauss rule with respect to
+            # (1-x)**(alpha+1) * (1+x)**(beta+1).
+            quad = JacobiGaussQuadrature(alpha + 1, beta + 1, n - 1,
+                    backend=backend, force_dim_axis=True)
+            weights[1:-1] = quad.weights / (1 - nodes[1:-1]**2)
 
         if force_dim_axis:
             nodes = nodes.reshape(1, -1)
-- 
2.43.0


From 5a48ab4c6a5d29bb14d1d52658acec7f019b9715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:23 +0000
Subject: [PATCH 06/27] fix: quadgk on reversed half-infinite intervals

---
 modepy/quadrature/kronrod.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modepy/quadrature/kronrod.py b/modepy/quadrature/kronrod.py
index 35e98de..62da174 100644
--- a/modepy/quadrature/kronrod.py
+++ b/modepy/quadrature/kronrod.py
@@ -486,10 +486,12 @@ def _do_quadgk(
         if inf1 or inf2:
             if inf1 and inf2:
                 g, sm = _transform_both_inf(f, s)
-            elif inf1:
-                g, sm = _transform_semi_inf_neg(f, s2, s)
             else:
-                g, sm = _transform_semi_inf_pos(f, s1, s)
+                s_inf, s0 = (s1, s2) if inf1 else (s2, s1)
+                if s_inf < 0:
+                    g, sm = _transform_semi_inf_neg(f, s0, s)
+                else:
+                    g, sm = _transform_semi_inf_pos(f, s0, s)
             return _do_quadgk(g, sm, n, abstol, reltol, maxevals)
 
     x, w, gw = kronrod(n)
-- 
2.43.0


From 7363f2fd6677806c23b9b455da13a328096f159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:00 +0000
Subject: [PATCH 07/27] fix: flattening linear combinations of any number of
 functions

---
 modepy/quadrature/construction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index 6a906a3..c8955c2 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -129,7 +129,8 @@ def linearly_combine(
 
     basis: list[NodalFunction] = []
     n = len(lcfunctions)
-    matrix = np.zeros((n, n), dtype=np.complex128)
+    nfunctions = max((len(f.functions) for f in lcfunctions), default=0)
+    matrix = np.zeros((n, nfunctions), dtype=np.complex128)
     for i, f in enumerate(lcfunctions):
         ncommon = min(len(basis), len(f.functions))
         if basis[:ncommon]  != f.functions[:ncommon]:
-- 
2.43.0


From 3ddebfe8254830823563aa2a038a391bbcd3860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:00 +0000
Subject: [PATCH 08/27] fix: Monomial.hypercube_integral accounts for the
 factor

---
 modepy/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/tools.py b/modepy/tools.py
index 0f5c0c5..92a8b41 100644
--- a/modepy/tools.py
+++ b/modepy/tools.py
@@ -121,7 +121,7 @@ class Monomial:
 
         return reduce(
                 lambda integral, n: integral * 1 / (n + 1),
-                self.exponents, 1.0)
+                self.exponents, 1.0 * self.factor)
 
     def diff(self, coordinate: int) -> Monomial:
         diff_exp = list(self.exponents)
-- 
2.43.0


From 31796b5863ce32a63f0d26551e8e5df8d2918aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:22 +0000
Subject: [PATCH 09/27] fix: Witherden-Vincent rules do not share memory with
 the tables

---
 modepy/quadrature/witherden_vincent.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modepy/quadrature/witherden_vincent.py b/modepy/quadrature/witherden_vincent.py
index add2d29..32edad4 100644
--- a/modepy/quadrature/witherden_vincent.py
+++ b/modepy/quadrature/witherden_vincent.py
@@ -23,6 +23,8 @@ OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN
 THE SOFTWARE.
 """
 
+import numpy as np
+
 from modepy.quadrature import Quadrature, QuadratureRuleUnavailable
 
 
@@ -64,5 +66,6 @@ class WitherdenVincentQuadrature(Quadrature):
         except KeyError:
             raise QuadratureRuleUnavailable(f"Unsupported order: {order}") from None
 
-        super().__init__(rule["points"], rule["weights"],
+        # copy, so that changes to the rule do not affect the table
+        super().__init__(np.array(rule["points"]), np.array(rule["weights"]),
                          exact_to=rule["quad_degree"])
-- 
2.43.0


From 19cdd10abaab6e56a34a6123eb031d984c5d4fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:22 +0000
Subject: [PATCH 10/27] fix: jacobi_gauss_lobatto_nodes honours force_dim_axis
 for N=0

---
 modepy/quadrature/jacobi_gauss.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/modepy/quadrature/jacobi_gauss.py b/modepy/quadrature/jacobi_gauss.py
index 399e3ce..cf1a4bd 100644
--- a/modepy/quadrature/jacobi_gauss.py
+++ b/modepy/quadrature/jacobi_gauss.py
@@ -279,12 +279,9 @@ def jacobi_gauss_lobatto_nodes(
     """
 
     x: np.ndarray[tuple[int, ...], np.dtype[np.floating]] = np.zeros((N + 1,))
-    if N == 0:
-        x[0] = 0
-        return x
-
-    x[0] = -1
-    x[-1] = 1
+    if N > 0:
+        x[0] = -1
+        x[-1] = 1
 
     if N > 1:
         quad = JacobiGaussQuadrature(alpha + 1, beta + 1, N - 2,
-- 
2.43.0


From 5c8ef3d9e37862b34ec679be3e244371e11c91a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:01 +0000
Subject: [PATCH 11/27] fix: ZeroDimensionalQuadrature advertises
 modepy.quadrature.inf, comparable with other rules' exactness

---
 modepy/quadrature/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 8786cde..2aeb6a1 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -205,8 +205,7 @@ class ZeroDimensionalQuadrature(Quadrature):
     def __init__(self) -> None:
         super().__init__(np.empty((0, 1), dtype=np.float64),
                          np.ones((1,), dtype=np.float64),
-                         # NOTE: exact_to is expected to be an int
-                         exact_to=np.inf)
+                         exact_to=inf)
 
 
 class Transformed1DQuadrature(Quadrature):
-- 
2.43.0


From 11b6ea57d17939500171eb0ad256d3f628e2bf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:40 +0000
Subject: [PATCH 12/27] fix: unsupported tensor product space/shape pairs raise
 NotImplementedError in quadrature_for_space

---
 modepy/quadrature/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 2aeb6a1..15b8d96 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -338,7 +338,7 @@ def _quadrature_for_tp(
             shape: TensorProductShape
         ) -> Quadrature:
     if not isinstance(shape, TensorProductShape):
-        raise NotImplementedError((type(space).__name__, type(shape).__name))
+        raise NotImplementedError((type(space).__name__, type(shape).__name__))
 
     if space.spatial_dim != shape.dim:
         raise ValueError("spatial dimensions of shape and space must match")
-- 
2.43.0


From c00df3a9a1eda4a058187d609888f444e795f27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:40 +0000
Subject: [PATCH 13/27] fix: quadrature_for_space accepts tensor product spaces
 with different orders

---
 modepy/quadrature/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 15b8d96..8f0f85c 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -346,12 +346,16 @@ def _quadrature_for_tp(
     if space.spatial_dim == 0:
         quad: Quadrature = ZeroDimensionalQuadrature()
     else:
-        quad = TensorProductQuadrature([
+        quads = [
             quadrature_for_space(sp, shp)
             for sp, shp in zip(space.bases, shape.bases, strict=True)
-            ])
+            ]
+        # NOTE: the orders may differ between the factors, each of which only
+        # needs to be integrated by its own rule
+        assert all(q.exact_to >= getattr(s, "order", 0)
+                   for q, s in zip(quads, space.bases, strict=True))
+        quad = TensorProductQuadrature(quads)
 
-    assert all(quad.exact_to >= getattr(s, "order", 0) for s in space.bases)
     return quad
 
 # }}}
-- 
2.43.0


From fa760ecc842fd405945a53ead10f9462bd39da8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:11 +0000
Subject: [PATCH 14/27] fix: nfaces of tensor product shapes without factors or
 with a point as factor

---
 modepy/shapes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 6888a09..9ccf50f 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -386,9 +386,9 @@ class TensorProductShape(Shape):
     @property
     @override
     def nfaces(self) -> int:
-        # FIXME: this obviously only works for `shape x segment x segment x ...`
-        *segments, shape = sorted(self.bases, key=lambda s: s.dim)
-        return shape.nfaces + len(segments) * segments[0].nfaces
+        # NOTE: each face is a face of one of the bases times all the other bases
+        # (and points do not contribute any)
+        return sum(s.nfaces for s in self.bases if s.dim > 0)
 
 
 @unit_vertices_for_shape.register(TensorProductShape)
-- 
2.43.0


From ef78815b7c2506c4126dc4982f3b7cf1417289eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:57 +0000
Subject: [PATCH 15/27] fix: tensor products of a single hypercube or QN space
 are that shape or space

---
 modepy/shapes.py | 4 ++++
 modepy/spaces.py | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 9ccf50f..216c2f5 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -491,6 +491,10 @@ class Hypercube(TensorProductShape):
             return Shape.__new__(cls)
 
     def __init__(self, dim: int) -> None:
+        if isinstance(dim, tuple):
+            # NOTE: TensorProductShape((hypercube,)) is that (initialized) hypercube
+            return
+
         super().__init__((Simplex(1),) * dim)
 
     def __getnewargs__(self) -> tuple[Any, ...]:
diff --git a/modepy/spaces.py b/modepy/spaces.py
index ae5aefd..00b0802 100644
--- a/modepy/spaces.py
+++ b/modepy/spaces.py
@@ -269,7 +269,11 @@ class QN(TensorProductSpace):
         else:
             return FunctionSpace.__new__(cls)
 
-    def __init__(self, spatial_dim: int, order: int) -> None:
+    def __init__(self, spatial_dim: int, order: int | None = None) -> None:
+        if order is None:
+            # NOTE: TensorProductSpace((qn,)) is that (initialized) space
+            return
+
         super().__init__((PN(1, order),) * spatial_dim)
 
     @override
-- 
2.43.0


From c823e5170880cf344377033f0ad640004821f6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:52 +0000
Subject: [PATCH 16/27] fix: submeshes of prisms and other products with
 simplices fill the shape

---
 modepy/shapes.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 216c2f5..5437c2e 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -691,23 +691,37 @@ def submesh_for_hypercube(
         shape: TensorProductShape,
         node_tuples: Sequence[tuple[int, ...]]
         ) -> Sequence[tuple[int, ...]]:
-    from modepy.spaces import space_for_shape
-    space = space_for_shape(shape, order=1)
-
-    from modepy.nodes import node_tuples_for_space
-    vertex_node_tuples = node_tuples_for_space(space)
+    from itertools import product
 
     from pytools import add_tuples
 
+    # NOTE: the unit cells of the bases are subdivided first (e.g. a square into
+    # two triangles), so that elements are products of elements of the bases. As
+    # for simplices, elements that fall outside of the shape are not added.
+    base_elements: list[Sequence[Sequence[tuple[int, ...]]]] = []
+    for base in shape.bases:
+        if base.dim == 0:
+            continue
+
+        cell = tuple(product(range(2), repeat=base.dim))
+        base_elements.append([
+            [cell[i] for i in element] for element in submesh_for_shape(base, cell)])
+
+    # ensure that the vertices of each element are ordered with the first base fastest
+    elements = [
+        [sum(vertex[::-1], ()) for vertex in product(*element[::-1])]
+        for element in product(*base_elements)]
+
     result: list[tuple[int, ...]] = []
     node_dict = {ituple: idx for idx, ituple in enumerate(node_tuples)}
 
     for current in node_tuples:
-        with contextlib.suppress(KeyError):
-            result.append(tuple(
-                    node_dict[add_tuples(current, offset)]
-                    for offset in vertex_node_tuples
-                    ))
+        for element in elements:
+            with contextlib.suppress(KeyError):
+                result.append(tuple(
+                        node_dict[add_tuples(current, offset)]
+                        for offset in element
+                        ))
 
     return result
 
-- 
2.43.0


From b6ac66ba5cd279f8c15a1c0f3163b21411a3701f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:16 +0000
Subject: [PATCH 17/27] fix: bases for a space and a simplex of different
 dimensions are rejected

---
 modepy/modes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modepy/modes.py b/modepy/modes.py
index 2273e81..e0d3ed0 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -945,6 +945,8 @@ class _SimplexMonomialBasis(SimplexBasis):
 def _basis_for_pn(space: PN, shape: Simplex):
     if not isinstance(shape, Simplex):
         raise NotImplementedError((type(space).__name__, type(shape).__name__))
+    if space.spatial_dim != shape.dim:
+        raise ValueError("spatial dimensions of shape and space must match")
 
     if space.spatial_dim <= 3:
         return _SimplexONB(space.spatial_dim, space.order)
@@ -956,6 +958,8 @@ def _basis_for_pn(space: PN, shape: Simplex):
 def _orthonormal_basis_for_pn(space: PN, shape: Simplex):
     if not isinstance(shape, Simplex):
         raise NotImplementedError((type(space).__name__, type(shape).__name__))
+    if space.spatial_dim != shape.dim:
+        raise ValueError("spatial dimensions of shape and space must match")
 
     return _SimplexONB(space.spatial_dim, space.order)
 
@@ -964,6 +968,8 @@ def _orthonormal_basis_for_pn(space: PN, shape: Simplex):
 def _monomial_basis_for_pn(space: PN, shape: Simplex):
     if not isinstance(shape, Simplex):
         raise NotImplementedError((type(space).__name__, type(shape).__name__))
+    if space.spatial_dim != shape.dim:
+        raise ValueError("spatial dimensions of shape and space must match")
 
     return _SimplexMonomialBasis(space.spatial_dim, space.order)
 
@@ -1139,6 +1145,9 @@ def _monomial_basis_for_tp(space: TensorProductSpace, shape: TensorProductShape)
     if not isinstance(shape, TensorProductShape):
         raise NotImplementedError((type(space).__name__, type(shape).__name__))
 
+    if space.spatial_dim != shape.dim:
+        raise ValueError("spatial dimensions of shape and space must match")
+
     bases = [
             monomial_basis_for_space(b, s)
             for b, s in zip(space.bases, shape.bases, strict=True)]
-- 
2.43.0


From 12174ec114152877f31bf87c1c8f61cad6d7911a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:39 +0000
Subject: [PATCH 18/27] fix: comparing the infinite quadrature order with
 integers of more than 64 bits

---
 modepy/quadrature/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/modepy/quadrature/__init__.py b/modepy/quadrature/__init__.py
index 8f0f85c..b6f76e3 100644
--- a/modepy/quadrature/__init__.py
+++ b/modepy/quadrature/__init__.py
@@ -81,7 +81,8 @@ class _Inf:
         if isinstance(other, _Inf):
             return False
         elif isinstance(other, Number):
-            if np.isinf(other):  # pyright: ignore[reportCallIssue, reportArgumentType]
+            # NOTE: np.isinf does not work for integers of more than 64 bits
+            if abs(other) == np.inf:  # pyright: ignore[reportArgumentType]
                 return NotImplemented
             return True
         else:
@@ -92,7 +93,8 @@ class _Inf:
         if isinstance(other, _Inf):
             return True
         if isinstance(other, Number):
-            if np.isinf(other):  # pyright: ignore[reportCallIssue, reportArgumentType]
+            # NOTE: np.isinf does not work for integers of more than 64 bits
+            if abs(other) == np.inf:  # pyright: ignore[reportArgumentType]
                 return NotImplemented
             return True
         else:
@@ -104,7 +106,8 @@ class _Inf:
         if isinstance(other, _Inf):
             return False
         elif isinstance(other, Number):
-            if np.isinf(other):  # pyright: ignore[reportCallIssue, reportArgumentType]
+            # NOTE: np.isinf does not work for integers of more than 64 bits
+            if abs(other) == np.inf:  # pyright: ignore[reportArgumentType]
                 return NotImplemented
             return False
         else:
@@ -121,7 +124,7 @@ class _Inf:
 
     def __add__(self, other: object) -> _Inf:
         if (isinstance(other, float | int | np.integer | np.floating)
-                and np.isfinite(other)):
+                and abs(other) < np.inf):
             return self
 
         return NotImplemented
-- 
2.43.0


From 2495dda56cdb5f4f23c86a98544aa3c2046fa3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:39 +0000
Subject: [PATCH 19/27] fix: order, repr and copies of zero-dimensional QN
 spaces

---
 modepy/spaces.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modepy/spaces.py b/modepy/spaces.py
index 00b0802..96c19f5 100644
--- a/modepy/spaces.py
+++ b/modepy/spaces.py
@@ -275,6 +275,7 @@ class QN(TensorProductSpace):
             return
 
         super().__init__((PN(1, order),) * spatial_dim)
+        self._order: int = order
 
     @override
     def __getnewargs__(self):
@@ -285,7 +286,7 @@ class QN(TensorProductSpace):
     @override
     def order(self):
         """Maximum degree of the polynomials in the space."""
-        return self.bases[0].order
+        return self._order
 
     @override
     def __repr__(self) -> str:
-- 
2.43.0


From 4ab18517d60107d412dc7d7c1c7c7b27111675a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:52 +0000
Subject: [PATCH 20/27] fix: combining linear combinations of other linear
 combinations

Comparing two instances compared their coefficient arrays, which raised.
---
 modepy/quadrature/construction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index c8955c2..7a27a1b 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -74,7 +74,7 @@ def _identity_integrand(points: ArrayF) -> ArrayF:
     return points
 
 
-@dataclass(frozen=True)
+@dataclass(frozen=True, eq=False)
 class LinearCombinationIntegrand:
     """
     .. note::
-- 
2.43.0


From c71c9bc6634512e1a7b14297610df4a047c7ee20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:52 +0000
Subject: [PATCH 21/27] fix: quad_residual_and_jacobian accepts nodes of shape
 (nnodes,)

---
 modepy/quadrature/construction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index 7a27a1b..da7d34c 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -400,7 +400,7 @@ def quad_residual_and_jacobian(
     :arg reference_integrals: Integrals of *integrands*, shaped ``(len(integrands),)``.
     """
     nintegrands = len(integrands)
-    ndim, _nnodes = nodes.shape
+    ndim = 1 if nodes.ndim == 1 else nodes.shape[0]
 
     if __debug__:
         if len(integrand_derivatives) != ndim:
-- 
2.43.0


From 592772a0888eb6c9b4b1dfa10874bc48ecfa2c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:41 +0000
Subject: [PATCH 22/27] fix: Lebesgue constant of order zero

---
 modepy/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/tools.py b/modepy/tools.py
index 92a8b41..e787622 100644
--- a/modepy/tools.py
+++ b/modepy/tools.py
@@ -314,7 +314,7 @@ def plot_element_values(
 def _evaluate_lebesgue_function(
         n: int, nodes: ArrayF, shape: Shape
     ) -> tuple[ArrayF, Sequence[tuple[int, ...]], ArrayF]:
-    huge_n = (30 if shape.dim == 2 else 10) * n
+    huge_n = (30 if shape.dim == 2 else 10) * max(n, 1)
 
     import modepy as mp
 
-- 
2.43.0


From 0fe05ee79cd0d0042bfaa1050fa4623929b5390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:51 +0000
Subject: [PATCH 23/27] fix: Monomial.simplex_integral overflows for floating
 point factors

---
 modepy/tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modepy/tools.py b/modepy/tools.py
index e787622..d9d65bd 100644
--- a/modepy/tools.py
+++ b/modepy/tools.py
@@ -111,7 +111,9 @@ class Monomial:
         """
         n = len(self.exponents)
         m = sum(self.exponents)
-        return (self.factor * 2**n
+        # NOTE: the factorials may exceed the range of floating point numbers
+        return self.factor * (
+                2**n
                 * math.prod(math.factorial(alpha) for alpha in self.exponents)
                 / math.factorial(n + m))
 
-- 
2.43.0


From bdb8446a50402064f9e1a2f10943155ce1dcdcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:51 +0000
Subject: [PATCH 24/27] fix: normalisation of jacobi underflowed to zero values
 for large parameters

---
 modepy/modes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index e0d3ed0..d9d5fff 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -189,8 +189,10 @@ def jacobi(alpha: float, beta: float, n: int, x: RealValueT) -> RealValueT:
     if abs(alpha + beta + 1) < 1.0e-14:
         gamma0 = gamma(alpha+1) * gamma(beta+1)
     else:
+        # NOTE: the product of the gamma functions can overflow (silently, to
+        # infinity) where their ratios do not
         gamma0 = (2**(alpha+beta+1) / (alpha+beta+1.)
-                * gamma(alpha+1) * gamma(beta+1) / gamma(alpha+beta+1))
+                * (gamma(alpha+1) / gamma(alpha+beta+1) * gamma(beta+1)))
 
     # Storage for recursive construction
     pl: list[RealValueT] = [1.0/math.sqrt(gamma0) + 0*x]
-- 
2.43.0


From 5255419322bd2ada2eb0a272f36de6f15527a81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:51 +0000
Subject: [PATCH 25/27] fix: scaled_jacobi overflowed to infinity for large
 orders

---
 modepy/modes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index d9d5fff..bdd4de9 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -278,10 +278,10 @@ def scaled_jacobi(alpha: float, beta: float, n: int, x: RealValueT) -> RealValue
         scaling = (
             2**(alpha + beta + 1)
             / (2*n + alpha + beta + 1)
-            * gamma(n + alpha + 1)
-            * gamma(n + beta + 1)
-            / gamma(n + alpha + beta + 1)
-            / factorial(n)
+            # NOTE: the product of the gamma functions can overflow (silently, to
+            # infinity) where their ratios do not
+            * (gamma(n + alpha + 1) / gamma(n + alpha + beta + 1))
+            * (gamma(n + beta + 1) / factorial(n))
         )
 
     return sqrt(scaling) * jacobi(alpha, beta, n, x)
-- 
2.43.0


From c8dd74102d0137925c5d68d460ddc0a1a45ed93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:11 +0000
Subject: [PATCH 26/27] fix: Gauss-Jacobi rules lost digits for alpha + beta
 close to -1

---
 modepy/quadrature/jacobi_gauss.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modepy/quadrature/jacobi_gauss.py b/modepy/quadrature/jacobi_gauss.py
index cf1a4bd..8956b55 100644
--- a/modepy/quadrature/jacobi_gauss.py
+++ b/modepy/quadrature/jacobi_gauss.py
@@ -161,6 +161,11 @@ class JacobiGaussQuadrature(Quadrature):
 
         # see Appendix A of Hesthaven/Warburton for these formulas
         def a(n: int) -> np.floating:
+            if n == 1:
+                # NOTE: the factor (apb + 1) of the general formula cancels, and
+                # dividing by it would lose digits for apb close to -1
+                return 2 / (2 + apb) * np.sqrt((1+alpha) * (1+beta) / (apb + 3))
+
             return 2 / (2*n + apb) * np.sqrt(
                 (n * (n+apb) * (n+alpha) * (n+beta))
                 / ((2*n + apb - 1) * (2*n + apb + 1))
-- 
2.43.0


From 519b9c29d29c3d402aa6abd88b81f0d280885341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:11 +0000
Subject: [PATCH 27/27] fix: quadgk did not recognise infinite intervals given
 by numpy scalars

---
 modepy/quadrature/kronrod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modepy/quadrature/kronrod.py b/modepy/quadrature/kronrod.py
index 62da174..eb9f7c8 100644
--- a/modepy/quadrature/kronrod.py
+++ b/modepy/quadrature/kronrod.py
@@ -45,6 +45,7 @@ THE SOFTWARE.
 import heapq
 from dataclasses import dataclass
 from functools import lru_cache
+from numbers import Real
 from typing import TYPE_CHECKING, Protocol, overload
 
 import numpy as np
@@ -479,7 +480,7 @@ def _do_quadgk(
     using h-adaptive Gauss-Kronrod quadrature.
     """
     # Handle infinite / semi-infinite intervals
-    real_endpoints = all(isinstance(si, (int, float)) for si in s)
+    real_endpoints = all(isinstance(si, Real) for si in s)
     if real_endpoints:
         s1, s2 = s[0], s[-1]
         inf1, inf2 = np.isinf(s1), np.isinf(s2)
-- 
2.43.0

