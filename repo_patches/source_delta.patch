From 11a6c8bf0bdefb9e7cd0fa5b5b73f7c205e4da1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:57 +0000
Subject: [PATCH 01/15] fix: linear-spline derivatives on uniform grids are
 slopes, not inverse slopes

---
 interpolation/splines/codegen.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index 963a7ad..20c51a9 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -92,8 +92,8 @@ def blending_formula(k=1, l=0, i=0):
 Φ_{i}_{1} = λ_{i}"""
         elif l == 1:
             s = f"""\
-d_Φ_{i}_{0} = -1.0/δ_{i}
-d_Φ_{i}_{1} = 1.0/δ_{i}"""
+d_Φ_{i}_{0} = -δ_{i}
+d_Φ_{i}_{1} = δ_{i}"""
         else:
             s = f"""
 d_{l}_Φ_{i}_{0} = 0.0
@@ -215,8 +215,8 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
     # dimension {{i}}: nonuniform grid
     i_{{i}} = int(np.searchsorted(gc_{{i}}, x_{{i}}))-1
     i_{{i}} = min(max(i_{{i}}, 0), N_{{i}}-2)
-    δ_{{i}} = (gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
-    λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/δ_{{i}}
+    δ_{{i}} = 1.0/(gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
+    λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/(gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
     {{endif}}
     
     {{endfor}}
@@ -353,8 +353,8 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
         # dimension {{i}}: nonuniform grid
         i_{{i}} = int(np.searchsorted(gc_{{i}}, x_{{i}}))-1
         i_{{i}} = min(max(i_{{i}}, 0), N_{{i}}-2)
-        δ_{{i}} = (gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
-        λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/δ_{{i}}
+        δ_{{i}} = 1.0/(gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
+        λ_{{i}} = (x_{{i}}-gc_{{i}}[i_{{i}}])/(gc_{{i}}[i_{{i}}+1]-gc_{{i}}[i_{{i}}])
         {{endif}}
         {{endfor}}
 
-- 
2.43.0


From 94b5b37b92cb3b6d7a518958fb1656c4b0e55323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:57 +0000
Subject: [PATCH 02/15] fix: nearest/constant extrapolation of a single point
 on nonuniform grids

---
 interpolation/splines/codegen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index 20c51a9..fdef8e9 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -179,6 +179,8 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
     # dim {{i}}: nonuniform
     gc_{{i}} = grid[{{i}}]
     N_{{i}} = gc_{{i}}.shape[0]
+    a_{{i}} = gc_{{i}}[0]
+    b_{{i}} = gc_{{i}}[N_{{i}}-1]
     {{endif}}
     {{endfor}}
 
-- 
2.43.0


From 164c46eb83cb4870ef45c3e9b7cd575504f49452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:57 +0000
Subject: [PATCH 03/15] fix: constant extrapolation of vector-valued splines
 leaves zeros in a supplied out

---
 interpolation/splines/codegen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index fdef8e9..704cff5 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -196,6 +196,8 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
         out[:] = 0.0
         {{if allocate}}
         return out
+        {{else}}
+        return
         {{endif}}
         {{else}}
         val = 0.0
-- 
2.43.0


From d15e75a4ad11906e3e76ff0a689d30b147d99135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:57 +0000
Subject: [PATCH 04/15] fix: constant extrapolation of a single point with
 derivatives

---
 interpolation/splines/codegen.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index 704cff5..41196f1 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -199,9 +199,14 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
         {{else}}
         return
         {{endif}}
-        {{else}}
+        {{elif orders is None}}
         val = 0.0
         return val
+        {{elif allocate}}
+        return ({{"0.0, "*len(orders)}})
+        {{else}}
+        out[:] = 0.0
+        return
         {{endif}}
     {{endif}}
     {{endfor}}
-- 
2.43.0


From 32dc1dd1aea517d410602e1d6809a046641fb0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:42 +0000
Subject: [PATCH 05/15] fix: vec_multilinear_interpolation with a supplied out

---
 interpolation/splines/multilinear_numba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpolation/splines/multilinear_numba.py b/interpolation/splines/multilinear_numba.py
index 7ca7892..b5d2c52 100644
--- a/interpolation/splines/multilinear_numba.py
+++ b/interpolation/splines/multilinear_numba.py
@@ -12,7 +12,7 @@ def vec_multilinear_interpolation(smin, smax, orders, mvalues, s, out=None):
     if out is None:
         return eval_linear(grid, mvalues, s)
     else:
-        eval_linear(grid, values, s, out)
+        eval_linear(grid, mvalues, s, out)
 
 
 def multilinear_interpolation(smin, smax, orders, values, s, out=None):
-- 
2.43.0


From cd2946ab07cae98d47ae731b11986a20293e2609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:42 +0000
Subject: [PATCH 06/15] fix: node list of one-dimensional linear spline objects

---
 interpolation/splines/multilinear.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/interpolation/splines/multilinear.py b/interpolation/splines/multilinear.py
index eee3dff..76d96bf 100644
--- a/interpolation/splines/multilinear.py
+++ b/interpolation/splines/multilinear.py
@@ -6,9 +6,7 @@ import numpy as np
 
 def mlinspace(smin, smax, orders):
     if len(orders) == 1:
-        res = np.atleast_2d(
-            np.linspace(np.array(smin), np.array(smax), np.array(orders))
-        )
+        res = np.atleast_2d(np.linspace(smin[0], smax[0], orders[0]))
         return res.copy()  ## workaround for strange bug
     else:
         meshes = np.meshgrid(
-- 
2.43.0


From d39efacb029d21cf1835e55a477e258664d71f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:42 +0000
Subject: [PATCH 07/15] fix: nodes of grids with nonuniform dimensions

---
 interpolation/splines/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/interpolation/splines/__init__.py b/interpolation/splines/__init__.py
index e23a570..55037fb 100644
--- a/interpolation/splines/__init__.py
+++ b/interpolation/splines/__init__.py
@@ -37,6 +37,8 @@ def CGrid(*args):
 
 
 def nodes(grid):
-    from interpolation.cartesian import mlinspace
+    from interpolation.cartesian import cartesian
 
-    return mlinspace([g[0] for g in grid], [g[1] for g in grid], [g[2] for g in grid])
+    return cartesian(
+        [g if isinstance(g, np.ndarray) else np.linspace(g[0], g[1], g[2]) for g in grid]
+    )
-- 
2.43.0


From bb98cbd747157bbf7a1cb9bee5bb2e71cd1f56c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:15 +0000
Subject: [PATCH 08/15] fix: interpolation.splines.eval_cubic stays the
 function after other calls

---
 interpolation/splines/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interpolation/splines/__init__.py b/interpolation/splines/__init__.py
index 55037fb..e257acd 100644
--- a/interpolation/splines/__init__.py
+++ b/interpolation/splines/__init__.py
@@ -1,5 +1,6 @@
 from .splines import CubicSpline, CubicSplines
 from .multilinear import LinearSpline, LinearSplines
+from . import eval_cubic  # load the submodule now: its name is rebound to the function
 from .eval_splines import options, eval_linear, eval_cubic, eval_spline
 from .prefilter_cubic import filter_cubic, prefilter
 from .option_types import options as extrap_options
-- 
2.43.0


From 7192aa5b4636942331301d02584256eadcf69723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:47 +0000
Subject: [PATCH 09/15] fix: gradient of value-and-gradient cubic evaluators
 outside the grid

The values are continued linearly, but the gradient was that of the cubic
polynomial of the boundary cell.
---
 interpolation/splines/eval_cubic_numba.py | 50 +++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/interpolation/splines/eval_cubic_numba.py b/interpolation/splines/eval_cubic_numba.py
index e6b201e..17d97a8 100644
--- a/interpolation/splines/eval_cubic_numba.py
+++ b/interpolation/splines/eval_cubic_numba.py
@@ -5110,6 +5110,11 @@ def vec_eval_cubic_splines_G_1(a, b, orders, coefs, points, vals, dvals):
                 + Ad[3, 2] * tp0_2
                 + Ad[3, 3] * tp0_3
             )
+        # beyond the grid, the slope is the one at the boundary
+        t0 = max(min(t0, 1.0), 0.0)
+        tp0_0 = t0 * t0 * t0
+        tp0_1 = t0 * t0
+        tp0_2 = t0
         dPhi0_0 = (
             dAd[0, 0] * tp0_0
             + dAd[0, 1] * tp0_1
@@ -5276,6 +5281,11 @@ def vec_eval_cubic_splines_G_2(a, b, orders, coefs, points, vals, dvals):
                 + Ad[3, 2] * tp1_2
                 + Ad[3, 3] * tp1_3
             )
+        # beyond the grid, the slope is the one at the boundary
+        t0 = max(min(t0, 1.0), 0.0)
+        tp0_0 = t0 * t0 * t0
+        tp0_1 = t0 * t0
+        tp0_2 = t0
         dPhi0_0 = (
             dAd[0, 0] * tp0_0
             + dAd[0, 1] * tp0_1
@@ -5300,6 +5310,11 @@ def vec_eval_cubic_splines_G_2(a, b, orders, coefs, points, vals, dvals):
             + dAd[3, 2] * tp0_2
             + dAd[3, 3] * tp0_3
         ) * dinv0
+        # beyond the grid, the slope is the one at the boundary
+        t1 = max(min(t1, 1.0), 0.0)
+        tp1_0 = t1 * t1 * t1
+        tp1_1 = t1 * t1
+        tp1_2 = t1
         dPhi1_0 = (
             dAd[0, 0] * tp1_0
             + dAd[0, 1] * tp1_1
@@ -5603,6 +5618,11 @@ def vec_eval_cubic_splines_G_3(a, b, orders, coefs, points, vals, dvals):
                 + Ad[3, 2] * tp2_2
                 + Ad[3, 3] * tp2_3
             )
+        # beyond the grid, the slope is the one at the boundary
+        t0 = max(min(t0, 1.0), 0.0)
+        tp0_0 = t0 * t0 * t0
+        tp0_1 = t0 * t0
+        tp0_2 = t0
         dPhi0_0 = (
             dAd[0, 0] * tp0_0
             + dAd[0, 1] * tp0_1
@@ -5627,6 +5647,11 @@ def vec_eval_cubic_splines_G_3(a, b, orders, coefs, points, vals, dvals):
             + dAd[3, 2] * tp0_2
             + dAd[3, 3] * tp0_3
         ) * dinv0
+        # beyond the grid, the slope is the one at the boundary
+        t1 = max(min(t1, 1.0), 0.0)
+        tp1_0 = t1 * t1 * t1
+        tp1_1 = t1 * t1
+        tp1_2 = t1
         dPhi1_0 = (
             dAd[0, 0] * tp1_0
             + dAd[0, 1] * tp1_1
@@ -5651,6 +5676,11 @@ def vec_eval_cubic_splines_G_3(a, b, orders, coefs, points, vals, dvals):
             + dAd[3, 2] * tp1_2
             + dAd[3, 3] * tp1_3
         ) * dinv1
+        # beyond the grid, the slope is the one at the boundary
+        t2 = max(min(t2, 1.0), 0.0)
+        tp2_0 = t2 * t2 * t2
+        tp2_1 = t2 * t2
+        tp2_2 = t2
         dPhi2_0 = (
             dAd[0, 0] * tp2_0
             + dAd[0, 1] * tp2_1
@@ -6427,6 +6457,11 @@ def vec_eval_cubic_splines_G_4(a, b, orders, coefs, points, vals, dvals):
                 + Ad[3, 2] * tp3_2
                 + Ad[3, 3] * tp3_3
             )
+        # beyond the grid, the slope is the one at the boundary
+        t0 = max(min(t0, 1.0), 0.0)
+        tp0_0 = t0 * t0 * t0
+        tp0_1 = t0 * t0
+        tp0_2 = t0
         dPhi0_0 = (
             dAd[0, 0] * tp0_0
             + dAd[0, 1] * tp0_1
@@ -6451,6 +6486,11 @@ def vec_eval_cubic_splines_G_4(a, b, orders, coefs, points, vals, dvals):
             + dAd[3, 2] * tp0_2
             + dAd[3, 3] * tp0_3
         ) * dinv0
+        # beyond the grid, the slope is the one at the boundary
+        t1 = max(min(t1, 1.0), 0.0)
+        tp1_0 = t1 * t1 * t1
+        tp1_1 = t1 * t1
+        tp1_2 = t1
         dPhi1_0 = (
             dAd[0, 0] * tp1_0
             + dAd[0, 1] * tp1_1
@@ -6475,6 +6515,11 @@ def vec_eval_cubic_splines_G_4(a, b, orders, coefs, points, vals, dvals):
             + dAd[3, 2] * tp1_2
             + dAd[3, 3] * tp1_3
         ) * dinv1
+        # beyond the grid, the slope is the one at the boundary
+        t2 = max(min(t2, 1.0), 0.0)
+        tp2_0 = t2 * t2 * t2
+        tp2_1 = t2 * t2
+        tp2_2 = t2
         dPhi2_0 = (
             dAd[0, 0] * tp2_0
             + dAd[0, 1] * tp2_1
@@ -6499,6 +6544,11 @@ def vec_eval_cubic_splines_G_4(a, b, orders, coefs, points, vals, dvals):
             + dAd[3, 2] * tp2_2
             + dAd[3, 3] * tp2_3
         ) * dinv2
+        # beyond the grid, the slope is the one at the boundary
+        t3 = max(min(t3, 1.0), 0.0)
+        tp3_0 = t3 * t3 * t3
+        tp3_1 = t3 * t3
+        tp3_2 = t3
         dPhi3_0 = (
             dAd[0, 0] * tp3_0
             + dAd[0, 1] * tp3_1
-- 
2.43.0


From 5b69924c3c2656180de0ddd49fa046694a1384f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:13 +0000
Subject: [PATCH 10/15] fix: Chebyshev polynomials up to degree zero

---
 interpolation/smolyak/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interpolation/smolyak/grid.py b/interpolation/smolyak/grid.py
index f161239..8bc21f7 100644
--- a/interpolation/smolyak/grid.py
+++ b/interpolation/smolyak/grid.py
@@ -194,7 +194,8 @@ def cheby2n(x, n, kind=1.0):
     dim = x.shape
     results = np.zeros((n + 1,) + dim)
     results[0, ...] = np.ones(dim)
-    results[1, ...] = x * kind
+    if n >= 1:
+        results[1, ...] = x * kind
     for i in range(2, n + 1):
         results[i, ...] = 2 * x * results[i - 1, ...] - results[i - 2, ...]
     return results
-- 
2.43.0


From 0c2e4bc4254319f2883f59111674e80d7023fe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:13 +0000
Subject: [PATCH 11/15] fix: CubicSpline.interpolate refuses a single point of
 the wrong dimension

---
 interpolation/splines/splines.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interpolation/splines/splines.py b/interpolation/splines/splines.py
index 6fdc468..27c66d2 100644
--- a/interpolation/splines/splines.py
+++ b/interpolation/splines/splines.py
@@ -92,6 +92,7 @@ class CubicSpline:
         if not with_derivatives:
             if points.ndim == 1:
                 # evaluate only on one point
+                assert points.shape[0] == self.d
                 return eval_cubic(grid, self.__coeffs__, points)
             else:
                 N, d = points.shape
-- 
2.43.0


From ab2d68388d42f5f3b2a7c70f4cc5763e853c549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:18 +0000
Subject: [PATCH 12/15] fix: linear spline objects keep their own copy of the
 values

---
 interpolation/splines/multilinear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interpolation/splines/multilinear.py b/interpolation/splines/multilinear.py
index 76d96bf..ede8a3a 100644
--- a/interpolation/splines/multilinear.py
+++ b/interpolation/splines/multilinear.py
@@ -77,7 +77,7 @@ class LinearSpline:
 
     def set_values(self, values):
         values = values.reshape(self.orders)
-        self.values = numpy.ascontiguousarray(values, dtype=self.dtype)
+        self.values = numpy.array(values, dtype=self.dtype, order="C")
 
     def interpolate(self, s):
         from .eval_splines import eval_linear
@@ -159,7 +159,7 @@ class LinearSplines:
         n_x = mvalues.shape[-1]
         new_orders = list(self.orders) + [n_x]
         mvalues = mvalues.reshape(new_orders)
-        self.mvalues = numpy.ascontiguousarray(mvalues, dtype=self.dtype)
+        self.mvalues = numpy.array(mvalues, dtype=self.dtype, order="C")
 
     def interpolate(self, s):
         from .multilinear_numba import eval_linear
-- 
2.43.0


From 060779f7350e4a5a671b9fae328a285f3d07f1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:05 +0000
Subject: [PATCH 13/15] fix: SmolyakGrid keeps its own copy of bounds and
 densities

---
 interpolation/smolyak/grid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interpolation/smolyak/grid.py b/interpolation/smolyak/grid.py
index 8bc21f7..d112dc2 100644
--- a/interpolation/smolyak/grid.py
+++ b/interpolation/smolyak/grid.py
@@ -728,7 +728,7 @@ class SmolyakGrid(object):
         elif isinstance(lb, int) or isinstance(lb, float):  # scalar. copy it
             self.lb = np.ones(d) * lb
         elif isinstance(lb, list) or isinstance(lb, np.ndarray):
-            lb = np.asarray(lb)
+            lb = np.array(lb)
             if lb.size == d:
                 self.lb = lb
             else:
@@ -741,7 +741,7 @@ class SmolyakGrid(object):
         elif isinstance(ub, int) or isinstance(ub, float):  # scalar. copy it
             self.ub = np.ones(d) * ub
         elif isinstance(ub, list) or isinstance(ub, np.ndarray):
-            ub = np.asarray(ub)
+            ub = np.array(ub)
             if ub.size == d:
                 self.ub = ub
             else:
@@ -764,7 +764,7 @@ class SmolyakGrid(object):
             self.B = build_B(self.d, self.mu, self.cube_grid, self.pinds)
 
         else:  # Anisotropic case
-            mu = np.asarray(mu)
+            mu = np.array(mu)
 
             if any(mu < 1):
                 raise ValueError("Each element in mu needs to be > 1.")
-- 
2.43.0


From 4baf1cda8aa885070fe77989d8c76b1780cbb115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 14/15] fix: find the cell of points very far outside a uniform
 grid

---
 interpolation/multilinear/fungen.py       |   2 +-
 interpolation/splines/codegen.py          |   4 +-
 interpolation/splines/eval_cubic_numba.py | 100 +++++++++++-----------
 3 files changed, 53 insertions(+), 53 deletions(-)

diff --git a/interpolation/multilinear/fungen.py b/interpolation/multilinear/fungen.py
index a7a9ec1..7fcad39 100644
--- a/interpolation/multilinear/fungen.py
+++ b/interpolation/multilinear/fungen.py
@@ -37,7 +37,7 @@ def ol_get_index(gc, x):
             δ = (gc[1] - gc[0]) / (gc[2] - 1)
             d = x - gc[0]
             ii = d // δ
-            i = int(ii)
+            i = int(clamp(ii, 0.0, gc[2] - 2.0))
             i = clamp(i, 0, gc[2] - 2)
             r = d - i * δ
             λ = r / δ
diff --git a/interpolation/splines/codegen.py b/interpolation/splines/codegen.py
index 41196f1..03ce90e 100644
--- a/interpolation/splines/codegen.py
+++ b/interpolation/splines/codegen.py
@@ -217,7 +217,7 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
     {{if (not grid_types) or (grid_types[i]=='uniform')}}
     # dimension {{i}}: uniform grid
     u_{{i}} = (x_{{i}} - a_{{i}})*δ_{{i}}
-    i_{{i}} = int( floor( u_{{i}} ) )
+    i_{{i}} = int( floor( max( min(u_{{i}}, n_{{i}}-2.0), 0.0 ) ) )
     i_{{i}} = max( min(i_{{i}},n_{{i}}-2), 0 )
     λ_{{i}} = u_{{i}}-i_{{i}}
     {{elif grid_types[i]=='nonuniform'}}
@@ -355,7 +355,7 @@ def eval_spline(grid, C, points, out=None, k=1, diff="None", extrap_mode='linear
         {{if (not grid_types) or (grid_types[i]=='uniform')}}
         # dimension {{i}}: uniform grid
         u_{{i}} = (x_{{i}} - a_{{i}})*δ_{{i}}
-        i_{{i}} = int( floor( u_{{i}} ) )
+        i_{{i}} = int( floor( max( min(u_{{i}}, n_{{i}}-2.0), 0.0 ) ) )
         i_{{i}} = max( min(i_{{i}},n_{{i}}-2), 0 )
         λ_{{i}} = u_{{i}}-i_{{i}}
         {{elif grid_types[i]=='nonuniform'}}
diff --git a/interpolation/splines/eval_cubic_numba.py b/interpolation/splines/eval_cubic_numba.py
index 17d97a8..7c22119 100644
--- a/interpolation/splines/eval_cubic_numba.py
+++ b/interpolation/splines/eval_cubic_numba.py
@@ -83,7 +83,7 @@ def eval_cubic_spline_1(a, b, orders, coefs, point):
     dinv0 = (orders[0] - 1.0) / (b[0] - a[0])
     x0 = point[0]
     u0 = (x0 - start0) * dinv0
-    i0 = int(floor(u0))
+    i0 = int(floor(max(min(u0, M0 - 2.0), 0.0)))
     i0 = max(min(i0, M0 - 2), 0)
     t0 = u0 - i0
     tp0_0 = t0 * t0 * t0
@@ -146,11 +146,11 @@ def eval_cubic_spline_2(a, b, orders, coefs, point):
     x0 = point[0]
     x1 = point[1]
     u0 = (x0 - start0) * dinv0
-    i0 = int(floor(u0))
+    i0 = int(floor(max(min(u0, M0 - 2.0), 0.0)))
     i0 = max(min(i0, M0 - 2), 0)
     t0 = u0 - i0
     u1 = (x1 - start1) * dinv1
-    i1 = int(floor(u1))
+    i1 = int(floor(max(min(u1, M1 - 2.0), 0.0)))
     i1 = max(min(i1, M1 - 2), 0)
     t1 = u1 - i1
     tp0_0 = t0 * t0 * t0
@@ -281,15 +281,15 @@ def eval_cubic_spline_3(a, b, orders, coefs, point):
     x1 = point[1]
     x2 = point[2]
     u0 = (x0 - start0) * dinv0
-    i0 = int(floor(u0))
+    i0 = int(floor(max(min(u0, M0 - 2.0), 0.0)))
     i0 = max(min(i0, M0 - 2), 0)
     t0 = u0 - i0
     u1 = (x1 - start1) * dinv1
-    i1 = int(floor(u1))
+    i1 = int(floor(max(min(u1, M1 - 2.0), 0.0)))
     i1 = max(min(i1, M1 - 2), 0)
     t1 = u1 - i1
     u2 = (x2 - start2) * dinv2
-    i2 = int(floor(u2))
+    i2 = int(floor(max(min(u2, M2 - 2.0), 0.0)))
     i2 = max(min(i2, M2 - 2), 0)
     t2 = u2 - i2
     tp0_0 = t0 * t0 * t0
@@ -560,19 +560,19 @@ def eval_cubic_spline_4(a, b, orders, coefs, point):
     x2 = point[2]
     x3 = point[3]
     u0 = (x0 - start0) * dinv0
-    i0 = int(floor(u0))
+    i0 = int(floor(max(min(u0, M0 - 2.0), 0.0)))
     i0 = max(min(i0, M0 - 2), 0)
     t0 = u0 - i0
     u1 = (x1 - start1) * dinv1
-    i1 = int(floor(u1))
+    i1 = int(floor(max(min(u1, M1 - 2.0), 0.0)))
     i1 = max(min(i1, M1 - 2), 0)
     t1 = u1 - i1
     u2 = (x2 - start2) * dinv2
-    i2 = int(floor(u2))
+    i2 = int(floor(max(min(u2, M2 - 2.0), 0.0)))
     i2 = max(min(i2, M2 - 2), 0)
     t2 = u2 - i2
     u3 = (x3 - start3) * dinv3
-    i3 = int(floor(u3))
+    i3 = int(floor(max(min(u3, M3 - 2.0), 0.0)))
     i3 = max(min(i3, M3 - 2), 0)
     t3 = u3 - i3
     tp0_0 = t0 * t0 * t0
@@ -1259,7 +1259,7 @@ def vec_eval_cubic_spline_1(a, b, orders, coefs, points, out):
         start0 = a[0]
         dinv0 = (orders[0] - 1.0) / (b[0] - a[0])
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 2.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         tp0_0 = t0 * t0 * t0
@@ -1337,11 +1337,11 @@ def vec_eval_cubic_spline_2(a, b, orders, coefs, points, out):
         start1 = a[1]
         dinv1 = (orders[1] - 1.0) / (b[1] - a[1])
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 2.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 2.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         tp0_0 = t0 * t0 * t0
@@ -1499,15 +1499,15 @@ def vec_eval_cubic_spline_3(a, b, orders, coefs, points, out):
         start2 = a[2]
         dinv2 = (orders[2] - 1.0) / (b[2] - a[2])
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 2.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 2.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         u2 = (x2 - start2) * dinv2
-        i2 = int(floor(u2))
+        i2 = int(floor(max(min(u2, M2 - 2.0), 0.0)))
         i2 = max(min(i2, M2 - 2), 0)
         t2 = u2 - i2
         tp0_0 = t0 * t0 * t0
@@ -1817,19 +1817,19 @@ def vec_eval_cubic_spline_4(a, b, orders, coefs, points, out):
         start3 = a[3]
         dinv3 = (orders[3] - 1.0) / (b[3] - a[3])
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 2.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 2.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         u2 = (x2 - start2) * dinv2
-        i2 = int(floor(u2))
+        i2 = int(floor(max(min(u2, M2 - 2.0), 0.0)))
         i2 = max(min(i2, M2 - 2), 0)
         t2 = u2 - i2
         u3 = (x3 - start3) * dinv3
-        i3 = int(floor(u3))
+        i3 = int(floor(max(min(u3, M3 - 2.0), 0.0)))
         i3 = max(min(i3, M3 - 2), 0)
         t3 = u3 - i3
         tp0_0 = t0 * t0 * t0
@@ -2561,7 +2561,7 @@ def eval_cubic_splines_1(a, b, orders, coefs, point, vals):
     dinv0 = (orders[0] - 1.0) / (b[0] - a[0])
     x0 = point[0]
     u0 = (x0 - start0) * dinv0
-    i0 = int(floor(u0))
+    i0 = int(floor(max(min(u0, M0 - 2.0), 0.0)))
     i0 = max(min(i0, M0 - 2), 0)
     t0 = u0 - i0
     tp0_0 = t0 * t0 * t0
@@ -2626,11 +2626,11 @@ def eval_cubic_splines_2(a, b, orders, coefs, point, vals):
     x0 = point[0]
     x1 = point[1]
     u0 = (x0 - start0) * dinv0
-    i0 = int(floor(u0))
+    i0 = int(floor(max(min(u0, M0 - 2.0), 0.0)))
     i0 = max(min(i0, M0 - 2), 0)
     t0 = u0 - i0
     u1 = (x1 - start1) * dinv1
-    i1 = int(floor(u1))
+    i1 = int(floor(max(min(u1, M1 - 2.0), 0.0)))
     i1 = max(min(i1, M1 - 2), 0)
     t1 = u1 - i1
     tp0_0 = t0 * t0 * t0
@@ -2763,15 +2763,15 @@ def eval_cubic_splines_3(a, b, orders, coefs, point, vals):
     x1 = point[1]
     x2 = point[2]
     u0 = (x0 - start0) * dinv0
-    i0 = int(floor(u0))
+    i0 = int(floor(max(min(u0, M0 - 2.0), 0.0)))
     i0 = max(min(i0, M0 - 2), 0)
     t0 = u0 - i0
     u1 = (x1 - start1) * dinv1
-    i1 = int(floor(u1))
+    i1 = int(floor(max(min(u1, M1 - 2.0), 0.0)))
     i1 = max(min(i1, M1 - 2), 0)
     t1 = u1 - i1
     u2 = (x2 - start2) * dinv2
-    i2 = int(floor(u2))
+    i2 = int(floor(max(min(u2, M2 - 2.0), 0.0)))
     i2 = max(min(i2, M2 - 2), 0)
     t2 = u2 - i2
     tp0_0 = t0 * t0 * t0
@@ -3044,19 +3044,19 @@ def eval_cubic_splines_4(a, b, orders, coefs, point, vals):
     x2 = point[2]
     x3 = point[3]
     u0 = (x0 - start0) * dinv0
-    i0 = int(floor(u0))
+    i0 = int(floor(max(min(u0, M0 - 2.0), 0.0)))
     i0 = max(min(i0, M0 - 2), 0)
     t0 = u0 - i0
     u1 = (x1 - start1) * dinv1
-    i1 = int(floor(u1))
+    i1 = int(floor(max(min(u1, M1 - 2.0), 0.0)))
     i1 = max(min(i1, M1 - 2), 0)
     t1 = u1 - i1
     u2 = (x2 - start2) * dinv2
-    i2 = int(floor(u2))
+    i2 = int(floor(max(min(u2, M2 - 2.0), 0.0)))
     i2 = max(min(i2, M2 - 2), 0)
     t2 = u2 - i2
     u3 = (x3 - start3) * dinv3
-    i3 = int(floor(u3))
+    i3 = int(floor(max(min(u3, M3 - 2.0), 0.0)))
     i3 = max(min(i3, M3 - 2), 0)
     t3 = u3 - i3
     tp0_0 = t0 * t0 * t0
@@ -3744,7 +3744,7 @@ def vec_eval_cubic_splines_1(a, b, orders, coefs, points, vals):
     for n in range(N):
         x0 = points[n, 0]
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 2.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         tp0_0 = t0 * t0 * t0
@@ -3824,11 +3824,11 @@ def vec_eval_cubic_splines_2(a, b, orders, coefs, points, vals):
         x0 = points[n, 0]
         x1 = points[n, 1]
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 2.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 2.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         tp0_0 = t0 * t0 * t0
@@ -3988,15 +3988,15 @@ def vec_eval_cubic_splines_3(a, b, orders, coefs, points, vals):
         x1 = points[n, 1]
         x2 = points[n, 2]
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 2.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 2.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         u2 = (x2 - start2) * dinv2
-        i2 = int(floor(u2))
+        i2 = int(floor(max(min(u2, M2 - 2.0), 0.0)))
         i2 = max(min(i2, M2 - 2), 0)
         t2 = u2 - i2
         tp0_0 = t0 * t0 * t0
@@ -4308,19 +4308,19 @@ def vec_eval_cubic_splines_4(a, b, orders, coefs, points, vals):
         x2 = points[n, 2]
         x3 = points[n, 3]
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 2.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 2.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         u2 = (x2 - start2) * dinv2
-        i2 = int(floor(u2))
+        i2 = int(floor(max(min(u2, M2 - 2.0), 0.0)))
         i2 = max(min(i2, M2 - 2), 0)
         t2 = u2 - i2
         u3 = (x3 - start3) * dinv3
-        i3 = int(floor(u3))
+        i3 = int(floor(max(min(u3, M3 - 2.0), 0.0)))
         i3 = max(min(i3, M3 - 2), 0)
         t3 = u3 - i3
         tp0_0 = t0 * t0 * t0
@@ -5056,7 +5056,7 @@ def vec_eval_cubic_splines_G_1(a, b, orders, coefs, points, vals, dvals):
     for n in range(N):
         x0 = points[n, 0]
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 2.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         tp0_0 = t0 * t0 * t0
@@ -5172,11 +5172,11 @@ def vec_eval_cubic_splines_G_2(a, b, orders, coefs, points, vals, dvals):
         x0 = points[n, 0]
         x1 = points[n, 1]
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 2.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 2.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         tp0_0 = t0 * t0 * t0
@@ -5454,15 +5454,15 @@ def vec_eval_cubic_splines_G_3(a, b, orders, coefs, points, vals, dvals):
         x1 = points[n, 1]
         x2 = points[n, 2]
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 2.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 2.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         u2 = (x2 - start2) * dinv2
-        i2 = int(floor(u2))
+        i2 = int(floor(max(min(u2, M2 - 2.0), 0.0)))
         i2 = max(min(i2, M2 - 2), 0)
         t2 = u2 - i2
         tp0_0 = t0 * t0 * t0
@@ -6238,19 +6238,19 @@ def vec_eval_cubic_splines_G_4(a, b, orders, coefs, points, vals, dvals):
         x2 = points[n, 2]
         x3 = points[n, 3]
         u0 = (x0 - start0) * dinv0
-        i0 = int(floor(u0))
+        i0 = int(floor(max(min(u0, M0 - 2.0), 0.0)))
         i0 = max(min(i0, M0 - 2), 0)
         t0 = u0 - i0
         u1 = (x1 - start1) * dinv1
-        i1 = int(floor(u1))
+        i1 = int(floor(max(min(u1, M1 - 2.0), 0.0)))
         i1 = max(min(i1, M1 - 2), 0)
         t1 = u1 - i1
         u2 = (x2 - start2) * dinv2
-        i2 = int(floor(u2))
+        i2 = int(floor(max(min(u2, M2 - 2.0), 0.0)))
         i2 = max(min(i2, M2 - 2), 0)
         t2 = u2 - i2
         u3 = (x3 - start3) * dinv3
-        i3 = int(floor(u3))
+        i3 = int(floor(max(min(u3, M3 - 2.0), 0.0)))
         i3 = max(min(i3, M3 - 2), 0)
         t3 = u3 - i3
         tp0_0 = t0 * t0 * t0
-- 
2.43.0


From ba2f1d0b496bfe50bb76c90edeb334dc71d31b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:21 +0000
Subject: [PATCH 15/15] fix: reject fractional degrees of complete polynomials

---
 interpolation/complete_poly.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interpolation/complete_poly.py b/interpolation/complete_poly.py
index cab5ac3..835cb86 100644
--- a/interpolation/complete_poly.py
+++ b/interpolation/complete_poly.py
@@ -101,6 +101,8 @@ def complete_polynomial(z, d):
     assert d >= 0, "d must be non-negative"
     if d > 5:
         raise ValueError("Complete polynomial only implemeted up to degree 5")
+    if d != int(d):
+        raise ValueError("Complete polynomial degree must be an integer")
 
     # Assure z is array
     z = np.asarray(z)
@@ -320,6 +322,8 @@ def complete_polynomial_der(z, d, der):
     assert der >= 0, "derivative must be non-negative"
     if d > 5:
         raise ValueError("Complete polynomial only implemeted up to degree 5")
+    if d != int(d):
+        raise ValueError("Complete polynomial degree must be an integer")
 
     # Ensure z is a numpy array
     z = np.asarray(z)
-- 
2.43.0

