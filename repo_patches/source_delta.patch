From 202049785d49c4d572e158ededbbf6709a3aab66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:05 +0000
Subject: [PATCH 01/19] fix: Cosmology with gamma could not be unflattened

list.reverse() returns None, so any cosmology built with gamma raised as soon
as it crossed a jax transformation (jit, grad, vmap) as an argument.
---
 jax_cosmo/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/core.py b/jax_cosmo/core.py
index 4ff49d6..2f8e742 100644
--- a/jax_cosmo/core.py
+++ b/jax_cosmo/core.py
@@ -120,7 +120,7 @@ class Cosmology:
     def tree_unflatten(cls, aux_data, children):
         # Retrieve base parameters
         Omega_c, Omega_b, h, n_s, sigma8, Omega_k, w0, wa = children[:8]
-        children = list(children[8:]).reverse()
+        children = list(children[8:])[::-1]
 
         # We extract the remaining parameters in reverse order from how they
         # were inserted
-- 
2.43.0


From 97cac8dccb517f037c2e61a435ec772af8eec693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:05 +0000
Subject: [PATCH 02/19] fix: sign of the log determinant in
 gaussian_log_likelihood

log L = -(r^T C^-1 r + log det C) / 2 up to a constant; the determinant was
added instead of subtracted, rewarding large covariances.
---
 jax_cosmo/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/likelihood.py b/jax_cosmo/likelihood.py
index 25ae649..d8fd02f 100644
--- a/jax_cosmo/likelihood.py
+++ b/jax_cosmo/likelihood.py
@@ -58,4 +58,4 @@ def gaussian_log_likelihood(data, mu, C, include_logdet=True, inverse_method="in
             _, logdet = sparse.slogdet(C)
         else:
             _, logdet = np.linalg.slogdet(C)
-        return -0.5 * (rT_Cinv_r - logdet)
+        return -0.5 * (rT_Cinv_r + logdet)
-- 
2.43.0


From de80c1df10551944c608326c49e0854a5a75779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:05 +0000
Subject: [PATCH 03/19] fix: interp picked a neighbouring segment in parts of
 the table

The clip of x to [xp[1], xp[-2]] made the first segment of increasing tables,
and about half of every segment of decreasing tables (scale factor as a function
of distance, halofit nonlinear scale), an extrapolation of the next segment, so
the interpolant was discontinuous and missed the tabulated points' line.
---
 jax_cosmo/scipy/interpolate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index 585fabc..639a204 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -32,7 +32,8 @@ def interp(x, xp, fp):
 
     xi = xp[ind]
     # Figure out if we are on the right or the left of nearest
-    s = np.sign(np.clip(x, xp[1], xp[-2]) - xi).astype(np.int64)
+    # (the table may be either increasing or decreasing)
+    s = np.sign((x - xi) * (xp[-1] - xp[0])).astype(np.int64)
     a = (fp[ind + np.copysign(1, s).astype(np.int64)] - fp[ind]) / (
         xp[ind + np.copysign(1, s).astype(np.int64)] - xp[ind]
     )
-- 
2.43.0


From b095131dd81d54badb1f4269b21b997710f9f2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:05 +0000
Subject: [PATCH 04/19] fix: evaluating delta_nz raised a TypeError

Its redshift was compared with the tuple of parameters instead of the parameter.
---
 jax_cosmo/redshift.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index c7fb4b2..a79d292 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -92,7 +92,7 @@ class delta_nz(redshift_distribution):
         self._norm = 1.0
 
     def pz_fn(self, z):
-        z0 = self.params
+        z0 = self.params[0]
         return np.where(z == z0, 1.0, 0)
 
 
-- 
2.43.0


From a195d82f6b9a51ce5a1db405cb8ad248b297adcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:05 +0000
Subject: [PATCH 05/19] fix: derivative of the transverse distance with
 curvature at Omega_k = 0

The flat branch did not depend on Omega_k, so gradients and Hessians missed the
chi^3 / (6 R_H^2) term exactly at the fiducial flat cosmology.
---
 jax_cosmo/background.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index ba7566c..c768297 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -332,7 +332,10 @@ def transverse_comoving_distance(cosmo, a):
         return const.rh / cosmo.sqrtk * np.sinh(cosmo.sqrtk * chi / const.rh)
 
     def flat_universe(chi):
-        return chi
+        # Expansion of the two other branches around Omega_k = 0, where only
+        # chi is left, so that derivatives with respect to Omega_k hold there too
+        x = cosmo.Omega_k * (chi / const.rh) ** 2
+        return chi * (1.0 + x / 6.0 + x**2 / 120.0)
 
     def close_universe(chi):
         return const.rh / cosmo.sqrtk * np.sin(cosmo.sqrtk * chi / const.rh)
-- 
2.43.0


From a3e9d00031e412fbf9ccf60b9c24bce1b657061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:58 +0000
Subject: [PATCH 06/19] fix: results depended on how a cosmology had been used
 before

The workspace kept tables computed with other table options (log10_amin, steps)
and tables of tracers, so that using a cosmology inside jit or lax control flow
made any later use of it raise UnexpectedTracerError, and a first call with a
coarse table degraded all later distances.
---
 jax_cosmo/background.py | 65 +++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 22 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index c768297..22d23ab 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -1,4 +1,5 @@
 # This module implements various functions for the background COSMOLOGY
+import jax
 import jax.numpy as np
 from jax import lax
 
@@ -22,6 +23,17 @@ __all__ = [
 ]
 
 
+def _store_in_workspace(cosmo, key, table):
+    """Stores a table in the workspace of the cosmology for later calls.
+
+    Tables holding tracers are only valid in the transformation that computes
+    them, while the cosmology may outlive it, so these are not stored.
+    """
+    leaves = jax.tree_util.tree_leaves(table)
+    if not any(isinstance(leaf, jax.core.Tracer) for leaf in leaves):
+        cosmo._workspace[key] = table
+
+
 def w(cosmo, a):
     r"""Dark Energy equation of state parameter using the Linder
     parametrisation.
@@ -219,8 +231,18 @@ def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
 
         \chi(a) =  R_H \int_a^1 \frac{da^\prime}{{a^\prime}^2 E(a^\prime)}
     """
+    cache = _radial_comoving_distance_table(cosmo, log10_amin, steps)
+
+    a = np.atleast_1d(a)
+    # Return the results as an interpolation of the table
+    return np.clip(interp(a, cache["a"], cache["chi"]), 0.0)
+
+
+def _radial_comoving_distance_table(cosmo, log10_amin=-3, steps=256):
+    """Table of radial comoving distances against scale factor"""
+    key = ("background.radial_comoving_distance", float(log10_amin), steps)
     # Check if distances have already been computed
-    if not "background.radial_comoving_distance" in cosmo._workspace.keys():
+    if not key in cosmo._workspace.keys():
         # Compute tabulated array
         atab = np.logspace(log10_amin, 0.0, steps)
 
@@ -233,13 +255,10 @@ def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
         chitab = chitab[-1] - chitab
 
         cache = {"a": atab, "chi": chitab}
-        cosmo._workspace["background.radial_comoving_distance"] = cache
+        _store_in_workspace(cosmo, key, cache)
     else:
-        cache = cosmo._workspace["background.radial_comoving_distance"]
-
-    a = np.atleast_1d(a)
-    # Return the results as an interpolation of the table
-    return np.clip(interp(a, cache["a"], cache["chi"]), 0.0)
+        cache = cosmo._workspace[key]
+    return cache
 
 
 def a_of_chi(cosmo, chi):
@@ -259,10 +278,7 @@ def a_of_chi(cosmo, chi):
     a : array-like
       Scale factors corresponding to requested distances
     """
-    # Check if distances have already been computed, force computation otherwise
-    if not "background.radial_comoving_distance" in cosmo._workspace.keys():
-        radial_comoving_distance(cosmo, 1.0)
-    cache = cosmo._workspace["background.radial_comoving_distance"]
+    cache = _radial_comoving_distance_table(cosmo)
     chi = np.atleast_1d(chi)
     return interp(chi, cache["chi"], cache["a"])
 
@@ -460,8 +476,15 @@ def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
     D:  ndarray, or float if input scalar
         Growth factor computed at requested scale factor
     """
+    cache = _growth_table_ODE(cosmo, log10_amin, steps)
+    return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
+
+
+def _growth_table_ODE(cosmo, log10_amin=-3, steps=128):
+    """Table of growth factors and growth rates against scale factor"""
+    key = ("background.growth_factor", float(log10_amin), steps)
     # Check if growth has already been computed
-    if not "background.growth_factor" in cosmo._workspace.keys():
+    if not key in cosmo._workspace.keys():
         # Compute tabulated array
         atab = np.logspace(log10_amin, 0.0, steps)
 
@@ -485,10 +508,10 @@ def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
         ftab = y[:, 1] / y1[-1] * atab / gtab
 
         cache = {"a": atab, "g": gtab, "f": ftab}
-        cosmo._workspace["background.growth_factor"] = cache
+        _store_in_workspace(cosmo, key, cache)
     else:
-        cache = cosmo._workspace["background.growth_factor"]
-    return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
+        cache = cosmo._workspace[key]
+    return cache
 
 
 def _growth_rate_ODE(cosmo, a):
@@ -508,10 +531,7 @@ def _growth_rate_ODE(cosmo, a):
     f:  ndarray, or float if input scalar
         Growth rate computed at requested scale factor
     """
-    # Check if growth has already been computed, if not, compute it
-    if not "background.growth_factor" in cosmo._workspace.keys():
-        _growth_factor_ODE(cosmo, np.atleast_1d(1.0))
-    cache = cosmo._workspace["background.growth_factor"]
+    cache = _growth_table_ODE(cosmo)
     return interp(a, cache["a"], cache["f"])
 
 
@@ -533,8 +553,9 @@ def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
         Growth factor computed at requested scale factor
 
     """
+    key = ("background.growth_factor_gamma", float(log10_amin), steps)
     # Check if growth has already been computed, if not, compute it
-    if not "background.growth_factor" in cosmo._workspace.keys():
+    if not key in cosmo._workspace.keys():
         # Compute tabulated array
         atab = np.logspace(log10_amin, 0.0, steps)
 
@@ -545,9 +566,9 @@ def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
         gtab = np.exp(odeint(integrand, np.log(atab[0]), np.log(atab)))
         gtab = gtab / gtab[-1]  # Normalize to a=1.
         cache = {"a": atab, "g": gtab}
-        cosmo._workspace["background.growth_factor"] = cache
+        _store_in_workspace(cosmo, key, cache)
     else:
-        cache = cosmo._workspace["background.growth_factor"]
+        cache = cosmo._workspace[key]
     return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
 
 
-- 
2.43.0


From 809487118263dc1d0c94539961bd2ff643c7a3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:58 +0000
Subject: [PATCH 07/19] fix: growth_factor and growth_rate raised on a scalar
 scale factor

Both document array_like input; treat scalars as radial_comoving_distance does.
---
 jax_cosmo/background.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index 22d23ab..8ced558 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -477,6 +477,7 @@ def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
         Growth factor computed at requested scale factor
     """
     cache = _growth_table_ODE(cosmo, log10_amin, steps)
+    a = np.atleast_1d(a)
     return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
 
 
@@ -532,6 +533,7 @@ def _growth_rate_ODE(cosmo, a):
         Growth rate computed at requested scale factor
     """
     cache = _growth_table_ODE(cosmo)
+    a = np.atleast_1d(a)
     return interp(a, cache["a"], cache["f"])
 
 
@@ -569,6 +571,7 @@ def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
         _store_in_workspace(cosmo, key, cache)
     else:
         cache = cosmo._workspace[key]
+    a = np.atleast_1d(a)
     return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
 
 
-- 
2.43.0


From 8e90095186d6a570117fa0b4237d4c2ac0f54877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:58 +0000
Subject: [PATCH 08/19] fix: redshift distributions leaked tracers through
 their cached norm

Evaluating a distribution inside jit or lax control flow made any later use of it
raise UnexpectedTracerError.
---
 jax_cosmo/redshift.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index a79d292..da1b5a1 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -2,6 +2,7 @@
 from abc import ABC
 from abc import abstractmethod
 
+import jax
 import jax.numpy as np
 from jax.tree_util import register_pytree_node_class
 
@@ -27,9 +28,14 @@ class redshift_distribution(container):
 
     def __call__(self, z):
         """Computes the normalized n(z)"""
-        if self._norm is None:
-            self._norm = simps(lambda t: self.pz_fn(t), 0.0, self.config["zmax"], 256)
-        return self.pz_fn(z) / self._norm
+        norm = self._norm
+        if norm is None:
+            norm = simps(lambda t: self.pz_fn(t), 0.0, self.config["zmax"], 256)
+            # A tracer is only valid in the current transformation, while this
+            # object may outlive it
+            if not isinstance(norm, jax.core.Tracer):
+                self._norm = norm
+        return self.pz_fn(z) / norm
 
     @property
     def zmax(self):
-- 
2.43.0


From a34eaaaa16034b7dc2268d8360226ac30c21ceda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:58 +0000
Subject: [PATCH 09/19] fix: WeakLensing lost its multiplicative and alignment
 biases as a pytree

Parameters were flattened as (bins, m, ia_bias) but unflattened positionally into
(bins, ia_bias, m), so probes passed through jit, grad or vmap dropped m or
swapped it with the intrinsic alignment bias.
---
 jax_cosmo/probes.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/jax_cosmo/probes.py b/jax_cosmo/probes.py
index fab6880..582abaf 100644
--- a/jax_cosmo/probes.py
+++ b/jax_cosmo/probes.py
@@ -169,6 +169,18 @@ class WeakLensing(container):
             kwargs["ia_enabled"] = ia_enabled
         super(WeakLensing, self).__init__(*args, sigma_e=sigma_e, **kwargs)
 
+    @classmethod
+    def tree_unflatten(cls, aux_data, children):
+        # Parameters are not stored in the order of the constructor arguments
+        redshift_bins, multiplicative_bias = children[:2]
+        ia_bias = children[2] if len(children) > 2 else None
+        return cls(
+            redshift_bins,
+            ia_bias=ia_bias,
+            multiplicative_bias=multiplicative_bias,
+            **aux_data
+        )
+
     @property
     def n_tracers(self):
         """
-- 
2.43.0


From 8450a3ef2eed087b443bf9ed3507fd3c4a74c97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:34 +0000
Subject: [PATCH 10/19] fix: sparse determinants were nan for some invertible
 matrices

The recursion inverts every trailing sub-matrix, so a single zero on the diagonal
of the last block, or any singular trailing sub-matrix, gave nan.
---
 jax_cosmo/sparse.py | 42 +++++-------------------------------------
 1 file changed, 5 insertions(+), 37 deletions(-)

diff --git a/jax_cosmo/sparse.py b/jax_cosmo/sparse.py
index 23139df..e8c8ca9 100644
--- a/jax_cosmo/sparse.py
+++ b/jax_cosmo/sparse.py
@@ -27,8 +27,6 @@ You can also use the lower-level algorithms (with no input validation) directly:
  - :fun:`sparse_dot_sparse`
  - :fun:`dense_dot_sparse_dot_dense`
 """
-import functools
-
 import jax.numpy as np
 from jax import jit
 from jax import vmap
@@ -315,31 +313,13 @@ def inv(sparse):
     return np.transpose(np.linalg.inv(np.transpose(sparse, (2, 0, 1))), (1, 2, 0))
 
 
-# We split the determinant calculation for a matrix with N x N blocks
-# into n pieces that can be evaluated in parallel, following eqn (2.2)
-# of https://arxiv.org/abs/1112.4379.  First build a helper function
-# to calculate one piece indexed by 0 <= k < N:
-@functools.partial(jit, static_argnums=(1, 2, 3))
-def _block_det(sparse, k, N, P):
-    u = sparse[k : k + 1, k + 1 : N, 0:P]
-    S = sparse[k + 1 : N, k + 1 : N, 0:P]
-    v = sparse[k + 1 : N, k : k + 1, 0:P]
-    Sinv_v = sparse_dot_sparse(inv(S), v)
-    M = sparse[k, k] - sparse_dot_sparse(u, Sinv_v)
-    sign = np.prod(np.sign(M))
-    logdet = np.sum(np.log(np.abs(M)))
-    return sign, logdet
-
-
 @jit
 def slogdet(sparse):
     """Calculate the log(determinant) of a sparse matrix.
 
-    Based on equation (2.2) of https://arxiv.org/abs/1112.4379
-
-    For a zero sparse matrix, the result of this computation is
-    currently undefined and will return nan.
-    TODO: support null matrix as input.
+    Rows and columns can be reordered to make the matrix block diagonal, with
+    one ny x nx block per diagonal element, so that its determinant is the
+    product of their determinants.
 
     Parameters
     ----------
@@ -353,17 +333,8 @@ def slogdet(sparse):
         determinant.
     """
     sparse = check_sparse(sparse, square=True)
-    N, _, P = sparse.shape
-    sign = np.prod(np.sign(sparse[-1, -1]))
-    logdet = np.sum(np.log(np.abs(sparse[-1, -1])))
-    # The individual blocks can be calculated in any order so there
-    # should be a better way to express this using lax.map but I
-    # can't get it to work without "concretization" errors.
-    for i in range(N - 1):
-        s, ld = _block_det(sparse, i, N, P)
-        sign *= s
-        logdet += ld
-    return sign, logdet
+    sign, logdet = np.linalg.slogdet(np.transpose(sparse, (2, 0, 1)))
+    return np.prod(sign), np.sum(logdet)
 
 
 @jit
@@ -372,9 +343,6 @@ def det(sparse):
 
     Uses :func:`slogdet`.
 
-    For a zero sparse matrix, the result of this computation is
-    currently undefined and will return nan.
-
     Parameters
     ----------
     sparse : array
-- 
2.43.0


From 2160d2a460db26b8c716df55594c505f91cabd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:34 +0000
Subject: [PATCH 11/19] fix: bilinear form of sparse.dot only took jax arrays

Lists raised AttributeError, unlike in the two argument form, and the message of
the shape check was not formatted.
---
 jax_cosmo/sparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_cosmo/sparse.py b/jax_cosmo/sparse.py
index e8c8ca9..fffc0ab 100644
--- a/jax_cosmo/sparse.py
+++ b/jax_cosmo/sparse.py
@@ -120,7 +120,7 @@ def dot(*args):
         else:
             return vec_dot_sparse(A, B) if A.ndim == 1 else dense_dot_sparse(A, B)
     elif len(args) == 3:
-        A, B, C = args
+        A, B, C = [np.asarray(arg) for arg in args]
         if A.ndim != 2 or B.ndim != 3 or C.ndim != 2:
             raise ValueError("Can only handle dense @ sparse @ dense bilinear form.")
         if (
@@ -128,7 +128,7 @@ def dot(*args):
             or B.shape[1] * B.shape[2] != C.shape[0]
         ):
             raise ValueError(
-                "Shapes of A {A.shape}, B {B.shape}, C {C.shape} not compatible for dot product."
+                f"Shapes of A {A.shape}, B {B.shape}, C {C.shape} not compatible for dot product."
             )
         return dense_dot_sparse_dot_dense(A, B, C)
     else:
-- 
2.43.0


From 6b792316a20e710a4be2feda5a3505225020d39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:34 +0000
Subject: [PATCH 12/19] fix: splines could not be returned from vmap

Unflattening went through the constructor, which rejects the batched leaves.
---
 jax_cosmo/scipy/interpolate.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index 639a204..6e0ff56 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -240,8 +240,12 @@ class InterpolatedUnivariateSpline(object):
 
     @classmethod
     def tree_unflatten(cls, aux_data, children):
-        x, y, coefficients = children
-        return cls(x, y, coefficients=coefficients, **aux_data)
+        # Children may be anything here (batched arrays, axes, placeholders), so
+        # they are not to go through the constructor and its checks
+        spline = cls.__new__(cls)
+        spline._x, spline._y, spline._coefficients = children
+        spline._endpoints, spline.k = aux_data["endpoints"], aux_data["k"]
+        return spline
 
     def __call__(self, x):
         """Evaluation of the spline.
-- 
2.43.0


From 23e846680d12e23ccb401547bcab2bf4d885f5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:40 +0000
Subject: [PATCH 13/19] fix: lensing spectra were nan for integer multipoles
 above 215

With jax's default 32 bit integers the product of four multipoles overflowed.
---
 jax_cosmo/probes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_cosmo/probes.py b/jax_cosmo/probes.py
index 582abaf..d6c7967 100644
--- a/jax_cosmo/probes.py
+++ b/jax_cosmo/probes.py
@@ -72,7 +72,7 @@ def weak_lensing_kernel(cosmo, pzs, z, ell):
     # Constant term
     constant_factor = 3.0 * const.H0**2 * cosmo.Omega_m / 2.0 / const.c
     # Ell dependent factor
-    ell_factor = np.sqrt((ell - 1) * (ell) * (ell + 1) * (ell + 2)) / (ell + 0.5) ** 2
+    ell_factor = np.sqrt((ell - 1.0) * ell * (ell + 1.0) * (ell + 2.0)) / (ell + 0.5) ** 2
     return constant_factor * ell_factor * radial_kernel
 
 
@@ -127,7 +127,7 @@ def nla_kernel(cosmo, pzs, bias, z, ell):
     # Constant factor
     constant_factor = 1.0
     # Ell dependent factor
-    ell_factor = np.sqrt((ell - 1) * (ell) * (ell + 1) * (ell + 2)) / (ell + 0.5) ** 2
+    ell_factor = np.sqrt((ell - 1.0) * ell * (ell + 1.0) * (ell + 2.0)) / (ell + 0.5) ** 2
     return constant_factor * ell_factor * radial_kernel
 
 
-- 
2.43.0


From 54b23cfff8406bd1eab1e43f39a0065f411117fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:40 +0000
Subject: [PATCH 14/19] fix: background densities raised on an integer scale
 factor

jax refuses to raise integers to negative integer powers, so H(cosmo, 1) failed.
---
 jax_cosmo/background.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index 8ced558..b70655e 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -132,8 +132,8 @@ def Esqr(cosmo, a):
     by :py:meth:`.f_de`.
     """
     return (
-        cosmo.Omega_m * np.power(a, -3)
-        + cosmo.Omega_k * np.power(a, -2)
+        cosmo.Omega_m * np.power(a, -3.0)
+        + cosmo.Omega_k * np.power(a, -2.0)
         + cosmo.Omega_de * np.exp(f_de(cosmo, a))
     )
 
@@ -177,7 +177,7 @@ def Omega_m_a(cosmo, a):
 
     see :cite:`2005:Percival` Eq. (6)
     """
-    return cosmo.Omega_m * np.power(a, -3) / Esqr(cosmo, a)
+    return cosmo.Omega_m * np.power(a, -3.0) / Esqr(cosmo, a)
 
 
 def Omega_de_a(cosmo, a):
-- 
2.43.0


From 6bde3112beb902ed130d60111fd072ec2410ab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:18 +0000
Subject: [PATCH 15/19] fix: natural splines kept curvature at their right end

---
 jax_cosmo/scipy/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index 6e0ff56..f1112ff 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -207,7 +207,7 @@ class InterpolatedUnivariateSpline(object):
                 A02 = zero if endpoints == "natural" else array([h[0]])
                 ANN = one if endpoints == "natural" else array([h[-2]])
                 AN1 = (
-                    -one if endpoints == "natural" else array([-(h[-2] + h[-1])])
+                    zero if endpoints == "natural" else array([-(h[-2] + h[-1])])
                 )  # A[N, N-1]
                 AN2 = zero if endpoints == "natural" else array([h[-1]])  # A[N, N-2]
 
-- 
2.43.0


From fee2f4d3e7fada7e7150b1f8b8d044f1f47a429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:49 +0000
Subject: [PATCH 16/19] fix: derivative of the transverse distance lost its
 digits close to Omega_k = 0

---
 jax_cosmo/background.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index b70655e..c30f04f 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -351,7 +351,7 @@ def transverse_comoving_distance(cosmo, a):
         # Expansion of the two other branches around Omega_k = 0, where only
         # chi is left, so that derivatives with respect to Omega_k hold there too
         x = cosmo.Omega_k * (chi / const.rh) ** 2
-        return chi * (1.0 + x / 6.0 + x**2 / 120.0)
+        return chi * (1.0 + x / 6.0 + x**2 / 120.0 + x**3 / 5040.0)
 
     def close_universe(chi):
         return const.rh / cosmo.sqrtk * np.sin(cosmo.sqrtk * chi / const.rh)
@@ -360,7 +360,9 @@ def transverse_comoving_distance(cosmo, a):
 
     chi = radial_comoving_distance(cosmo, a)
 
-    return lax.switch(cosmo.k + 1, branches, chi)
+    # Derivatives of the curved branches lose all digits close to Omega_k = 0
+    index = np.where(np.abs(cosmo.Omega_k) < 1e-3, 1, index)
+    return lax.switch(index, branches, chi)
 
 
 def angular_diameter_distance(cosmo, a):
-- 
2.43.0


From 204bc68900a77fb1070cf40c1b839a2fbba792a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:26 +0000
Subject: [PATCH 17/19] fix: printed form of a cosmology left out gamma

---
 jax_cosmo/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jax_cosmo/core.py b/jax_cosmo/core.py
index 2f8e742..4ea83ef 100644
--- a/jax_cosmo/core.py
+++ b/jax_cosmo/core.py
@@ -90,6 +90,7 @@ class Cosmology:
             + " \n"
             + "    sigma8:   "
             + str(self.sigma8)
+            + ("" if self.gamma is None else " \n    gamma:    " + str(self.gamma))
         )
 
     def __repr__(self):
-- 
2.43.0


From f7a8f12bd5df33f36517b5d0e67b2ffc97a186b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:21 +0000
Subject: [PATCH 18/19] fix: gradients of Smail distributions were nan for
 exponents below one

---
 jax_cosmo/redshift.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index da1b5a1..4777796 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -81,7 +81,10 @@ class smail_nz(redshift_distribution):
 
     def pz_fn(self, z):
         a, b, z0 = self.params
-        return z**a * np.exp(-((z / z0) ** b))
+        # Powers of z may have no finite derivative at z = 0
+        origin = np.equal(z, 0)
+        z = np.where(origin, 1.0, z)
+        return np.where(origin, np.power(0.0, a), z**a * np.exp(-((z / z0) ** b)))
 
 
 @register_pytree_node_class
-- 
2.43.0


From a0efa57823a3af0fe937f5e9fe4e859dde1ad591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:26 +0000
Subject: [PATCH 19/19] fix: covariances of spectra given as numpy arrays
 raised

---
 jax_cosmo/angular_cl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/angular_cl.py b/jax_cosmo/angular_cl.py
index 9e36b04..148505b 100644
--- a/jax_cosmo/angular_cl.py
+++ b/jax_cosmo/angular_cl.py
@@ -135,7 +135,7 @@ def gaussian_cl_covariance(ell, probes, cl_signal, cl_noise, f_sky=0.25, sparse=
     one = 1.0 if sparse else np.eye(n_ell)
 
     # Adding noise to auto-spectra
-    cl_obs = cl_signal + cl_noise
+    cl_obs = np.asarray(cl_signal + cl_noise)
     n_cls = cl_obs.shape[0]
 
     # Normalization of covariance
-- 
2.43.0

