From 1e41fdd2720dd8467754facf566125da74f2c0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 01/92] fix: key the Pardiso factorization cache on the whole
 matrix content

---
 simphox/mkl.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index 2f2439d..ea539ca 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -110,6 +110,11 @@ class Pardiso:
     def is_real(self) -> bool:
         return self.mtype in (2, -2, 11)
 
+    @staticmethod
+    def _hash_mat(mat: sp.csr_matrix) -> int:
+        # str(mat) is abbreviated for large matrices, so hash all of the matrix content instead
+        return hash((mat.shape, mat.dtype.str, mat.indptr.tobytes(), mat.indices.tobytes(), mat.data.tobytes()))
+
     def _set_mat(self, mat: sp.csr_matrix):
         # If mat is symmetric, store only the upper triangular portion
         if self.mtype in [2, -2, 4, -4, 6]:
@@ -142,13 +147,13 @@ class Pardiso:
 
     def factor(self, mat: sp.csr_matrix):
         self.phase = PARDISO_FACTORIZE
-        mat_hash = hash(str(mat))
+        mat_hash = self._hash_mat(mat)
         self._set_mat(mat)
         self._mat_hash = mat_hash
         self.pardiso()
 
     def solve(self, mat: sp.csr_matrix, rhs: np.ndarray) -> np.ndarray:
-        mat_hash = hash(str(mat))
+        mat_hash = self._hash_mat(mat)
         if mat_hash != self._mat_hash:
             self._set_mat(mat)
             self._mat_hash = mat_hash
-- 
2.43.0


From 1181cf0dd624cd2aef38c263b1e5e46fe1dc0a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 02/92] fix: do not reuse a Pardiso factorization after a
 failed call or after free

---
 simphox/mkl.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index ea539ca..682b2c6 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -143,7 +143,8 @@ class Pardiso:
 
     def free(self, complete: bool = True):
         self.phase = PARDISO_FREEALL if complete else PARDISO_FREEFACTOR
-        self.pardiso()
+        if self._mat_hash != 0:
+            self.pardiso()
 
     def factor(self, mat: sp.csr_matrix):
         self.phase = PARDISO_FACTORIZE
@@ -165,6 +166,7 @@ class Pardiso:
     def pardiso(self, rhs: Optional[np.ndarray] = None) -> np.ndarray:
         if self._mat_hash == 0:
             raise RuntimeError('Mat information not stored in Pardiso.')
+        mat_hash, self._mat_hash = self._mat_hash, 0  # no factorization can be reused if this call fails
         if rhs is not None and rhs.shape[0] != self.n:
             raise RuntimeError(f'Expected rhs.shape[0] == {self.n}, but got {rhs.shape[0]}')
 
@@ -203,6 +205,9 @@ class Pardiso:
             raise RuntimeError(f"Pardiso returned an error with code {err_c.value}. "
                                f"Check error codes in manual: https://pardiso-project.org/manual/manual.pdf")
 
+        if self.phase not in (PARDISO_FREEFACTOR, PARDISO_FREEALL):
+            self._mat_hash = mat_hash
+
         return x.reshape(rhs.shape, order='f') if nrhs > 1 else x
 
 
-- 
2.43.0


From ecc3b7ef4c8a2431a7c88d7146193026e99e0a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 03/92] fix: keep a private copy of the matrix factorized by
 Pardiso

---
 simphox/mkl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index 682b2c6..8cfc4d9 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -125,6 +125,8 @@ class Pardiso:
         if mat.shape[0] != mat.shape[1] or mat.ndim > 2:
             raise ValueError(f'Expected mat square (i.e., shape (n, n)), but has shape: {mat.shape}')
 
+        # keep a private copy since the factorized matrix is needed after the caller may have edited its own
+        mat = mat.copy()
         if not mat.has_sorted_indices:
             mat.sort_indices()
 
-- 
2.43.0


From a353070d8fb90693dcdfd7a1f07211ed67ffacb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 04/92] fix: return a Pardiso solve with several right-hand
 sides in the shape of the right-hand side

---
 simphox/mkl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index 8cfc4d9..61f5fcd 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -173,6 +173,7 @@ class Pardiso:
             raise RuntimeError(f'Expected rhs.shape[0] == {self.n}, but got {rhs.shape[0]}')
 
         nrhs = 0 if rhs is None else (np.prod(rhs.shape[1:]) if rhs.ndim > 1 else 1)
+        shape = None if rhs is None else rhs.shape
         rhs = np.zeros(1) if rhs is None else rhs.astype(self.dtype).flatten(order='f')
         x = np.zeros(1) if rhs is None else np.zeros(nrhs * self.n, dtype=self.dtype)
         rhs_ = rhs.ctypes.data_as(self.ctypes_dtype)
@@ -210,7 +211,7 @@ class Pardiso:
         if self.phase not in (PARDISO_FREEFACTOR, PARDISO_FREEALL):
             self._mat_hash = mat_hash
 
-        return x.reshape(rhs.shape, order='f') if nrhs > 1 else x
+        return x.reshape(shape, order='f') if nrhs > 1 else x
 
 
 class Feast:
-- 
2.43.0


From 70e662b387b4de4b33c8b853981dff1dc862cbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 05/92] fix: TMOperator gradient uses np.float, which numpy no
 longer has

---
 simphox/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/primitives.py b/simphox/primitives.py
index a6f84d6..b648410 100644
--- a/simphox/primitives.py
+++ b/simphox/primitives.py
@@ -105,7 +105,7 @@ class TMOperator:
             return te(t), None
 
         def te_bwd(_, g):
-            v = hcb.call(_te_backward_hcb, g, result_shape=jax.ShapeDtypeStruct((n,), np.float))
+            v = hcb.call(_te_backward_hcb, g, result_shape=jax.ShapeDtypeStruct((n,), float))
             return v,
 
         te.defvjp(te_fwd, te_bwd)
-- 
2.43.0


From 0bfcab9b52178a0795706bbc24f0fd5f0519edcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 06/92] fix: serialize access to the factorization shared by
 all Pardiso solves

---
 simphox/mkl.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index 61f5fcd..4e80503 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -1,5 +1,7 @@
 from .typing import Optional
+import functools
 import sys
+import threading
 from ctypes import CDLL, byref, c_char, c_int, c_int64, POINTER, c_float, c_double
 
 import numpy as np
@@ -72,6 +74,15 @@ PARDISO_FACTORIZE = 12
 PARDISO_FULLSOLVE = 13
 
 
+def _synchronized(method):
+    # the factorization held by a Pardiso instance is shared between threads (e.g. jax callback threads)
+    @functools.wraps(method)
+    def locked(self, *args, **kwargs):
+        with self._lock:
+            return method(self, *args, **kwargs)
+    return locked
+
+
 # a cleaner version of pyMKL with some additional factorization optimizations
 class Pardiso:
     def __init__(self, mtype: int = 13):
@@ -100,6 +111,7 @@ class Pardiso:
         self.iparm[34] = 1  # Zero-indexing
 
         self.phase = PARDISO_FULLSOLVE
+        self._lock = threading.RLock()
         self._mat_hash = 0  # no matrix has been factorized yet, and this is an unlikely hash for it to be assigned
 
     @property
@@ -143,11 +155,13 @@ class Pardiso:
 
         self.n = mat.shape[0]
 
+    @_synchronized
     def free(self, complete: bool = True):
         self.phase = PARDISO_FREEALL if complete else PARDISO_FREEFACTOR
         if self._mat_hash != 0:
             self.pardiso()
 
+    @_synchronized
     def factor(self, mat: sp.csr_matrix):
         self.phase = PARDISO_FACTORIZE
         mat_hash = self._hash_mat(mat)
@@ -155,6 +169,7 @@ class Pardiso:
         self._mat_hash = mat_hash
         self.pardiso()
 
+    @_synchronized
     def solve(self, mat: sp.csr_matrix, rhs: np.ndarray) -> np.ndarray:
         mat_hash = self._hash_mat(mat)
         if mat_hash != self._mat_hash:
@@ -165,6 +180,7 @@ class Pardiso:
             self.phase = PARDISO_SOLVE
         return self.pardiso(rhs)
 
+    @_synchronized
     def pardiso(self, rhs: Optional[np.ndarray] = None) -> np.ndarray:
         if self._mat_hash == 0:
             raise RuntimeError('Mat information not stored in Pardiso.')
-- 
2.43.0


From 293e0734f3ea29cf55d2ac9812da5d3ae071ee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 07/92] fix: sum duplicate entries of a CSR matrix before
 passing it to Pardiso

---
 simphox/mkl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index 4e80503..54ef794 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -139,6 +139,7 @@ class Pardiso:
 
         # keep a private copy since the factorized matrix is needed after the caller may have edited its own
         mat = mat.copy()
+        mat.sum_duplicates()  # Pardiso does not accept repeated entries
         if not mat.has_sorted_indices:
             mat.sort_indices()
 
-- 
2.43.0


From 6be2e3d723cbd8f87c1999f253d90d411b764781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 08/92] fix: PML shape uses np.int, which numpy no longer has,
 and truncates exact multiples of the spacing

---
 simphox/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 2c26331..3fcb3d0 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -340,7 +340,7 @@ class YeeGrid(Grid):
         super(YeeGrid, self).__init__(size, spacing, eps)
         self.pml = pml
         self.pml_sep = pml_sep
-        self.pml_shape = pml if pml is None else (np.asarray(pml, dtype=float) / self.spacing).astype(np.int)
+        self.pml_shape = pml if pml is None else np.around(np.asarray(pml, dtype=float) / self.spacing, 6).astype(int)
         self.pml_params = pml_params
         self.name = name
         if self.pml_shape is not None:
-- 
2.43.0


From a7e472dd9bbd4b4073ef78c27424875639109bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 09/92] fix: the grid-averaged permittivity is stale after the
 permittivity is edited

---
 simphox/grid.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 3fcb3d0..e3a714e 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -1,5 +1,4 @@
 import dataclasses
-from functools import lru_cache
 
 import jax.numpy as jnp
 import numpy as np
@@ -462,7 +461,6 @@ class YeeGrid(Grid):
         return new_x, new_y, z
 
     @property
-    @lru_cache()
     def eps_t(self):
         """This attribute specifies the grid-averaged epsilon in the grid.
 
-- 
2.43.0


From 65f6ea0695a858118203540c5b3096653133a414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 10/92] fix: set_eps and mask change the shape of grids that
 are one pixel wide

---
 simphox/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index e3a714e..119f954 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -144,7 +144,7 @@ class Grid:
         s = self.slice(center, size, squeezed=True)
         eps_3d = self.eps.reshape(self.shape3)
         eps_3d[s] = eps
-        self.eps = eps_3d.squeeze()
+        self.eps = eps_3d.reshape(self.shape)
         return self
 
     def mask(self, center: Size3, size: Size3):
@@ -162,7 +162,7 @@ class Grid:
         s = self.slice(center, size, squeezed=True)
         mask = np.zeros(self.shape3)
         mask[s] = 1
-        return mask.squeeze()
+        return mask.reshape(self.shape)
 
     def reshape(self, v: np.ndarray) -> np.ndarray:
         """A simple method to reshape flat 3d field array into the grid shape
-- 
2.43.0


From e811b69a18d1c9312db9c276af0d7b747b6ff8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 11/92] fix: grid regions that cross the lower boundary wrap
 around to the other end

---
 simphox/grid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 119f954..7017ffc 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -205,9 +205,10 @@ class Grid:
         # if s0 == s1 == s2 == 0:
         #     raise ValueError(f"Require the size result in a nonzero-sized shape, but got a single point in the grid"
         #                      f"(i.e., the size {size} may be less than the spacing {self.spacing3})")
-        return (slice(c[0] - s0, c[0] - s0 + shape[0]) if shape[0] > 0 else c0,
-                slice(c[1] - s1, c[1] - s1 + shape[1]) if shape[1] > 0 else c1,
-                slice(c[2] - s2, c[2] - s2 + shape[2]) if shape[2] > 0 else c2)
+        # a region that starts below zero is cut off there (a negative index would count from the end)
+        return (slice(max(c[0] - s0, 0), max(c[0] - s0 + shape[0], 0)) if shape[0] > 0 else c0,
+                slice(max(c[1] - s1, 0), max(c[1] - s1 + shape[1], 0)) if shape[1] > 0 else c1,
+                slice(max(c[2] - s2, 0), max(c[2] - s2 + shape[2], 0)) if shape[2] > 0 else c2)
 
     def view_fn(self, center: Size3, size: Size3, use_jax: bool = True):
         """Return a function that views a field at specific region.
-- 
2.43.0


From 60cb1d4dd817b5dfe319644237ca052c37c2a8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 12/92] fix: fill loses a pixel when the height is a multiple
 of the spacing

---
 simphox/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 7017ffc..a9d1c9f 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -97,7 +97,7 @@ class Grid:
 
         """
         if height > 0:
-            self.eps[..., :int(height / self.spacing[-1])] = eps
+            self.eps[..., :int(np.around(height / self.spacing[-1], 6))] = eps
         else:
             self.eps = np.ones_like(self.eps) * eps
         return self
-- 
2.43.0


From b0ccf83577fbc865d92aa7680280a9da938048c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 13/92] fix: Box loses a pixel when an edge is a multiple of
 the spacing

---
 simphox/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index 59edb75..4447bc5 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -90,11 +90,11 @@ class Box:
 
     @property
     def min_i(self):
-        return int(self.min[0] / self.spacing), int(self.min[1] / self.spacing)
+        return int(np.around(self.min[0] / self.spacing, 6)), int(np.around(self.min[1] / self.spacing, 6))
 
     @property
     def max_i(self):
-        return int(self.max[0] / self.spacing), int(self.max[1] / self.spacing)
+        return int(np.around(self.max[0] / self.spacing, 6)), int(np.around(self.max[1] / self.spacing, 6))
 
     @property
     def shape(self):
-- 
2.43.0


From bbbe7243c5c1e7fc16c9f42d7e46c78f8359e9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 14/92] fix: components outside of the grid are accepted by
 Grid.add

---
 simphox/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index a9d1c9f..36fba9b 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -116,7 +116,7 @@ class Grid:
 
         """
         b = component.bounds
-        if not b[0] >= 0 and b[1] >= 0 and b[2] <= self.size[0] and b[3] <= self.size[1]:
+        if not (b[0] >= 0 and b[1] >= 0 and b[2] <= self.size[0] and b[3] <= self.size[1]):
             raise ValueError('The pattern must have min x, y >= 0 and max x, y less than size.')
         self.components.append(component)
         mask = component.mask(self.shape[:2], self.spacing)[:self.eps.shape[0], :self.eps.shape[1]]
-- 
2.43.0


From 4d818ba993618ae290f7c7719d4b30f31b312453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 15/92] fix: Grid.add places a component in z using the x and y
 spacing

---
 simphox/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 36fba9b..36b76cf 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -123,7 +123,8 @@ class Grid:
         if self.ndim == 2:
             self.eps[mask == 1] = eps
         else:
-            zidx = (int(zmin / self.spacing[0]), int((zmin + thickness) / self.spacing[1]))
+            zidx = (int(np.around(zmin / self.spacing[2], 6)),
+                    int(np.around((zmin + thickness) / self.spacing[2], 6)))
             self.eps[mask == 1, zidx[0]:zidx[1]] = eps
         self.port = {port_name: Port(*port.xya, port.w, zmin + thickness / 2, thickness)
                      for port_name, port in component.port.items()}
-- 
2.43.0


From 34569665d4c2d2407a3a96a08e9cd687bb96fcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 16/92] fix: shift_slice cannot shift slices

---
 simphox/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index 4447bc5..bae21dd 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -380,5 +380,5 @@ def shift_slice(slice_to_shift: Tuple[Union[slice, int], ...], shift: int = 1, a
         slices[axis] += shift
     elif isinstance(slices[axis], slice):
         if isinstance(slices[axis].start, int) and isinstance(slices[axis].stop, int):
-            slices[axis] += slice(slices[axis].start + shift, slices[axis].stop + shift)
+            slices[axis] = slice(slices[axis].start + shift, slices[axis].stop + shift)
     return tuple(slices)
-- 
2.43.0


From 32beb8d408a508f4f1336b8b9a5ea8808574093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 17/92] fix: the FDTD permittivity is stale after the
 permittivity is edited

---
 simphox/fdtd.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 73927de..cfa646a 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -1,4 +1,3 @@
-from functools import lru_cache
 from typing import Tuple, List, Callable
 
 import jax.numpy as jnp
@@ -348,7 +347,6 @@ class FDTD(SimGrid):
         return curl_pml_fn(dh, use_jax=self.use_jax)
 
     @property
-    @lru_cache()
     def eps_t(self):
         """The epsilon tensor (assumed to be diagonal, i.e. no off-diagonal components for now).
 
-- 
2.43.0


From 46bd24502160ce97a2da5f19c3c1b12d62fc94c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 18/92] fix: FDTD steps overwrite the state that they are given

---
 simphox/fdtd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index cfa646a..7f4809c 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -116,13 +116,13 @@ class FDTD(SimGrid):
     def _step_e(self, state: State, sources: List[Tuple[np.ndarray, np.ndarray, Tuple[slice, ...]]]):
         e, h, psi_e, psi_h = state
         # update pml in pml regions if specified
-        phi_e = []
+        phi_e, psi_e = [], psi_e and list(psi_e)
         for pml_idx, pml_region in enumerate(self.pml_regions):
             psi_e[pml_idx], p = self._curl_h_pml[pml_idx](h, psi_e[pml_idx], self.cpml_b[pml_idx][1])
             phi_e.append(p)
 
         # update e field
-        e += self._curl_h(h) / self.eps_t * self.dt
+        e = e + self._curl_h(h) / self.eps_t * self.dt
 
         for pml_idx, pml_region in enumerate(self.pml_regions):
             if self.use_jax:
@@ -143,13 +143,13 @@ class FDTD(SimGrid):
     def _step_h(self, state: State, sources: List[Source]):
         e, h, psi_e, psi_h = state
         # update h field in pml regions if specified
-        phi_h = []
+        phi_h, psi_h = [], psi_h and list(psi_h)
         for pml_idx, pml_region in enumerate(self.pml_regions):
             psi_h[pml_idx], p = self._curl_e_pml[pml_idx](e, psi_h[pml_idx], self.cpml_b[pml_idx][0])
             phi_h.append(p)
 
         # update h field
-        h -= self._curl_e(e) * self.dt
+        h = h - self._curl_e(e) * self.dt
 
         for pml_idx, pml_region in enumerate(self.pml_regions):
             if self.use_jax:
-- 
2.43.0


From 95f3ced955a78c9107b3209fe6b501fb3e3b6d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 19/92] fix: FDTD sources overwrite the fields in the jax
 backend

---
 simphox/fdtd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 7f4809c..0b95ddc 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -134,7 +134,7 @@ class FDTD(SimGrid):
         for source, _, source_region in sources:
             if source is not None:
                 if self.use_jax:
-                    e = e.at[source_region].set(-source.squeeze() / self.eps_t[source_region] * self.dt)
+                    e = e.at[source_region].add(-source.squeeze() / self.eps_t[source_region] * self.dt)
                 else:
                     e[source_region] -= source.squeeze() / self.eps_t[source_region] * self.dt
 
@@ -161,7 +161,7 @@ class FDTD(SimGrid):
         for _, source, source_region in sources:
             if source is not None:
                 if self.use_jax:
-                    h = h.at[source_region].set(-source.squeeze() * self.dt)
+                    h = h.at[source_region].add(-source.squeeze() * self.dt)
                 else:
                     h[source_region] -= source.squeeze() * self.dt
 
-- 
2.43.0


From eae5e209552acbcb1324e1f1faec720b6032b1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 20/92] fix: mode solver drops or reorders propagation
 constants when a mode is evanescent

---
 simphox/mode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index e075247..b42b02f 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -203,7 +203,7 @@ class ModeSolver(YeeGrid):
 
         h = h.T
         # max_phase_ref = np.array([h[i, idx] for i, idx in enumerate(np.argmax(np.abs(h), axis=1))])[:, np.newaxis]
-        return np.sqrt(eigvals[useful_modes].real), h * np.exp(-1j * np.angle(h[:, :1]))
+        return np.sqrt(eigvals.real), h * np.exp(-1j * np.angle(h[:, :1]))
 
     def dispersion_sweep(self, wavelengths: np.ndarray, m: int = 6, pbar: Callable = None):
         """Dispersion sweep for cross sectional modes
-- 
2.43.0


From f49c42af240513cfe0a8411c1556ebd6ea38d347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 21/92] fix: dispersion sweep uses the wavelength as a guess
 for the propagation constant

---
 simphox/mode.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index b42b02f..e571f5f 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -218,9 +218,11 @@ class ModeSolver(YeeGrid):
 
         """
         solutions = []
-        pbar = range if pbar is None else pbar
-        for wavelength in pbar(wavelengths):
-            solutions.append(self.solve(m, wavelength))
+        original_wavelength = self.wavelength
+        for wavelength in (wavelengths if pbar is None else pbar(wavelengths)):
+            self.wavelength = wavelength
+            solutions.append(self.solve(m))
+        self.wavelength = original_wavelength
         return solutions
 
 
-- 
2.43.0


From 0937f41b4b474342c288e4db214a00f73967cc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 22/92] fix: port measurements are misaligned with the
 requested ports and modes

---
 simphox/sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 72c3066..39397f7 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -210,7 +210,7 @@ class SimGrid(YeeGrid):
         # Set up the port profiles for measurement at each port (by default assumes single mode waveguides)
         measure_port = self.parse_excitation(measure_port)
         port_to_modes = self.port_modes(measure_port, profile_size_factor, wavelength)
-        ports = port_to_modes.keys()
+        ports = [port_name for port_name, _ in measure_port]
         port_nums = np.arange(len(ports))
         angles = [self.port[port].a for port in ports]
         # We measure polarity, which is the orientation of the measurement interface
-- 
2.43.0


From 83960b221b5a38d9b2ef7062eacd6b2261aa103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 23/92] fix: s-parameters ignore the requested ports, modes and
 profile size

---
 simphox/sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 39397f7..0d1a514 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -307,7 +307,8 @@ class SimGrid(YeeGrid):
         fields_fn = self.get_fields_fn(src=self.port_source({source_info: 1}, profile_size_factor=profile_size_factor),
                                        transform_fn=transform_fn,
                                        tm_2d=tm_2d)
-        measure_fn = self.get_measure_fn(use_jax=True, tm_2d=tm_2d)
+        measure_fn = self.get_measure_fn(measure_info, profile_size_factor=profile_size_factor,
+                                         use_jax=True, tm_2d=tm_2d)
         port_idx = measure_info.index(source_info)
 
         # @jax.jit
-- 
2.43.0


From 383f6fa9ceaba9874dabc8e88b59f71ddd91b0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 24/92] fix: port sources cannot excite higher order modes or
 use plain port names

---
 simphox/sim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 0d1a514..96697b0 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -173,7 +173,9 @@ class SimGrid(YeeGrid):
         # if the source is a list of numbers, just assign the appropriate weight to the port's fundamental mode
         source = {(ports[0], 0): 1} if source is None else source
         source = {(port, 0): weight for port, weight in zip(ports, source)} if isinstance(source, tuple) else source
-        source_library = self.port_modes(profile_size_factor=profile_size_factor, wavelength=wavelength)
+        source = {port_mode if isinstance(port_mode, tuple) else (port_mode, 0): weight
+                  for port_mode, weight in source.items()}
+        source_library = self.port_modes(list(source), profile_size_factor=profile_size_factor, wavelength=wavelength)
 
         sources_to_sum = []
         for port_mode, weight in source.items():
-- 
2.43.0


From 0b00833ca1d06377788e8d2c00b3164a3d57a483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 25/92] fix: fidelity is not maximal at the desired
 s-parameters when they are complex

---
 simphox/sim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 96697b0..a7aa36b 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -493,12 +493,12 @@ class SimGrid(YeeGrid):
             def obj(sparams_fields: Tuple[jnp.ndarray, jnp.ndarray]):
                 sparams, fields = sparams_fields
                 insertion_sqrt = jnp.linalg.norm(sparams)
-                cost = -jnp.abs(s @ (sparams / insertion_sqrt)) ** 2 * (
+                cost = -jnp.abs(s.conj() @ (sparams / insertion_sqrt)) ** 2 * (
                     1 - insertion_weight) - insertion_sqrt ** 2 * insertion_weight
                 return cost, jax.lax.stop_gradient((sparams, fields))
         else:
             def obj(sparams_fields: Tuple[jnp.ndarray, jnp.ndarray]):
                 sparams, fields = sparams_fields
-                return -jnp.abs(s @ sparams) ** 2, jax.lax.stop_gradient((sparams, fields))
+                return -jnp.abs(s.conj() @ sparams) ** 2, jax.lax.stop_gradient((sparams, fields))
 
         return obj
-- 
2.43.0


From f49fd0313d3f5fdac3ab17fb5d5689b08619c4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 26/92] fix: cached port modes are stale after the permittivity
 is edited

---
 simphox/sim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index a7aa36b..7bb7be5 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -103,7 +103,6 @@ class SimGrid(YeeGrid):
         super(SimGrid, self).__init__(size, spacing, eps, bloch_phase, pml, pml_sep, pml_params, name)
         self.use_jax = use_jax
 
-    @lru_cache()
     def modes(self, center: Size3, size: Size3, wavelength: float = 1.55, num_modes: int = 1) -> SimCrossSection:
         """Eigenmode profile of a 2d or 3d :code:`SimGrid` object. This function is cached so that
         it only computes the modes if the input parameters are provided.
@@ -117,6 +116,11 @@ class SimGrid(YeeGrid):
         Returns:
             A Tuple of a Modes object and view function for measuring the fields.
         """
+        return self._modes(center, size, wavelength, num_modes, self.eps.tobytes())
+
+    @lru_cache()
+    def _modes(self, center: Size3, size: Size3, wavelength: float, num_modes: int, eps_key: bytes) -> SimCrossSection:
+        # eps_key identifies the permittivity that the cached modes belong to
         mode_eps = self.eps.reshape(self.shape3)[self.slice(center, size)].squeeze()
         mode_size = tuple(np.array(mode_eps.shape) * self.spacing[0])
         modes = ModeLibrary(
-- 
2.43.0


From 1c1a648b1e373f9ad746114c5d8c465256da0ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 27/92] fix: lists of one port cannot be parsed and a port
 given as a list is not converted to a tuple

---
 simphox/parse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simphox/parse.py b/simphox/parse.py
index 65a5f04..c7ccd9f 100644
--- a/simphox/parse.py
+++ b/simphox/parse.py
@@ -14,8 +14,8 @@ def parse_excitation(excitation: Excitation):
     if isinstance(excitation, str):
         return [(excitation, 0)]
     elif isinstance(excitation, tuple) or isinstance(excitation, list):
-        if (isinstance(excitation[0], str) or isinstance(excitation[0], int)) and isinstance(excitation[1], int) and len(excitation) == 2:
-            return [excitation]
+        if len(excitation) == 2 and (isinstance(excitation[0], str) or isinstance(excitation[0], int)) and isinstance(excitation[1], int):
+            return [tuple(excitation)]
         return sum([parse_excitation(mi) for mi in excitation], [])
     elif isinstance(excitation, dict):
         return sum([parse_excitation([(mi, idx) for idx in excitation[mi]]) for mi in excitation], [])
@@ -34,7 +34,7 @@ def parse_source_port(source: SourceLabel):
     if isinstance(source, str):
         return {(source, 0): 1}
     elif isinstance(source, tuple) or isinstance(source, list):
-        if isinstance(source[0], str) and isinstance(source[1], int) and len(source) == 2:
+        if len(source) == 2 and isinstance(source[0], str) and isinstance(source[1], int):
             return {tuple(source): 1}
         return {k: v for mi in source for k, v in parse_source_port(mi).items()}
     elif isinstance(source, dict):
-- 
2.43.0


From ea3f229f87e974a6f454badc69ef4bbd7fb91e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 28/92] fix: port sources and measurements ignore the
 wavelength of the simulation

---
 simphox/fdtd.py | 2 +-
 simphox/sim.py  | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 0b95ddc..ad1ab3b 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -262,7 +262,7 @@ class FDTD(SimGrid):
         source_excitation = list(parse_source_port(source_port).keys())
         source_modes = self.port_modes(excitation=source_excitation,
                                        profile_size_factor=profile_size_factor, wavelength=wavelength)
-        measure_fn = self.get_measure_fn(measure_port, use_jax=self.use_jax,
+        measure_fn = self.get_measure_fn(measure_port, wavelength=wavelength, use_jax=self.use_jax,
                                          profile_size_factor=profile_size_factor, tm_2d=tm_2d)
         state = self.zero_state if initial_state is None else initial_state
         iterator = range(num_time_steps) if pbar is None else pbar(np.arange(num_time_steps))
diff --git a/simphox/sim.py b/simphox/sim.py
index 7bb7be5..ba94824 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -130,13 +130,13 @@ class SimGrid(YeeGrid):
         return SimCrossSection(modes, center, size, wavelength)
 
     def port_modes(self, excitation: List[Tuple[str, int]] = None,
-                   profile_size_factor: float = 3, wavelength: float = 1.55) -> Dict[PortLabel, SimCrossSection]:
+                   profile_size_factor: float = 3, wavelength: Optional[float] = None) -> Dict[PortLabel, SimCrossSection]:
         """Profile for all the ports in the grid (always assumed to be along x or y axes!).
 
         Args:
             excitation: Dictionary mapping port to mode index for excitations
             profile_size_factor: Factor to rescale the mode view slice compared to the port
-            wavelength: Wavelength for the modes
+            wavelength: Wavelength for the modes (by default, that of the simulation if it has one, or 1.55)
 
         Returns:
             A dictionary from mode to SimCrossSection containing the mode, and its center and size in this grid
@@ -144,6 +144,7 @@ class SimGrid(YeeGrid):
 
         """
 
+        wavelength = getattr(self, 'wavelength', 1.55) if wavelength is None else wavelength
         excitation = self.parse_excitation(excitation)
         port_names = {e[0] for e in excitation}
         num_modes = {name: np.max([mode_idx for port_name, mode_idx in excitation if port_name == name]) + 1
@@ -156,7 +157,7 @@ class SimGrid(YeeGrid):
 
     def port_source(self, source: Optional[Union[Dict[Tuple[str, int], float], Dict[str, float]]] = None,
                     profile_size_factor: float = 3, unidirectional: bool = True,
-                    wavelength: float = 1.55) -> np.ndarray:
+                    wavelength: Optional[float] = None) -> np.ndarray:
         """Return a non-sparse source array based on the ports defined in the simulation grid.
 
         Args:
@@ -198,7 +199,7 @@ class SimGrid(YeeGrid):
     def parse_excitation(self, excitation: Optional[Excitation] = None):
         return [(port, 0) for port in self.port] if excitation is None else parse_excitation(excitation)
 
-    def get_measure_fn(self, measure_port: Optional[Excitation] = None, wavelength: float = 1.55,
+    def get_measure_fn(self, measure_port: Optional[Excitation] = None, wavelength: Optional[float] = None,
                        profile_size_factor: float = 3, use_jax: bool = False, tm_2d: bool = True) -> Op:
         """Measure function: measure the fields using the Modes object provided for each port.
 
-- 
2.43.0


From ad6c9b770ed8b629b5410d7d3684d5305a5c1220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 29/92] fix: FDFD.from_simgrid takes the number of PML pixels
 for the PML size

---
 simphox/fdfd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 61503af..8c9cf8d 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -115,7 +115,9 @@ class FDFD(SimGrid):
             spacing=simgrid.spacing,
             wavelength=wavelength,
             eps=simgrid.eps,
-            pml=simgrid.pml_shape,
+            pml=simgrid.pml,
+            pml_sep=simgrid.pml_sep,
+            pml_params=simgrid.pml_params[:3],
             name=simgrid.name
         )
         fdfd.port = simgrid.port
-- 
2.43.0


From b2f561abd0c2d2308c4b39e67c52e006d5e90c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 30/92] fix: FDTD cannot have a PML in two dimensions

---
 simphox/fdtd.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index ad1ab3b..140301e 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -306,15 +306,12 @@ class FDTD(SimGrid):
         exp_scale, log_reflection, absorption_corr = pml_params
         kappa, alpha = 1, 1e-8  # TODO: make these params
         self.sigma = [-pml_sigma(self.pos[ax], thickness=self.pml_shape[ax], exp_scale=exp_scale,
-                                 log_reflection=log_reflection, absorption_corr=absorption_corr) for ax in range(3)]
+                                 log_reflection=log_reflection, absorption_corr=absorption_corr) for ax in range(self.ndim)]
         # for memory and time purposes, we only update the pml slices, NOT the full field
         # therefore, we need to specify the pml regions for the fields.
-        self.pml_regions = ((slice(None), slice(None, self.pml_shape[0]), slice(None), slice(None)),
-                            (slice(None), slice(-self.pml_shape[0], None), slice(None), slice(None)),
-                            (slice(None), slice(None), slice(None, self.pml_shape[1]), slice(None)),
-                            (slice(None), slice(None), slice(-self.pml_shape[1], None), slice(None)),
-                            (slice(None), slice(None), slice(None), slice(None, self.pml_shape[2])),
-                            (slice(None), slice(None), slice(None), slice(-self.pml_shape[2], None)))
+        self.pml_regions = tuple((slice(None),) * (ax + 1) + (region,) + (slice(None),) * (2 - ax)
+                                 for ax in range(self.ndim)
+                                 for region in (slice(None, self.pml_shape[ax]), slice(-self.pml_shape[ax], None)))
 
         for i, region in enumerate(self.pml_regions):
             ax = i // 2
-- 
2.43.0


From 69940ed2cbfa33bc63c4d8cb89ea4b5186d4944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 31/92] fix: the auxiliary PML fields of the FDTD are not
 accumulated over time

---
 simphox/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index bae21dd..b503250 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -186,9 +186,11 @@ def curl_pml_fn(df: Callable[[np.ndarray, int], np.ndarray], use_jax: bool = Fal
              df(f[0], 2), df(f[2], 0),
              df(f[1], 0), df(f[0], 1)]
         )
-        return next_df, xp.stack([next_df[0] + prev_df[0] * b_pml[1] - next_df[1] - prev_df[1] * b_pml[2],
-                                  next_df[2] + prev_df[2] * b_pml[2] - next_df[3] - prev_df[3] * b_pml[0],
-                                  next_df[4] + prev_df[4] * b_pml[0] - next_df[5] - prev_df[5] * b_pml[1]])
+        # the auxiliary PML field accumulates over time, i.e., psi <- b * psi + c * df
+        next_df = next_df + prev_df * xp.stack([b_pml[i] for i in (1, 2, 2, 0, 0, 1)])
+        return next_df, xp.stack([next_df[0] - next_df[1],
+                                  next_df[2] - next_df[3],
+                                  next_df[4] - next_df[5]])
     return _curl
 
 
-- 
2.43.0


From 227016498b8caf1bf49086727e7a28bc5a7b6ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 32/92] fix: mask of several boxes uses np.float, which numpy
 no longer has

---
 simphox/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/transform.py b/simphox/transform.py
index 7578d44..3895baf 100644
--- a/simphox/transform.py
+++ b/simphox/transform.py
@@ -70,5 +70,5 @@ def get_mask_fn(rho_init: jnp.ndarray, box: Union[Box, List[Box]]):
         The mask function
 
     """
-    mask = box.mask(rho_init) if isinstance(box, Box) else (sum([b.mask(rho_init) for b in box]) > 0).astype(np.float)
+    mask = box.mask(rho_init) if isinstance(box, Box) else (sum([b.mask(rho_init) for b in box]) > 0).astype(float)
     return lambda rho: jnp.array(rho_init) * (1 - mask) + rho * mask
-- 
2.43.0


From 3c703161a8ca8d1c2403e185fcde00a688a2f402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 33/92] fix: mirror symmetry without averaging is wrong for an
 even number of pixels

---
 simphox/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/transform.py b/simphox/transform.py
index 3895baf..6238b47 100644
--- a/simphox/transform.py
+++ b/simphox/transform.py
@@ -54,8 +54,8 @@ def get_symmetry_fn(ortho_x: bool = False, ortho_y: bool = False, diag_p: bool =
         ortho_x_fn = (lambda x: (x + x[::-1]) / 2) if ortho_x else identity
         ortho_y_fn = (lambda x: (x + x[:, ::-1]) / 2) if ortho_y else identity
     else:
-        ortho_x_fn = (lambda x: x.at[-(x.shape[0] // 2 + 1):, :].set(x[:x.shape[0] // 2 + 1:, :][::-1, :])) if ortho_x else identity
-        ortho_y_fn = (lambda x: x.at[:, -(x.shape[1] // 2 + 1):].set(x[:, :x.shape[1] // 2 + 1][:, ::-1])) if ortho_y else identity
+        ortho_x_fn = (lambda x: x.at[x.shape[0] - x.shape[0] // 2:, :].set(x[:x.shape[0] // 2, :][::-1, :])) if ortho_x else identity
+        ortho_y_fn = (lambda x: x.at[:, x.shape[1] - x.shape[1] // 2:].set(x[:, :x.shape[1] // 2][:, ::-1])) if ortho_y else identity
     return lambda x: diag_p_fn(diag_n_fn(ortho_x_fn(ortho_y_fn(x))))
 
 
-- 
2.43.0


From a5fe09d32ad891bbad2cd11e5b98587428cb3f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 34/92] fix: opt_run needs a progress bar and a visualization

---
 simphox/opt.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index 99f3265..c4eb292 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -223,13 +223,14 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
                 history[f'eps/{sop.sim.name}'].append((i, sop.sim.eps))
             if field_interval > 0 and i % field_interval == 0:
                 history[f'field/{sop.sim.name}'].append((i, hz.T))
-        iterator.set_description(f"𝓛: {v:.5f}")
+        if pbar is not None:
+            iterator.set_description(f"𝓛: {v:.5f}")
         costs.append(jax.lax.stop_gradient(v))
         if viz is not None:
             viz.costs_pipe.send(np.asarray(costs))
     _update_eps(opt_state)
 
-    all_metric_names = sum([metric_names for _, metric_names in viz.metric_config.items()], [])
+    all_metric_names = sum([metric_names for _, metric_names in viz.metric_config.items()], []) if viz is not None else []
     metrics = xarray.DataArray(
         data=np.array([[history[f'{metric_name}/{sop.sim.name}']
                         for metric_name in all_metric_names] for sop in sim_opt_problems]),
@@ -240,7 +241,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
         },
         dims=['name', 'metric', 'iteration'],
         name='metrics'
-    ) if sim_opt_problems and metric_interval != 0 else []
+    ) if sim_opt_problems and metric_interval != 0 and viz is not None else []
     eps = xarray.DataArray(
         data=np.array([[eps for _, eps in history[f'eps/{sop.sim.name}']] if eps_interval > 0 else []
                        for sop in sim_opt_problems]),
-- 
2.43.0


From fbbcf1b4aafd623f839e0cbcebb8298ccdf456b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 35/92] fix: opt_run fails when metrics are not recorded at
 every iteration

---
 simphox/opt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index c4eb292..f3a8b64 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -213,7 +213,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
                                              for metric_name in viz.metric_config[title]]),
                             coords={
                                 'metric': viz.metric_config[title],
-                                'iteration': np.arange(i + 1)
+                                'iteration': np.arange(0, i + 1, metric_interval)
                             },
                             dims=['metric', 'iteration'],
                             name=title
@@ -237,7 +237,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
         coords={
             'name': [sop.sim.name for sop in sim_opt_problems],
             'metric': all_metric_names,
-            'iteration': np.arange(num_iters)
+            'iteration': np.arange(0, num_iters, metric_interval)
         },
         dims=['name', 'metric', 'iteration'],
         name='metrics'
-- 
2.43.0


From 37eab08e9fad640b78bb5dde089a15b85de1da3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 36/92] fix: opt_run fails or mixes up results when some
 problems have no simulation

---
 simphox/opt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simphox/opt.py b/simphox/opt.py
index f3a8b64..06544af 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -180,6 +180,8 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
     def _update_eps(state):
         rho = get_params(state)
         for op in opt_problems:
+            if op.sim is None:
+                continue
             op.sim.eps = np.asarray(jax.lax.stop_gradient(op.transform_fn(rho)))
 
     step = jax.jit(step_, backend=backend)
@@ -192,6 +194,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
     for i in iterator:
         v, opt_state, data = step(i, opt_state)
         _update_eps(opt_state)
+        data = [aux for op, aux in zip(opt_problems, data) if op.sim is not None and op.source is not None]
         for sop, sparams_fields in zip(sim_opt_problems, data):
             sim = sop.sim
             sparams, e, h = sim.decorate(*sparams_fields)
-- 
2.43.0


From 140ac4b7ded91e027708bb84de729ce288d73e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 37/92] fix: explicit propagation uses the coupler and loss
 model of the transfer matrix

The explicit (coupler by coupler) propagation exchanged the bar and cross
amplitudes of imperfect couplers and applied the losses at other ports than
matrix_fn, so both disagreed for any nonzero splitting error or loss.
---
 simphox/circuit/forward.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 6f873cc..6335473 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -302,8 +302,11 @@ class ForwardMesh:
                 propagated.append(outputs.copy()[None])
 
             if explicit:
-                left = _parallel_dc(bs_errors, loss_errors, right=False, use_jax=use_jax)
-                right = _parallel_dc(bs_errors, loss_errors, right=True, use_jax=use_jax)
+                left = _parallel_dc(bs_errors, right=False, use_jax=use_jax)
+                right = _parallel_dc(bs_errors, right=True, use_jax=use_jax)
+                # the losses (in dB) are incurred at the theta and phi phase shifters (as in _parallel_mzi)
+                theta_loss, phi_loss = np.log(10) * loss_errors.T / 20
+                thetas, phis = thetas - 1j * theta_loss, phis - 1j * phi_loss
             else:
                 mzis = _parallel_mzi(thetas, phis, bs_errors, loss_errors, use_jax=use_jax, back=back, phase_style=self.phase_style)
 
@@ -707,8 +710,8 @@ def _parallel_mzi(theta: np.ndarray, phi: np.ndarray,
     return xp.array([t11, t12, t21, t22])
 
 
-def _parallel_dc(bs_errors: np.ndarray, loss_errors: np.ndarray, right: bool = False, use_jax: bool = False):
-    """This is a helper function for parallel directional couplers
+def _parallel_dc(bs_errors: np.ndarray, right: bool = False, use_jax: bool = False):
+    """This is a helper function for parallel (lossless) directional couplers
     across all directional couplers in the mesh.
 
     Args:
@@ -720,13 +723,9 @@ def _parallel_dc(bs_errors: np.ndarray, loss_errors: np.ndarray, right: bool = F
 
     """
     xp = jnp if use_jax else np
-    right = int(right)
-    insertion = xp.exp(np.log(10) * loss_errors.T[right] / 20)
-    errors = bs_errors.T[right]
-    t11 = insertion * xp.sin(np.pi / 4 + errors)
-    t12 = insertion * 1j * xp.cos(np.pi / 4 + errors)
-    t21 = 1j * xp.cos(np.pi / 4 + errors)
-    t22 = xp.sin(np.pi / 4 + errors)
+    errors = bs_errors.T[int(right)]
+    t11 = t22 = xp.cos(np.pi / 4 + errors) + 0j
+    t12 = t21 = 1j * xp.sin(np.pi / 4 + errors)
     return xp.array([t11, t12, t21, t22])
 
 
-- 
2.43.0


From b8d922f73f2d2300a2142cd5930e6dbad421501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 38/92] fix: backward node matrices are the transpose of the
 forward ones

With unequal splitter errors (any style), and always in the DIFFERENTIAL and
lossy SYMMETRIC styles, the backward transfer matrix was not the transpose.
---
 simphox/circuit/forward.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 6335473..0c274d1 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -687,13 +687,13 @@ def _parallel_mzi(theta: np.ndarray, phi: np.ndarray,
 
     if phase_style == PhaseStyle.TOP:
         t11 = (-ss + cc * xp.exp(1j * theta + il)) * xp.exp(1j * phi + ir)
-        t12 = 1j * (cs + sc * xp.exp(1j * theta + il)) * xp.exp((1j * phi + ir) * (1 - back))
-        t21 = 1j * (sc + cs * xp.exp(1j * theta + il)) * xp.exp((1j * phi + ir) * back)
+        t12 = 1j * (cs + sc * xp.exp(1j * theta + il)) * xp.exp((1j * phi + ir))
+        t21 = 1j * (sc + cs * xp.exp(1j * theta + il))
         t22 = (cc - ss * xp.exp(1j * theta + il))
     elif phase_style == PhaseStyle.BOTTOM:
         t11 = (-ss * xp.exp(1j * theta + il) + cc)
-        t12 = 1j * (cs * xp.exp(1j * theta + il) + sc) * xp.exp((1j * phi + ir) * back)
-        t21 = 1j * (sc * xp.exp(1j * theta + il) + cs) * xp.exp((1j * phi + ir) * (1 - back))
+        t12 = 1j * (cs * xp.exp(1j * theta + il) + sc)
+        t21 = 1j * (sc * xp.exp(1j * theta + il) + cs) * xp.exp((1j * phi + ir))
         t22 = (cc * xp.exp(1j * theta + il) - ss) * xp.exp(1j * phi + ir)
     elif phase_style == PhaseStyle.SYMMETRIC:
         t11 = (-ss + cc * xp.exp(1j * theta + il)) * xp.exp(1j * (phi - theta / 2) + ir)
@@ -701,12 +701,15 @@ def _parallel_mzi(theta: np.ndarray, phi: np.ndarray,
         t21 = 1j * (sc + cs * xp.exp(1j * theta + il)) * xp.exp(1j * (phi - theta / 2) + ir)
         t22 = (cc - ss * xp.exp(1j * theta + il)) * xp.exp(1j * (phi - theta / 2) + ir)
     elif phase_style == PhaseStyle.DIFFERENTIAL:
-        t11 = (-ss + cc * xp.exp(1j * theta + il)) * xp.exp(1j * ((-phi - theta) / 2 + phi * back) + ir)
-        t12 = 1j * (cs + sc * xp.exp(1j * theta + il)) * xp.exp(1j * ((-phi - theta) / 2 + phi * back) + ir)
-        t21 = 1j * (sc + cs * xp.exp(1j * theta + il)) * xp.exp(1j * ((phi - theta) / 2 - phi * back) + ir)
-        t22 = (cc - ss * xp.exp(1j * theta + il)) * xp.exp(1j * ((phi - theta) / 2 - phi * back) + ir)
+        t11 = (-ss + cc * xp.exp(1j * theta + il)) * xp.exp(1j * ((-phi - theta) / 2) + ir)
+        t12 = 1j * (cs + sc * xp.exp(1j * theta + il)) * xp.exp(1j * ((-phi - theta) / 2) + ir)
+        t21 = 1j * (sc + cs * xp.exp(1j * theta + il)) * xp.exp(1j * ((phi - theta) / 2) + ir)
+        t22 = (cc - ss * xp.exp(1j * theta + il)) * xp.exp(1j * ((phi - theta) / 2) + ir)
     else:
         raise ValueError(f"Phase style {phase_style} is not valid.")
+    if back:
+        # reciprocity: the backward transfer matrix is the transpose of the forward transfer matrix.
+        t12, t21 = t21, t12
     return xp.array([t11, t12, t21, t22])
 
 
-- 
2.43.0


From 49d9f8deb35b7c5576e45cdfbc8389060c491c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 39/92] fix: lossy node matrix agrees with the transfer matrix
 of the mesh

The losses are incurred at the theta (first) and phi (second) phase shifters.
---
 simphox/circuit/coupling.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simphox/circuit/coupling.py b/simphox/circuit/coupling.py
index 7e0c266..1ce2aeb 100644
--- a/simphox/circuit/coupling.py
+++ b/simphox/circuit/coupling.py
@@ -156,10 +156,11 @@ class CouplingNode:
 
         """
         error = self.bs_error[right]
-        insertion = loss2insertion(self.loss[right])
+        # the loss is incurred by the phase shifter in front of the coupler (phi for left, theta for right).
+        insertion = loss2insertion(self.loss[not right])
         return np.array([
-            [np.cos(np.pi / 4 + error) * insertion, 1j * np.sin(np.pi / 4 + error) * insertion],
-            [1j * np.sin(np.pi / 4 + error), np.cos(np.pi / 4 + error)]
+            [np.cos(np.pi / 4 + error) * insertion, 1j * np.sin(np.pi / 4 + error)],
+            [1j * np.sin(np.pi / 4 + error) * insertion, np.cos(np.pi / 4 + error)]
         ])
 
     def mmi_node_matrix(self, theta: float = 0, phi: float = 0, embed: bool = True):
-- 
2.43.0


From 8511c8b50620b72a2dd5f2452f88de63acbe3806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 40/92] fix: unitary phase-parametrized coupling matrix and MMI
 node matrix

The MMI node matrix also raised a TypeError since the errors are tuples.
---
 simphox/circuit/coupling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/circuit/coupling.py b/simphox/circuit/coupling.py
index 1ce2aeb..1037cea 100644
--- a/simphox/circuit/coupling.py
+++ b/simphox/circuit/coupling.py
@@ -28,7 +28,7 @@ def coupling_matrix_phase(theta: float, split_error: float = 0, loss_error: floa
     insertion = loss2insertion(loss_error)
     return np.array([
         [insertion * np.cos(theta / 2 + split_error / 2), insertion * 1j * np.sin(theta / 2 + split_error / 2)],
-        [1j * np.sin(theta / 2 + split_error / 2), np.sin(theta / 2 + split_error / 2)]
+        [1j * np.sin(theta / 2 + split_error / 2), np.cos(theta / 2 + split_error / 2)]
     ])
 
 
@@ -175,7 +175,7 @@ class CouplingNode:
             Tunable MMI node matrix embedded in an :math:`N`-waveguide system.
 
         """
-        mat = coupling_matrix_phase(theta, self.bs_error, self.loss) @ phase_matrix(phi)
+        mat = coupling_matrix_phase(theta, self.bs_error[0], self.loss[0]) @ phase_matrix(phi)
         return _embed_2x2(mat, self.n, self.top, self.bottom) if embed else mat
 
     def nullify(self, vector: np.ndarray, idx: int, lower_theta: bool = False, lower_phi: bool = False):
-- 
2.43.0


From 93de845a54d6861f058a473d94d5e20f0c231755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 41/92] fix: aggregating and column-ordering circuits keeps
 their phase style and phases

---
 simphox/circuit/forward.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 0c274d1..3f7fa7f 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -141,12 +141,14 @@ class ForwardMesh:
 
         """
         all_nodes = []
+        phase_style = None
         for obj in nodes_or_node_lists:
             if isinstance(obj, CouplingNode):
                 all_nodes.append(obj)
             else:
                 all_nodes.extend(obj.nodes)
-        return cls(all_nodes)
+                phase_style = obj.phase_style if phase_style is None else phase_style
+        return cls(all_nodes, PhaseStyle.TOP if phase_style is None else phase_style)
 
     @property
     def columns(self) -> List["ForwardMesh"]:
@@ -553,7 +555,9 @@ class ForwardMesh:
             The column-ordered nodes for this circuit (useful in cases nodes are out of order).
 
         """
-        return ForwardMesh.aggregate(self.columns)
+        mesh = ForwardMesh.aggregate(self.columns)
+        mesh.params = self.params
+        return mesh
 
     def add_error_mean(self, error: Union[float, np.ndarray] = 0, loss_db: Union[float, np.ndarray] = 0,
                        error_right: Optional[Union[float, np.ndarray]] = None):
-- 
2.43.0


From 5bb4426ebe6f94e35f944f7ee67432e8d2be89da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 42/92] fix: parallel_mzi defaults to the phis of the circuit

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 3f7fa7f..3695c93 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -544,7 +544,7 @@ class ForwardMesh:
     def parallel_mzi(self, thetas: np.ndarray = None, phis: np.ndarray = None, phase_style: PhaseStyle = None, use_jax: bool = False, back: bool = False):
         phase_style = self.phase_style if phase_style is None else phase_style
         thetas = self.params[0] if thetas is None else thetas
-        phis = self.params[0] if phis is None else phis
+        phis = self.params[1] if phis is None else phis
         return _parallel_mzi(thetas, phis, self.all_errors, self.all_losses, phase_style, use_jax, back)
 
     @property
-- 
2.43.0


From d3d6909acd8014071f4db6bd4cb127a3b1c575d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 43/92] fix: add_error_mean uses the errors given for the right
 splitters

---
 simphox/circuit/forward.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 3695c93..4139cf4 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -566,6 +566,7 @@ class ForwardMesh:
         Args:
             error: Phase-parametrized error for the left (and right if not specified) splitters
             loss_db: The loss in dB.
+            error_right: Phase-parametrized error for the right splitters (same as left if not specified)
 
         Returns:
             A new :code:`ForwardCouplingCircuit` with the modified error terms.
@@ -573,6 +574,8 @@ class ForwardMesh:
         """
         new_nodes = copy.deepcopy(self.nodes)
         error = error * np.ones_like(self.bs_errors) if not isinstance(error, np.ndarray) else error
+        if error_right is not None:
+            error = np.stack((error[:, 0], error_right * np.ones_like(error[:, 1])), axis=-1)
         loss_db = loss_db * np.ones_like(self.losses) if not isinstance(loss_db, np.ndarray) else loss_db
         for node, e, loss in zip(new_nodes, error, loss_db):
             node.bs_error = tuple(e)
-- 
2.43.0


From de485e6bb1d3e5cde7b73a0dd6e7f29bee1a39b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 44/92] fix: circuits without nodes have an empty (0, 2) error
 array

A single-rail circuit (e.g. a vector unit of a single element) raised an error.
---
 simphox/circuit/forward.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 4139cf4..fffdeba 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -613,7 +613,7 @@ class ForwardMesh:
     @property
     def all_errors(self):
         if (self.bs_errors.ndim == 1 or self.bs_errors.shape[-1] == 1) and self.bs_errors.size == self.num_nodes:
-            return np.hstack((self.bs_errors, self.bs_errors))
+            return np.stack((self.bs_errors.ravel(), self.bs_errors.ravel()), axis=-1)
         elif self.bs_errors.shape[-1] == 2 and self.bs_errors.size == self.num_nodes * 2:
             return self.bs_errors
         else:
@@ -623,7 +623,7 @@ class ForwardMesh:
     @property
     def all_losses(self):
         if (self.losses.ndim == 1 or self.losses.shape[-1] == 1) and self.losses.size == self.num_nodes:
-            return np.hstack((self.losses, self.losses))
+            return np.stack((self.losses.ravel(), self.losses.ravel()), axis=-1)
         elif self.losses.shape[-1] == 2 and self.losses.size == self.num_nodes * 2:
             return self.losses
         else:
-- 
2.43.0


From 906a705c8eec2ed11f9d689de7bb46338146a35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 45/92] fix: matrix_fn accepts real inputs (and does not write
 to its inputs)

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index fffdeba..34f4e26 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -204,7 +204,7 @@ class ForwardMesh:
         def matrix(params: Tuple[xp.ndarray, xp.ndarray, xp.ndarray] = self.params, inputs=xp.eye(self.n, dtype=np.complex64),
                    bs_errors=xp.array(self.all_errors, dtype=np.complex64), loss_errors=xp.array(self.all_losses, dtype=np.complex64)):
 
-            inputs += 0j  # cast to complex if not already
+            inputs = inputs + 0j  # cast to complex if not already
             thetas, phis, gammas = params
             outputs = xp.array(inputs[:, None].copy() if inputs.ndim == 1 else inputs.copy())
             mzis = _parallel_mzi(
-- 
2.43.0


From f9376958dd944e35b0e7d19a609b94a1d9218065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 46/92] fix: propagate uses the identity if no inputs are given

---
 simphox/circuit/forward.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 34f4e26..7a00af1 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -434,6 +434,7 @@ class ForwardMesh:
             Propagated fields
 
         """
+        inputs = np.eye(self.n, dtype=np.complex128) if inputs is None else inputs
         return self.propagate_matrix_fn(back=back, column_cutoff=column_cutoff, explicit=explicit, use_jax=False)(inputs=inputs)
 
     @property
-- 
2.43.0


From 753d21629b9aca9f24f82d58bd5dd529d65d79c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 47/92] fix: parallel_nullify nulls the top port for unequal
 splitter errors

The phases of the t11 and t21 matrix elements are compensated; the latter was
mistaken for t12, which only agrees for equal errors of both splitters.
---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 7a00af1..2e573a7 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -500,7 +500,7 @@ class ForwardMesh:
             phi = np.angle(top[:, -1]) - np.angle(bottom[:, -1]) + np.pi
         else:
             phi = np.angle(bottom[:, -1]) - np.angle(top[:, -1])
-        phi += np.angle(-ss + cc * np.exp(-1j * theta)) - np.angle(1j * (cs + np.exp(-1j * theta) * sc))
+        phi += np.angle(-ss + cc * np.exp(-1j * theta)) - np.angle(1j * (sc + np.exp(-1j * theta) * cs))
         return theta, phi
 
     @property
-- 
2.43.0


From 9e5b0ffd7f25cfb575c583274b338a2ac09932cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 48/92] fix: parallel_nullify in the DIFFERENTIAL phase style

phi is then applied to the bottom with respect to the top input, so it has the
opposite sign and vector units in this style did not null the vector.
---
 simphox/circuit/forward.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 2e573a7..0ea6bbb 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -501,6 +501,8 @@ class ForwardMesh:
         else:
             phi = np.angle(bottom[:, -1]) - np.angle(top[:, -1])
         phi += np.angle(-ss + cc * np.exp(-1j * theta)) - np.angle(1j * (sc + np.exp(-1j * theta) * cs))
+        if self.phase_style == PhaseStyle.DIFFERENTIAL:
+            phi = -phi  # the DIFFERENTIAL phi is the phase of the bottom relative to the top input
         return theta, phi
 
     @property
-- 
2.43.0


From aca31e6a4e82e1fee84c6566033d8c44655612a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 49/92] fix: localize phase shift powers by node and phase
 style

The in situ gradients of circuits whose nodes are not in column order (e.g.
balanced trees) were assigned to other nodes, and the gradients of circuits
with a varying number of nodes per column could not be stacked for batches.
---
 simphox/circuit/forward.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 0ea6bbb..b576a68 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -532,17 +532,16 @@ class ForwardMesh:
     def phase_shift_localize(self, prop_powers: np.ndarray, use_jax: bool = True):
         xp = jnp if use_jax else np
         if prop_powers.ndim == 3:
-            return (
-                xp.vstack([prop_powers[i * 4 + 2, nc.top] for i, nc in enumerate(self.columns)]).sum(axis=-1),
-                xp.vstack([prop_powers[i * 4, nc.top] for i, nc in enumerate(self.columns)]).sum(axis=-1),
-                prop_powers[-1].sum(axis=-1)
-            )
-        elif prop_powers.ndim == 2:
-            return (
-                xp.hstack([prop_powers[i * 4 + 2, nc.top] for i, nc in enumerate(self.columns)]),
-                xp.hstack([prop_powers[i * 4, nc.top] for i, nc in enumerate(self.columns)]),
-                prop_powers[-1]
-            )
+            prop_powers = prop_powers.sum(axis=-1)
+        columns = self.columns
+        # the phase shifts are indexed by node, and the nodes are not necessarily in column order
+        node_order = np.argsort(np.hstack([nc.node_idxs for nc in columns]))
+        arms = [nc.bottom if self.phase_style == PhaseStyle.BOTTOM else nc.top for nc in columns]
+        return (
+            xp.hstack([prop_powers[i * 4 + 2, np.array(arm)] for i, arm in enumerate(arms)])[node_order],
+            xp.hstack([prop_powers[i * 4, np.array(arm)] for i, arm in enumerate(arms)])[node_order],
+            prop_powers[-1]
+        )
 
     def parallel_mzi(self, thetas: np.ndarray = None, phis: np.ndarray = None, phase_style: PhaseStyle = None, use_jax: bool = False, back: bool = False):
         phase_style = self.phase_style if phase_style is None else phase_style
-- 
2.43.0


From 31a7dba56b4363d8b59a159bb420646d89360817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 50/92] fix: non-explicit propagation with jax raised a
 TypeError

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index b576a68..0412160 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -320,7 +320,7 @@ class ForwardMesh:
                                                    phase_style=self.phase_style, back=back, use_jax=True)
                 else:
                     def parallel_propagate(carry, idx):
-                        carry = _parallel_transform(carry, mzis, idx, phase_style=self.phase_style, back=back, use_jax=True)
+                        carry = _parallel_transform(carry, mzis, idx, use_jax=True)
                         return carry, carry[None]
                 outputs, _propagated = lax.scan(parallel_propagate, outputs, all_idx)
                 propagated.extend(_propagated)
-- 
2.43.0


From 13f72ab2453200fef77b99d39e700e788a6dd473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 51/92] fix: errors and losses are indexed by node id like the
 phases

In circuits whose nodes are not listed by node id (balanced trees), the errors
and losses of a node were applied to another node.
---
 simphox/circuit/forward.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 0412160..84671e7 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -47,12 +47,12 @@ class ForwardMesh:
         self.bottom = [int(node.bottom) for node in self.nodes]
         self.bs_errors = np.array([node.bs_error for node in self.nodes])
         self.losses = np.array([node.loss for node in self.nodes])
-        self.mzi_terms = _mzi_terms(self.all_errors)
         self.node_idxs = [node.node_id for node in self.nodes]
         if np.sum(self.node_idxs) == 0:
             self.node_idxs = np.arange(len(self.nodes)).tolist()
             for node, idx in zip(self.nodes, self.node_idxs):
                 node.node_id = idx
+        self.mzi_terms = _mzi_terms(self.all_errors)
         self.n = self.nodes[0].n if len(self.nodes) > 0 else 1
         self.alpha = np.array([node.alpha for node in self.nodes])
         self.beta = np.array([node.beta for node in self.nodes])
@@ -615,9 +615,9 @@ class ForwardMesh:
     @property
     def all_errors(self):
         if (self.bs_errors.ndim == 1 or self.bs_errors.shape[-1] == 1) and self.bs_errors.size == self.num_nodes:
-            return np.stack((self.bs_errors.ravel(), self.bs_errors.ravel()), axis=-1)
+            return np.stack((self.bs_errors.ravel(), self.bs_errors.ravel()), axis=-1)[np.argsort(self.node_idxs)]
         elif self.bs_errors.shape[-1] == 2 and self.bs_errors.size == self.num_nodes * 2:
-            return self.bs_errors
+            return self.bs_errors[np.argsort(self.node_idxs)]
         else:
             raise AttributeError(f"Losses should have size "
                                  f"({self.bs_errors.shape[-1]}, [1 or 2]).")
@@ -625,9 +625,9 @@ class ForwardMesh:
     @property
     def all_losses(self):
         if (self.losses.ndim == 1 or self.losses.shape[-1] == 1) and self.losses.size == self.num_nodes:
-            return np.stack((self.losses.ravel(), self.losses.ravel()), axis=-1)
+            return np.stack((self.losses.ravel(), self.losses.ravel()), axis=-1)[np.argsort(self.node_idxs)]
         elif self.losses.shape[-1] == 2 and self.losses.size == self.num_nodes * 2:
-            return self.losses
+            return self.losses[np.argsort(self.node_idxs)]
         else:
             raise AttributeError(f"Losses should have size "
                                  f"({self.losses.shape[-1]}, [1 or 2]).")
-- 
2.43.0


From c1049a365c0dfbb416a9f8bcba6505e40482bea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 52/92] fix: program DIFFERENTIAL circuits with the phases that
 are assigned to them

The vector was transformed by the phases before they were taken modulo 2 pi,
which flips the sign of the elements in this style, so cascades programmed some
rows of the matrix with the wrong sign.
---
 simphox/circuit/vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/circuit/vector.py b/simphox/circuit/vector.py
index e552349..df3ae89 100644
--- a/simphox/circuit/vector.py
+++ b/simphox/circuit/vector.py
@@ -131,6 +131,7 @@ def _program_vector_unit(v: np.ndarray, network: ForwardMesh):
         bottom = w[nc.bottom]
 
         theta, phi = nc.parallel_nullify(w, network.mzi_terms)
+        phi = np.mod(phi, 2 * np.pi)  # the DIFFERENTIAL elements change sign if phi is shifted by 2 * pi
 
         # Vectorized (efficient!) parallel mzi elements
         t11, t12, t21, t22 = nc.parallel_mzi(theta, phi)
@@ -149,7 +150,7 @@ def _program_vector_unit(v: np.ndarray, network: ForwardMesh):
 
         # The resulting thetas and phis, indexed according to the coupling network specifications
         thetas[nc.node_idxs] = theta
-        phis[nc.node_idxs] = np.mod(phi, 2 * np.pi)
+        phis[nc.node_idxs] = phi
 
     final_basis_vec = np.zeros(v.shape[0])
     final_basis_vec[-1] = 1
-- 
2.43.0


From 966dc4e75d701ae79a272beef2a3d2c4804083c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 53/92] fix: cosine-sine decomposition of unitaries with
 repeated or zero cosines or sines

The decomposition of e.g. the identity or the DFT did not reproduce the matrix.
---
 simphox/circuit/matrix.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/simphox/circuit/matrix.py b/simphox/circuit/matrix.py
index 8008dfa..ccc57c1 100644
--- a/simphox/circuit/matrix.py
+++ b/simphox/circuit/matrix.py
@@ -9,7 +9,7 @@ from .vector import vector_unit
 from scipy.stats import unitary_group
 import numpy as np
 
-from scipy.linalg import svd, qr, block_diag
+from scipy.linalg import svd, cossin, block_diag
 from .coupling import CouplingNode
 from .forward import ForwardMesh
 
@@ -142,22 +142,11 @@ def cs(mat: np.ndarray):
     """
     n = mat.shape[0]
     m = n // 2
-    q00 = mat[:m, :m]
-    q10 = mat[m:, :m]
-    q01 = mat[:m, m:]
-    q11 = mat[m:, m:]
-    l0, d00, r0 = svd(q00)
-    r1hp, d01 = qr(q01.conj().T @ l0)
-    theta = np.arcsin(d00)
-    d01 = np.append(np.diag(d01), 1) if n % 2 else np.diag(d01)
-    r1 = (r1hp * np.sign(d01)).conj().T
-    l1p, d10 = qr(q10 @ r0.conj().T)
-    d10 = np.append(np.diag(d10), 1) if n % 2 else np.diag(d10)
-    l1 = l1p * np.sign(d10)
-    phasor = (l1.conj().T @ q11 @ r1.conj().T)[-1, -1] if n % 2 else None
+    (l0, l1), theta, (r0, r1) = cossin(mat, p=m, q=m, separate=True)
     if n % 2:
-        r1[-1] *= phasor
-    return l0, l1, r0, r1, theta
+        l1, r1 = np.roll(l1, -1, axis=1), np.roll(r1, -1, axis=0)
+    r1[:m] *= -1
+    return l0, l1, r0, r1, np.pi / 2 - theta
 
 
 def csinv(l0: np.ndarray, l1: np.ndarray, r0: np.ndarray, r1: np.ndarray, theta: np.ndarray):
-- 
2.43.0


From c41dded9dcb99d899f06d13f473269bb3389cb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 54/92] fix: mixed theta-phi blocks of the Hessian were
 transposed

The second derivative with respect to theta_i and phi_j was stored at theta_j
and phi_i, by the finite difference and by the self-configuration method alike.
---
 simphox/circuit/vector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simphox/circuit/vector.py b/simphox/circuit/vector.py
index df3ae89..c5cbf2e 100644
--- a/simphox/circuit/vector.py
+++ b/simphox/circuit/vector.py
@@ -258,7 +258,7 @@ def hessian_vector_unit(v: np.ndarray, balanced: bool = True):
         theta_phi[..., nid][(mesh.nodes[i].top_descendants,)] = mesh.pn[(mesh.nodes[i].top_descendants,)]
         phi_theta[nid][(mesh.nodes[i].top_descendants,)] = mesh.pnsn[(mesh.nodes[i].top_descendants,)]
         phi_theta[nid][(mesh.nodes[i].bot_descendants,)] = mesh.pnsn[(mesh.nodes[i].bot_descendants,)]
-    h = np.block([[theta_theta, (theta_phi + phi_theta).T], [(theta_phi + phi_theta), phi_phi]])
+    h = np.block([[theta_theta, theta_phi + phi_theta], [(theta_phi + phi_theta).T, phi_phi]])
     return h
 
 
@@ -309,9 +309,9 @@ def hessian_fd(v: np.ndarray, error=0.0001, balanced=False):
             theta_phi_nn = (mesh.thetas - e[i], mesh.phis - e[j], mesh.gammas)
             h[i, j] = np.real(err(theta_pp) + err(theta_nn) - err(theta_pn) - err(theta_np)) / (4 * error ** 2)
             h[i + n - 1, j + n - 1] = np.real(err(phi_pp) + err(phi_nn) - err(phi_pn) - err(phi_np)) / (4 * error ** 2)
-            h[i + n - 1, j] = np.real(err(theta_phi_pp) + err(theta_phi_nn) - err(theta_phi_pn) - err(theta_phi_np)) / (
+            h[i, j + n - 1] = np.real(err(theta_phi_pp) + err(theta_phi_nn) - err(theta_phi_pn) - err(theta_phi_np)) / (
                 4 * error ** 2)
-            h[j, i + n - 1] = h[i + n - 1, j]
+            h[j + n - 1, i] = h[i, j + n - 1]
     return h
 
 
-- 
2.43.0


From b8cceb8a31a70483f8e88bd601341e24df2f8a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 55/92] fix: in situ input gradient has the norm of the
 backpropagated error

The error is normalized before it is sent backward, but the result (the error
of the previous layer) was not scaled back.
---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 84671e7..b679380 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -413,7 +413,7 @@ class ForwardMesh:
 
             # returns the grad powers at the various gradient positions and adjoint inputs (needed to propagate errors backward to prev layer)
             # assumes bs errors and loss errors are not modifiable (zero backpropagated gradients for those!)
-            return (self.phase_shift_localize(grad_powers / 2 * (inorm * gnorm)), adjoint_inputs, jnp.zeros_like(bs_errors), jnp.zeros_like(loss_errors))
+            return (self.phase_shift_localize(grad_powers / 2 * (inorm * gnorm)), adjoint_inputs * gnorm, jnp.zeros_like(bs_errors), jnp.zeros_like(loss_errors))
 
         matrix.defvjp(matrix_fwd, matrix_bwd)
         return matrix
-- 
2.43.0


From 5f8dfdd9857294eb9ab00e4ea0d9adda5eff80b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 56/92] fix: in situ gradient of a vanishing error or input is
 zero instead of nan

---
 simphox/circuit/forward.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index b679380..b30e9be 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -383,6 +383,7 @@ class ForwardMesh:
 
             inorm = jnp.max(jnp.linalg.norm(inputs, axis=-1))
             gnorm = jnp.max(jnp.linalg.norm(g, axis=-1))
+            inorm, gnorm = jnp.where(inorm == 0, 1, inorm), jnp.where(gnorm == 0, 1, gnorm)
 
             inputs /= inorm
             g /= gnorm
-- 
2.43.0


From 0de80531ebb29530b7b57a50811b32e9199fc1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:22 +0000
Subject: [PATCH 57/92] fix: boxes that start below zero wrap around to the
 other end of the array

---
 simphox/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index b503250..d674822 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -106,7 +106,9 @@ class Box:
 
     @property
     def slice(self) -> Tuple[slice, slice]:
-        return slice(self.min_i[0], self.max_i[0]), slice(self.min_i[1], self.max_i[1])
+        # a box that starts below zero is cut off there (a negative index would count from the end)
+        (x0, y0), (x1, y1) = self.min_i, self.max_i
+        return slice(max(x0, 0), max(x1, 0)), slice(max(y0, 0), max(y1, 0))
 
     @property
     def copy(self) -> "Box":
-- 
2.43.0


From b82113f14fb78fb6737a78a4147379595a66fdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:31 +0000
Subject: [PATCH 58/92] fix: well-posed systems with perturbed pivots are
 rejected as singular

---
 simphox/mkl.py | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index 54ef794..bdb7fc8 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -109,6 +109,7 @@ class Pardiso:
         self.iparm[1] = 3   # Parallel nested dissection for reordering
         self.iparm[23] = 1  # Parallel factorization
         self.iparm[34] = 1  # Zero-indexing
+        self._scaling = tuple(self.iparm[[10, 12]])  # scaling and weighted matching for improved accuracy
 
         self.phase = PARDISO_FULLSOLVE
         self._lock = threading.RLock()
@@ -198,24 +199,30 @@ class Pardiso:
 
         err_c = c_int(0)
 
-        mkl.pardiso(
-            self.pt_,                  # pt
-            byref(c_int(1)),           # maxfct
-            byref(c_int(1)),           # mnum
-            byref(c_int(self.mtype)),  # mtype
-            byref(c_int(self.phase)),  # phase
-            byref(c_int(self.n)),      # n
-            self.a_,                   # a
-            self.ia_,                  # ia
-            self.ja_,                  # ja
-            byref(c_int(0)),           # perm
-            byref(c_int(nrhs)),        # nrhs
-            self.iparm_,               # iparm
-            byref(c_int(0)),           # msglvl
-            rhs_,                      # rhs
-            x_,                        # x
-            byref(err_c)               # error
-        )
+        # the pivots may be perturbed for a well-posed system, so retry to factorize without scaling and matching
+        factorize = self.phase in (PARDISO_FACTORIZE, PARDISO_FULLSOLVE)
+        for scaling in ((self._scaling, (0, 0)) if factorize else (self.iparm[[10, 12]],)):
+            self.iparm[[10, 12]] = scaling
+            mkl.pardiso(
+                self.pt_,                  # pt
+                byref(c_int(1)),           # maxfct
+                byref(c_int(1)),           # mnum
+                byref(c_int(self.mtype)),  # mtype
+                byref(c_int(self.phase)),  # phase
+                byref(c_int(self.n)),      # n
+                self.a_,                   # a
+                self.ia_,                  # ia
+                self.ja_,                  # ja
+                byref(c_int(0)),           # perm
+                byref(c_int(nrhs)),        # nrhs
+                self.iparm_,               # iparm
+                byref(c_int(0)),           # msglvl
+                rhs_,                      # rhs
+                x_,                        # x
+                byref(err_c)               # error
+            )
+            if self.iparm[13] == 0 and err_c.value != -4:
+                break
 
         if self.iparm[13] > 0:
             raise RuntimeError(f"Pardiso - Number of perturbed pivot elements = {repr(self.iparm[13])}. "
-- 
2.43.0


From aaf98bff5687f4dfdfe4af67d3cd168dae5605b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:04 +0000
Subject: [PATCH 59/92] fix: interval mode solver returns unconverged values
 that are not modes

---
 simphox/mode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index e571f5f..97ea02d 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -183,7 +183,8 @@ class ModeSolver(YeeGrid):
             eigvals, eigvecs = eigs(self.waveguide_mode_matrix, k=max_num_modes, sigma=sigma, tol=tol)
         elif isinstance(beta_guess, tuple):
             erange = beta_guess[0] ** 2, beta_guess[1] ** 2
-            eigvals, eigvecs, _, _, _, _ = feast_eigs(self.waveguide_mode_matrix, erange=erange, k=max_num_modes)
+            eigvals, eigvecs, num_found, _, _, _ = feast_eigs(self.waveguide_mode_matrix, erange=erange, k=max_num_modes)
+            eigvals, eigvecs = eigvals[:num_found], eigvecs[:, :num_found]  # the rest is not converged
         else:
             raise TypeError(f'Expected beta_guess to be None, float, or Tuple[float, float] but got {type(beta_guess)}')
 
-- 
2.43.0


From ae4f21a7b7f6d6706c0e13400369017ec7f5e2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 60/92] fix: mode solver shift coincides with an eigenvalue for
 uniform permittivity

---
 simphox/mode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index 97ea02d..ef6f2bb 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -179,7 +179,8 @@ class ModeSolver(YeeGrid):
 
         df = self.deriv_forward
         if isinstance(beta_guess, float) or beta_guess is None:
-            sigma = beta_guess ** 2 if beta_guess else (self.k0 * np.sqrt(np.max(self.eps))) ** 2
+            # by default, stay above the largest possible eigenvalue (which is attained if the permittivity is uniform)
+            sigma = beta_guess ** 2 if beta_guess else self.k0 ** 2 * np.max(self.eps) * (1 + 1e-4)
             eigvals, eigvecs = eigs(self.waveguide_mode_matrix, k=max_num_modes, sigma=sigma, tol=tol)
         elif isinstance(beta_guess, tuple):
             erange = beta_guess[0] ** 2, beta_guess[1] ** 2
-- 
2.43.0


From e50861802bdf0eb18e856dd040452e9188abd857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:13 +0000
Subject: [PATCH 61/92] fix: cross-section modes cannot be placed in 3D grids
 and are not oriented along the port axis

---
 simphox/mode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index ef6f2bb..859b10c 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -502,7 +502,7 @@ class ModeLibrary:
             automatically determined from the center and size provided.
 
         """
-        region = grid.slice(center, size)
+        region = grid.slice(center, size, squeezed=self.ndim == 1)
         if self.ndim == 2:
             # Find the place axis (the poynting direction, where the size should be 0)
             place_axis = np.where(np.array(size) == 0)[0][0]
@@ -517,7 +517,7 @@ class ModeLibrary:
                 np.asarray((0, 1, 2), dtype=int)
             ][place_axis]
             x = np.zeros((3, *grid.shape), dtype=np.complex128)
-            x[(None,) + region] = self.h(mode_idx).transpose((0, *tuple(1 + axes)))
+            x[(slice(None),) + region] = self.h(mode_idx)[axes].transpose((0, *tuple(1 + axes)))
         else:
             x = np.zeros(grid.shape, dtype=np.complex128)
             x[region[:2]] = self.modes[mode_idx]
-- 
2.43.0


From 5b32159ba87007d8e78cb786e2b48376ac85188d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 62/92] fix: s-parameters cannot be measured for ports and
 modes given as a dictionary

---
 simphox/fdfd.py | 2 +-
 simphox/sim.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 8c9cf8d..03d551b 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -311,7 +311,7 @@ class FDFD(SimGrid):
 
         """
         measure_fn = self.get_measure_fn(measure_info)
-        measure_info = [(name, 0) for name in self.port] if measure_info is None else measure_info
+        measure_info = self.parse_excitation(measure_info)
         h = self.solve(self.port_source({(port_name, mode_idx): 1}))
         s_out, s_in = measure_fn(h)
         src_sparam_reference = measure_info.index((port_name, mode_idx))
diff --git a/simphox/sim.py b/simphox/sim.py
index ba94824..9da294d 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -309,7 +309,7 @@ class SimGrid(YeeGrid):
             A solve function (2d or 3d based on defined :code:`ndim` specified for the instance of :code:`FDFD`)
 
         """
-        measure_info = [(name, 0) for name in self.port] if measure_info is None else measure_info
+        measure_info = self.parse_excitation(measure_info)
         source_info = (port_name, mode_idx) if port_name is not None else measure_info[0]
         fields_fn = self.get_fields_fn(src=self.port_source({source_info: 1}, profile_size_factor=profile_size_factor),
                                        transform_fn=transform_fn,
-- 
2.43.0


From 8a0decfadc1ca93215c288abc1e6d21254ae17af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 63/92] fix: ports along y report the waves entering and
 leaving the device swapped

---
 simphox/sim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simphox/sim.py b/simphox/sim.py
index 9da294d..c8b6553 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -224,6 +224,8 @@ class SimGrid(YeeGrid):
         # to determine whether the wave is entering or leaving the device
         # The polarity below assumes that ports are near edge of simulation.
         polarity = 2 * (np.mod(angles, 360) < 180).astype(int) - 1
+        # The view of a port along y is mirrored (its axes are x, z, y), which reverses the measured direction.
+        polarity = polarity * np.where(np.mod(angles, 180) == 90, -1, 1)
         measure_fns = [port_to_modes[port_name].io.measure_fn(m, use_jax, tm_2d=tm_2d) for port_name, m in measure_port]
         view_fns = [self.view_fn(port_to_modes[port_name].center, port_to_modes[port_name].size, use_jax)
                     for port_name, _ in measure_port]
-- 
2.43.0


From 6faa171c91de53a4e2f97a9469c0baa9aaa3e05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:40 +0000
Subject: [PATCH 64/92] fix: sources in slice regions of a time-domain
 simulation crash when an extent is one cell

---
 simphox/fdtd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 140301e..b0f2425 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -134,9 +134,9 @@ class FDTD(SimGrid):
         for source, _, source_region in sources:
             if source is not None:
                 if self.use_jax:
-                    e = e.at[source_region].add(-source.squeeze() / self.eps_t[source_region] * self.dt)
+                    e = e.at[source_region].add(-source.reshape(e[source_region].shape) / self.eps_t[source_region] * self.dt)
                 else:
-                    e[source_region] -= source.squeeze() / self.eps_t[source_region] * self.dt
+                    e[source_region] -= source.reshape(e[source_region].shape) / self.eps_t[source_region] * self.dt
 
         return e, h, psi_e, psi_h
 
@@ -161,9 +161,9 @@ class FDTD(SimGrid):
         for _, source, source_region in sources:
             if source is not None:
                 if self.use_jax:
-                    h = h.at[source_region].add(-source.squeeze() * self.dt)
+                    h = h.at[source_region].add(-source.reshape(h[source_region].shape) * self.dt)
                 else:
-                    h[source_region] -= source.squeeze() * self.dt
+                    h[source_region] -= source.reshape(h[source_region].shape) * self.dt
 
         return e, h, psi_e, psi_h
 
-- 
2.43.0


From b2af4f0a3fd4d754c4faa727ce34214f07b564c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:53 +0000
Subject: [PATCH 65/92] fix: time-domain port sources ignore the polarization
 option

---
 simphox/fdtd.py | 3 ++-
 simphox/sim.py  | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index b0f2425..9f3bdb4 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -273,7 +273,8 @@ class FDTD(SimGrid):
             for p, midx in source_excitation:
                 mode = source_modes[p]
                 time_shift = np.exp(1j * step * self.dt * k0)
-                src_e, src_h, src_slice = mode.profile(midx), mode.profile(midx, use_h=True), mode.slice(self)
+                src_e, src_h = mode.profile(midx, tm_2d=tm_2d), mode.profile(midx, use_h=True, tm_2d=tm_2d)
+                src_slice = mode.slice(self)
                 sources.append((src_e * time_shift, src_h * time_shift, src_slice))
             _, h_before, _, _ = state
             state = self.step(state, sources)
diff --git a/simphox/sim.py b/simphox/sim.py
index c8b6553..6658144 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -50,12 +50,13 @@ class SimCrossSection:
         # Find
         return np.where(np.array(self.size) == 0)[0][0]
 
-    def profile(self, mode_idx: int, use_h: float = False):
+    def profile(self, mode_idx: int, use_h: float = False, tm_2d: bool = True):
         """Returns the mode profile oriented based on specified xyz size of the profile.
 
         Args:
             mode_idx: The mode index of the profile
             use_h: Return the h field for the profile
+            tm_2d: Use TM polarization (only relevant in the case of 2D simulations (i.e., 1D modes)).
 
         Returns:
             The oriented profile.
@@ -77,7 +78,7 @@ class SimCrossSection:
             np.asarray((1, 1, -1), dtype=int)
         ][self.prop_axis]
 
-        mode = self.io.h(mode_idx) if use_h else self.io.e(mode_idx)
+        mode = self.io.h(mode_idx, tm_2d) if use_h else self.io.e(mode_idx, tm_2d)
         mode = np.stack([signs[0] * mode[axes[0]], signs[1] * mode[axes[1]], signs[2] * mode[axes[2]]])
 
         return mode.transpose((0, *tuple(1 + axes)))
-- 
2.43.0


From 60f0bba7b103a39193126b8dab826e0086250285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:05 +0000
Subject: [PATCH 66/92] fix: oriented mode profiles flip some field components
 of a hybrid mode

---
 simphox/sim.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 6658144..0f5bfa1 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -72,16 +72,8 @@ class SimCrossSection:
             np.asarray((0, 1, 2), dtype=int)
         ][self.prop_axis]
 
-        signs = [
-            np.asarray((1, -1, 1), dtype=int),
-            np.asarray((1, 1, 1), dtype=int),
-            np.asarray((1, 1, -1), dtype=int)
-        ][self.prop_axis]
-
         mode = self.io.h(mode_idx, tm_2d) if use_h else self.io.e(mode_idx, tm_2d)
-        mode = np.stack([signs[0] * mode[axes[0]], signs[1] * mode[axes[1]], signs[2] * mode[axes[2]]])
-
-        return mode.transpose((0, *tuple(1 + axes)))
+        return mode[axes].transpose((0, *tuple(1 + axes)))
 
 
 class SimGrid(YeeGrid):
-- 
2.43.0


From 17a5b2732cff6d707e6eb0f1c1c967ceb763fa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:08 +0000
Subject: [PATCH 67/92] fix: optimization problems without a transform or a
 simulation fail or ignore the transform

---
 simphox/opt.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index 06544af..ae5f5ec 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -61,8 +61,9 @@ class OptProblem:
     metrics_fn: Optional[Callable[[np.ndarray, SimGrid], Dict]] = None
 
     def __post_init__(self):
+        self.transform_fn = (lambda rho: rho) if self.transform_fn is None else self.transform_fn
         self.fn = self.sim.get_sim_sparams_fn(self.source, self.transform_fn)\
-            if self.source is not None else self.transform_fn
+            if self.sim is not None and self.source is not None else self.transform_fn
 
 
 @fix_dataclass_init_docs
@@ -165,10 +166,8 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
             raise ValueError("Number of viz_pipes must match number of opt problems")
 
     # Define the simulation and objective function acting on parameters rho
-    solve_fn = [None if (op.source is None or op.sim is None) else op.fn for op in opt_problems]
-
     def overall_cost_fn(rho: jnp.ndarray):
-        evals = [op.cost_fn(s(rho)) if s is not None else op.cost_fn(rho) for op, s in zip(opt_problems, solve_fn)]
+        evals = [op.cost_fn(op.fn(rho)) for op in opt_problems]
         return jnp.array([obj for obj, _ in evals]).sum() / n_problems, [aux for _, aux in evals]
 
     # Define a compiled update step
-- 
2.43.0


From a6924f043005cdfe66c2223f7b06e505097cde62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:41 +0000
Subject: [PATCH 68/92] fix: opt_run mixes the records of simulations with the
 same name

---
 simphox/opt.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index ae5f5ec..5faab86 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -194,7 +194,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
         v, opt_state, data = step(i, opt_state)
         _update_eps(opt_state)
         data = [aux for op, aux in zip(opt_problems, data) if op.sim is not None and op.source is not None]
-        for sop, sparams_fields in zip(sim_opt_problems, data):
+        for k, (sop, sparams_fields) in enumerate(zip(sim_opt_problems, data)):
             sim = sop.sim
             sparams, e, h = sim.decorate(*sparams_fields)
             hz = np.asarray(h[2]).squeeze().T
@@ -207,11 +207,11 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
             if metric_interval > 0 and i % metric_interval == 0 and viz is not None:
                 metrics = sop.metrics_fn(sparams)
                 for metric_name, metric_value in metrics.items():
-                    history[f'{metric_name}/{sop.sim.name}'].append(metric_value)
+                    history[f'{metric_name}/{k}'].append(metric_value)
                 for title in viz.metrics_pipes[sop.sim.name]:
                     viz.metrics_pipes[sop.sim.name][title].send(
                         xarray.DataArray(
-                            data=np.asarray([history[f'{metric_name}/{sop.sim.name}']
+                            data=np.asarray([history[f'{metric_name}/{k}']
                                              for metric_name in viz.metric_config[title]]),
                             coords={
                                 'metric': viz.metric_config[title],
@@ -222,9 +222,9 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
                         )
                     )
             if eps_interval > 0 and i % eps_interval == 0:
-                history[f'eps/{sop.sim.name}'].append((i, sop.sim.eps))
+                history[f'eps/{k}'].append((i, sop.sim.eps))
             if field_interval > 0 and i % field_interval == 0:
-                history[f'field/{sop.sim.name}'].append((i, hz.T))
+                history[f'field/{k}'].append((i, hz.T))
         if pbar is not None:
             iterator.set_description(f"𝓛: {v:.5f}")
         costs.append(jax.lax.stop_gradient(v))
@@ -234,8 +234,8 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
 
     all_metric_names = sum([metric_names for _, metric_names in viz.metric_config.items()], []) if viz is not None else []
     metrics = xarray.DataArray(
-        data=np.array([[history[f'{metric_name}/{sop.sim.name}']
-                        for metric_name in all_metric_names] for sop in sim_opt_problems]),
+        data=np.array([[history[f'{metric_name}/{k}']
+                        for metric_name in all_metric_names] for k in range(len(sim_opt_problems))]),
         coords={
             'name': [sop.sim.name for sop in sim_opt_problems],
             'metric': all_metric_names,
@@ -245,11 +245,11 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
         name='metrics'
     ) if sim_opt_problems and metric_interval != 0 and viz is not None else []
     eps = xarray.DataArray(
-        data=np.array([[eps for _, eps in history[f'eps/{sop.sim.name}']] if eps_interval > 0 else []
-                       for sop in sim_opt_problems]),
+        data=np.array([[eps for _, eps in history[f'eps/{k}']] if eps_interval > 0 else []
+                       for k in range(len(sim_opt_problems))]),
         coords={
             'name': [sop.sim.name for sop in sim_opt_problems],
-            'iteration': [it for it, _ in history[f'eps/{sim_opt_problems[0].sim.name}']],
+            'iteration': [it for it, _ in history['eps/0']],
             'x': np.arange(sim_opt_problems[0].sim.shape[0]),
             'y': np.arange(sim_opt_problems[0].sim.shape[1]),
         },
@@ -257,11 +257,11 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
         name='eps'
     ) if sim_opt_problems and eps_interval != 0 else []
     fields = xarray.DataArray(
-        data=np.asarray([[field for _, field in history[f'field/{sop.sim.name}']] if field_interval > 0 else []
-                         for sop in sim_opt_problems]),
+        data=np.asarray([[field for _, field in history[f'field/{k}']] if field_interval > 0 else []
+                         for k in range(len(sim_opt_problems))]),
         coords={
             'name': [sop.sim.name for sop in sim_opt_problems],
-            'iteration': [it for it, _ in history[f'field/{sim_opt_problems[0].sim.name}']],
+            'iteration': [it for it, _ in history['field/0']],
             'x': np.arange(sim_opt_problems[0].sim.shape[0]),
             'y': np.arange(sim_opt_problems[0].sim.shape[1]),
         },
-- 
2.43.0


From 2a406949183926a0d37dcd3b2a68be766cba0434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 69/92] fix: opt_run drops metrics without a visualization and
 fails without a metric function

---
 simphox/opt.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index 5faab86..c7b2693 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -189,6 +189,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
 
     costs = []
     history = defaultdict(list)
+    metric_names = {}  # ordered set of the recorded metrics
 
     for i in iterator:
         v, opt_state, data = step(i, opt_state)
@@ -204,11 +205,12 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
                 field_pipe.send(hz.real / np.max(hz.real))
                 power = np.abs(hz) ** 2
                 power_pipe.send(power / np.max(power))
-            if metric_interval > 0 and i % metric_interval == 0 and viz is not None:
+            if metric_interval > 0 and i % metric_interval == 0 and sop.metrics_fn is not None:
                 metrics = sop.metrics_fn(sparams)
+                metric_names.update(dict.fromkeys(metrics))
                 for metric_name, metric_value in metrics.items():
                     history[f'{metric_name}/{k}'].append(metric_value)
-                for title in viz.metrics_pipes[sop.sim.name]:
+                for title in viz.metrics_pipes[sop.sim.name] if viz is not None and viz.metrics_pipes else ():
                     viz.metrics_pipes[sop.sim.name][title].send(
                         xarray.DataArray(
                             data=np.asarray([history[f'{metric_name}/{k}']
@@ -232,18 +234,20 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
             viz.costs_pipe.send(np.asarray(costs))
     _update_eps(opt_state)
 
-    all_metric_names = sum([metric_names for _, metric_names in viz.metric_config.items()], []) if viz is not None else []
+    all_metric_names = list(metric_names) if viz is None or viz.metric_config is None else \
+        sum([titled_names for _, titled_names in viz.metric_config.items()], [])
+    metric_problems = [(k, sop) for k, sop in enumerate(sim_opt_problems) if sop.metrics_fn is not None]
     metrics = xarray.DataArray(
-        data=np.array([[history[f'{metric_name}/{k}']
-                        for metric_name in all_metric_names] for k in range(len(sim_opt_problems))]),
+        data=np.array([[history[f'{metric_name}/{k}'] for metric_name in all_metric_names]
+                       for k, _ in metric_problems]),
         coords={
-            'name': [sop.sim.name for sop in sim_opt_problems],
+            'name': [sop.sim.name for _, sop in metric_problems],
             'metric': all_metric_names,
             'iteration': np.arange(0, num_iters, metric_interval)
         },
         dims=['name', 'metric', 'iteration'],
         name='metrics'
-    ) if sim_opt_problems and metric_interval != 0 and viz is not None else []
+    ) if metric_problems and metric_interval > 0 and all_metric_names else []
     eps = xarray.DataArray(
         data=np.array([[eps for _, eps in history[f'eps/{k}']] if eps_interval > 0 else []
                        for k in range(len(sim_opt_problems))]),
-- 
2.43.0


From b6adaafaf6720d44f7ce34e12d271917795f9c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:53 +0000
Subject: [PATCH 70/92] fix: opt_run fails without initial parameters instead
 of starting from the permittivity

---
 simphox/opt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index c7b2693..8053841 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -152,12 +152,15 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
     """
 
     opt_init, opt_update, get_params = adam(step_size=step_size)
-    opt_state = opt_init(init_params)
 
     # define opt_problems
     opt_problems = [opt_problem] if isinstance(opt_problem, OptProblem) else opt_problem
     n_problems = len(opt_problems)
 
+    if init_params is None:
+        init_params = next(op.sim.eps for op in opt_problems if op.sim is not None)
+    opt_state = opt_init(init_params)
+
     # opt problems that include both an FDFD sim and a source sim
     sim_opt_problems = [op for op in opt_problems if op.sim is not None and op.source is not None]
 
-- 
2.43.0


From 48d4b63f296365730757679c70c84c13aafdbae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:18 +0000
Subject: [PATCH 71/92] fix: the field of a mode of a 1D cross section cannot
 be plotted

---
 simphox/mode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index 859b10c..f4cee7c 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -473,7 +473,7 @@ class ModeLibrary:
             polarization = "TE" if np.argmax((self.te_ratio(idx), 1 - self.te_ratio(idx))) > 0 else "TM"
             ax.text(x=0.05, y=0.9, s=rf'{polarization}[{ratio:.2f}]', color='black', transform=ax.transAxes)
         else:
-            plot_field_1d(ax, field[axis].real.squeeze(), rf'Field({label})', self.eps, spacing=self.solver.spacing[0])
+            plot_field_1d(ax, field.real.squeeze(), rf'Field({label})', self.eps, spacing=self.solver.spacing[0])
 
     def phase(self, length: float = 1, mode_idx: int = 0):
         """Measure the phase delay propagated over a length
-- 
2.43.0


From e91b344570c40147d55d93a78ca366134cdfa2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:18 +0000
Subject: [PATCH 72/92] fix: 1D plots without a spacing raise a TypeError

---
 simphox/viz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/viz.py b/simphox/viz.py
index 9e9eb6d..07e8821 100644
--- a/simphox/viz.py
+++ b/simphox/viz.py
@@ -138,7 +138,7 @@ def plot_eps_1d(ax, eps: Optional[np.ndarray], spacing: Optional[float] = None,
         axis_label_rotation: Rotate the axis label in case a plot is made with shared axes.
 
     """
-    x = np.arange(eps.shape[0]) * spacing
+    x = np.arange(eps.shape[0]) * (spacing or 1)
     if spacing:
         ax.set_xlabel(rf'$x$ ({units})')
         ax.set_ylabel(r'Relative permittivity ($\epsilon$)', color=color,
@@ -161,7 +161,7 @@ def plot_field_1d(ax, field: np.ndarray, field_name: str, eps: Optional[np.ndarr
         units: Units for plotting (default microns)
 
     """
-    x = np.arange(field.shape[0]) * spacing
+    x = np.arange(field.shape[0]) * (spacing or 1)
     if spacing:  # in microns!
         ax.set_xlabel(rf'$x$ ({units})')
         ax.set_ylabel(rf'{field_name}', color=color)
-- 
2.43.0


From a95331ddba28979bca43048774adc6014f7070a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:18 +0000
Subject: [PATCH 73/92] fix: 2D plots of a vanishing field raise a ValueError

---
 simphox/viz.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simphox/viz.py b/simphox/viz.py
index 07e8821..15add1d 100644
--- a/simphox/viz.py
+++ b/simphox/viz.py
@@ -121,6 +121,7 @@ def plot_field_2d(ax, field: np.ndarray, eps: Optional[np.ndarray] = None, spaci
         plot_eps_2d(ax, eps, spacing, mat_cmap)
     im_val = field
     vmax = np.max(im_val * np.sign(field.flat[np.abs(field).argmax()])) if vmax is None else vmax
+    vmax = vmax if vmax > 0 else 1  # a field that vanishes everywhere
     norm = mcolors.TwoSlopeNorm(vcenter=0, vmin=-vmax, vmax=vmax)
     ax.imshow(im_val.T, cmap=cmap, origin='lower', alpha=alpha, extent=extent, norm=norm)
 
-- 
2.43.0


From 4066c21660993696a5b47b313a5bd9a8cf503337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:16 +0000
Subject: [PATCH 74/92] fix: the normalized error of a lossy matrix or of a
 perfect match is NaN

---
 simphox/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index d674822..1561e15 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -301,8 +301,14 @@ def normalized_error(u: np.ndarray, use_jax: bool = False):
 
     xp = jnp if use_jax else np
     u = jnp.array(u) if use_jax else u
-    return lambda uhat: xp.sqrt(
-        1 - xp.abs(xp.trace(u.conj().T @ uhat)) ** 2 / xp.abs(xp.trace(uhat.conj().T @ uhat)) ** 2)
+
+    def error(uhat):
+        power = xp.abs(xp.trace(u.conj().T @ u)) * xp.abs(xp.trace(uhat.conj().T @ uhat))
+        infidelity = 1 - xp.abs(xp.trace(u.conj().T @ uhat)) ** 2 / power
+        imperfect = infidelity > 0  # rounding may leave a small negative number (and sqrt has no derivative at 0)
+        return xp.where(imperfect, xp.sqrt(xp.where(imperfect, infidelity, 1)), 0)
+
+    return error
 
 
 def beta_pdf(x, a, b):
-- 
2.43.0


From f7b9732da513975c34a7a972f9c2a5d4a08df938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:03 +0000
Subject: [PATCH 75/92] fix: component models mislabel or ignore the requested
 ports

---
 simphox/circuit/component.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/simphox/circuit/component.py b/simphox/circuit/component.py
index e410607..1b79daf 100644
--- a/simphox/circuit/component.py
+++ b/simphox/circuit/component.py
@@ -83,10 +83,13 @@ class Component:
                 bg_eps=bg_eps,
                 name=f'{name}_{wl}um'
             )
+            ports = list(fdfd.port)
+            in_ports = ports if in_ports is None else in_ports
+            out_ports = ports if out_ports is None else out_ports
             sparams_wl = []
-            for port in fdfd.port:
+            for port in in_ports:
                 s, _ = fdfd.get_sim_sparams_fn(port, profile_size_factor=profile_size_factor)(fdfd.eps)
-                sparams_wl.append(s)
+                sparams_wl.append([s[ports.index(out_port)] for out_port in out_ports])
             sparams.append(sparams_wl)
 
         model = xr.DataArray(
-- 
2.43.0


From e812143b9a621c063e410ef11b80e70d983e723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:48 +0000
Subject: [PATCH 76/92] fix: block_design and from_pattern lose the rib without
 a substrate

---
 simphox/fdfd.py |  3 ++-
 simphox/fdtd.py |  3 ++-
 simphox/grid.py | 10 ++++++----
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 03d551b..6816bc4 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -293,8 +293,9 @@ class FDFD(SimGrid):
         spacing = spacing * np.ones(2 + (component_t > 0)) if isinstance(spacing, float) else np.asarray(spacing)
         size = (x, y, height) if height > 0 else (x, y)
         grid = cls(size, spacing, wavelength=wavelength, eps=bg_eps, pml=pml, name=name)
-        grid.fill(sub_z + rib_t, core_eps)
         grid.fill(sub_z, clad_eps)
+        if rib_t > 0:
+            grid.fill(sub_z + rib_t, core_eps, min_height=sub_z)
         grid.add(component, core_eps, component_zmin, component_t)
         return grid
 
diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 9f3bdb4..e32fa6c 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -84,8 +84,9 @@ class FDTD(SimGrid):
         spacing = spacing * np.ones(2 + (component_t > 0)) if isinstance(spacing, float) else np.asarray(spacing)
         size = (x, y, height) if height > 0 else (x, y)
         grid = cls(size, spacing, eps=bg_eps, pml=pml, name=name)
-        grid.fill(sub_z + rib_t, core_eps)
         grid.fill(sub_z, clad_eps)
+        if rib_t > 0:
+            grid.fill(sub_z + rib_t, core_eps, min_height=sub_z)
         grid.add(component, core_eps, component_zmin, component_t)
         return grid
 
diff --git a/simphox/grid.py b/simphox/grid.py
index 36b76cf..fdee46e 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -85,19 +85,21 @@ class Grid:
         # used to handle special functions of waveguide-based components
         self.port: Dict[str, Port] = {}
 
-    def fill(self, height: float, eps: float) -> "Grid":
+    def fill(self, height: float, eps: float, min_height: float = 0) -> "Grid":
         """Fill grid up to `height`, typically used for substrate + cladding epsilon settings
 
         Args:
             height: Maximum final dimension of the fill operation (`y` if 2D, `z` if 3D).
             eps: Relative permittivity to fill.
+            min_height: Minimum final dimension of the fill operation (`y` if 2D, `z` if 3D).
 
         Returns:
             The modified :code:`Grid` for chaining (:code:`self`)
 
         """
         if height > 0:
-            self.eps[..., :int(np.around(height / self.spacing[-1], 6))] = eps
+            zmin, zmax = (int(np.around(max(h, 0) / self.spacing[-1], 6)) for h in (min_height, height))
+            self.eps[..., zmin:zmax] = eps
         else:
             self.eps = np.ones_like(self.eps) * eps
         return self
@@ -299,9 +301,9 @@ class Grid:
             The resulting :code:`Grid` with the modified :code:`eps` property.
 
         """
-        if rib_y > 0:
-            self.fill(rib_y + sub_height, waveguide.eps)
         self.fill(sub_height, sub_eps)
+        if rib_y > 0:
+            self.fill(rib_y + sub_height, waveguide.eps, min_height=sub_height)
         waveguide.align(self.center)
         if wg_height:
             waveguide.valign(wg_height)
-- 
2.43.0


From 496b5c9a154be91da6ce021cd9e459f06258b126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:58 +0000
Subject: [PATCH 77/92] fix: interval eigensolver fails on its first call and
 corrupts memory in single precision

---
 simphox/mkl.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index bdb7fc8..3609fc0 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -255,10 +255,8 @@ class Feast:
         self.fpm[13] = int(one_contour)
         self.fpm[26] = int(check_input)
         self.fpm[27] = int(check_pos_definite)
-        self.fpm[63] = 1    # Enable iparm settings
-        # from pyMKL
-        self.iparm[1] = 3   # Parallel nested dissection for reordering
-        self.iparm[23] = 1  # Parallel factorization
+        # leave the solver (iparm) settings disabled: a partial set makes the first call fail
+        # and single precision problems overrun their buffers
 
     def feast(self, mat: sp.csr_matrix, m0: int, erange: Tuple[float, float], symmetric: bool = True):
         dtype = mat.dtype
-- 
2.43.0


From f902d7405f87a68d031f121fbce47b3001abdff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:11 +0000
Subject: [PATCH 78/92] fix: modes of a cross section use the spacing of the
 axes it spans

---
 simphox/sim.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 0f5bfa1..059f98f 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -114,10 +114,13 @@ class SimGrid(YeeGrid):
     @lru_cache()
     def _modes(self, center: Size3, size: Size3, wavelength: float, num_modes: int, eps_key: bytes) -> SimCrossSection:
         # eps_key identifies the permittivity that the cached modes belong to
-        mode_eps = self.eps.reshape(self.shape3)[self.slice(center, size)].squeeze()
-        mode_size = tuple(np.array(mode_eps.shape) * self.spacing[0])
+        section_eps = self.eps.reshape(self.shape3)[self.slice(center, size, squeezed=False)]
+        mode_eps = section_eps.squeeze()
+        # the cross section keeps the spacing of the axes it spans
+        mode_spacing = self.spacing3[np.array(section_eps.shape) > 1]
+        mode_size = tuple(np.array(mode_eps.shape) * mode_spacing)
         modes = ModeLibrary(
-            ModeSolver(size=mode_size, spacing=self.spacing[0], eps=mode_eps, wavelength=wavelength),
+            ModeSolver(size=mode_size, spacing=mode_spacing, eps=mode_eps, wavelength=wavelength),
             max_num_modes=num_modes
         )
         return SimCrossSection(modes, center, size, wavelength)
-- 
2.43.0


From 4266351abd4a19dc97bfb8039d627a2a0840b4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:16 +0000
Subject: [PATCH 79/92] fix: magnetic fields computed from electric fields have
 the opposite sign of everything else

---
 simphox/fdfd.py | 14 +++++++-------
 simphox/mode.py |  8 ++++----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 6816bc4..10df972 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -170,12 +170,12 @@ class FDFD(SimGrid):
 
         Mathematically, this represents rearranging the Maxwell equation in the frequency domain:
         ..math::
-            i \\omega \\mu \\mathbf{h} &= \\nabla \times \\mathbf{e}.
+            -i \\omega \\mu \\mathbf{h} &= \\nabla \times \\mathbf{e}.
 
         Returns:
             The h-field converted from the e-field.
         """
-        return self.curl_fn(of_h=False, beta=beta)(self.reshape(e)) / (1j * self.k0)
+        return self.curl_fn(of_h=False, beta=beta)(self.reshape(e)) / (-1j * self.k0)
 
     def h2e(self, h: np.ndarray, beta: Optional[float] = None) -> np.ndarray:
         """Convert magnetic field :math:`\\mathbf{h}` to electric field :math:`\\mathbf{e}`.
@@ -185,7 +185,7 @@ class FDFD(SimGrid):
 
         Mathematically, this represents rearranging the Maxwell equation in the frequency domain:
         ..math::
-            -i \\omega \\epsilon \\mathbf{e} &= \\nabla \\times \\mathbf{h}.
+            i \\omega \\epsilon \\mathbf{e} &= \\nabla \\times \\mathbf{h}.
 
         Returns:
             The e-field converted from the h-field.
@@ -219,7 +219,7 @@ class FDFD(SimGrid):
                 e = solver_fn(self.mat, b) if solver_fn else spsolve_pardiso(self.mat, b)
             e = self.reshape(e)
             curl_e = curl_fn(self.diff_fn(of_h=False))
-            h = curl_e(e) / (1j * self.k0)
+            h = curl_e(e) / (-1j * self.k0)
             return np.array((e, h))
         else:  # assume only the z component
             if not src.size == self.n:
@@ -237,7 +237,7 @@ class FDFD(SimGrid):
             else:
                 e = field
                 o = np.zeros_like(e[2])
-                return np.stack([e, np.stack((df(e[2], 1), -df(e[2], 0), o)) / (1j * self.k0)])
+                return np.stack([e, np.stack((df(e[2], 1), -df(e[2], 0), o)) / (-1j * self.k0)])
 
     def scpml(self, ax: int) -> Tuple[np.ndarray, np.ndarray]:
         exp_scale, log_reflection, pml_eps = self.pml_params
@@ -388,7 +388,7 @@ class FDFD(SimGrid):
                     ez = spsolve(mat_entries, k0 * src, mat_indices)
                     ez = ez.reshape(shape3)
                     e = jnp.stack((o, o, ez))
-                    h = jnp.stack((de(e[2], 1), -de(e[2], 0), o)) / (1j * k0)
+                    h = jnp.stack((de(e[2], 1), -de(e[2], 0), o)) / (-1j * k0)
                     return jnp.stack((e, h))
         else:
             # iterative 3d FDFD (simpler than 2D code-wise, but takes way more memory and time)
@@ -403,7 +403,7 @@ class FDFD(SimGrid):
                 eps = yee_avg_jax(transform_fn(rho))
                 e, _ = bicgstab(op(eps), k0 * src.reshape(field_shape))
                 e = jnp.stack([split_v.reshape(shape3) for split_v in jnp.split(e, 3)])
-                h = curl_e(e) / (1j * k0)
+                h = curl_e(e) / (-1j * k0)
                 return jnp.stack((e, h))
 
         return solve
diff --git a/simphox/mode.py b/simphox/mode.py
index f4cee7c..9a44693 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -129,13 +129,13 @@ class ModeSolver(YeeGrid):
         Mathematically, this represents rearranging the Maxwell equation in the frequency domain:
 
         .. math::
-            i \\omega \\mu \\mathbf{h} &= \\nabla \\times \\mathbf{e}
+            -i \\omega \\mu \\mathbf{h} &= \\nabla \\times \\mathbf{e}
 
         Returns:
             The h-field converted from the e-field.
 
         """
-        return self.curl_fn(beta=beta)(self.reshape(e)) / (1j * self.k0)
+        return self.curl_fn(beta=beta)(self.reshape(e)) / (-1j * self.k0)
 
     def h2e(self, h: np.ndarray, beta: Optional[float] = None) -> np.ndarray:
         """Convert magnetic field :math:`\\mathbf{h}` to electric field :math:`\\mathbf{e}`.
@@ -145,7 +145,7 @@ class ModeSolver(YeeGrid):
         Mathematically, this represents rearranging the Maxwell equation in the frequency domain:
 
         .. math::
-            -i \\omega \\epsilon \\mathbf{e} = \\nabla \\times \\mathbf{h}.
+            i \\omega \\epsilon \\mathbf{e} = \\nabla \\times \\mathbf{h}.
 
         Returns:
             Function to convert h-field to e-field.
@@ -318,7 +318,7 @@ class ModeLibrary:
             if tm_2d:
                 mode = np.hstack((self.o, mode, self.o))
             else:
-                mode = np.hstack((1j * self.betas[mode_idx] * mode, self.o,
+                mode = np.hstack((-1j * self.betas[mode_idx] * mode, self.o,
                                   -(mode - np.roll(mode, 1, axis=0)) / self.solver.cells[0])) / (
                     1j * self.solver.k0)
         return self.solver.reshape(mode)
-- 
2.43.0


From 0fe31c34bf93ea951589a9e29d60e4f9eb9a005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:39 +0000
Subject: [PATCH 80/92] fix: 3D port sources are shifted along the wrong axis

---
 simphox/sim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 059f98f..c85651f 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -185,9 +185,10 @@ class SimGrid(YeeGrid):
             beta = source_library[port].io.betas[mode]
             shift = 2 * (np.mod(self.port[port].a, 360) < 180) - 1
             src = source_library[port].place(mode, self) * weight
-            src = np.roll(src, axis=axis, shift=2 * shift)
+            array_axis = axis + 1 if self.ndim == 3 else axis  # in 3D, the first axis is the field component
+            src = np.roll(src, axis=array_axis, shift=2 * shift)
             if unidirectional:
-                src += np.roll(src, axis=axis, shift=shift) * np.exp(-1j * self.spacing[axis] * beta - 1j * np.pi)
+                src += np.roll(src, axis=array_axis, shift=shift) * np.exp(-1j * self.spacing[axis] * beta - 1j * np.pi)
             sources_to_sum.append(src)
 
         return sum(sources_to_sum) if sources_to_sum else np.array([])
-- 
2.43.0


From ea458d55cb889eebf95aa76055a054f628280fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:52 +0000
Subject: [PATCH 81/92] fix: 3D port sources excite the other polarization

---
 simphox/mode.py | 4 ++--
 simphox/sim.py  | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index 9a44693..1309066 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -499,7 +499,7 @@ class ModeLibrary:
 
         Returns:
             Places the mode into the provided grid at the requested center and size, with orientation of the mode
-            automatically determined from the center and size provided.
+            automatically determined from the center and size provided. In 3D, this is the electric field of the mode.
 
         """
         region = grid.slice(center, size, squeezed=self.ndim == 1)
@@ -517,7 +517,7 @@ class ModeLibrary:
                 np.asarray((0, 1, 2), dtype=int)
             ][place_axis]
             x = np.zeros((3, *grid.shape), dtype=np.complex128)
-            x[(slice(None),) + region] = self.h(mode_idx)[axes].transpose((0, *tuple(1 + axes)))
+            x[(slice(None),) + region] = self.e(mode_idx)[axes].transpose((0, *tuple(1 + axes)))
         else:
             x = np.zeros(grid.shape, dtype=np.complex128)
             x[region[:2]] = self.modes[mode_idx]
diff --git a/simphox/sim.py b/simphox/sim.py
index c85651f..ee96d9b 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -185,7 +185,10 @@ class SimGrid(YeeGrid):
             beta = source_library[port].io.betas[mode]
             shift = 2 * (np.mod(self.port[port].a, 360) < 180) - 1
             src = source_library[port].place(mode, self) * weight
-            array_axis = axis + 1 if self.ndim == 3 else axis  # in 3D, the first axis is the field component
+            array_axis = axis
+            if self.ndim == 3:
+                src[axis] = 0  # only the transverse field excites the mode equally in both directions
+                array_axis = axis + 1  # the first axis is the field component
             src = np.roll(src, axis=array_axis, shift=2 * shift)
             if unidirectional:
                 src += np.roll(src, axis=array_axis, shift=shift) * np.exp(-1j * self.spacing[axis] * beta - 1j * np.pi)
-- 
2.43.0


From e8f92dd28388983f7eea6da0a27a1a870255e2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:18 +0000
Subject: [PATCH 82/92] fix: axial fields of modes have the wrong sign

The axial fields of TM and TE modes of 1D cross sections, and of profiles and placed
fields along y (whose axes are exchanged an odd number of times), were opposite to the
fields that FDFD finds in a waveguide.
---
 simphox/mode.py | 6 ++++--
 simphox/sim.py  | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index 1309066..b68ed2d 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -319,7 +319,7 @@ class ModeLibrary:
                 mode = np.hstack((self.o, mode, self.o))
             else:
                 mode = np.hstack((-1j * self.betas[mode_idx] * mode, self.o,
-                                  -(mode - np.roll(mode, 1, axis=0)) / self.solver.cells[0])) / (
+                                  -(np.roll(mode, -1, axis=0) - mode) / self.solver.cells[0])) / (
                     1j * self.solver.k0)
         return self.solver.reshape(mode)
 
@@ -341,7 +341,7 @@ class ModeLibrary:
             mode = self.modes[mode_idx]
             if tm_2d:
                 mode = np.hstack((1j * self.betas[mode_idx] * mode, self.o,
-                                  -(np.roll(mode, -1, axis=0) - mode) / self.solver.cells[0])) / (
+                                  (mode - np.roll(mode, 1, axis=0)) / self.solver.cells[0])) / (
                     1j * self.solver.k0 * self.solver.eps_t.flatten())
             else:
                 mode = np.hstack((self.o, mode, self.o))
@@ -518,6 +518,8 @@ class ModeLibrary:
             ][place_axis]
             x = np.zeros((3, *grid.shape), dtype=np.complex128)
             x[(slice(None),) + region] = self.e(mode_idx)[axes].transpose((0, *tuple(1 + axes)))
+            if place_axis == 1:  # the axes are exchanged an odd number of times: the mode points to -y
+                x[1] *= -1
         else:
             x = np.zeros(grid.shape, dtype=np.complex128)
             x[region[:2]] = self.modes[mode_idx]
diff --git a/simphox/sim.py b/simphox/sim.py
index ee96d9b..6c4e311 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -73,7 +73,10 @@ class SimCrossSection:
         ][self.prop_axis]
 
         mode = self.io.h(mode_idx, tm_2d) if use_h else self.io.e(mode_idx, tm_2d)
-        return mode[axes].transpose((0, *tuple(1 + axes)))
+        profile = mode[axes].transpose((0, *tuple(1 + axes)))
+        if self.prop_axis == 1:  # the axes are exchanged an odd number of times: the mode points to -y
+            profile[1] *= -1
+        return profile
 
 
 class SimGrid(YeeGrid):
-- 
2.43.0


From 759b3d3eec9a88f92d3868aba2876027db3b3140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:53 +0000
Subject: [PATCH 83/92] fix: sampling weights of butterflies count one input
 too many per arm

---
 simphox/circuit/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/vector.py b/simphox/circuit/vector.py
index c5cbf2e..a006ba2 100644
--- a/simphox/circuit/vector.py
+++ b/simphox/circuit/vector.py
@@ -67,7 +67,7 @@ def _butterfly(n: int, n_rails: int, start: int = 0, column: int = 0) -> List[Co
     if n == 1:
         return nodes
     nodes.extend([CouplingNode(top=start + i, bottom=start + m + i, n=n_rails,
-                               alpha=m + 1, beta=m + 1, column=column) for i in reversed(range(m))])
+                               alpha=n - m, beta=m, column=column) for i in reversed(range(m))])
     nodes.extend(_butterfly(m, n_rails, start, column + 1))
     nodes.extend(_butterfly(n - m, n_rails, start + m, column + 1))
     return nodes
-- 
2.43.0


From 2fd849ceec9dd7f8526749509a58665e3cc507aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:46 +0000
Subject: [PATCH 84/92] fix: painting a grid made from an integer array
 truncates the permittivity

---
 simphox/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simphox/grid.py b/simphox/grid.py
index fdee46e..3b37105 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -73,6 +73,8 @@ class Grid:
 
         self.n = np.prod(self.shape)
         self.eps: np.ndarray = np.ones(self.shape) * eps if not isinstance(eps, np.ndarray) else eps
+        if np.issubdtype(self.eps.dtype, np.integer) or self.eps.dtype == bool:
+            self.eps = self.eps.astype(float)  # painting an integer array would truncate the permittivity
         if not tuple(self.shape) == self.eps.shape:
             raise AttributeError(f'Require grid.shape == eps.shape but got '
                                  f'{self.shape} != {self.eps.shape}')
-- 
2.43.0


From e180d4cbb7ec433ccf02ee2072d2cf2f01d1075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:47 +0000
Subject: [PATCH 85/92] fix: Bloch phases given as an integer or an array are
 rejected

---
 simphox/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 3b37105..460ec74 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -354,12 +354,12 @@ class YeeGrid(Grid):
         if pml is not None and not len(self.pml_shape) == len(self.shape):
             raise AttributeError('Need len(pml_shape) == grid.shape,'
                                  f'got ({len(pml)}, {len(self.shape)}).')
-        self.bloch = np.ones_like(self.shape) * np.exp(1j * np.asarray(bloch_phase)) if isinstance(bloch_phase, float) \
+        self.bloch = np.ones_like(self.shape) * np.exp(1j * np.asarray(bloch_phase)) if np.ndim(bloch_phase) == 0 \
             else np.exp(1j * np.asarray(bloch_phase))
         if not len(self.bloch) == len(self.shape):
             raise AttributeError(f'Need bloch_phase.size == grid.shape,'
                                  f'got ({len(self.bloch)}, {len(self.shape)}).')
-        self.dtype = np.float64 if pml is None and bloch_phase == 0 else np.complex128
+        self.dtype = np.float64 if pml is None and np.ndim(bloch_phase) == 0 and bloch_phase == 0 else np.complex128
         self._dxes = np.meshgrid(*self.cells, indexing='ij'), np.meshgrid(*self.cells, indexing='ij')
 
     def deriv(self, back: bool = False) -> List[sp.spmatrix]:
-- 
2.43.0


From a4599081ff2fa6ffead26833bc2d46e6c5a0dafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:02 +0000
Subject: [PATCH 86/92] fix: mirror symmetry without averaging is not available
 for numpy arrays

---
 simphox/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/transform.py b/simphox/transform.py
index 6238b47..99d9445 100644
--- a/simphox/transform.py
+++ b/simphox/transform.py
@@ -54,8 +54,8 @@ def get_symmetry_fn(ortho_x: bool = False, ortho_y: bool = False, diag_p: bool =
         ortho_x_fn = (lambda x: (x + x[::-1]) / 2) if ortho_x else identity
         ortho_y_fn = (lambda x: (x + x[:, ::-1]) / 2) if ortho_y else identity
     else:
-        ortho_x_fn = (lambda x: x.at[x.shape[0] - x.shape[0] // 2:, :].set(x[:x.shape[0] // 2, :][::-1, :])) if ortho_x else identity
-        ortho_y_fn = (lambda x: x.at[:, x.shape[1] - x.shape[1] // 2:].set(x[:, :x.shape[1] // 2][:, ::-1])) if ortho_y else identity
+        ortho_x_fn = (lambda x: jnp.asarray(x).at[x.shape[0] - x.shape[0] // 2:, :].set(x[:x.shape[0] // 2, :][::-1, :])) if ortho_x else identity
+        ortho_y_fn = (lambda x: jnp.asarray(x).at[:, x.shape[1] - x.shape[1] // 2:].set(x[:, :x.shape[1] // 2][:, ::-1])) if ortho_y else identity
     return lambda x: diag_p_fn(diag_n_fn(ortho_x_fn(ortho_y_fn(x))))
 
 
-- 
2.43.0


From e48aea9b139a7303715d391e8fbef1f83d537c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:02 +0000
Subject: [PATCH 87/92] fix: averaging symmetries of boolean designs halve them

---
 simphox/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/transform.py b/simphox/transform.py
index 99d9445..e5e8aba 100644
--- a/simphox/transform.py
+++ b/simphox/transform.py
@@ -56,7 +56,7 @@ def get_symmetry_fn(ortho_x: bool = False, ortho_y: bool = False, diag_p: bool =
     else:
         ortho_x_fn = (lambda x: jnp.asarray(x).at[x.shape[0] - x.shape[0] // 2:, :].set(x[:x.shape[0] // 2, :][::-1, :])) if ortho_x else identity
         ortho_y_fn = (lambda x: jnp.asarray(x).at[:, x.shape[1] - x.shape[1] // 2:].set(x[:, :x.shape[1] // 2][:, ::-1])) if ortho_y else identity
-    return lambda x: diag_p_fn(diag_n_fn(ortho_x_fn(ortho_y_fn(x))))
+    return lambda x: diag_p_fn(diag_n_fn(ortho_x_fn(ortho_y_fn(1.0 * x))))  # booleans cannot be averaged
 
 
 def get_mask_fn(rho_init: jnp.ndarray, box: Union[Box, List[Box]]):
-- 
2.43.0


From c821f51fbbc2c568c9fd13f53e0848ea6505db99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:52 +0000
Subject: [PATCH 88/92] fix: designs that are thinner than the smoothing kernel
 cannot be smoothed

---
 simphox/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/transform.py b/simphox/transform.py
index e5e8aba..ce4e62d 100644
--- a/simphox/transform.py
+++ b/simphox/transform.py
@@ -26,7 +26,7 @@ def get_smooth_fn(beta: float, radius: float, eta: float = 0.5):
     kernel = kernel / kernel.sum()
 
     def smooth(rho: jnp.ndarray):
-        rho = conv(rho, kernel, mode='same')
+        rho = conv(jnp.pad(rho, radius), kernel, mode='valid')  # the design may be thinner than the kernel
         return jnp.divide(jnp.tanh(beta * eta) + jnp.tanh(beta * (rho - eta)),
                           jnp.tanh(beta * eta) + jnp.tanh(beta * (1 - eta)))
 
-- 
2.43.0


From fba60cd02874d1e626c861d2b57a81674f329a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:36 +0000
Subject: [PATCH 89/92] fix: JAX fields reject real sources

---
 simphox/fdfd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 10df972..96ed616 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -335,7 +335,7 @@ class FDFD(SimGrid):
             A solve function (2d or 3d based on defined :code:`ndim` specified for the instance of :code:`FDFD`).
 
         """
-        src = jnp.ravel(jnp.array(src))
+        src = jnp.ravel(jnp.array(src, dtype=jnp.complex128))
         k0 = self.k0
         transform_fn = transform_fn if transform_fn is not None else lambda x: x
         shape3 = self.shape3
-- 
2.43.0


From 02c955c31159a71b4eefb51a9beb1c7be9a4cc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:55 +0000
Subject: [PATCH 90/92] fix: derivatives of TM fields by a complex permittivity
 cannot be computed

---
 simphox/primitives.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/simphox/primitives.py b/simphox/primitives.py
index b648410..fdd5419 100644
--- a/simphox/primitives.py
+++ b/simphox/primitives.py
@@ -94,19 +94,18 @@ class TMOperator:
 
         def _te_backward_hcb(g: jnp.ndarray) -> jnp.ndarray:
             g = sp.coo_matrix((g, (c_indices[1], c_indices[0])), shape=(n, n))
-            complex_res = b.dot(g.dot(a)).diagonal()
-            return complex_res.real
+            return b.dot(g.dot(a)).diagonal()
 
         @jax.custom_vjp
         def te(t: jnp.ndarray):
             return hcb.call(_te_hcb, t, result_shape=jax.ShapeDtypeStruct((size,), np.complex128))
 
         def te_fwd(t: jnp.ndarray):
-            return te(t), None
+            return te(t), t
 
-        def te_bwd(_, g):
-            v = hcb.call(_te_backward_hcb, g, result_shape=jax.ShapeDtypeStruct((n,), float))
-            return v,
+        def te_bwd(t, g):
+            v = hcb.call(_te_backward_hcb, g, result_shape=jax.ShapeDtypeStruct((n,), np.complex128))
+            return (v if jnp.iscomplexobj(t) else v.real),
 
         te.defvjp(te_fwd, te_bwd)
 
-- 
2.43.0


From cd9347bce37e9b9dc331b3bbd16225fc6fafb175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:14 +0000
Subject: [PATCH 91/92] fix: vector units embedded in more rails have too few
 output phases

---
 simphox/circuit/matrix.py | 2 +-
 simphox/circuit/vector.py | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/simphox/circuit/matrix.py b/simphox/circuit/matrix.py
index ccc57c1..9348d38 100644
--- a/simphox/circuit/matrix.py
+++ b/simphox/circuit/matrix.py
@@ -47,7 +47,7 @@ def cascade(u: np.ndarray, balanced: bool = True, phase_style: str = PhaseStyle.
         # Update the phases.
         thetas = np.hstack((thetas, network.thetas))
         phis = np.hstack((phis, network.phis))
-        gammas = np.hstack((network.gammas[-1], gammas))
+        gammas = np.hstack((network.gammas[i], gammas))
 
         # We need to index the thetas and phis correctly based on the number of programmed nodes in previous subunits
         # For unbalanced architectures (linear chains), we can actually pack them more efficiently into a triangular
diff --git a/simphox/circuit/vector.py b/simphox/circuit/vector.py
index a006ba2..b15eb93 100644
--- a/simphox/circuit/vector.py
+++ b/simphox/circuit/vector.py
@@ -152,9 +152,8 @@ def _program_vector_unit(v: np.ndarray, network: ForwardMesh):
         thetas[nc.node_idxs] = theta
         phis[nc.node_idxs] = phi
 
-    final_basis_vec = np.zeros(v.shape[0])
-    final_basis_vec[-1] = 1
-    gammas = -np.angle(final_basis_vec * w[-1, -1])
+    gammas = np.zeros(network.n)  # the unit may be embedded in more rails
+    gammas[v.shape[0] - 1] = -np.angle(w[-1, -1])
 
     network.params = thetas, phis, gammas
     # print(network.params)
-- 
2.43.0


From 6b87fbfb4536d55259f2467d49346cc50208e254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:24 +0000
Subject: [PATCH 92/92] fix: power fractions at the phase shifters of odd and
 two-port rectangular meshes are wrong

---
 simphox/circuit/rectangular.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/simphox/circuit/rectangular.py b/simphox/circuit/rectangular.py
index 1a1b0e5..8a56f00 100644
--- a/simphox/circuit/rectangular.py
+++ b/simphox/circuit/rectangular.py
@@ -181,12 +181,10 @@ def rectangular_phase_shift_powers(prop: np.ndarray, use_jax: bool = False):
     n = prop.shape[1]
     y = xp.abs(prop) ** 2
     y = y / xp.sum(y, axis=1)[:, xp.newaxis]
-    phi_even = y[::8, ::2]
-    phi_odd = y[4::8, 1::2]
-    theta_even = y[2::8, ::2]
-    theta_odd = y[6::8, 1::2]
-    theta_p = xp.hstack([xp.hstack((theta_even[i], theta_odd[i]))[:-1] for i in range(n // 2)])
-    phi_p = xp.hstack([xp.hstack((phi_even[i], phi_odd[i]))[:-1] for i in range(n // 2)])
+    # the phase shifts are in the top arms, in every other row starting from the parity of the column
+    tops = [xp.arange(i % 2, n - 1, 2) for i in range((y.shape[0] - 2) // 4)]
+    theta_p = xp.hstack([y[4 * i + 2, top] for i, top in enumerate(tops)])
+    phi_p = xp.hstack([y[4 * i, top] for i, top in enumerate(tops)])
     gamma_p = y[-1]
     return theta_p, phi_p, gamma_p
 
-- 
2.43.0

