From ae17a1f66d9ba54b97c4fbffb4c30b1741b6330c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 01/58] fix: pretty_print_cgg failed for generators without a
 unitary part

---
 qsymm/groups.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 34eafd1..3d5cb58 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1053,6 +1053,8 @@ def pretty_print_cgg(g, latex=False):
             L_name = r'L = {} \\'.format(_array_to_latex(np.round(L, 3)))
         else:
             L_name = '\nL = {}'.format(str(np.round(L, 3)).replace('\n', '\n    '))
+    else:
+        L_name = ''
 
     if latex:
         if R is not None:
-- 
2.43.0


From 01795f243bdf8927a240dbff215da0d0d4b9a88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 02/58] fix: ContinuousGroupGenerator accepted R that is only
 Hermitian or only antisymmetric

---
 qsymm/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 3d5cb58..fbfe19d 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -533,7 +533,7 @@ class ContinuousGroupGenerator:
 
     def __init__(self, R=None, U=None):
         # Make sure that R and U have correct properties
-        if R is not None and not _is_hermitian(R) and not _is_antisymmetric(R):
+        if R is not None and not (_is_hermitian(R) and _is_antisymmetric(R)):
             raise ValueError('R must be Hermitian antisymmetric')
         if U is not None and not _is_hermitian(U):
             raise ValueError('U must be Hermitian')
-- 
2.43.0


From ae5e286f4fc4fb7816c9bb0a7b1460e9be5ed7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 03/58] fix: wrong angle for 3D rotations whose axis components
 sum to zero

---
 qsymm/groups.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index fbfe19d..a4d71bb 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1080,20 +1080,29 @@ def rotation_to_angle(R):
     assert allclose(R, R.real)
     n = np.array([1j * np.trace(L @ R) for L in L_matrices()]).real
     # Choose direction to minimize number of minus signs
-    absn = la.norm(n) * np.sign(np.sum(n))
+    absn = la.norm(n) * _axis_sign(n)
     if np.isclose(absn, 0):
         # n is zero for 2-fold rotation, find eigenvector with +1
         val, vec = la.eigh(R)
         assert np.isclose(val[-1], 1), R
         n = vec[:, -1]
         # Choose direction to minimize number of minus signs
-        n /= np.sign(np.sum(n))
+        n /= _axis_sign(n)
     else:
         n /= absn
     theta = np.arctan2(absn, np.trace(R).real - 1)
     return n, theta
 
 
+def _axis_sign(n):
+    # Sign that minimizes the number of minus signs in the axis. If the
+    # components cancel, make the first nonzero component positive.
+    total = np.sum(n)
+    if np.isclose(total, 0):
+        total = next((x for x in n if not np.isclose(x, 0)), 1)
+    return np.sign(total)
+
+
 def _round_axis(n):
     # Try to find integer axis
     for vec in product([-1, 0, 1], repeat=len(n)):
-- 
2.43.0


From 3ef58d417170c6eee989ff904aab5ed5e6c4f53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 04/58] fix: Model.toarray and Model.tocsr failed or lost terms
 for sparse and LinearOperator values

---
 qsymm/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index fdb6b1d..82abd44 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -620,7 +620,7 @@ class Model(UserDict):
                 result[key] = scipy.sparse.csr_matrix(val, dtype=complex)
             else:
                 # LinearOperator doesn't support multiplication with sparse matrix
-                val = scipy.sparse.csr_matrix(val @ np.eye(val.shape[-1], dtype=complex), dtype=complex)
+                result[key] = scipy.sparse.csr_matrix(val @ np.eye(val.shape[-1], dtype=complex), dtype=complex)
         return result
 
     def toarray(self):
@@ -632,10 +632,10 @@ class Model(UserDict):
                 result[key] = val
             elif isinstance(val, Number):
                 result[key] = np.asarray(val)
-            elif scipy.sparse.spmatrix:
-                result[key] = val.A
+            elif isinstance(val, scipy.sparse.spmatrix):
+                result[key] = val.toarray()
             else:
-                 val = val @ np.eye(val.shape[-1], dtype=complex)
+                result[key] = val @ np.eye(val.shape[-1], dtype=complex)
         return result
 
     def copy(self):
-- 
2.43.0


From 2a7b951ce3bd8ee4e3ae21e5f88ff0f194494efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 05/58] fix: nullspace failed for sparse input with
 sparse=False

---
 qsymm/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index f4a125e..6908506 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -259,7 +259,7 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
         return ns.T
     else:
         if isinstance(A, scipy.sparse.spmatrix):
-            A = A.A
+            A = A.toarray()
         # Do dense SVD
         _, s, vh = la.svd(A, full_matrices = True)
         nnz = np.isclose(s, 0, atol=atol)
-- 
2.43.0


From d42ff28c16a86a2665de665e5fc84029083d8992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 06/58] fix: rref with return_S=True returned a single array
 for a zero matrix

---
 qsymm/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 6908506..9257cdc 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -533,11 +533,11 @@ def rref(m, rtol = 1e-3, return_S=False):
         P[i, i] = coeff
         return P
 
+    S = np.eye(rows, dtype=complex)
     # Stop if m is identically zero
     if np.allclose(red, 0):
-        return red
+        return (red, S) if return_S else red
 
-    S = np.eye(rows, dtype=complex)
     tol = np.max(np.abs(m)) * rtol
 
     lead = 0
-- 
2.43.0


From 9d5bf6676fbca739147407c0387016d0b4f690b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 07/58] fix: constrain_family failed if the symmetries map
 terms outside of the family

---
 qsymm/hamiltonian_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 5e01e13..988bf3b 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -419,7 +419,7 @@ def constrain_family(symmetries, family, sparse_linalg=False):
 
     # Get all variables and fix ordering
     all_variables = set()
-    for member in it.chain(*rotated_families):
+    for member in it.chain(family, *rotated_families):
         all_variables |= member.keys()
     all_variables = list(all_variables)
 
-- 
2.43.0


From bb9e0b24dec6ee57fbf5b89192944cc589dcf989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 08/58] fix: symmetry_from_permutation built the inverse of the
 specified permutation

---
 qsymm/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index a4d71bb..ec831d1 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1295,7 +1295,7 @@ def symmetry_from_permutation(R, perm, norbs, onsite_action=None,
     for a in norbs.keys():
         if not norbs[a] == norbs[perm[a]]:
             raise ValueError('Symmetry related sites must have the same number or orbitals')
-        U[ranges[a], ranges[perm[a]]] = onsite_action[a]
+        U[ranges[perm[a]], ranges[a]] = onsite_action[a]
     g = PointGroupElement(R, antiunitary, antisymmetry, U)
     return g
 
-- 
2.43.0


From 3bc48ed167a5e16e69b3bfc37adcddae9a16fbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 09/58] fix: hexagonal with sympy_R combined real space and
 spin rotations of opposite sense

---
 qsymm/groups.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index ec831d1..2b560de 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -820,8 +820,8 @@ def hexagonal(dim=2, tr=True, ph=True, generators=False, sympy_R=True, spin=None
         if sympy_R:
 
             C6 = PointGroupElement(sympy.ImmutableMatrix(
-                                        [[sympy.Rational(1, 2), sympy.sqrt(3)/2],
-                                         [-sympy.sqrt(3)/2,       sympy.Rational(1, 2)]]
+                                        [[sympy.Rational(1, 2), -sympy.sqrt(3)/2],
+                                         [sympy.sqrt(3)/2,       sympy.Rational(1, 2)]]
                                                          ),
                                          False, False, U6)
         else:
@@ -832,8 +832,8 @@ def hexagonal(dim=2, tr=True, ph=True, generators=False, sympy_R=True, spin=None
         C2x = rotation(1/2, [1, 0, 0], spin=spin)
         if sympy_R:
             C6 = PointGroupElement(sympy.ImmutableMatrix(
-                                        [[sympy.Rational(1, 2), sympy.sqrt(3)/2, 0],
-                                         [-sympy.sqrt(3)/2, sympy.Rational(1, 2), 0],
+                                        [[sympy.Rational(1, 2), -sympy.sqrt(3)/2, 0],
+                                         [sympy.sqrt(3)/2, sympy.Rational(1, 2), 0],
                                          [0, 0, 1]]
                                                          ),
                                          False, False, U6)
-- 
2.43.0


From 2ea87179c66d93a331e1797d0c97791fc9a855a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 10/58] fix: integer rotations were rejected if rounding errors
 appear in the determinant

---
 qsymm/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 9257cdc..649c8e0 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -617,6 +617,6 @@ def _inv_int(A):
     _A = ta.array(A, int)
     if A == np.empty((0, 0)):
         return A
-    if _A != A or abs(la.det(A)) != 1:
+    if _A != A or not np.isclose(abs(la.det(A)), 1):
         raise ValueError('Input needs to be an invertible integer matrix')
     return ta.array(np.round(la.inv(_A)), int)
-- 
2.43.0


From 6ce2dc3ff6feb302a10558c1557f65769cfff444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 11/58] fix: bloch_family changed the equality rule of the
 symmetries passed to it

---
 qsymm/hamiltonian_generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 988bf3b..28b2487 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -708,9 +708,9 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         family.extend(hopfamily)
     if symmetrize:
         # Make sure that group is generated while keeping track of unitary part.
-        for g in pg:
-            g._strict_eq = True
-        pg = generate_group(set(pg))
+        # Do not change the symmetries passed in by the caller.
+        pg = generate_group({PointGroupElement(g.R, g.conjugate, g.antisymmetry, g.U,
+                                               _strict_eq=True) for g in pg})
         # Symmetrize every term and remove linearly dependent or zero ones
         family2 = []
         for term in family:
-- 
2.43.0


From 296670039f2829407bedde0347547755dcd50434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 12/58] fix: bloch_family failed without point group symmetries

---
 qsymm/hamiltonian_generator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 28b2487..8c7955a 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -8,7 +8,7 @@ import tinyarray as ta
 
 from .linalg import matrix_basis, nullspace, family_to_vectors, rref, allclose
 from .model import Model, BlochModel, BlochCoeff, _commutative_momenta, e, I
-from .groups import PointGroupElement, ContinuousGroupGenerator, generate_group
+from .groups import PointGroupElement, ContinuousGroupGenerator, generate_group, identity
 from . import kwant_continuum
 
 
@@ -401,6 +401,9 @@ def constrain_family(symmetries, family, sparse_linalg=False):
     # Fix ordering
     family = list(family)
     symmetries = list(symmetries)
+    # Without symmetries there are no constraints
+    if not symmetries:
+        return family
     # Check compatibility of family members and symmetries
     shape = family[0].shape
     momenta = family[0].momenta
@@ -711,6 +714,8 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         # Do not change the symmetries passed in by the caller.
         pg = generate_group({PointGroupElement(g.R, g.conjugate, g.antisymmetry, g.U,
                                                _strict_eq=True) for g in pg})
+        # Without point group symmetries only average over the identity
+        pg = pg or {identity(dim, N)}
         # Symmetrize every term and remove linearly dependent or zero ones
         family2 = []
         for term in family:
-- 
2.43.0


From 16aaa0063b0a3c549128f202df9954e6df196426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:51 +0000
Subject: [PATCH 13/58] fix: Models had keys of the wrong type after adding a
 constant or setting an item

---
 qsymm/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 82abd44..0ce32d7 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -263,8 +263,10 @@ class Model(UserDict):
             # remove zero entries, apply symbol_normalizer
             self.data = {symbol_normalizer(k): v for k, v in self.items() if not allclose(v, 0)}
 
-    # Make sure values have the correct format
+    # Make sure keys and values have the correct format
     def __setitem__(self, key, item):
+        if not isinstance(key, (Basic, BlochCoeff)):
+            key = _symbol_normalizer(key)
         if (isinstance(item, self.format) and self.shape == item.shape):
             self.data[key] = item
         elif (isinstance(item, Number) and self.shape == ()):
@@ -835,6 +837,9 @@ class BlochModel(Model):
         else:
             return self.__missing__(key)
 
+    def __setitem__(self, key, item):
+        super().__setitem__(_bloch_normalizer(key, self.momenta), item)
+
     def transform_symbolic(self, func):
         raise NotImplementedError('`transform_symbolic` is not implemented for `BlochModel`')
 
-- 
2.43.0


From 5be1154055bd21bb03aef2dbe638fd173fec3541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:51 +0000
Subject: [PATCH 14/58] fix: comparing BlochCoeffs with != failed

---
 qsymm/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 0ce32d7..f73636c 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -77,6 +77,10 @@ class BlochCoeff(tuple):
         # test equality of hop with allclose
         return allclose(hop1, hop2) and coeff1 == coeff2
 
+    def __ne__(self, other):
+        # Do not inherit the elementwise comparison of tuple
+        return not self == other
+
     def __mul__(self, other):
         hop1, coeff1 = self
         if isinstance(other, sympy.Expr):
-- 
2.43.0


From bf9dfc21b2c3a713788d789b7f72834dacb383df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:20 +0000
Subject: [PATCH 15/58] fix: L_matrices for d orbitals had the wrong sign of
 d_yz and d_zx

---
 qsymm/groups.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 2b560de..2c4cb22 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1229,16 +1229,16 @@ def L_matrices(d=3, l=1):  # Noqa: E741
                                [0, 0, 0]]])
     elif d == 3 and l==2:
         s3 = np.sqrt(3)
-        return 1j * np.array([[[0, 0, 0, -1, 0],
-                              [0, 0, 0, -s3, 0],
-                              [0, 0, 0, 0, 1],
-                              [1, s3, 0, 0, 0],
-                              [0, 0, -1, 0, 0]],
-                             [[0, 0, 0, 0, -1],
-                              [0, 0, 0, 0, s3],
-                              [0, 0, 0, -1, 0],
-                              [0, 0, 1, 0, 0],
-                              [1, -s3, 0, 0, 0]],
+        return 1j * np.array([[[0, 0, 0, 1, 0],
+                              [0, 0, 0, s3, 0],
+                              [0, 0, 0, 0, -1],
+                              [-1, -s3, 0, 0, 0],
+                              [0, 0, 1, 0, 0]],
+                             [[0, 0, 0, 0, 1],
+                              [0, 0, 0, 0, -s3],
+                              [0, 0, 0, 1, 0],
+                              [0, 0, -1, 0, 0],
+                              [-1, s3, 0, 0, 0]],
                              [[0, 0, -2, 0, 0],
                               [0, 0, 0, 0, 0],
                               [2, 0, 0, 0, 0],
-- 
2.43.0


From 021c6d386eb0b53268a0cacb8ab36785835d03f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 16/58] fix: spin_matrices accepted spins that are not
 half-integer

---
 qsymm/groups.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 2c4cb22..1f275b3 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1151,9 +1151,8 @@ def spin_matrices(s, include_0=False):
         Array of shape `(3, 2*s + 1, 2*s + 1)`, or if `include_0` is True
         `(4, 2*s + 1, 2*s + 1)`.
     """
-    d = np.round(2*s + 1)
-    assert np.isclose(d, int(d))
-    d = int(d)
+    d = int(np.round(2*s + 1))
+    assert np.isclose(d, 2*s + 1)
     Sz = 1/2 * np.diag(np.arange(d - 1, -d, -2))
     # first diagonal for general s from en.wikipedia.org/wiki/Spin_(physics)
     diag = [1/2*np.sqrt((s + 1) * 2*i - i * (i + 1)) for i in np.arange(1, d)]
-- 
2.43.0


From d24c9c61250cc3c95e439586c63cb2f29cf92169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 17/58] fix: hexagonal accepted spin together with
 particle-hole symmetry

---
 qsymm/groups.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 1f275b3..a6a0249 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -811,6 +811,10 @@ def hexagonal(dim=2, tr=True, ph=True, generators=False, sympy_R=True, spin=None
         is different. Here we consider the action of the mirror, which is the same as the
         action of a 2-fold rotation around the mirror axis, assuming inversion acts trivially.
     """
+    if ph and spin is not None:
+        raise ValueError('If `ph` is True, `spin` may not be provided, as it is not '
+                         'possible to deduce the unitary representation of particle-hole symmetry '
+                         'from spin alone. In this case construct the particle-hole operator manually.')
     if spin is not None and sympy_R:
         U6 = spin_rotation(np.pi / 3 * np.array([0, 0, 1]), spin)
     else:
-- 
2.43.0


From 444fac3904c81bf9ad4b00fbd46818800e808605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:05 +0000
Subject: [PATCH 18/58] fix: name of continuous rotations displayed the wrong
 axis

---
 qsymm/groups.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index a6a0249..e0b2b0e 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1042,7 +1042,6 @@ def pretty_print_cgg(g, latex=False):
     if R is not None and R.shape[0] == 3:
         n = np.array([np.trace(l @ R) for l in L_matrices()]).real  # Noqa: E741
         n /= la.norm(n)
-        n = _round_axis(n)
         if latex:
             rot_name = r'R_{{\phi}} = R\left(\phi, {}\right)\\'.format(_round_axis(n))
         else:
-- 
2.43.0


From cb663e7fa9e9225e84f7c52697c040fe241558d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:32 +0000
Subject: [PATCH 19/58] fix: transpose of a sparse Model could not be used in
 sums

---
 qsymm/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index f73636c..afb1284 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -574,6 +574,9 @@ class Model(UserDict):
         """Transpose"""
         result = self.zeros_like()
         result.data = {key: val.T for key, val in self.items()}
+        if issubclass(self.format, scipy.sparse.spmatrix):
+            # The type of some sparse matrices changes on transposition
+            result.data = {key: self.format(val) for key, val in result.items()}
         result.shape = self.shape[::-1]
         return result
 
-- 
2.43.0


From 65730c889eb995d2b6b58c36c6844c35054418c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:32 +0000
Subject: [PATCH 20/58] fix: Model.around failed for sparse values

---
 qsymm/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index afb1284..b4f8ad2 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -596,7 +596,7 @@ class Model(UserDict):
         result = self.zeros_like()
         for key, val in self.items():
             val = np.around(val, decimals)
-            if not np.allclose(val, 0):
+            if not allclose(val, 0):
                 result[key] = val
         return result
 
-- 
2.43.0


From fa264ccd429ab04d5e9c7cd7e11949cadc4f10c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:32 +0000
Subject: [PATCH 21/58] fix: sums of sparse Models failed for formats that
 arithmetic changes

---
 qsymm/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index b4f8ad2..00c676a 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -273,6 +273,10 @@ class Model(UserDict):
             key = _symbol_normalizer(key)
         if (isinstance(item, self.format) and self.shape == item.shape):
             self.data[key] = item
+        elif (isinstance(item, scipy.sparse.spmatrix) and self.shape == item.shape
+              and issubclass(self.format, scipy.sparse.spmatrix)):
+            # The type of some sparse matrices changes in arithmetic operations
+            self.data[key] = self.format(item)
         elif (isinstance(item, Number) and self.shape == ()):
             self.data[key] = np.complex128(item)
         else:
-- 
2.43.0


From d5b4c4f0ce63d043aa2c149f40f2c16e9fbb06a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:32 +0000
Subject: [PATCH 22/58] fix: Model.reshape changed the format of sparse values

---
 qsymm/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 00c676a..47a4610 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -705,6 +705,10 @@ class Model(UserDict):
         result = self.zeros_like()
         result.data = {key: val.reshape(*args, **kwargs) for key, val in self.items()}
         result.shape, result.format = _shape_and_format(self[1].reshape(*args, **kwargs))
+        if issubclass(self.format, scipy.sparse.spmatrix):
+            # The type of some sparse matrices changes on reshaping
+            result.data = {key: self.format(val) for key, val in result.items()}
+            result.format = self.format
         return result
 
     def allclose(self, other, rtol=1e-05, atol=1e-08, equal_nan=False):
-- 
2.43.0


From 3c38c5fc7ad1304f43da0745e2eceb87a3cce54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:37 +0000
Subject: [PATCH 23/58] fix: allclose ignored the second array if the first is
 sparse without stored entries

---
 qsymm/linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 649c8e0..50e2f82 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -48,7 +48,8 @@ def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
         b = b @ np.eye(a.shape[-1], dtype=complex)
 
     # Check if empty arrays, only compare shape
-    if a.size == 0:
+    # `size` of sparse matrices only counts the stored entries
+    if 0 in a.shape:
         return a.shape == b.shape
     atol = atol + rtol * max(np.max(np.abs(a)), np.max(np.abs(b)))
     diff = a - b
-- 
2.43.0


From e030362b88dbbc14620662fe7e5cc6082ecdda27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:51 +0000
Subject: [PATCH 24/58] fix: Model failed for strings with trigonometric
 functions of some sums

---
 qsymm/model.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 47a4610..de4fdba 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -18,6 +18,9 @@ from . import kwant_continuum
 
 _commutative_momenta = [kwant_continuum.make_commutative(k, k)
            for k in kwant_continuum.momentum_operators]
+_commutative_ns = {s.name: sympy.Symbol(s.name)
+                   for s in (*kwant_continuum.momentum_operators,
+                             *kwant_continuum.position_operators)}
 
 e = kwant_continuum.e
 I = sympy.I  # noqa: E741
@@ -206,6 +209,13 @@ class Model(UserDict):
 
         else:
             # Try to parse the input with kwant_continuum.sympify
+            if not isinstance(hamiltonian, Basic):
+                # All symbols in a Model commute. Make them commute from the start,
+                # sympy does not support some functions of noncommuting symbols.
+                locals = {k: (kwant_continuum.sympify(v, locals=_commutative_ns)
+                              if isinstance(v, str) else v)
+                          for k, v in (locals or {}).items()}
+                locals = {**_commutative_ns, **locals}
             hamiltonian = kwant_continuum.sympify(hamiltonian, locals=locals)
             if not isinstance(hamiltonian, MatrixBase):
                 hamiltonian = sympy.Matrix([[hamiltonian]])
-- 
2.43.0


From e17d46851679b96f776ab73de37f1bf1b9848e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:33 +0000
Subject: [PATCH 25/58] fix: Model of a vanishing expression had no shape and
 format

---
 qsymm/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index de4fdba..a0f0fa6 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -231,6 +231,10 @@ class Model(UserDict):
                          if not np.allclose(v, 0)}
             self.data = monomials
             normalize = True
+            if not monomials:
+                # The input vanishes, nothing to find these from
+                shape = hamiltonian.shape if shape is None else shape
+                format = np.ndarray
 
         # Find shape and format
         self.shape = shape
-- 
2.43.0


From 898c84b2b558a16c06d9bb579e04f373f0f9e198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:28 +0000
Subject: [PATCH 26/58] fix: Model.subs did not evaluate an exponential that is
 the only factor of a key

---
 qsymm/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index a0f0fa6..1671922 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -568,7 +568,7 @@ class Model(UserDict):
             # find all exponentials.
             key = sympy.expand(key, power_base=True, power_exp=True,
                                mul=True, log=False, multinomial=False)
-            find_expos = [ele for ele in key.args if ele.is_Pow]
+            find_expos = [ele for ele in sympy.Mul.make_args(key) if ele.is_Pow]
             if len(find_expos):
                 rest = key / np.prod(find_expos)
                 # If an exponential evaluates to a number, replace it with that number.
-- 
2.43.0


From 095b7591191eb1c26780f86f274cbeed252baae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:34 +0000
Subject: [PATCH 27/58] fix: Model.tosympy and lambdify with nsimplify=True
 failed for scalar values

---
 qsymm/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 1671922..ac52895 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -623,6 +623,9 @@ class Model(UserDict):
         If nsimplify=True, attempt to rewrite numerical coefficients as exact formulas."""
         if not nsimplify:
             result = sympy.sympify(sum(key * val for key, val in self.toarray().items()))
+        elif self.shape == ():
+            result = sympy.Add(*[key * sympy.nsimplify(val.item())
+                                 for key, val in self.toarray().items()])
         else:
             # Vectorize nsimplify
             vnsimplify = np.vectorize(sympy.nsimplify, otypes=[object])
-- 
2.43.0


From dcf1be5d4db06a63b1cbeb677ba93811a73c4a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 28/58] fix: looking up sympy expressions in BlochModels failed

---
 qsymm/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index ac52895..983d423 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -76,6 +76,9 @@ class BlochCoeff(tuple):
         hop1, coeff1 = self
         if other == 1:
             return allclose(hop1, 0) and coeff1 == 1
+        if not isinstance(other, tuple):
+            # `coeff1` has the same hash, so it can appear here in dict lookups
+            return False
         hop2, coeff2 = other
         # test equality of hop with allclose
         return allclose(hop1, hop2) and coeff1 == coeff2
-- 
2.43.0


From 239c93efbb40f4a38ba1452156ef4ec6c7b79a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:19 +0000
Subject: [PATCH 29/58] fix: terms of a dict whose keys have the same
 normalized form were lost

---
 qsymm/model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 983d423..7523b2e 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -206,9 +206,12 @@ class Model(UserDict):
 
         if isinstance(hamiltonian, abc.Mapping):
             # Initialize as dict sympifying the keys
-            self.data = {symbol_normalizer(k): v for k, v in hamiltonian.items()
-                              if symbol_normalizer(k) in self.keep
-                                 or not self.keep}
+            self.data = {}
+            for k, v in hamiltonian.items():
+                k = symbol_normalizer(k)
+                if k in self.keep or not self.keep:
+                    # Different keys may have the same normalized form
+                    self.data[k] = self.data[k] + v if k in self.data else v
 
         else:
             # Try to parse the input with kwant_continuum.sympify
-- 
2.43.0


From 2db2844dc06cc27a514f0e23dc09e45bbc62afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:55 +0000
Subject: [PATCH 30/58] fix: conversion to and from BlochModel lost terms
 because of keep

---
 qsymm/model.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 7523b2e..82d04af 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -824,13 +824,14 @@ class BlochModel(Model):
             super().__init__(hamiltonian=hamiltonian.data,
                              locals=locals,
                              momenta=hamiltonian.momenta,
-                             keep=hamiltonian.keep,
                              symbol_normalizer=lambda key: _bloch_normalizer(key, hamiltonian.momenta),
                              shape=hamiltonian.shape,
                              format=hamiltonian.format)
             # set these in case it was and empty Model
             self.format = hamiltonian.format
             self.shape = hamiltonian.shape
+            # do not discard terms, only later multiplications do
+            self.keep = {_bloch_normalizer(key, hamiltonian.momenta) for key in hamiltonian.keep}
         elif isinstance(hamiltonian, abc.Mapping):
             keys = hamiltonian.keys()
             symbolic = all(not isinstance(k, BlochCoeff) for k in keys)
@@ -911,13 +912,15 @@ class BlochModel(Model):
 
     def tomodel(self, nsimplify=False):
         """Convert to Model."""
-        return Model({key.tosympy(self.momenta, nsimplify=nsimplify): copy(val)
-                      for key, val in self.items()},
-                     momenta=self.momenta,
-                     keep={key.tosympy(self.momenta, nsimplify=nsimplify)
-                                       for key in self.keep},
-                     shape=self.shape,
-                     format=self.format)
+        result = Model({key.tosympy(self.momenta, nsimplify=nsimplify): copy(val)
+                        for key, val in self.items()},
+                       momenta=self.momenta,
+                       shape=self.shape,
+                       format=self.format)
+        # do not discard terms, only later multiplications do
+        result.keep = {_symbol_normalizer(key.tosympy(self.momenta, nsimplify=nsimplify))
+                       for key in self.keep}
+        return result
 
 
 def _to_bloch_coeff(key, momenta):
-- 
2.43.0


From ce0452d02b06d2d70260d5141de3b0881141fb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 31/58] fix: equal coefficients of BlochModels were distinct
 depending on how they were obtained

---
 qsymm/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 82d04af..c7f2999 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -1020,6 +1020,9 @@ def _to_bloch_coeff(key, momenta):
         raise ValueError(
             "All momentum dependence should be confined to hopping exponentials."
         )
+    # Split exponentials of sums like products of coefficients do, so that
+    # equal coefficients compare equal.
+    coeff = sympy.expand(coeff, power_base=False, log=False, multinomial=False)
     return BlochCoeff(hop, coeff)
 
 
-- 
2.43.0


From 8c241e998c97c792de2c37aa417cc05362af233f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 32/58] fix: continuous generators with R and U could not be
 applied to sparse models

---
 qsymm/groups.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index e0b2b0e..b438078 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -571,7 +571,11 @@ class ContinuousGroupGenerator:
                           for i, j in product(range(dim), repeat=2)])
             result += 1j * model.transform_symbolic(trf)
         if U_nonzero:
-            result += model @ (1j*U) + (-1j*U) @ model
+            commutator = model @ (1j*U) + (-1j*U) @ model
+            if len(result.data) > 0 and result.format is not commutator.format:
+                # The products of sparse models and dense arrays are dense
+                result = result.toarray()
+            result += commutator
         return result
 
 
-- 
2.43.0


From 0ab8096045537dab57ee04a6d8344016923aaa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:43 +0000
Subject: [PATCH 33/58] fix: continuous generators left log(e) in the terms of
 exponential models

---
 qsymm/groups.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index b438078..733c386 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -566,8 +566,11 @@ class ContinuousGroupGenerator:
             assert len(momenta) == dim
         result = model.zeros_like()
         if R_nonzero:
+            # `e` is a symbol in models, see `qsymm.model`
+            log_e = sympy.log(sympy.Symbol('e', positive=True))
+
             def trf(key):
-                return sum([sympy.diff(key, momenta[i]) * R[i, j] * momenta[j]
+                return sum([sympy.diff(key, momenta[i]).subs(log_e, 1) * R[i, j] * momenta[j]
                           for i, j in product(range(dim), repeat=2)])
             result += 1j * model.transform_symbolic(trf)
         if U_nonzero:
-- 
2.43.0


From b8b30c4ecafc3504224cb48b255e315a8c5167ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:47 +0000
Subject: [PATCH 34/58] fix: continuous_symmetries failed for models with
 one-dimensional blocks

---
 qsymm/symmetry_finder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index 3dfc11e..75721df 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -721,7 +721,11 @@ def continuous_symmetries(model, Ps=None, prettify=True, num_digits=8, sparse_li
         R = None
         Ls = matrix_basis(blockdim, traceless=True)
         trf_hams = [ContinuousGroupGenerator(R, L).apply(rham) for L in Ls]
-        Lblock = family_to_vectors(trf_hams, all_keys=keys).T
+        if trf_hams:
+            Lblock = family_to_vectors(trf_hams, all_keys=keys).T
+        else:
+            # There is no action in a 1D block
+            Lblock = np.zeros((Rblock.shape[0], 0))
         Lblocks.append(Lblock)
 
     # Build constraint matrix: first the spatial blocks in a column, then the
-- 
2.43.0


From f5bf86aa2826bafafc1d005d64653b24aff9a5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 35/58] fix: continuum families failed for momenta given as
 strings

---
 qsymm/hamiltonian_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 8c7955a..7a0275b 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -228,7 +228,7 @@ def continuum_variables(dim, total_power, all_powers=None, momenta=_commutative_
         momenta = [_commutative_momenta[i] for i in momenta]
     else:
         momenta = [kwant_continuum.make_commutative(k, k)
-                        for k in momenta]
+                        for k in map(kwant_continuum.sympify, momenta)]
 
     # Generate powers for all terms
     powers = [p for p in it.product(*all_powers) if sum(p) == total_power]
-- 
2.43.0


From c99d8f2caa42e5b60b970eec469595ebd42f54fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 36/58] fix: copies and sums of sparse Models shared memory
 with the original

---
 qsymm/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index c7f2999..d2d7952 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -1,5 +1,5 @@
 from itertools import product
-from copy import copy
+from copy import copy as _copy
 from numbers import Number
 from warnings import warn
 from functools import lru_cache
@@ -26,6 +26,11 @@ e = kwant_continuum.e
 I = sympy.I  # noqa: E741
 
 
+def copy(val):
+    # `copy.copy` of a sparse matrix shares its data with the original
+    return val.copy() if scipy.sparse.issparse(val) else _copy(val)
+
+
 def substitute_exponents(expr):
     """Substitute trignometric functions with exp.
 
-- 
2.43.0


From 1efdf3242504164a95512d372caa807d2e67458d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:32 +0000
Subject: [PATCH 37/58] fix: sparse null space solver failed for small or large
 null spaces relative to the matrix

---
 qsymm/linalg.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 50e2f82..174ff37 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -229,13 +229,17 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
 
         if k_max > 0:
             # If k_max is specified, find k_max smallest eigenvalues
-            evals, evecs = sla.eigsh(A, sigma=sigma, which='LM',
-                                     k=k_max, return_eigenvectors=True)
+            if k_max < A.shape[0] - 1:
+                evals, evecs = sla.eigsh(A, sigma=sigma, which='LM',
+                                         k=k_max, return_eigenvectors=True)
+            else:
+                # The sparse solver cannot find this many eigenvectors
+                evals, evecs = la.eigh(A.toarray())
         elif k_max < 0:
             # Successively find more eigenvalues until some not close to zero
             # Number of new null space vectors to find in each step
             k_step = abs(k_max)
-            k_max = min(A.shape[0] - 2, k_step)
+            k_max = k_step
             while k_max < A.shape[0] - 1:
                 evals, evecs = sla.eigsh(A, sigma=sigma, which='LM',
                                          k=k_max, return_eigenvectors=True)
@@ -246,8 +250,8 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
                     # All small, need to increase k_max
                     k_max += k_step
             else:
-                raise ValueError('A should have at most A.shape[0]-2 dimensional null space.'
-                                 'Try using sparse=False.')
+                # The sparse solver cannot find this many eigenvectors
+                evals, evecs = la.eigh(A.toarray())
         else:
             raise ValueError('k_max must be nonzero.')
 
-- 
2.43.0


From 9e59eef0503f00ddc8ac16f4b6d73d0c9ed541dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:52 +0000
Subject: [PATCH 38/58] fix: sparse null space solver missed vectors of
 degenerate null spaces or did not converge

---
 qsymm/linalg.py | 72 +++++++++++++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 32 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 174ff37..42b254d 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -227,40 +227,48 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
         # Make Hermitian positive definite matrix
         A = A.T.conj().dot(A)
 
-        if k_max > 0:
-            # If k_max is specified, find k_max smallest eigenvalues
-            if k_max < A.shape[0] - 1:
-                evals, evecs = sla.eigsh(A, sigma=sigma, which='LM',
-                                         k=k_max, return_eigenvectors=True)
-            else:
-                # The sparse solver cannot find this many eigenvectors
-                evals, evecs = la.eigh(A.toarray())
-        elif k_max < 0:
-            # Successively find more eigenvalues until some not close to zero
-            # Number of new null space vectors to find in each step
-            k_step = abs(k_max)
-            k_max = k_step
-            while k_max < A.shape[0] - 1:
-                evals, evecs = sla.eigsh(A, sigma=sigma, which='LM',
-                                         k=k_max, return_eigenvectors=True)
-                if np.max(np.abs(evals)) > atol:
-                    # We found the first large one
-                    break
-                else:
-                    # All small, need to increase k_max
-                    k_max += k_step
-            else:
+        if k_max == 0:
+            raise ValueError('k_max must be nonzero.')
+        n = A.shape[0]
+        # Number of new null space vectors to find in each step
+        k_step = abs(k_max)
+        # Inverse of the shifted matrix without the null space found so far
+        A_shift = scipy.sparse.csc_matrix(A - sigma * scipy.sparse.identity(n))
+        A_inv = sla.splu(A_shift)
+        ns = np.zeros((n, 0), dtype=A_shift.dtype)
+
+        def deflated_inverse(vec):
+            vec = vec.reshape(-1)
+            vec = A_inv.solve(vec - ns @ (ns.T.conj() @ vec))
+            return vec - ns @ (ns.T.conj() @ vec)
+
+        # The solver may miss some eigenvectors of degenerate eigenvalues,
+        # so repeat until no more null space vectors are found.
+        while k_max < 0 or ns.shape[1] < k_max:
+            evals = []
+            if ns.shape[1] + k_step < n - 1:
+                try:
+                    evals, evecs = sla.eigsh(sla.LinearOperator((n, n), matvec=deflated_inverse,
+                                                                dtype=A_shift.dtype),
+                                             which='LM', k=k_step)
+                except sla.ArpackNoConvergence as err:
+                    # Null space vectors converge first
+                    evals, evecs = err.eigenvalues, err.eigenvectors
+                except sla.ArpackError:
+                    pass
+            if len(evals) == 0:
                 # The sparse solver cannot find this many eigenvectors
                 evals, evecs = la.eigh(A.toarray())
-        else:
-            raise ValueError('k_max must be nonzero.')
-
-        # Only keep eigenvectors with small eigenvalues
-        nnz = np.isclose(evals, 0, atol=atol)
-        ns = evecs[:, nnz]
-        # Orthonormalize null space
-        if ns.shape[1] > 0:
-            ns, _ = la.qr(ns, mode='economic')
+                ns = evecs[:, np.isclose(evals, 0, atol=atol)]
+                break
+            # Only keep eigenvectors with small eigenvalues
+            new = evecs[:, np.isclose(1 / evals + sigma, 0, atol=atol)]
+            if new.shape[1] == 0:
+                break
+            # Orthonormalize null space
+            ns, _ = la.qr(np.hstack((ns, new)), mode='economic')
+        if k_max > 0:
+            ns = ns[:, :k_max]
         return ns.T
     else:
         if isinstance(A, scipy.sparse.spmatrix):
-- 
2.43.0


From c07c6a4d83199a6763a130ace87c982704d1292f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:53 +0000
Subject: [PATCH 39/58] fix: zero-dimensional continuum families repeat the
 constant terms for every degree

---
 qsymm/hamiltonian_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 7a0275b..55ee10f 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -222,7 +222,8 @@ def continuum_variables(dim, total_power, all_powers=None, momenta=_commutative_
             all_powers[i] = range(power + 1)
 
     if dim == 0:
-        return [kwant_continuum.sympify(1)]
+        # Without momenta there is only the constant term
+        return [kwant_continuum.sympify(1)] if total_power == 0 else []
 
     if all(isinstance(i, int) for i in momenta):
         momenta = [_commutative_momenta[i] for i in momenta]
-- 
2.43.0


From 5897c407df5558cb098b6537a0627ccee34378c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 40/58] fix: bloch_family rejects momenta given as strings

---
 qsymm/hamiltonian_generator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 55ee10f..55031b4 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -7,7 +7,8 @@ from copy import deepcopy
 import tinyarray as ta
 
 from .linalg import matrix_basis, nullspace, family_to_vectors, rref, allclose
-from .model import Model, BlochModel, BlochCoeff, _commutative_momenta, e, I
+from .model import (Model, BlochModel, BlochCoeff, _commutative_momenta,
+                    _find_momenta, e, I)
 from .groups import PointGroupElement, ContinuousGroupGenerator, generate_group, identity
 from . import kwant_continuum
 
@@ -673,6 +674,9 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
                          'only PointGroupElements that are defined with exact sympy '
                          'rotation matrices or use `bloch_model=True`.')
 
+    # Momenta may be specified by their names
+    momenta = _find_momenta(tuple(momenta))
+
     # Check dimensionality
     dim = len(hopping_vectors[0][-1])
     assert all([len(hop[-1]) == dim for hop in hopping_vectors])
-- 
2.43.0


From b044cebc079609ecd661da2816fe506cca51a769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 41/58] fix: bloch_family returns spurious members due to
 rounding errors

---
 qsymm/hamiltonian_generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 55031b4..db2b0df 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -724,8 +724,9 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         # Symmetrize every term and remove linearly dependent or zero ones
         family2 = []
         for term in family:
-            term = symmetrize_monomial(term, pg).around(decimals=num_digits)
-            if not term == {}:
+            term = symmetrize_monomial(term, pg)
+            # Rounded terms would not be exactly linearly dependent
+            if not term.around(decimals=num_digits) == {}:
                 family2.append(term)
         family = remove_duplicates(family2, tol=10**(-num_digits))
     else:
-- 
2.43.0


From 0019dd821c4752599ebba448f438b4ef790dd52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 42/58] fix: bloch_family does not recognize equal hoppings in
 Model format when constraining

---
 qsymm/hamiltonian_generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index db2b0df..e0de4ad 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -698,7 +698,8 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
             # Dot product with momentum vector
             phase = sum([coordinate * momentum for coordinate, momentum in
                          zip(vec, momenta[:dim])])
-            factor = e**(I*phase)
+            # Same form of the exponent as that of rotated hoppings
+            factor = e**sympy.expand(I*phase)
         hopfamily = []
         for mat in block_basis:
             matrix = np.zeros((N, N), dtype=complex)
@@ -706,7 +707,7 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
             if bloch_model:
                 term = BlochModel({bloch_coeff: matrix}, momenta=momenta[:dim])
             else:
-                term = Model({factor: matrix}, momenta=momenta[:dim])
+                term = Model({factor: matrix}, momenta=momenta[:dim], normalize=True)
             term = term + term.T().conj()
             hopfamily.append(term)
         # If there are conserved quantities, constrain the hopping, it is assumed that
-- 
2.43.0


From 37bd6e5ac758cd1e623ceb510594481b7c2f1cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 43/58] fix: subtract_family does not project out family2 from
 families that are not orthonormal

---
 qsymm/hamiltonian_generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index e0de4ad..a9dca17 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -556,8 +556,9 @@ def subtract_family(family1, family2, tol=1e-8, prettify=False):
     _, ort_basis1 = nullspace(basis1, atol=tol, return_complement=True)
     if not allclose((projected_basis1.dot(ort_basis1.T.conj())).dot(ort_basis1), projected_basis1, atol=tol):
         raise ValueError('Projecting onto the complement of family2 did not result in a subspace of family1')
-    # Find the coefficients of linearly independent vectors
-    _, projected_coeffs1 = nullspace(projected_basis1.T, atol=tol, return_complement=True)
+    # Find the linearly independent projected vectors and their coefficients in family1
+    _, projected_basis1 = nullspace(projected_basis1, atol=tol, return_complement=True)
+    projected_coeffs1 = projected_basis1.dot(np.linalg.pinv(basis1, rcond=tol))
     rfamily = []
     for vec in projected_coeffs1:
         rfamily.append(sum([family1[i] * c for i, c in enumerate(vec)]))
-- 
2.43.0


From be8e21a6f0c5e8f964eeeb3bbe2b76488ffb3680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 44/58] fix: make_basis_pretty returns vanishing members for
 linearly dependent families

---
 qsymm/hamiltonian_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index a9dca17..4f3f238 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -492,7 +492,8 @@ def make_basis_pretty(family, num_digits=2):
         # Eliminate entries that vanish
         if term:
             rfamily.append(term)
-    return round_family(rfamily, num_digits)
+    # Terms that vanish up to numerical errors are empty after rounding
+    return [term for term in round_family(rfamily, num_digits) if term]
 
 
 def remove_duplicates(family, tol=1e-8):
-- 
2.43.0


From 2e04eb87f3fc5676f4d80a51f79a3316485c9ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 45/58] fix: printing zero dimensional PointGroupElements fails

---
 qsymm/groups.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 733c386..0c319cb 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -928,7 +928,10 @@ def pretty_print_pge(g, full=False, latex=False):
         return angle
 
     R = np.array(g.R).astype(float)
-    if R.shape[0] == 1:
+    if R.shape[0] == 0:
+        # no spatial dimensions, only onsite symmetries
+        rot_name = '1'
+    elif R.shape[0] == 1:
         if R[0, 0] == 1:
             rot_name = '1'
         else:
-- 
2.43.0


From 8ccb8edb717ddff0ac342a1483dd379b94eeff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 46/58] fix: solve_mat_eqn solves the wrong equations with
 conjugate=True and hermitian=False

---
 qsymm/linalg.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 42b254d..e86a8c7 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -434,7 +434,9 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
     -------
     ndarray of shape (l, n, n), or list of csr_matrix
         List of linearly independent square matrices
-        that span all solutions of the eaquations.
+        that span all solutions of the eaquations. If `hermitian` or
+        any of the equations is conjugated, the solutions form a vector
+        space over the real numbers.
     """
     if sparse is None:
         sparse = isinstance(HL[0], scipy.sparse.spmatrix)
@@ -457,18 +459,23 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
     if N == 0:
         return np.empty((0, dim, dim))
 
+    # Equations with conjugation are only linear over the real numbers,
+    # then a general complex X has twice as many real coefficients
+    real_coeffs = hermitian or any(conjugate)
+    def basis(sparse=sparse):
+        bases = [matrix_basis(dim, traceless=traceless, sparse=sparse)]
+        if real_coeffs and not hermitian:
+            bases.append(matrix_basis(dim, traceless=traceless, antihermitian=True, sparse=sparse))
+        return it.chain(*bases)
+
     # Prepare for differences in sparse and dense algebra
     if sparse:
-        def basis():
-            return matrix_basis(dim, traceless=traceless, sparse=True)
         vstack = scipy.sparse.vstack
         bmat = scipy.sparse.bmat
         # Cast it to coo format and reshape
         def flatten(x):
             return scipy.sparse.coo_matrix(x).reshape((x.shape[0]*x.shape[1], 1))
     else:
-        def basis():
-            return matrix_basis(dim, traceless=traceless, sparse=False)
         vstack = np.vstack
         bmat = np.block
         def flatten(x):
@@ -485,7 +492,7 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
 
     null_mat = bmat(null_mat)
 
-    if hermitian:
+    if real_coeffs:
         # Simultaneaous equations for real and immaginary parts
         # Lapack guarantees that the SVD of a real matrix is real
         null_mat = vstack((null_mat.real, null_mat.imag))
@@ -494,9 +501,7 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
     ns = nullspace(null_mat, sparse=sparse, k_max=k_max)
     # Make all solutions
     # 'ij,jkl->ikl'
-    def basis():
-        return matrix_basis(dim, traceless=traceless, sparse=False)
-    return np.array([sum((v * mat for v, mat in zip(vec, basis()))) for vec in ns])
+    return np.array([sum((v * mat for v, mat in zip(vec, basis(sparse=False)))) for vec in ns])
 
 
 def rref(m, rtol = 1e-3, return_S=False):
-- 
2.43.0


From f67c7aca11c140610018565fec77453b2d82b394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 47/58] fix: sparse_basis raises an error if all vectors vanish

---
 qsymm/linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index e86a8c7..3abd609 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -623,7 +623,8 @@ def sparse_basis(bas, num_digits=3, reals=False):
         bas_mat = re + 1j * im
     # Round to num_digits and return only nonvanishing rows
     bas_mat = np.round(bas_mat, num_digits)
-    bas_mat = np.vstack([row for row in bas_mat if not np.allclose(row, 0, atol=10**(-num_digits))])
+    nonzero = [not np.allclose(row, 0, atol=10**(-num_digits)) for row in bas_mat]
+    bas_mat = bas_mat[nonzero]
     if len(bas_mat) < len(bas):
         warnings.warn('Removed linearly dependent terms from the family during sparsification. '+ \
                       'Resulting family will contain fewer members.')
-- 
2.43.0


From ebf4866d9bf16fe1e174f3dc83b1b52d1cb85dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 48/58] fix: lll raises instability errors if the ratio of
 lengths equals the reduction parameter

---
 qsymm/kwant_linalg_lll.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/kwant_linalg_lll.py b/qsymm/kwant_linalg_lll.py
index 2f10c1e..ea2c942 100644
--- a/qsymm/kwant_linalg_lll.py
+++ b/qsymm/kwant_linalg_lll.py
@@ -135,7 +135,8 @@ def lll(basis, c=1.34):
     coefs = np.linalg.lstsq(vecs_orig.T, vecs.T, rcond=-1)[0]
     if not np.allclose(np.round(coefs), coefs, atol=1e-6):
         raise RuntimeError('LLL algorithm instability.')
-    if not is_c_reduced(vecs, c):
+    # Ratios of lengths equal to c may be on either side of it after rounding
+    if not is_c_reduced(vecs, c * (1 + 1e-9)):
         raise RuntimeError('LLL algorithm instability.')
     return vecs, np.array(np.round(coefs), int)
 
-- 
2.43.0


From 8de598aa3cb87f07ebb66c830af7f7be6148a07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 49/58] fix: circular fails for one by one matrices and for
 charges given as floats

---
 qsymm/kwant_rmt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qsymm/kwant_rmt.py b/qsymm/kwant_rmt.py
index bd37a4c..f0a6087 100644
--- a/qsymm/kwant_rmt.py
+++ b/qsymm/kwant_rmt.py
@@ -280,7 +280,9 @@ def circular(n, sym='A', charge=None, rng=None):
         det = np.linalg.det(s)
         if sym == 'DIII':
             det *= (-1) ** (n // 2)
-        if (charge > 0) != (det > 0):
+        if (charge > 0) != (det > 0) and n == 1:
+            s = -s
+        elif (charge > 0) != (det > 0):
             idx = np.arange(n)
             idx[-1] -= 1
             idx[-2] += 1
@@ -304,6 +306,7 @@ def circular(n, sym='A', charge=None, rng=None):
             if charge is None:
                 diag = 2 * rng.randint(2, size=(n,)) - 1
             elif (0 <= charge <= n) and int(charge) == charge:
+                charge = int(charge)
                 diag = np.array(charge * [-1] + (n - charge) * [1])
             else:
                 raise ValueError('Impossible value of topological invariant.')
@@ -312,7 +315,7 @@ def circular(n, sym='A', charge=None, rng=None):
                 diag = 2 * rng.randint(2, size=(n // 2,)) - 1
                 diag = np.resize(diag, (2, n // 2)).T.flatten()
             elif (0 <= charge <= n // 2) and int(charge) == charge:
-                charge *= 2
+                charge = 2 * int(charge)
                 diag = np.array(charge * [-1] + (n - charge) * [1])
             else:
                 raise ValueError('Impossible value of topological invariant.')
-- 
2.43.0


From a1edd5f963323ba77a00bd6dd8d1d2cc8d3763d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:20 +0000
Subject: [PATCH 50/58] fix: treat numerical powers of the symbol e as
 numerical factors when normalising Model keys

---
 qsymm/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index d2d7952..5745a57 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -278,12 +278,15 @@ class Model(UserDict):
             self.data = {}
             for key, val in old_data.items():
                 for summand in key.expand().powsimp(combine='exp').as_ordered_terms():
-                    factors = summand.as_ordered_factors()
+                    factors = sympy.Mul.make_args(sympy.expand_power_exp(summand))
                     symbols, numbers = [], []
                     for f in factors:
                         # This catches sqrt(2) and much faster than f.is_constant()
                         if f.is_number:
                             numbers.append(f)
+                        elif f.as_base_exp()[0] == e and f.as_base_exp()[1].is_number:
+                            # `e` is a symbol, but its numerical powers are numbers
+                            numbers.append(sympy.E ** f.as_base_exp()[1])
                         else:
                             symbols.append(f)
                     new_key = sympy.Mul(*symbols)
-- 
2.43.0


From a044c412a3f51eb6bf8b4303aa4e5fc56fca5d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:20 +0000
Subject: [PATCH 51/58] fix: reject onsite actions with shapes inconsistent
 with norbs in symmetry_from_permutation

---
 qsymm/groups.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 0c319cb..0210eef 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1307,7 +1307,10 @@ def symmetry_from_permutation(R, perm, norbs, onsite_action=None,
     for a in norbs.keys():
         if not norbs[a] == norbs[perm[a]]:
             raise ValueError('Symmetry related sites must have the same number or orbitals')
-        U[ranges[perm[a]], ranges[a]] = onsite_action[a]
+        action = np.atleast_2d(onsite_action[a])
+        if action.shape != (norbs[a], norbs[a]):
+            raise ValueError('Size of the onsite action must be consistent with norbs')
+        U[ranges[perm[a]], ranges[a]] = action
     g = PointGroupElement(R, antiunitary, antisymmetry, U)
     return g
 
-- 
2.43.0


From b2f9da801e34b1b27cdc430d0a9abf49c4e2bd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 52/58] fix: replace functions in parsed expressions without
 subs, which also changed unrelated numbers

---
 qsymm/kwant_continuum.py |  8 ++++----
 qsymm/model.py           | 28 ++++++++++++++--------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/qsymm/kwant_continuum.py b/qsymm/kwant_continuum.py
index 7d16e30..1bbfcd2 100644
--- a/qsymm/kwant_continuum.py
+++ b/qsymm/kwant_continuum.py
@@ -186,10 +186,10 @@ def sympify(expr, locals=None):
         # provided by user during the final evaluation through "params".
         # Therefore we make sure they are defined as AppliedUndef, not built-in
         # sympy types.
-        subs = {r: sympy.Function(str(r.func))(*r.args)
-                for r in expr.atoms(sympy.Function)}
-
-        return expr.subs(subs)
+        # `subs` of functions with numerical arguments may also replace
+        # unrelated numbers.
+        return expr.replace(lambda r: isinstance(r, sympy.Function),
+                            lambda r: sympy.Function(str(r.func))(*r.args))
 
     # if ``expr`` is not a "sympy" then we proceed with sympifying process
     if locals is None:
diff --git a/qsymm/model.py b/qsymm/model.py
index 5745a57..347f97c 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -39,25 +39,25 @@ def substitute_exponents(expr):
     exp(X) -> e^X
     """
 
-    subs = {}
-    for f in expr.atoms(AppliedUndef, sympy.Function):
-        # if more than one argument, we continue
-        if len(f.args) > 1:
-            continue
-        else:
+    def substitute(f):
+        # Only substitute functions with a single argument
+        if len(f.args) == 1:
             arg = f.args[0]
+            if str(f.func) == 'sin':
+                return (e**(I * arg) - e**(-I * arg)) / (2 * I)
 
-        # if only one argument, we follow with subs
-        if str(f.func) == 'sin':
-            subs[f] = (e**(I * arg) - e**(-I * arg)) / (2 * I)
+            if str(f.func) == 'cos':
+                return (e**(I * arg) + e**(-I * arg)) / 2
 
-        if str(f.func) == 'cos':
-            subs[f] = (e**(I * arg) + e**(-I * arg)) / 2
+            if str(f.func) == 'exp':
+                return e**arg
 
-        if str(f.func) == 'exp':
-            subs[f] = e**arg
+        return f
 
-    return expr.subs(subs).expand()
+    # `subs` of functions with numerical arguments may also replace unrelated
+    # numbers, for example ``sympy.sqrt(2).subs(sympy.exp(-2), x)``.
+    return expr.replace(lambda f: isinstance(f, (AppliedUndef, sympy.Function)),
+                        substitute).expand()
 
 
 class BlochCoeff(tuple):
-- 
2.43.0


From 99348ab4b6a9cb197c2ef2245251cb83a1150f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 53/58] fix: apply the symmetry candidate before removing small
 terms, symmetries of models in generic orientation were missed

---
 qsymm/symmetry_finder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index 75721df..6ef8527 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -489,9 +489,10 @@ def _find_unitary(model, Ps, g, sparse=False, checks=False):
     if g.U is not None:
         raise ValueError('g.U must be None.')
 
-    # Remove potential small terms
-    model = model.eliminate_zeros()
+    # Remove potential small terms, but only after applying `g`, as `g` may
+    # transform terms that are small on their own into larger ones.
     Rmodel = g.apply(model).eliminate_zeros()
+    model = model.eliminate_zeros()
     # After eliminating small entries, if g is a symmetry only the same keys should appear
     if model.keys() != Rmodel.keys():
         return g
-- 
2.43.0


From 05858b09dfc05cab27709d29bd565a74ddc17d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:11 +0000
Subject: [PATCH 54/58] fix: eliminate_zeros used the matrix square of sparse
 terms, nilpotent terms were removed

---
 qsymm/model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 347f97c..c205704 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -766,7 +766,13 @@ class Model(UserDict):
             return result
         # Write it explicitely so it works with sparse arrays
         def norm(mat):
-            return np.sqrt(np.sum(np.abs(mat)**2))
+            square = np.abs(mat)
+            # `*` and `**` are matrix operations for sparse matrices
+            if isinstance(square, scipy.sparse.spmatrix):
+                square = square.multiply(square)
+            else:
+                square = square**2
+            return np.sqrt(np.sum(square))
         max_norm = np.max([norm(val) for val in self.values()])
         tol = max(atol, max_norm * rtol)
         result.data = {key: copy(val) for key, val in self.items() if not norm(val) < tol}
-- 
2.43.0


From 56b8baa809c10eb3a0f880d8f9636682705217f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:11 +0000
Subject: [PATCH 55/58] fix: separate_lie_algebra returned a complement that is
 not a subalgebra for generators that are not orthonormal

---
 qsymm/symmetry_finder.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index 6ef8527..e215559 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -158,8 +158,12 @@ def separate_lie_algebra(gens):
     genss : ndarray
         generators of semisimple part, shape (ms, N, N)
     """
-    g = killing(gens)
-    c, s = nullspace(g, return_complement=True)
+    C = struct_const(gens)
+    c = nullspace(killing(gens))
+    # The semisimple part is the derived algebra, which is spanned by the
+    # commutators, it is not the orthogonal complement of the coefficients
+    # `c` unless the generators are orthonormal.
+    _, s = nullspace(np.concatenate(C), return_complement=True)
     # 'ab,bij->aij'
     gensc = np.tensordot(c, gens, axes=(1, 0))
     genss = np.tensordot(s, gens, axes=(1, 0))
-- 
2.43.0


From 80dc1074254ec7c1e39c62349cc765918b83c6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:11 +0000
Subject: [PATCH 56/58] fix: casimir did not recognize some algebras that are
 not semisimple, because of rounding errors of the determinant

---
 qsymm/symmetry_finder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index e215559..87859ca 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -133,7 +133,9 @@ def killing(gens):
 def casimir(gens):
     # Calculate quadratic Casimir operator
     g = killing(gens)
-    if np.isclose(la.det(g), 0):
+    # The determinant of a singular form is only zero up to rounding errors
+    # that grow with its size
+    if len(nullspace(g)) > 0:
         raise ValueError('Lie-algebra not semisimple!')
     # 'ab,aik,bkj->ij'
     return np.tensordot(la.inv(g), gens.dot(gens), axes=((0, 1), (0, 2)))
-- 
2.43.0


From 8ff0f2e2bd3db54f1cf24a8146d7136670916b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:52 +0000
Subject: [PATCH 57/58] fix: lambdify of expressions that apply a function to
 several arguments

---
 qsymm/kwant_continuum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/kwant_continuum.py b/qsymm/kwant_continuum.py
index 1bbfcd2..355475b 100644
--- a/qsymm/kwant_continuum.py
+++ b/qsymm/kwant_continuum.py
@@ -104,7 +104,8 @@ def lambdify(expr, locals=None):
     args = [s.name for s in expr.atoms(sympy.Symbol)]
     args += [str(f.func) for f in expr.atoms(AppliedUndef, sympy.Function)]
 
-    return sympy.lambdify(sorted(args), expr)
+    # a function may be applied to several arguments
+    return sympy.lambdify(sorted(set(args)), expr)
 
 
 def sympify(expr, locals=None):
-- 
2.43.0


From 6ab1ad10b7ee3617705d8ff3215c743979271de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:52 +0000
Subject: [PATCH 58/58] fix: monomials of nested powers of noncommuting symbols

---
 qsymm/kwant_continuum.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/kwant_continuum.py b/qsymm/kwant_continuum.py
index 355475b..71b9f3b 100644
--- a/qsymm/kwant_continuum.py
+++ b/qsymm/kwant_continuum.py
@@ -307,6 +307,10 @@ def _expression_monomials(expr, gens):
         val = []
         for factor in summand.as_ordered_factors():
             symbol, exponent = factor.as_base_exp()
+            # SymPy may leave powers of noncommuting symbols nested
+            while symbol.is_Pow and exponent.is_integer:
+                factor = symbol.base ** (symbol.exp * exponent)
+                symbol, exponent = factor.as_base_exp()
             if symbol in gens:
                 key.append(factor)
             else:
-- 
2.43.0

