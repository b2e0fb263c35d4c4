From 0ad94bf07c5dda35775e64fddb8078c0c2657a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 01/71] fix: raise the error for inconsistent numbers of
 operators and labels in OperatorString

---
 qosy/operatorstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/operatorstring.py b/qosy/operatorstring.py
index 5e6dfa8..d86a735 100644
--- a/qosy/operatorstring.py
+++ b/qosy/operatorstring.py
@@ -123,7 +123,7 @@ class OperatorString:
         self.op_type           = op_type
 
         if len(self.orbital_operators) != len(self.orbital_labels):
-            ValueError('The number of orbital operators and labels is inconsistent for the OperatorString: {} {}'.format(len(self.orbital_operators), len(self.orbital_labels)))
+            raise ValueError('The number of orbital operators and labels is inconsistent for the OperatorString: {} {}'.format(len(self.orbital_operators), len(self.orbital_labels)))
 
         self.prefactor = prefactor
 
-- 
2.43.0


From 47e99ddc812fa03f54ae1bbcf80a005054aabbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 02/71] fix: compute the prefactor of a Majorana string even
 when 1j is supplied

---
 qosy/operatorstring.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qosy/operatorstring.py b/qosy/operatorstring.py
index d86a735..5280022 100644
--- a/qosy/operatorstring.py
+++ b/qosy/operatorstring.py
@@ -146,6 +146,8 @@ class OperatorString:
             num_swaps_to_reorder = (num_ab*(num_ab-1))/2
             if num_swaps_to_reorder % 2 == 1:
                 self.prefactor = 1j
+            elif self.prefactor == 1j:
+                self.prefactor = 1.0
 
         if (self.op_type == 'Pauli' and self.prefactor != 1) \
            or (self.op_type == 'Majorana' and self.prefactor not in [1, 1j]) \
-- 
2.43.0


From 6c11aaef6beb1eb58e838d69f0500f7f08660b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 03/71] fix: make OperatorString equality, hash and name agree
 on the prefactor

---
 qosy/operatorstring.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qosy/operatorstring.py b/qosy/operatorstring.py
index 5280022..9a91a95 100644
--- a/qosy/operatorstring.py
+++ b/qosy/operatorstring.py
@@ -154,6 +154,10 @@ class OperatorString:
            or (self.op_type == 'Fermion' and self.prefactor not in [1, 1j]):
             raise ValueError('Invalid prefactor {} for operator string of op_type {}'.format(self.prefactor, self.op_type))
                  
+        # Use a single representation for each prefactor so that
+        # equal OperatorStrings have equal names and hash codes.
+        self.prefactor = 1.0 if self.prefactor == 1 else 1j
+
         name_list = [str(self.prefactor),' ']
         for (op, la) in zip(self.orbital_operators, self.orbital_labels):
             name_list.extend([op, ' ', str(la), ' '])
@@ -211,7 +215,7 @@ class OperatorString:
             >>> op_string1 == op_string3 # True
         """
         
-        equals = (len(self.orbital_operators) == len(other.orbital_operators)) and (self.orbital_operators == other.orbital_operators).all() and (self.orbital_labels == other.orbital_labels).all() and (self.op_type == other.op_type)
+        equals = (len(self.orbital_operators) == len(other.orbital_operators)) and (self.orbital_operators == other.orbital_operators).all() and (self.orbital_labels == other.orbital_labels).all() and (self.op_type == other.op_type) and (self.prefactor == other.prefactor)
         
         return equals
 
-- 
2.43.0


From 10f7d8f2857e8a34ac5deff397337afa597970f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 04/71] fix: copy the list given to Basis so that growing the
 Basis does not corrupt it

---
 qosy/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/basis.py b/qosy/basis.py
index 25867a1..aa3b012 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -48,7 +48,7 @@ class Basis:
         if op_strings is None:
             op_strings = []
         
-        self.op_strings = op_strings
+        self.op_strings = list(op_strings)
 
         # A dictionary that maps each OperatorString
         # to its index in the list op_strings.
-- 
2.43.0


From cb35f948308f6818b6dc5577dac94d30c5826eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 05/71] fix: do not return NaN from gram_schmidt when the first
 column is zero

---
 qosy/tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qosy/tools.py b/qosy/tools.py
index 22d9a82..54403e0 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -467,9 +467,8 @@ def gram_schmidt(matrix, tol=0.0):
             return (vec1.H).dot(vec2)[0,0]
         
     shift = 0
-    new_matrix[:,0] = matrix[:,0] / _norm(matrix[:,0])
     
-    for ind_col_unshifted in range(1,k):
+    for ind_col_unshifted in range(k):
         ind_col = ind_col_unshifted - shift
         new_matrix[:,ind_col] = matrix[:,ind_col_unshifted]
         for ind_vec in range(ind_col):
-- 
2.43.0


From 1c14a10a60bf086ed02f5602805e4c70bccd0690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 06/71] fix: handle linearly dependent operators in
 generate_lie_algebra

---
 qosy/algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qosy/algebra.py b/qosy/algebra.py
index 3368686..39ca9f8 100644
--- a/qosy/algebra.py
+++ b/qosy/algebra.py
@@ -583,7 +583,8 @@ def generate_lie_algebra(operators, tol=1e-12):
 
         # For simplicity, orthogonalize the vectors.
         # V = columns are the vectors
-        vectors = gram_schmidt(vectors)
+        # (Discard the ones that are linearly dependent.)
+        vectors = gram_schmidt(vectors, tol=tol)
 
         # The projection P onto the vector space
         # spanned by vectors.
-- 
2.43.0


From cb12ddd8df354b7b85d8b44d9fbd2cb339be4700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 07/71] fix: keep the vectors orthonormal in
 generate_lie_algebra so that it terminates

---
 qosy/algebra.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qosy/algebra.py b/qosy/algebra.py
index 39ca9f8..104861d 100644
--- a/qosy/algebra.py
+++ b/qosy/algebra.py
@@ -661,8 +661,13 @@ def generate_lie_algebra(operators, tol=1e-12):
                     # Update the new vector so that is
                     # orthogonal to the previous vectors
                     # and normalized. Then add it to the vectors.
+                    # (Orthogonalize twice, since a vector that is nearly
+                    # in the vector space is not orthogonal to it to
+                    # working precision after a single projection.)
                     vecC -= overlaps
                     vecC /= np.sqrt(np.abs((vecC.H).dot(vecC)[0,0]))
+                    vecC -= projector.dot(vecC)
+                    vecC /= np.sqrt(np.abs((vecC.H).dot(vecC)[0,0]))
                     vectors = ss.hstack((vectors, vecC), format='csc')
 
                     # Update the projector.
-- 
2.43.0


From 96e952249512f4b6d3abc8aee16081dbbc6ab2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 08/71] fix: convert the Fermion identity string when the
 identity is not included

---
 qosy/conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qosy/conversion.py b/qosy/conversion.py
index b0eed54..39edc4e 100644
--- a/qosy/conversion.py
+++ b/qosy/conversion.py
@@ -204,7 +204,7 @@ def _convert_majorana_string(op_string, include_identity=False):
         else:
             raise ValueError('Invalid lex_order = {} and coeff = {}'.format(lex_order, coeff))
 
-    return Operator(np.array(coeffs_fermion), op_strings_fermion)
+    return Operator(np.array(coeffs_fermion), op_strings_fermion, op_type='Fermion')
 
 
 def _convert_fermion_string(op_string, include_identity=False):
@@ -307,7 +307,7 @@ def _convert_fermion_string(op_string, include_identity=False):
         coeffs_majorana.append(coeffM)
         op_strings_majorana.append(op_string_M)
 
-    return Operator(np.array(coeffs_majorana), op_strings_majorana)
+    return Operator(np.array(coeffs_majorana), op_strings_majorana, op_type='Majorana')
 
 def _convert_operator_string(op_string, to_op_type, include_identity=False):
     # Converts an OperatorString to a linear combination of
-- 
2.43.0


From 1bc9da0dc25b547a43e3df991da9374e910b4b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 09/71] fix: list the annihilation operators of cluster_basis
 strings in the documented order

---
 qosy/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/basis.py b/qosy/basis.py
index aa3b012..f741be6 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -857,7 +857,7 @@ def cluster_basis(k, cluster_labels, op_type, include_identity=False):
                             labels_backward = possible_labels_backward[ind_labels_backward]
                             
                             ops    = ['CDag']*len(labels_forward) + ['C']*len(labels_backward)
-                            labels = np.concatenate((labels_forward, labels_backward))
+                            labels = np.concatenate((labels_forward, labels_backward[::-1]))
                             
                             op_string = OperatorString(ops, labels, op_type, prefactor)
 
-- 
2.43.0


From d53d3e68a90a52ec4810c53be25374c14fb8e053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 10/71] fix: include the identity in distance_basis when
 requested

---
 qosy/basis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qosy/basis.py b/qosy/basis.py
index f741be6..4cd2940 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -950,6 +950,8 @@ def distance_basis(lattice, k, R, op_type, allowed_orbitals=None, include_identi
     sorted_clusters = sorted(clusters, key=cmp_to_key(compare))
     
     total_basis = Basis()
+    if include_identity:
+        total_basis += OperatorString([], [], op_type) # Identity operator
     for cluster_labels in sorted_clusters:
         total_basis += cluster_basis(k, cluster_labels, op_type)
         
-- 
2.43.0


From 9bb5bef311ee6e28bf9410ec6cc4c97e9a0a5871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 11/71] fix: wrap positions that are many periods outside of
 the lattice in Lattice.index

---
 qosy/lattice.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/qosy/lattice.py b/qosy/lattice.py
index 684ef53..cdfefd6 100644
--- a/qosy/lattice.py
+++ b/qosy/lattice.py
@@ -161,9 +161,11 @@ class Lattice:
         # Translate by the boundary vectors associated with
         # the periodic edges. The first boundary vector is the
         # zero vector, which corresponds to no translation.
-        for boundary_vector in self._boundary_vectors:
+        # If this fails, first wrap the position back into the lattice
+        # since it can be many periods away from it.
+        for (wrap, boundary_vector) in it.product([False, True], self._boundary_vectors):
             # Shift the position.
-            pos      = position + boundary_vector
+            pos      = (self._wrap(position) if wrap else position) + boundary_vector
             # Make sure the zeros are exactly zero (no floating point roundoff).
             pos      = np.array([x if np.abs(x) > self.tol else 0.0 for x in pos])
             
@@ -174,6 +176,24 @@ class Lattice:
             
         return -1
         
+    def _wrap(self, position):
+        # Translate the position along the periodic directions so that
+        # it is between 0 and the length of the periodic edges in the
+        # coordinates of the lattice vectors.
+
+        if not np.any(self.periodic_boundaries):
+            return position
+        
+        coords = nla.solve(np.array(self.unit_cell.lattice_vectors).T, position)
+
+        result = np.array(position, dtype=float)
+        for ind_vec in range(self.dim):
+            if self.periodic_boundaries[ind_vec]:
+                num_periods = np.floor(coords[ind_vec] / self.num_cells[ind_vec])
+                result     -= num_periods * self.num_cells[ind_vec] * self.unit_cell.lattice_vectors[ind_vec]
+
+        return result
+        
     def distance(self, position1, position2):
         """Compute the minimum distance between
         two positions in the given lattice.
-- 
2.43.0


From dc3bedf9828c348f0f6a48b842b3bf56b85bece2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 12/71] fix: accept numpy integers as orbital indices in
 Lattice.distance

---
 qosy/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qosy/lattice.py b/qosy/lattice.py
index cdfefd6..989b703 100644
--- a/qosy/lattice.py
+++ b/qosy/lattice.py
@@ -220,12 +220,12 @@ class Lattice:
         boundaries to be computed correctly.
         """
 
-        if type(position1) is int:
+        if isinstance(position1, (int, np.integer)):
             (pos1, _, _) = self._orbitals[position1]
         else:
             pos1 = position1
             
-        if type(position2) is int:
+        if isinstance(position2, (int, np.integer)):
             (pos2, _, _) = self._orbitals[position2]
         else:
             pos2 = position2
-- 
2.43.0


From 970d804133fcddf0c0442affb164eaa86150fc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 13/71] fix: compute the shortest distance between periodic
 images exactly in Lattice.distance

---
 qosy/lattice.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/qosy/lattice.py b/qosy/lattice.py
index 989b703..3331dc4 100644
--- a/qosy/lattice.py
+++ b/qosy/lattice.py
@@ -212,12 +212,6 @@ class Lattice:
         Returns
         -------
             The closest distance between the two positions.
-
-        Notes
-        -----
-        At least one of the two positions needs to be within
-        the boundaries of the lattice for the periodic
-        boundaries to be computed correctly.
         """
 
         if isinstance(position1, (int, np.integer)):
@@ -230,7 +224,30 @@ class Lattice:
         else:
             pos2 = position2
             
-        mirror_distances = [np.linalg.norm((pos1+bv)-pos2) for bv in self._boundary_vectors]
+        displacement = np.array(pos1, dtype=float) - np.array(pos2, dtype=float)
+
+        # The vectors that translate along the periodic edges.
+        periods = [self.num_cells[ind_vec] * self.unit_cell.lattice_vectors[ind_vec] \
+                   for ind_vec in range(self.dim) if self.periodic_boundaries[ind_vec]]
+        if len(periods) == 0:
+            return nla.norm(displacement)
+        periods = np.array(periods, dtype=float)
+        
+        # The numbers of periods in the displacement, n = displacement.(dual vectors).
+        dual_vectors = nla.pinv(periods)
+        num_periods  = np.dot(displacement, dual_vectors)
+
+        # Translate the displacement so that it is short.
+        displacement = displacement - np.dot(np.round(num_periods), periods)
+        num_periods  = num_periods - np.round(num_periods)
+
+        # For skewed periods, this might not be the shortest displacement. The numbers 
+        # of periods in a shorter one are at most max_distance*(length of dual vectors).
+        max_distance   = nla.norm(displacement)
+        max_periods    = max_distance * nla.norm(dual_vectors, axis=0) + self.tol
+        translations   = [np.arange(np.ceil(-m - n), np.floor(m - n) + 1) for (m, n) in zip(max_periods, num_periods)]
+        
+        mirror_distances = [nla.norm(displacement + np.dot(translation, periods)) for translation in it.product(*translations)]
         return np.min(mirror_distances)
 
     def position(self, orb_index):
-- 
2.43.0


From 79312b0d3563a6d3757eb69bf74c5fdcb76a6205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:30 +0000
Subject: [PATCH 14/71] fix: allow the zeroth power of a Transformation, as
 documented

---
 qosy/transformation.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/qosy/transformation.py b/qosy/transformation.py
index 57377bc..3cda7f1 100644
--- a/qosy/transformation.py
+++ b/qosy/transformation.py
@@ -155,15 +155,24 @@ class Transformation:
             :math:`\\hat{\\mathcal{U}}^n`
         """
 
-        if type(number) is not int or number <= 0:
+        if type(number) is not int or number < 0:
             raise ValueError('Invalid number: {}'.format(number))
 
+        if number == 0:
+            return Transformation(_identity_rule, None)
+
         result = self
         for ind in range(number-1):
             result = result * self
 
         return result
 
+def _identity_rule(op_string_A, info):
+    """Transformation rule for the identity.
+    """
+
+    return Operator([1.0], [op_string_A])
+
 def _permutation_rule(op_string_A, info):
     """Transformation rule to perform a permutation of orbital labels.
     Transformation for spins:
-- 
2.43.0


From 2482f8afdb9f0bf6b60a5ec34e72aec9cd4b54ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 15/71] fix: reject label maps that are not permutations in
 label_permutation and space_group_symmetry

---
 qosy/transformation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qosy/transformation.py b/qosy/transformation.py
index 3cda7f1..975e6d8 100644
--- a/qosy/transformation.py
+++ b/qosy/transformation.py
@@ -332,6 +332,10 @@ def label_permutation(permutation):
     translation to the right can be made with
         >>> P = qosy.label_permutation([1,2,3,0])
     """
+
+    if not np.array_equal(np.sort(permutation), np.arange(len(permutation))):
+        raise ValueError('Invalid permutation of orbital labels:\n{}'.format(permutation))
+    
     return Transformation(_permutation_rule, permutation)
 
 def space_group_symmetry(lattice, R, d):
-- 
2.43.0


From 0e4bc5fc90c59c70b0fb3a6756e6d0a66fbb01cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 16/71] fix: return orthonormal vectors from the sparse
 eigensolver for degenerate eigenvalues

---
 qosy/core.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index 7543236..eaee65f 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -30,6 +30,18 @@ from .basis import Basis, Operator
 from .algebra import liouvillian_matrix
 from .transformation import Transformation, symmetry_matrix
 
+def _eigsh(matrix, num_vecs, sigma):
+    # Find num_vecs orthonormal eigenvectors of the sparse Hermitian
+    # matrix whose eigenvalues are closest to sigma. For complex matrices,
+    # eigsh does not orthogonalize the eigenvectors of degenerate eigenvalues.
+    (evals, evecs) = ssla.eigsh(matrix, k=num_vecs, sigma=sigma)
+
+    inds_sort = np.argsort(evals)
+    evals     = evals[inds_sort]
+    (evecs, _) = nla.qr(evecs[:, inds_sort])
+
+    return (evals, evecs)
+
 def commuting_operators(basis, operator, operation_mode='commutator', return_superoperator=False, num_vecs=None, tol=1e-10):
     """Find operators in the vector space spanned by the
     OperatorStrings :math:`\\hat{\\mathcal{S}}_a` that commute (or 
@@ -88,7 +100,7 @@ def commuting_operators(basis, operator, operation_mode='commutator', return_sup
     else:
         # Use a small negative sigma for the shift-invert method.
         sigma = -1e-6
-        (evals, evecs) = ssla.eigsh(com_matrix, k=num_vecs, sigma=sigma)
+        (evals, evecs) = _eigsh(com_matrix, num_vecs, sigma)
 
     inds_ns    = np.where(np.abs(evals) < tol)[0]
     null_space = evecs[:,inds_ns]
@@ -165,7 +177,7 @@ def invariant_operators(basis, transform, operation_mode='commutator', num_vecs=
     if num_vecs is None:
         (evals, evecs) = nla.eigh(matrix.toarray())
     else:
-        (evals, evecs) = ssla.eigsh(matrix, k=num_vecs, sigma=sign)
+        (evals, evecs) = _eigsh(matrix, num_vecs, sign)
 
     inds = np.where(np.abs(evals - sign) < tol)[0]
     vecs = evecs[:,inds]
@@ -386,7 +398,7 @@ class SymmetricOperatorGenerator:
                 if self.num_vecs[ind_output] is not None:
                     # Using scipy.sparse.linalg.eigsh
                     sigma = -1e-6
-                    (evalsPSO, evecsPSO) = ssla.eigsh(projected_superoperator, k=self.num_vecs[ind_output], sigma=sigma)
+                    (evalsPSO, evecsPSO) = _eigsh(projected_superoperator, self.num_vecs[ind_output], sigma)
                 else:
                     # Using numpy.linalg.eigh
                     (evalsPSO, evecsPSO) = nla.eigh(projected_superoperator.toarray())
-- 
2.43.0


From d0f43e23551bc24c4f0f5680bd83be535342e387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 17/71] fix: avoid the singular shift in the sparse mode of
 invariant_operators

---
 qosy/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qosy/core.py b/qosy/core.py
index eaee65f..36bf1c7 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -177,7 +177,10 @@ def invariant_operators(basis, transform, operation_mode='commutator', num_vecs=
     if num_vecs is None:
         (evals, evecs) = nla.eigh(matrix.toarray())
     else:
-        (evals, evecs) = _eigsh(matrix, num_vecs, sign)
+        # Use a sigma slightly beyond the eigenvalue (+/-1) for the shift-invert
+        # method, since the shifted matrix is singular at the eigenvalue itself.
+        sigma = sign * (1.0 + 1e-6)
+        (evals, evecs) = _eigsh(matrix, num_vecs, sigma)
 
     inds = np.where(np.abs(evals - sign) < tol)[0]
     vecs = evecs[:,inds]
-- 
2.43.0


From db93f78b8c27fee1d64ba278fc8a792f75386e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 18/71] fix: find exactly the invariant operators in a list of
 Operators that are not orthonormal

---
 qosy/core.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index 36bf1c7..94092ea 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -136,7 +136,9 @@ def invariant_operators(basis, transform, operation_mode='commutator', num_vecs=
         'commutator'.
     return_superoperator : bool, optional
         If True, returns :math:`I \\mp (S + S^\\dagger)/2` where
-        :math:`S` is the symmetry matrix. The null space of 
+        :math:`S` is the symmetry matrix, or
+        :math:`G \\mp (G S + S^\\dagger G)/2` for a list of Operators
+        where :math:`G` is the overlap matrix. The null space of 
         this superoperator corresponds to the :math:`(\\pm 1)` 
         eigenspace of the symmetry matrix. Default is False.
     num_vecs : int, optional
@@ -172,25 +174,38 @@ def invariant_operators(basis, transform, operation_mode='commutator', num_vecs=
     else:
         raise ValueError('Unknown operation_mode: {}'.format(operation_mode))
 
-    matrix = 0.5*(sym_matrix + sym_matrix.H)
+    # The overlaps between the elements of the basis.
+    if isinstance(basis, Basis):
+        overlaps = ss.eye(len(basis), format='csc')
+    else:
+        # Operators in a list are not necessarily orthonormal.
+        operators_basis = Basis()
+        for op in basis:
+            operators_basis += op._basis
+        vectors  = ss.hstack([op.to_vector(operators_basis, fmt='csc') for op in basis], format='csc')
+        overlaps = (vectors.H).dot(vectors)
+
+    # The overlaps between the elements and their transformed versions.
+    matrix = overlaps.dot(sym_matrix)
+    matrix = 0.5*(matrix + matrix.H)
+
+    superoperator = overlaps - sign * matrix
 
     if num_vecs is None:
-        (evals, evecs) = nla.eigh(matrix.toarray())
+        (evals, evecs) = nla.eigh(superoperator.toarray())
     else:
-        # Use a sigma slightly beyond the eigenvalue (+/-1) for the shift-invert
-        # method, since the shifted matrix is singular at the eigenvalue itself.
-        sigma = sign * (1.0 + 1e-6)
-        (evals, evecs) = _eigsh(matrix, num_vecs, sigma)
+        # Use a small negative sigma for the shift-invert method.
+        sigma = -1e-6
+        (evals, evecs) = _eigsh(superoperator, num_vecs, sigma)
 
-    inds = np.where(np.abs(evals - sign) < tol)[0]
+    inds = np.where(np.abs(evals) < tol)[0]
     vecs = evecs[:,inds]
 
     if num_vecs is not None and len(inds) == num_vecs:
         warnings.warn('All {} vectors found with eigsh were in the ({})-eigenvalue subspace. Increase num_vecs to ensure that you are not missing null vectors.'.format(num_vecs, sign))
 
     if return_superoperator:
-        superoperator = ss.eye(len(basis), format='csc') - sign * matrix
-        return (vecs, superoperator, 1.0 - sign*evals, evecs)
+        return (vecs, superoperator, evals, evecs)
     else:
         return vecs
 
-- 
2.43.0


From d9c2515954d1a36691a3f79cb9becf4b1f9d87ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 19/71] fix: project onto the results of the same call when
 noncumulative generate is called again

---
 qosy/core.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index 94092ea..c50869f 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -344,6 +344,10 @@ class SymmetricOperatorGenerator:
         
         num_inputs = len(self.input_symmetries)
 
+        # The results are appended to those of previous calls to generate().
+        start_output    = len(self.output_operators)
+        start_projected = len(self.projected_output_operators)
+
         if verbose:
             print('===== 1. GENERATING OPERATORS =====')
             print(' STARTING WITH BASIS OF DIM {}'.format(len(self.basis)))
@@ -392,15 +396,15 @@ class SymmetricOperatorGenerator:
                 # projection in the first iteration. The "projected_superoperator"
                 # and its eigenvalues/eigenvectors are the same as the unprojected
                 # one. TODO: This should probably be changed in the future.
-                self.projected_output_operators.append(self.output_operators[ind_output])
+                self.projected_output_operators.append(self.output_operators[start_output+ind_output])
 
-                self.projected_superoperators.append(self.superoperators[ind_output])
-                self.projected_eigenvalues.append(self.eigenvalues[ind_output])
-                self.projected_eigenvectors.append(self.eigenvectors[ind_output])
+                self.projected_superoperators.append(self.superoperators[start_output+ind_output])
+                self.projected_eigenvalues.append(self.eigenvalues[start_output+ind_output])
+                self.projected_eigenvectors.append(self.eigenvectors[start_output+ind_output])
             else:
                 # Project onto the previous iteration's results.
-                curr_ops   = self.output_operators[ind_output]
-                prev_ops   = self.projected_output_operators[ind_output-1]
+                curr_ops   = self.output_operators[start_output+ind_output]
+                prev_ops   = self.projected_output_operators[start_projected+ind_output-1]
                 
                 # The current projected operators are the intersection
                 # of the current unprojected operators and the previous
@@ -409,7 +413,7 @@ class SymmetricOperatorGenerator:
 
                 # Compute the projected superoperator.
                 proj_curr_ops_sparse    = ss.csr_matrix(proj_curr_ops)
-                projected_superoperator = ((proj_curr_ops_sparse.H).dot(self.superoperators[ind_output])).dot(proj_curr_ops_sparse)
+                projected_superoperator = ((proj_curr_ops_sparse.H).dot(self.superoperators[start_output+ind_output])).dot(proj_curr_ops_sparse)
                 self.projected_superoperators.append(projected_superoperator)
                 
                 # Compute the projected superoperator's eigenvalues and eigenvectors.
@@ -437,8 +441,8 @@ class SymmetricOperatorGenerator:
                 print('===== 3. POST-PROCESSING: SPARSIFICATION =====')
 
             for ind_output in range(num_inputs):
-                curr_ops = self.projected_output_operators[ind_output]
-                self.projected_output_operators[ind_output] = sparsify(curr_ops)
+                curr_ops = self.projected_output_operators[start_projected+ind_output]
+                self.projected_output_operators[start_projected+ind_output] = sparsify(curr_ops)
                 print(' ({}) Sparsified a vector space of dim {}'.format(ind_output+1, int(curr_ops.shape[1])))
         
         if orthogonalization:
@@ -451,15 +455,15 @@ class SymmetricOperatorGenerator:
             # The goal here is to find a nicer basis for each of the vector spaces.
             for ind_output in range(num_inputs-1,0,-1):
                 # Orthogonalize against the previous iteration's results.
-                curr_ops   = self.projected_output_operators[ind_output]
-                prev_ops   = self.projected_output_operators[ind_output-1]
+                curr_ops   = self.projected_output_operators[start_projected+ind_output]
+                prev_ops   = self.projected_output_operators[start_projected+ind_output-1]
 
                 num_curr_ops = int(curr_ops.shape[1])
             
                 matrix                    = np.copy(prev_ops)
                 matrix[:, 0:num_curr_ops] = curr_ops
             
-                self.projected_output_operators[ind_output-1] = gram_schmidt(matrix, tol=0.0)
+                self.projected_output_operators[start_projected+ind_output-1] = gram_schmidt(matrix, tol=0.0)
 
                 if verbose:
                     dim_curr = int(curr_ops.shape[1])
-- 
2.43.0


From 3696d54835aebb79aae7b997f7687130aadebf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 20/71] fix: keep the span when orthogonalizing the outputs of
 noncumulative generate

---
 qosy/core.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index c50869f..d82458b 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -458,12 +458,11 @@ class SymmetricOperatorGenerator:
                 curr_ops   = self.projected_output_operators[start_projected+ind_output]
                 prev_ops   = self.projected_output_operators[start_projected+ind_output-1]
 
-                num_curr_ops = int(curr_ops.shape[1])
+                # V_N is a subspace of V_{N-1}, so only keep the part of
+                # V_{N-1} that is linearly independent of V_N.
+                matrix = np.hstack((curr_ops, prev_ops))
             
-                matrix                    = np.copy(prev_ops)
-                matrix[:, 0:num_curr_ops] = curr_ops
-            
-                self.projected_output_operators[start_projected+ind_output-1] = gram_schmidt(matrix, tol=0.0)
+                self.projected_output_operators[start_projected+ind_output-1] = gram_schmidt(matrix, tol=tol)
 
                 if verbose:
                     dim_curr = int(curr_ops.shape[1])
-- 
2.43.0


From 5b87e4d1cb97397ddc670e466c4df7c0f1c855da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:37 +0000
Subject: [PATCH 21/71] fix: generate the whole group exactly once in
 symmetrize_basis

---
 qosy/symmetrization.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index 35adf6a..3fd4883 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -60,23 +60,17 @@ def symmetrize_basis(basis, group_generators, tol=1e-12):
     num_orbitals = len(group_generators[0].info)
     I = label_permutation(np.arange(num_orbitals)) # Identity transformation
     G = [I]
-    G_set = set(G)
-    newG = G + group_generators
-    newG_set = set([tuple(g.info) for g in newG])
-    
-    while len(newG) != len(G):
-        G = newG
-        G_set = newG_set
-        
-        # Generate new group elements
+    G_set = set([tuple(range(num_orbitals))])
+
+    # Generate new group elements (appended to G during
+    # the loop) until there are no more left to find.
+    for g in G:
         for gen in group_generators:
-            for g in G:
-                perm       = compose_permutations(g.info, gen.info)
-                perm_tuple = tuple(perm)
-                if perm_tuple not in newG_set:
-                    newG_set.add(perm_tuple)
-                    perm_transformation = label_permutation(perm)
-                    newG.append(perm_transformation)
+            perm       = compose_permutations(g.info, gen.info)
+            perm_tuple = tuple(perm)
+            if perm_tuple not in G_set:
+                G_set.add(perm_tuple)
+                G.append(label_permutation(perm))
         
     # The symmetrized basis will be a list of Operators
     # that obey the given discrete group symmetries.
-- 
2.43.0


From 8f20a6187688b88fe48763cc47339b2527f5b8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:19 +0000
Subject: [PATCH 22/71] fix: generate the whole point group in
 symmetrize_lattice

---
 qosy/symmetrization.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index 3fd4883..f0bda61 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -242,15 +242,14 @@ def symmetrize_lattice(lattice, point_group_generators, num_expansions=1, tol=1e
     dim = lattice.dim
 
     # Construct the point group G from its generators.
+    # Generate new group elements (appended to G during
+    # the loop) until there are no more left to find.
     G = [np.eye(dim)]
-    newG = G + point_group_generators
-    while len(newG) != len(G):
-        G = newG
-        
-        # Generate new group elements, potentially with duplicates
-        newG = [np.dot(g,gen) for g in G for gen in point_group_generators]
-        # Remove the duplicates
-        newG = remove_duplicates(newG)
+    for g in G:
+        for gen in point_group_generators:
+            new_g = np.dot(gen, g)
+            if not any(np.allclose(new_g, old_g) for old_g in G):
+                G.append(new_g)
 
     # Store the original lattice.
     orig_lattice         = copy.deepcopy(lattice)
-- 
2.43.0


From d56e7a65295dff13a3785f6f6d6c4bb4f70d92c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 23/71] fix: keep all atoms of the enlarged unit cell in
 symmetrize_lattice

---
 qosy/symmetrization.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index f0bda61..2b1a9a8 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -251,15 +251,14 @@ def symmetrize_lattice(lattice, point_group_generators, num_expansions=1, tol=1e
             if not any(np.allclose(new_g, old_g) for old_g in G):
                 G.append(new_g)
 
-    # Store the original lattice.
-    orig_lattice         = copy.deepcopy(lattice)
-    orig_lattice_vectors = copy.deepcopy(orig_lattice.unit_cell.lattice_vectors)
+    # Store the original lattice vectors.
+    orig_lattice_vectors = copy.deepcopy(unit_cell.lattice_vectors)
         
-    # Build the new unit cell by symmetrizing
-    # the old unit cell.
-    old_lattice = copy.deepcopy(lattice)
+    # Build the new unit cell by expanding and
+    # symmetrizing the old unit cell.
+    new_lattice = copy.deepcopy(lattice)
 
-    # Expand and symmetrize the unit cell.
+    # Expand the unit cell.
     for ind_expansion in range(num_expansions):
         # Expand the lattice in the direction of each
         # lattice vector.
@@ -267,18 +266,19 @@ def symmetrize_lattice(lattice, point_group_generators, num_expansions=1, tol=1e
             delta = orig_lattice_vectors[ind_lv]
 
             # Expand the lattice in the direction of delta.
-            new_lattice = _expand_lattice(old_lattice, ind_lv, delta)
-        
-        # Symmetrize the atom positions for the new
-        # unit cell.
-        new_lattice = _symmetrize_atoms(new_lattice, G, tol=tol)
+            new_lattice = _expand_lattice(new_lattice, ind_lv, delta)
 
-        # Remove the duplicate atoms equivalent to
-        # one another by lattice translations
-        # by the new lattice vectors.
+        # Remove the atoms that are already in
+        # the unit cell from previous expansions.
         new_lattice = _remove_duplicate_atoms(new_lattice, tol=tol)
-
-        # Update the old lattice.
-        old_lattice = new_lattice
+        
+    # Symmetrize the atom positions for the new
+    # unit cell.
+    new_lattice = _symmetrize_atoms(new_lattice, G, tol=tol)
+
+    # Remove the duplicate atoms equivalent to
+    # one another by lattice translations
+    # by the new lattice vectors.
+    new_lattice = _remove_duplicate_atoms(new_lattice, tol=tol)
     
     return new_lattice
-- 
2.43.0


From 5332b24ef5fb658a5e674281c749753862f91b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 24/71] fix: make to_operator work

---
 qosy/diagonalization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index ad7b458..c0cd046 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -106,9 +106,9 @@ def to_vector(matrix, basis, num_orbitals):
     
 # TODO: document, test
 def to_operator(matrix, basis, num_orbitals):
-    coeffs = to_vector(matrix, basis)
+    coeffs = to_vector(matrix, basis, num_orbitals)
 
-    op = qy.Operator(coeffs, basis.op_strings, op_type=basis.op_strings[0].op_type)
+    op = Operator(coeffs, basis.op_strings, op_type=basis.op_strings[0].op_type)
 
     return op
 
-- 
2.43.0


From 551d79fa0d4cf068c945a3f092b932d225850531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:45 +0000
Subject: [PATCH 25/71] fix: return orthonormal eigenvectors from the sparse
 mode of diagonalize

---
 qosy/diagonalization.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index c0cd046..9906a09 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -232,6 +232,11 @@ def diagonalize(operator, num_orbitals, mode='Hermitian', num_vecs=None):
         inds_sort = np.argsort(evals)
         evals = evals[inds_sort]
         evecs = evecs[:, inds_sort]
+
+        # For complex matrices, eigsh does not orthogonalize
+        # the eigenvectors of degenerate eigenvalues.
+        if num_vecs is not None:
+            (evecs, _) = nla.qr(evecs)
     else:
         if num_vecs is None:
             (evals, evecs) = nla.eig(matrix.toarray())
-- 
2.43.0


From 844dddcd5f652c4abae6ba13f727c1ac8a5d5e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:29 +0000
Subject: [PATCH 26/71] fix: return the Fermion modes of diagonalize_quadratic
 in the documented order

---
 qosy/diagonalization.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index 9906a09..6d538d4 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -345,23 +345,18 @@ def diagonalize_quadratic(operator, num_orbitals, lattice=None, threshold=1e-12)
     eigvecs_Fermion = np.zeros((2*N,2*N), dtype=complex)
     for m in range(N):
         for n in range(N):
-            # The \bar{c_m} vectors
-            # \bar{c}_m = \sum_n a_n c_n + ...
-            eigvecs_Fermion[m,n] = 0.5 * (    Z[2*m,2*n]   + 1j*Z[2*m,2*n+1] \
-                                          -1j*Z[2*m+1,2*n] +    Z[2*m+1,2*n+1])
-
-            # \bar{c}_m = ... + \sum_n b_n c_n^\dagger
-            eigvecs_Fermion[m,2*n+1] = 0.5 * (    Z[2*m,2*n]   + 1j*Z[2*m,2*n+1] \
-                                              +1j*Z[2*m+1,2*n]    - Z[2*m+1,2*n+1])
+            # \bar{c}_m = (\bar{a}_m + i \bar{b}_m)/2 = \sum_n a_n c_n + \sum_n b_n c_n^\dagger
+            coeff_C    = 0.5 * (     Z[2*n,2*m]   + 1j*Z[2*n,2*m+1] \
+                                -1j*Z[2*n+1,2*m] +    Z[2*n+1,2*m+1])
+            coeff_CDag = 0.5 * (     Z[2*n,2*m]   + 1j*Z[2*n,2*m+1] \
+                                +1j*Z[2*n+1,2*m] -    Z[2*n+1,2*m+1])
             
-            # The \bar{c_m}^\dagger vectors
-            # \bar{c}_m^\dagger = \sum_n a_n c_n + ...
-            eigvecs_Fermion[2*m+1,n] = 0.5 * (    Z[2*m,2*n]   - 1j*Z[2*m,2*n+1] \
-                                              -1j*Z[2*m+1,2*n] -    Z[2*m+1,2*n+1])
-
-            # \bar{c}_m^\dagger = ... + \sum_n b_n c_n^\dagger
-            eigvecs_Fermion[2*m+1,2*n+1] = 0.5 * (    Z[2*m,2*n]   + 1j*Z[2*m,2*n+1] \
-                                                  -1j*Z[2*m+1,2*n]    + Z[2*m+1,2*n+1])
+            eigvecs_Fermion[m,n]   = coeff_C
+            eigvecs_Fermion[m,N+n] = coeff_CDag
+            
+            # \bar{c}_m^\dagger = \sum_n b_n^* c_n + \sum_n a_n^* c_n^\dagger
+            eigvecs_Fermion[N+m,n]   = np.conj(coeff_CDag)
+            eigvecs_Fermion[N+m,N+n] = np.conj(coeff_C)
             
     # The ground state energy
     constant_shift = -0.5*np.sum(eigvals)
-- 
2.43.0


From c34eecd7312ffc798fe1ec522061f50e35611c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 27/71] fix: pair the zero modes correctly in
 diagonalize_quadratic

---
 qosy/diagonalization.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index 6d538d4..26cf4c7 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -321,6 +321,24 @@ def diagonalize_quadratic(operator, num_orbitals, lattice=None, threshold=1e-12)
     # so that it forms 2x2 blocks of the form [[0, a], [-a, 0]].
     (T, Z) = sla.schur(A.toarray(), output='real')
     
+    # Zero modes show up as 1x1 blocks, which can occur
+    # between the 2x2 blocks. Move them to the end so that
+    # the columns 2n and 2n+1 always belong together.
+    tol_block   = threshold * max(1.0, np.max(np.abs(T)))
+    pair_inds   = []
+    single_inds = []
+    ind         = 0
+    while ind < 2*N:
+        if ind+1 < 2*N and np.abs(T[ind+1,ind]) > tol_block:
+            pair_inds.extend([ind, ind+1])
+            ind += 2
+        else:
+            single_inds.append(ind)
+            ind += 1
+    inds = pair_inds + single_inds
+    T    = T[inds,:][:,inds]
+    Z    = Z[:,inds]
+    
     # N (non-negative) eigenvalues
     # Note: the +/- eigenvalue pairs across the diagonal are
     # scrambled so that sometimes the positive one is on the
-- 
2.43.0


From 565a79f5ceb93efe7ee07045c9d1607b3877b0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 28/71] fix: orthonormal sorted vectors from the sparse
 free-fermion solvers and tight-binding operators given in Majorana form

---
 qosy/diagonalization.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index 26cf4c7..c2b7f71 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -384,7 +384,8 @@ def diagonalize_quadratic(operator, num_orbitals, lattice=None, threshold=1e-12)
 # TODO: document, test, finish
 def diagonalize_quadratic_tightbinding(operator, num_orbitals, num_vecs=None):
     
-    op = convert(operator, 'Fermion')
+    # The conversion can produce pairing terms with vanishing coefficients.
+    op = convert(operator, 'Fermion').remove_zeros(tol=1e-12)
     
     data = []
     row_inds = []
@@ -415,6 +416,12 @@ def diagonalize_quadratic_tightbinding(operator, num_orbitals, num_vecs=None):
         (evals, evecs) = nla.eigh(tight_binding_hamiltonian.toarray())
     else:
         (evals, evecs) = ssla.eigsh(tight_binding_hamiltonian, k=num_vecs, which='SA')
+
+        # For complex matrices, eigsh does not sort the eigenvalues or
+        # orthogonalize the eigenvectors of degenerate eigenvalues.
+        inds_sort = np.argsort(evals)
+        evals = evals[inds_sort]
+        (evecs, _) = nla.qr(evecs[:, inds_sort])
     
     return (evals, evecs)
 
@@ -476,6 +483,11 @@ def diagonalize_bdg(operator, num_orbitals, sigma=None, num_vecs=None, threshold
     evals = evals[inds_sort]
     evecs = evecs[:, inds_sort]
 
+    # For complex matrices, eigsh does not orthogonalize
+    # the eigenvectors of degenerate eigenvalues.
+    if num_vecs is not None:
+        (evecs, _) = nla.qr(evecs)
+
     U = evecs[:,0:N]
     U = U[0:N,:]
 
-- 
2.43.0


From 45ac2450affbd1eed685d399642935e15223c1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 29/71] fix: swap names correctly when one contains the other
 or the string contains parentheses

---
 qosy/tools.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/qosy/tools.py b/qosy/tools.py
index 54403e0..c4d6528 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -365,11 +365,7 @@ def swap(string, nameA, nameB):
         >>> qosy.swap('1 2 3', '1', '3') # '3 2 1'
     """
     
-    result = string.replace(nameA, '({})'.format(nameA))
-    result = result.replace(nameB, nameA)
-    result = result.replace('({})'.format(nameA), nameB)
-
-    return result
+    return replace(string, {nameA : nameB, nameB : nameA})
 
 def replace(string, substitutions):
     """ Perform many string replacements
-- 
2.43.0


From 20f3e7e4204685705ee9490464bc6dceb464c865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 30/71] fix: compare the objects of the list in argsort, as
 documented

---
 qosy/symmetrization.py | 5 +----
 qosy/tools.py          | 3 ++-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index 2b1a9a8..d12843e 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -115,10 +115,7 @@ def _symmetrize_atoms(lattice, G, tol=1e-12):
     # Break ties by considering the distance
     # from the origin along each axis.
     distances = [(nla.norm(pos),)+tuple(np.abs(pos))+tuple(pos) for (pos, _) in sym_atom_info]
-    def _comp(ind1, ind2):
-        tup1 = distances[ind1]
-        tup2 = distances[ind2]
-
+    def _comp(tup1, tup2):
         # Ignore equal entries.
         comparison_vec = np.abs(np.array(tup1) - np.array(tup2)) < tol
         index_tup = 0
diff --git a/qosy/tools.py b/qosy/tools.py
index c4d6528..e251423 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -300,7 +300,8 @@ def argsort(mylist, comp=None):
     if comp is None:
         return sorted(range(len(mylist)), key=mylist.__getitem__)
     else:
-        return sorted(range(len(mylist)), key=cmp_to_key(comp))
+        key = cmp_to_key(comp)
+        return sorted(range(len(mylist)), key=lambda ind: key(mylist[ind]))
 
 def remove_duplicates(objects, equiv=None, tol=1e-12):
     """Remove duplicate objects from
-- 
2.43.0


From e7f746bcc6ecf080a725441c74ed7bd1e13b34b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 31/71] fix: allow no substitutions in replace

---
 qosy/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qosy/tools.py b/qosy/tools.py
index e251423..a2efdf6 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -389,6 +389,9 @@ def replace(string, substitutions):
         >>> qosy.tools.replace('ABC', {'A':'AB', 'B':'D', 'C':'AC'}) # 'ABDAC'
     """
     
+    if len(substitutions) == 0:
+        return string
+    
     # From https://gist.github.com/carlsmith/b2e6ba538ca6f58689b4c18f46fef11c
     
     substrings = sorted(substitutions, key=len, reverse=True)
-- 
2.43.0


From 5b6faa4a5b72f7b903200f1a76f6d3458f9c3774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 32/71] fix: make the selected-CI searches use the Liouvillian
 matrix returned by _explore

---
 qosy/algorithms.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 7e324fd..b1c22fe 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -15,7 +15,7 @@ import scipy.sparse.linalg as ssla
 from .tools import intersection, gram_schmidt, sparsify
 from .operatorstring import opstring
 from .basis import Basis, Operator
-from .algebra import commutator, commutant_matrix, structure_constants, product, anticommutator
+from .algebra import commutator, commutant_matrix, liouvillian_matrix, structure_constants, product, anticommutator
 from .transformation import symmetry_matrix
     
 def _truncate_basis(basis, vector, threshold=1e-6, max_basis_size=100, filter_fun=None):
@@ -298,8 +298,8 @@ def selected_ci(initial_operator, H, num_steps, threshold=1e-6, max_basis_size=1
         print('Expanded basis: {}'.format(len(basis)))
 
         # Find best operator in basis
-        (s_constants, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-        com_matrix = _com_matrix(s_constants, H).real
+        (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+        com_matrix = ((l_matrix.H).dot(l_matrix)).real
         
         if len(basis) < 2*max_num_evecs:
             (evals, evecs) = nla.eigh(com_matrix.toarray())
@@ -436,8 +436,8 @@ def selected_ci_sweep(initial_operator, H, num_sweeps, threshold=1e-6, max_basis
             print('  Expanded basis: {}'.format(len(basis)))
 
             # Find best operator in basis
-            (s_constants, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-            com_matrix = _com_matrix(s_constants, H).real
+            (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+            com_matrix = ((l_matrix.H).dot(l_matrix)).real
 
             orig_com_matrix = com_matrix.copy()
             
@@ -577,9 +577,8 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
             operator = operators[-1]
         
         # O -> [H,O]
-        (s_constants1, extended_basis1) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+        (l_matrix1, extended_basis1) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
 
-        l_matrix1    = _l_matrix(s_constants1, H)
         com_H_operator = l_matrix1.dot(ss.csr_matrix(operator.coeffs).T)
 
         # largest term of [H,O] is A; A -> largest term B in [H,A]
@@ -587,9 +586,7 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
         for indA in inds_largest_termsA:
             A_basis1 = Basis()
             A_basis1 += extended_basis1[indA]
-            (s_constants2, extended_basis2) = _explore(A_basis1, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-
-            l_matrix2 = _l_matrix(s_constants2, H)
+            (l_matrix2, extended_basis2) = _explore(A_basis1, H, explored_basis, explored_extended_basis, explored_s_constants_data)
 
             #A = ss.csr_matrix(([1.0], ([0], [0])), shape=(1,1), dtype=complex)
             com_H_A = l_matrix2.toarray()[:,0]
@@ -622,8 +619,8 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
             previous_basis = copy.deepcopy(basis)
             
         # Find best operator in basis
-        (s_constants, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-        com_matrix = _com_matrix(s_constants, H).real
+        (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+        com_matrix = ((l_matrix.H).dot(l_matrix)).real
         
         if len(basis) < 20:
             (evals, evecs) = nla.eigh(com_matrix.toarray())
-- 
2.43.0


From af6807d4bfd050ccbec49cd58496eb12c2673c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:48 +0000
Subject: [PATCH 33/71] fix: keep the coefficients of the truncated operator in
 selected_ci_greedy

---
 qosy/algorithms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index b1c22fe..86772fb 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -1016,12 +1016,13 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
             best_com_norm = com_norm
         
         # Truncate basis
+        expanded_basis = basis
         basis = _truncate_basis(basis, evecs[:,0], threshold=threshold, max_basis_size=max_basis_sizes_arr[step])
         if verbose:
             print('  Truncated basis: {}'.format(len(basis)))
 
         # Truncate the operator into the new basis
-        new_coeffs = [vector[basis.index(os)] for os in basis]
+        new_coeffs = [vector[expanded_basis.index(os)] for os in basis]
         operator = Operator(new_coeffs, basis.op_strings)
 
         # Stop early if reached the target commutator norm threshold.
@@ -1253,6 +1254,7 @@ def selected_ci_greedy_many_ops2(initial_operators, H, num_steps, num_H_terms=10
         for ind_vec in range(num_ops):
             random_sum_vec += (2.0*np.random.rand()-1.0) * evecs[:,ind_vec]
         random_sum_vec /= nla.norm(random_sum_vec)    
+        expanded_basis = basis
         basis = _truncate_basis(basis, random_sum_vec, threshold=threshold, max_basis_size=max_basis_size)
         if verbose:
             print('  Truncated basis: {}'.format(len(basis)))
@@ -1260,7 +1262,7 @@ def selected_ci_greedy_many_ops2(initial_operators, H, num_steps, num_H_terms=10
         # Truncate the operator into the new basis
         current_operators = []
         for ind_vec in range(num_ops):
-            new_coeffs = [evecs[basis.index(os),ind_vec] for os in basis]
+            new_coeffs = [evecs[expanded_basis.index(os),ind_vec] for os in basis]
             new_op     = Operator(new_coeffs, basis.op_strings)
             current_operators.append(new_op)
         
-- 
2.43.0


From 366a86d48b43ab03b9188900a8843d44ac2cfe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 34/71] fix: stop selected_ci_greedy_simple when the basis
 cannot be expanded

---
 qosy/algorithms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 86772fb..815b942 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -583,6 +583,7 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
 
         # largest term of [H,O] is A; A -> largest term B in [H,A]
         inds_largest_termsA = np.argsort(np.abs(com_H_operator.toarray().flatten()))[::-1]
+        ind_largest_termB   = None
         for indA in inds_largest_termsA:
             A_basis1 = Basis()
             A_basis1 += extended_basis1[indA]
@@ -603,6 +604,10 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
             else:
                 print('Failed to find a B, picking new A.')
                 
+        # Stop if the basis cannot be expanded.
+        if ind_largest_termB is None:
+            break
+        
         # Insert B into the basis
         basis += extended_basis2[ind_largest_termB]
         
-- 
2.43.0


From 41c6ddccc0ccf27f54242e2bad9d0d74bd6c8937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 35/71] fix: commute with all of the given operators in
 selected_ci_greedy

---
 qosy/algorithms.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 815b942..3a24f80 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -745,6 +745,11 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
     else:
         (explored_basis, explored_extended_basis, explored_s_constants_data) = explored_data
 
+    # The data for commuting with the other operators is kept
+    # separately, since they are made of other OperatorStrings.
+    explored_data_com_ops = [(explored_basis, explored_extended_basis, explored_s_constants_data)] \
+                            + [(Basis(), Basis(), dict()) for _ in com_ops[1:]]
+
     # Keep track of how OperatorStrings
     # anti-commute with O during the calculation.
     explored_anticommutations = dict()
@@ -781,8 +786,8 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
         inds_largest_termsA = inds_largest_termsA[0:num_lterms]
         A_basis1 = Basis([extended_basis1[ind] for ind in inds_largest_termsA])
 
-        for com_op in com_ops:
-            (l_matrix2, extended_basis2) = _explore(A_basis1, com_op, explored_basis, explored_extended_basis, explored_s_constants_data)
+        for (com_op, explored_data_com_op) in zip(com_ops, explored_data_com_ops):
+            (l_matrix2, extended_basis2) = _explore(A_basis1, com_op, *explored_data_com_op)
         
             #l_matrix2 = _l_matrix(s_constants2, com_op)
         
@@ -907,7 +912,7 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
         com_matrix_H = ss.csr_matrix((len(basis), len(basis)), dtype=float)
         for ind_com_op in range(len(com_ops)):
             com_op = com_ops[ind_com_op]
-            (l_matrix, _) = _explore(basis, com_op, explored_basis, explored_extended_basis, explored_s_constants_data)
+            (l_matrix, _) = _explore(basis, com_op, *explored_data_com_ops[ind_com_op])
             cdagc_real = ((l_matrix.H).dot(l_matrix)).real
             com_matrix += cdagc_real
             if ind_com_op == 0:
-- 
2.43.0


From 09a19b9ca2e9018532db87f8719af2aefa7780c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:24 +0000
Subject: [PATCH 36/71] fix: report the commutator norm with H alone in
 selected_ci_greedy with transformations or a target operator

---
 qosy/algorithms.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 3a24f80..45b0b61 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -943,7 +943,7 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
 
         # Recompute the commutator norms for just
         # commuting with the Hamiltonian.
-        if len(com_ops) > 1 or orth_ops is not None:
+        if len(com_ops) > 1 or orth_ops is not None or transformations is not None:
             for ind_vec in range(int(evecs.shape[1])):
                 vec = ss.csr_matrix(evecs[:, ind_vec].reshape((len(basis), 1)), dtype=complex)
                 evals[ind_vec] = (vec.H).dot(com_matrix_H.dot(vec))[0,0].real
@@ -972,6 +972,11 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
             # even though it is not an eigenstate of the commutant matrix.
             (vector, com_norm, fidelity) = highest_fidelity_operator(target_op, evecs, evals, basis)
             
+            # The eigenvectors are not those of the commutant matrix of H if
+            # there are other operators or constraints, so recompute the norm.
+            vec      = ss.csr_matrix(vector.reshape((len(basis), 1)), dtype=complex)
+            com_norm = (vec.H).dot(com_matrix_H.dot(vec))[0,0].real
+            
             if target_fidelity is not None and (fidelity < target_fidelity):
                 # If it fails on the first step, it likely
                 # will keep failing.
-- 
2.43.0


From f9d6987355ead7c761132bf1a0fd575157623f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:27 +0000
Subject: [PATCH 37/71] fix: allow all terms to be truncated in
 _truncate_operator

---
 qosy/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 45b0b61..000f7cf 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -42,7 +42,7 @@ def _truncate_operator(operator, threshold=1e-6, max_basis_size=100, filter_fun=
     truncated_basis = _truncate_basis(operator._basis, operator.coeffs, threshold=threshold, max_basis_size=max_basis_size, filter_fun=filter_fun)
 
     coeffs = [operator.coeffs[operator._basis.index(os)] for os in truncated_basis]
-    result = Operator(coeffs, truncated_basis.op_strings)
+    result = Operator(coeffs, truncated_basis.op_strings, op_type=operator.op_type)
     return result
 
 def _l_matrix(s_constants, operator):
-- 
2.43.0


From 78a7f99672573b1caed4ee2e4f5e60e2ac06214b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:42 +0000
Subject: [PATCH 38/71] fix: return only true ladder operators from
 _ladder_operators, and all of them

---
 qosy/core.py | 60 ++++++++++++++++++++++------------------------------
 1 file changed, 25 insertions(+), 35 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index d82458b..636738e 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -844,28 +844,28 @@ def _ladder_operators(basis, operator, sparsification=False, tol=1e-12, return_o
     print('basisB     = \n{}'.format(basisB))
     print('smallest_basisAB = \n{}'.format(smallest_basisAB))
     
-    if len(inds_os_notAB_in_B) > 0:
-        # The Liouvillian matrix whose output is projected out of basisAB.
-        # L_notAB: A \intersect B -> B/(A \intersect B) = B/A
-        L_notAB = L[inds_os_notAB_in_B, :]
-        L_notAB = L_notAB[:, inds_os_AB_in_A].toarray()
-
-        # Perform SVD on the L_notAB to determine the right null vectors.
-        # These are the vectors we care about: they stay in basisAB after
+    # Find the largest subspace of basisAB that the Liouvillian matrix
+    # maps to itself. All ladder operators are in this subspace.
+    num_AB     = len(inds_os_AB_in_A)
+    L_cols     = L[:, inds_os_AB_in_A].toarray()
+    L_notAB    = L_cols[inds_os_notAB_in_B, :]
+    valid_vecs = np.eye(num_AB, dtype=complex)
+    while valid_vecs.shape[1] > 0:
+        # The part of the output that is not in the subspace.
+        output_AB = np.dot(L_AB, valid_vecs)
+        output_AB = output_AB - np.dot(valid_vecs, np.dot(np.conj(np.transpose(valid_vecs)), output_AB))
+        outside   = np.vstack((output_AB, np.dot(L_notAB, valid_vecs)))
+
+        # The right null vectors stay in the subspace after
         # applying the Liouvillian matrix.
-        (left_svecs, svals, right_svecsH) = nla.svd(L_notAB)
+        (left_svecs, svals, right_svecsH) = nla.svd(outside)
+        num_nonzero_svals = np.sum(svals > np.maximum(tol, 1e-10*np.max(np.abs(L_cols))))
+        if num_nonzero_svals == 0:
+            break
+        valid_vecs = np.dot(valid_vecs, np.conj(np.transpose(right_svecsH))[:, num_nonzero_svals:])
 
-        inds_zero_svals = np.where(np.abs(svals) < tol)[0]
-        print('inds_zero_svals = {}'.format(inds_zero_svals))
-        valid_vecs      = np.conj(np.transpose(right_svecsH))[:, inds_zero_svals]
-        
-        print('svals      = {}'.format(svals))
-        #print('valid_vecs = {}'.format(valid_vecs))
-
-        # The L_A matrix projected onto the valid vectors that stay in basisA.
-        projected_L = np.dot(np.conj(np.transpose(valid_vecs)), np.dot(L_AB, valid_vecs))
-    else:
-        projected_L = L_AB
+    # The L_A matrix projected onto the valid vectors that stay in basisA.
+    projected_L = np.dot(np.conj(np.transpose(valid_vecs)), np.dot(L_AB, valid_vecs))
 
     print('projected_L = {}'.format(projected_L))
     check_hermitian = np.allclose(np.conj(np.transpose(projected_L))-projected_L, np.zeros(projected_L.shape))
@@ -875,25 +875,15 @@ def _ladder_operators(basis, operator, sparsification=False, tol=1e-12, return_o
     (evals, evecs) = nla.eigh(0.5*(projected_L + np.conj(np.transpose(projected_L))))
 
     print('evals = {}'.format(evals))
-    #print('evecs = {}'.format(evecs))
 
-    # Find all of the positive eigenvalues that
-    # come paired with a negative eigenvalue partner.
-    inds_pos           = np.where(np.logical_and(np.imag(evals) < tol, np.real(evals) > tol))[0]
-    inds_pos_partnered = []
-    for ind_pos_ev in inds_pos:
-        inds_neg_ev = np.where(np.abs(evals[ind_pos_ev] + evals) < tol)[0]
-        if len(inds_neg_ev) > 0: 
-            inds_pos_partnered.append(ind_pos_ev)
+    # Find all of the positive eigenvalues. They always come paired with
+    # a negative eigenvalue, whose eigenvector is the Hermitian conjugate.
+    inds_pos = np.where(evals > np.maximum(tol, 1e-10*np.max(np.abs(L_cols))))[0]
 
     print('inds_pos           = {}'.format(inds_pos))
-    print('inds_pos_partnered = {}'.format(inds_pos_partnered))
             
-    ladder_evals = np.real(evals[inds_pos_partnered])
-    if len(inds_os_notAB_in_B) > 0:
-        ladder_evecsAB = np.dot(valid_vecs, evecs[:, inds_pos_partnered])
-    else:
-        ladder_evecsAB = evecs[:, inds_pos_partnered]
+    ladder_evals   = evals[inds_pos]
+    ladder_evecsAB = np.dot(valid_vecs, evecs[:, inds_pos])
         
     ladder_evecs                     = np.zeros((len(basisA), len(ladder_evals)), dtype=complex) 
     ladder_evecs[inds_os_AB_in_A, :] = ladder_evecsAB
-- 
2.43.0


From f721084225aa31c1d14fcc9b7b62bf8042e197f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 39/71] fix: return complete and valid results from
 _inverse_ladder_operators

---
 qosy/core.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index 636738e..f926268 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -1058,11 +1058,23 @@ def _inverse_ladder_operators(basis, ladder_operator, sparsification=True, tol=1
     
     # The right null vectors of the Liouvillian matrix.
     (left_svecs, svals, right_svecs_dag) = nla.svd(L.toarray())
-    inds_null_space = np.where(np.abs(svals) < tol)[0]
-    right_null_vecs = np.conj(right_svecs_dag.T)[:, inds_null_space]
+    num_nonzero_svals = np.sum(svals > tol*np.maximum(1.0, np.max(svals, initial=0.0)))
+    right_null_vecs   = np.conj(right_svecs_dag.T)[:, num_nonzero_svals:]
 
     if sparsification:
         right_null_vecs = sparsify(right_null_vecs)
+
+    if not return_operators:
+        null_vecs = right_null_vecs
+    else:
+        null_vecs = []
+        if isinstance(basis, Basis):
+            for ind_ev in range(right_null_vecs.shape[1]):
+                null_vecs.append(Operator(right_null_vecs[:, ind_ev], basisA.op_strings))
+        elif isinstance(basis, list) and isinstance(basis[0], Operator):
+            raise NotImplementedError('A basis made of a list of Operators is not supported yet.')
+        else:
+            raise ValueError('Invalid basis of type: {}'.format(type(basis)))
     
     # Check if the ladder operator can be expressed in basisB.
     check_ladder_op_in_B = True
@@ -1074,16 +1086,22 @@ def _inverse_ladder_operators(basis, ladder_operator, sparsification=True, tol=1
     # homogenous solutions (symmetries) and
     # no particular solution.
     if not check_ladder_op_in_B:
-        return (None, right_null_vecs)
+        return (None, null_vecs)
     
     vector_ladder_op = ladder_operator.to_vector(basisB)
     
     # The pseudo-inverse of the Liouvillian matrix.
-    L_pinv = nla.pinv(L.toarray())
+    L_pinv = nla.pinv(L.toarray(), rcond=tol)
 
     # The particular solution.
     vector_inverse_op = np.dot(L_pinv, vector_ladder_op)
 
+    # There is no particular solution if the ladder operator is
+    # not in the image of the Liouvillian matrix.
+    residual = L.dot(vector_inverse_op) - vector_ladder_op
+    if nla.norm(residual) > 1e-8*nla.norm(vector_ladder_op):
+        return (None, null_vecs)
+
     # TODO: modify. Keep only the real null vectors.
 
     print('basisA:\n{}\nbasisB:\n{}'.format(basisA,basisB))
@@ -1094,20 +1112,10 @@ def _inverse_ladder_operators(basis, ladder_operator, sparsification=True, tol=1
     
     if not return_operators:
         vector_inverse_op /= nla.norm(vector_inverse_op)
-        return (vector_inverse_op, right_null_vecs)
+        return (vector_inverse_op, null_vecs)
     else:
         inverse_op = Operator(vector_inverse_op, basisA.op_strings)
         inverse_op = inverse_op.remove_zeros(tol=tol)
         inverse_op.normalize()
-        
-        null_vec_ops = []
-        if isinstance(basis, Basis):
-            for ind_ev in range(right_null_vecs.shape[1]):
-                null_vec_op = Operator(right_null_vecs[:, ind_ev], basisA.op_strings)
-                null_vec_ops.append(null_vec_op)
-        elif isinstance(basis, list) and isinstance(basis[0], Operator):
-            raise NotImplementedError('A basis made of a list of Operators is not supported yet.')
-        else:
-            raise ValueError('Invalid basis of type: {}'.format(type(basis)))
 
-        return (inverse_op, null_vec_ops)
+        return (inverse_op, null_vecs)
-- 
2.43.0


From 5b5cea5f237d5530b0ede1ad8cd3088d4d79c098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:51 +0000
Subject: [PATCH 40/71] fix: allow empty operators to be normalised in any norm
 (and printed)

---
 qosy/basis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qosy/basis.py b/qosy/basis.py
index 4cd2940..10c9aa2 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -411,6 +411,9 @@ class Operator:
         >>> operator.norm(order=numpy.inf) # 1.0
         """
         
+        if len(self.coeffs) == 0:
+            return 0.0
+        
         return np.linalg.norm(self.coeffs, ord=order)
 
     def normalize(self, order=None):
-- 
2.43.0


From dbe1d1bd4790c9ef244613ac46b7336a83ff5333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:00 +0000
Subject: [PATCH 41/71] fix: reject OperatorStrings with an unknown type or
 with operators of another type

---
 qosy/operatorstring.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/qosy/operatorstring.py b/qosy/operatorstring.py
index 9a91a95..68ee4d3 100644
--- a/qosy/operatorstring.py
+++ b/qosy/operatorstring.py
@@ -125,6 +125,18 @@ class OperatorString:
         if len(self.orbital_operators) != len(self.orbital_labels):
             raise ValueError('The number of orbital operators and labels is inconsistent for the OperatorString: {} {}'.format(len(self.orbital_operators), len(self.orbital_labels)))
 
+        if self.op_type == 'Pauli':
+            valid_ops = PAULI_OPS
+        elif self.op_type == 'Majorana':
+            valid_ops = MAJORANA_OPS
+        elif self.op_type == 'Fermion':
+            valid_ops = FERMION_OPS
+        else:
+            raise ValueError('Unknown operator string type: {}'.format(self.op_type))
+
+        if not all(orb_op in valid_ops for orb_op in self.orbital_operators):
+            raise ValueError('Invalid orbital operators for an OperatorString of op_type {}: {}'.format(self.op_type, self.orbital_operators))
+
         self.prefactor = prefactor
 
         # Stored for use in computing commutators.
-- 
2.43.0


From f0773f3ab537048f25cd10dcdf1cc523ef97633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:08 +0000
Subject: [PATCH 42/71] fix: reject products and (anti-)commutators of
 OperatorStrings of different types

---
 qosy/algebra.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qosy/algebra.py b/qosy/algebra.py
index 104861d..0eb34cf 100644
--- a/qosy/algebra.py
+++ b/qosy/algebra.py
@@ -25,6 +25,9 @@ def _operation_opstring(op_string_A, op_string_B, operation_mode='commutator', t
     """
     
     op_type = op_string_A.op_type
+    if op_string_B.op_type != op_type:
+        raise ValueError('Cannot perform algebraic operation {} between OperatorStrings of types {} and {}.'.format(operation_mode, op_type, op_string_B.op_type))
+
     if not (op_type == 'Pauli' or op_type == 'Majorana'):
         raise NotImplementedError('Unsupported commutator between operator strings of type: {}'.format(op_type))
 
-- 
2.43.0


From 8f4acd980bd36352e9654696e8c571baffb4c985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:14 +0000
Subject: [PATCH 43/71] fix: reject unknown operation modes instead of
 returning zero

---
 qosy/algebra.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qosy/algebra.py b/qosy/algebra.py
index 0eb34cf..1ad49f6 100644
--- a/qosy/algebra.py
+++ b/qosy/algebra.py
@@ -25,6 +25,9 @@ def _operation_opstring(op_string_A, op_string_B, operation_mode='commutator', t
     """
     
     op_type = op_string_A.op_type
+    if operation_mode not in ['commutator', 'anticommutator', 'product']:
+        raise ValueError('Unknown operation_mode: {}'.format(operation_mode))
+
     if op_string_B.op_type != op_type:
         raise ValueError('Cannot perform algebraic operation {} between OperatorStrings of types {} and {}.'.format(operation_mode, op_type, op_string_B.op_type))
 
-- 
2.43.0


From 34517398130633b1d3d1a6c0e0a6a051c568e0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 44/71] fix: reject Operators whose coefficients,
 OperatorStrings and type are inconsistent

---
 qosy/basis.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qosy/basis.py b/qosy/basis.py
index 10c9aa2..8d2751d 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -337,8 +337,16 @@ class Operator:
             raise ValueError('Cannot create a Basis of OperatorStrings from an object of type: {}.'.format(type(op_strings)))
         self.op_type = op_type
 
+        if len(self.coeffs) != len(self._basis.op_strings):
+            raise ValueError('The number of coefficients and OperatorStrings is inconsistent for the Operator: {} {}'.format(len(self.coeffs), len(self._basis.op_strings)))
+
         if len(self._basis.op_strings) != 0:
             self.op_type = self._basis.op_strings[0].op_type
+
+            if not all(op_string.op_type == self.op_type for op_string in self._basis.op_strings):
+                raise ValueError('Cannot create an Operator from OperatorStrings of different types.')
+            if op_type is not None and op_type != self.op_type:
+                raise ValueError('The input op_type and the op_type of the OperatorStrings do not agree: {} {}'.format(op_type, self.op_type))
         elif len(self._basis.op_strings) == 0 and op_type is None:
             raise ValueError('Cannot create an empty (zero) operator without specifying the op_type.')
 
-- 
2.43.0


From 5cb2a96bf031020b0e97c82f9de876bc63c7b9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 45/71] fix: reject a Basis of objects that are not
 OperatorStrings

---
 qosy/basis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qosy/basis.py b/qosy/basis.py
index 8d2751d..da7bc51 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -56,6 +56,8 @@ class Basis:
         
         for ind_os in range(len(self.op_strings)):
             op_string = self.op_strings[ind_os]
+            if not isinstance(op_string, OperatorString):
+                raise TypeError('Cannot create a Basis from an object of type {}.'.format(type(op_string)))
             self._indices[op_string] = ind_os
 
         if len(self._indices) != len(self.op_strings):
-- 
2.43.0


From fe68098541e53ce6a420b98e10da64795d4ed0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:03 +0000
Subject: [PATCH 46/71] fix: reject matrices of OperatorStrings that act
 outside of the orbitals

---
 qosy/diagonalization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index c2b7f71..13e5755 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -55,6 +55,9 @@ def _apply_opstring(op_string, conf, num_orbitals):
 
 def _to_matrix_opstring(op_string, num_orbitals, return_tuple=False):
     # Converts an OperatorString to a sparse matrix.
+    if not all(0 <= label < num_orbitals for label in op_string.orbital_labels):
+        raise ValueError('OperatorString acts on orbitals outside of the {} orbitals: {}'.format(num_orbitals, op_string))
+
     if op_string.op_type == 'Pauli':
         row_inds = []
         col_inds = []
-- 
2.43.0


From 4c12750f7b4be7572d78d2709e2b387ac4073667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 47/71] fix: reject Pauli and Majorana strings with repeated
 orbital labels

---
 qosy/operatorstring.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qosy/operatorstring.py b/qosy/operatorstring.py
index 68ee4d3..ea4c65f 100644
--- a/qosy/operatorstring.py
+++ b/qosy/operatorstring.py
@@ -145,6 +145,9 @@ class OperatorString:
         for ind_orbital in range(len(self.orbital_labels)):
             self._indices_orbital_labels[self.orbital_labels[ind_orbital]] = ind_orbital
         
+        if self.op_type != 'Fermion' and len(self._indices_orbital_labels) != len(self.orbital_labels):
+            raise ValueError('The orbital labels of an OperatorString of op_type {} are not unique: {}'.format(self.op_type, self.orbital_labels))
+
         # Compute the prefactor automatically if a Majorana operator.
         if self.op_type == 'Majorana':
             # Stored for use in computing commutators.
-- 
2.43.0


From 254378ec21e55e5c5fad49da08cc57fd742b2039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:59 +0000
Subject: [PATCH 48/71] fix: reject empty Operators of an unknown type

---
 qosy/basis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qosy/basis.py b/qosy/basis.py
index da7bc51..10f5465 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -351,6 +351,8 @@ class Operator:
                 raise ValueError('The input op_type and the op_type of the OperatorStrings do not agree: {} {}'.format(op_type, self.op_type))
         elif len(self._basis.op_strings) == 0 and op_type is None:
             raise ValueError('Cannot create an empty (zero) operator without specifying the op_type.')
+        elif op_type not in ['Pauli', 'Majorana', 'Fermion']:
+            raise ValueError('Unknown operator string type: {}'.format(op_type))
 
     def remove_zeros(self, tol=1e-16):
         """Remove OperatorStrings with zero coefficients
-- 
2.43.0


From dcba8ba0e7208e5a5b23e64296f9dcc6b52898c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 49/71] fix: reject Lattices with inconsistent dimensions

---
 qosy/lattice.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qosy/lattice.py b/qosy/lattice.py
index 3331dc4..4064f91 100644
--- a/qosy/lattice.py
+++ b/qosy/lattice.py
@@ -108,6 +108,9 @@ class Lattice:
             self.periodic_boundaries = np.zeros(self.dim, dtype=bool)
         else:
             self.periodic_boundaries = np.array(periodic_boundaries, dtype=bool)
+
+        if self.dim != len(unit_cell.lattice_vectors) or self.dim != len(self.periodic_boundaries):
+            raise ValueError('The numbers of lattice vectors, unit cells and boundary conditions of the Lattice are inconsistent: {} {} {}'.format(len(unit_cell.lattice_vectors), self.dim, len(self.periodic_boundaries)))
             
         for coords_cell in coords_cells:
             for (pos_atom, orbitals_atom) in zip(self.unit_cell.atom_positions, self.unit_cell.atom_orbitals):
-- 
2.43.0


From f26934eb5b463eb239a2f7f01243fbbd5cc58a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:23 +0000
Subject: [PATCH 50/71] fix: wrap positions up to roundoff in Lattice.index

---
 qosy/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/lattice.py b/qosy/lattice.py
index 4064f91..9b9fa28 100644
--- a/qosy/lattice.py
+++ b/qosy/lattice.py
@@ -192,7 +192,7 @@ class Lattice:
         result = np.array(position, dtype=float)
         for ind_vec in range(self.dim):
             if self.periodic_boundaries[ind_vec]:
-                num_periods = np.floor(coords[ind_vec] / self.num_cells[ind_vec])
+                num_periods = np.floor(coords[ind_vec] / self.num_cells[ind_vec] + self.tol)
                 result     -= num_periods * self.num_cells[ind_vec] * self.unit_cell.lattice_vectors[ind_vec]
 
         return result
-- 
2.43.0


From 554eeca1fcef1e6f310ffd4f0c0c75c78eb507f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 51/71] fix: allow a list of basis sizes in
 selected_ci_greedy_many_ops

---
 qosy/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 000f7cf..c2b36b4 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -1112,7 +1112,7 @@ def selected_ci_greedy_many_ops(initial_operators, H, num_steps, num_H_terms=10,
 
             # Truncate the operator.
             if step > 0:
-                current_op = _truncate_operator(current_op, threshold=threshold, max_basis_size=max_basis_size)
+                current_op = _truncate_operator(current_op, threshold=threshold, max_basis_size=max_basis_sizes[step-1])
 
             com_ops = H
             #com_ops = [H] + [current_operators[ind_op2] for ind_op2 in range(num_operators) if ind_op2 != ind_op]
-- 
2.43.0


From 544ca78d68df04659e75d98a15b74447f7a6991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 52/71] fix: report the commutator norm with H alone in
 selected_ci_greedy_many_ops2 with orthogonality constraints

---
 qosy/algorithms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index c2b36b4..f624225 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -1228,11 +1228,12 @@ def selected_ci_greedy_many_ops2(initial_operators, H, num_steps, num_H_terms=10
         
         # Find best operators in basis
         (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-        com_matrix = ((l_matrix.H).dot(l_matrix)).real
+        com_matrix_H = ((l_matrix.H).dot(l_matrix)).real
+        com_matrix   = com_matrix_H
             
         # Orthogonalize against the given operators.
         if orth_ops is not None:
-            com_matrix = _orthogonalize_com_matrix(com_matrix, basis, orth_ops)
+            com_matrix = _orthogonalize_com_matrix(com_matrix_H, basis, orth_ops)
             
         if len(basis) < 20 and num_ops < 20:
             (evals, evecs) = nla.eigh(com_matrix.toarray())
@@ -1249,7 +1250,7 @@ def selected_ci_greedy_many_ops2(initial_operators, H, num_steps, num_H_terms=10
         if orth_ops is not None:
             for ind_vec in range(int(evecs.shape[1])):
                 vec = ss.csr_matrix(evecs[:, ind_vec].reshape((len(basis), 1)), dtype=complex)
-                evals[ind_vec] = (vec.H).dot(com_matrix.dot(vec))[0,0].real
+                evals[ind_vec] = (vec.H).dot(com_matrix_H.dot(vec))[0,0].real
                 
             inds_sort = np.argsort(np.abs(evals))
             evals = evals[inds_sort]
-- 
2.43.0


From e1b21d6bd9db44c2b308f7b432bed0a92dced95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 53/71] fix: obey the orthogonality and symmetry constraints of
 the selected-CI searches in small bases

---
 qosy/algorithms.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index f624225..f08986f 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -932,6 +932,12 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
         
         if len(basis) < 20 or num_vecs >= len(basis):
             (evals, evecs) = nla.eigh(com_matrix.toarray())
+            
+            # The vectors that do not obey the constraints can
+            # have smaller commutator norms with H, so drop them.
+            if orth_ops is not None or transformations is not None:
+                evals = evals[:num_vecs]
+                evecs = evecs[:, :num_vecs]
         else:
             maxiter  = 10*int(com_matrix.shape[0])*maxiter_scale
             
@@ -1237,6 +1243,12 @@ def selected_ci_greedy_many_ops2(initial_operators, H, num_steps, num_H_terms=10
             
         if len(basis) < 20 and num_ops < 20:
             (evals, evecs) = nla.eigh(com_matrix.toarray())
+            
+            # The vectors that do not obey the constraints can
+            # have smaller commutator norms with H, so drop them.
+            if orth_ops is not None:
+                evals = evals[:num_ops]
+                evecs = evecs[:, :num_ops]
         else:
             maxiter = 10*int(com_matrix.shape[0])*maxiter_scale
             (evals, evecs) = ssla.eigsh(com_matrix, k=num_ops, sigma=-1e-8, which='LM', maxiter=maxiter, tol=tol)
-- 
2.43.0


From d370385835ceadc5e58105c3db3b6f2522d046bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 54/71] fix: Orthogonalize nearly dependent columns to working
 precision in gram_schmidt

---
 qosy/tools.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qosy/tools.py b/qosy/tools.py
index a2efdf6..cac2596 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -471,8 +471,12 @@ def gram_schmidt(matrix, tol=0.0):
     for ind_col_unshifted in range(k):
         ind_col = ind_col_unshifted - shift
         new_matrix[:,ind_col] = matrix[:,ind_col_unshifted]
-        for ind_vec in range(ind_col):
-            new_matrix[:,ind_col] -= _vdot(new_matrix[:,ind_vec], new_matrix[:,ind_col]) * new_matrix[:,ind_vec]
+        # Orthogonalize twice, since a column that is nearly linearly
+        # dependent on the previous ones is not orthogonal to them
+        # to working precision after a single pass.
+        for _ in range(2):
+            for ind_vec in range(ind_col):
+                new_matrix[:,ind_col] -= _vdot(new_matrix[:,ind_vec], new_matrix[:,ind_col]) * new_matrix[:,ind_vec]
 
         norm = _norm(new_matrix[:,ind_col])
         
-- 
2.43.0


From c76e99bb251c44dc67e81bab994e5935b56c1ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 55/71] fix: Keep only the independent operators when
 orthogonalizing symmetric operators

---
 qosy/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index f926268..6d78239 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -22,6 +22,7 @@ many desired continuous and discrete symmetries at one.
 import warnings
 import numpy as np
 import numpy.linalg as nla
+import scipy.linalg as sla
 import scipy.sparse as ss
 import scipy.sparse.linalg as ssla
 
@@ -459,8 +460,13 @@ class SymmetricOperatorGenerator:
                 prev_ops   = self.projected_output_operators[start_projected+ind_output-1]
 
                 # V_N is a subspace of V_{N-1}, so only keep the part of
-                # V_{N-1} that is linearly independent of V_N.
-                matrix = np.hstack((curr_ops, prev_ops))
+                # V_{N-1} that is linearly independent of V_N. Order the
+                # operators so that the most independent ones are first
+                # and nearly dependent ones do not amplify rounding errors.
+                orth_ops     = gram_schmidt(curr_ops, tol=tol)
+                residual_ops = prev_ops - np.dot(orth_ops, np.dot(np.conj(orth_ops.T), prev_ops))
+                inds_pivot   = sla.qr(residual_ops, mode='economic', pivoting=True)[2] if residual_ops.size > 0 else []
+                matrix       = np.hstack((curr_ops, prev_ops[:, inds_pivot]))
             
                 self.projected_output_operators[start_projected+ind_output-1] = gram_schmidt(matrix, tol=tol)
 
-- 
2.43.0


From e169791e9a7fe1d8eed2cd5e843c2d21fb99295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 56/71] fix: Keep the constrained commutant matrices well
 conditioned in the selected-CI searches

---
 qosy/algorithms.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index f08986f..fadc6fc 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -97,7 +97,7 @@ def _orthogonalize_com_matrix(com_matrix, basis, orth_ops):
 
         proj_ops += orth_vec.dot(orth_vec.H)
         
-    large_number = 1e10
+    large_number = 1e8
     new_com_matrix += large_number * proj_ops
 
     return new_com_matrix.real
@@ -109,7 +109,7 @@ def _symmetrize_com_matrix(com_matrix, basis, transformations):
 
     new_com_matrix = com_matrix.copy()
 
-    large_number = 1e10
+    large_number = 1e8
     for transformation in transformations:
         matrix = symmetry_matrix(basis, transformation)
         matrix = 0.5*(matrix + matrix.H)
@@ -459,7 +459,7 @@ def selected_ci_sweep(initial_operator, H, num_sweeps, threshold=1e-6, max_basis
 
                     proj_ops += orth_vec.dot(orth_vec.H)
 
-                large_number = 1e12
+                large_number = 1e8
                 com_matrix += large_number * proj_ops
             
             # Rescale C^\dagger C to D^{-1/2} C^\dagger C D^{-1/2}
@@ -722,7 +722,7 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
         num_H_terms_arr = num_H_terms * np.ones(num_steps, dtype=int)
     
     if sigma is None:
-        sigma = -1e-8
+        sigma = -1e-6
     
     if num_vecs is None:
         num_vecs = 1
@@ -1251,7 +1251,7 @@ def selected_ci_greedy_many_ops2(initial_operators, H, num_steps, num_H_terms=10
                 evecs = evecs[:, :num_ops]
         else:
             maxiter = 10*int(com_matrix.shape[0])*maxiter_scale
-            (evals, evecs) = ssla.eigsh(com_matrix, k=num_ops, sigma=-1e-8, which='LM', maxiter=maxiter, tol=tol)
+            (evals, evecs) = ssla.eigsh(com_matrix, k=num_ops, sigma=-1e-6, which='LM', maxiter=maxiter, tol=tol)
             
             inds_sort = np.argsort(np.abs(evals))
             evals = evals[inds_sort]
-- 
2.43.0


From be5a434547f19d6e3b6a02f6ad5a3f61ee1027dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 57/71] fix: Report accurate commutator norms of the higher
 eigenvectors in selected_ci

---
 qosy/algorithms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index fadc6fc..d9fb98c 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -309,6 +309,9 @@ def selected_ci(initial_operator, H, num_steps, threshold=1e-6, max_basis_size=1
         else:
             maxiter = 10*int(com_matrix.shape[0])*maxiter_scale
             (evals, evecs) = ssla.eigsh(com_matrix, k=max_num_evecs, sigma=-1e-6, which='LM', maxiter=maxiter, tol=tol)
+
+            # The shift-invert method loses digits of the larger eigenvalues.
+            evals = np.real(np.sum(np.conj(evecs) * com_matrix.dot(evecs), axis=0))
                     
             inds_sort = np.argsort(np.abs(evals))
             evals = evals[inds_sort]
@@ -485,6 +488,9 @@ def selected_ci_sweep(initial_operator, H, num_sweeps, threshold=1e-6, max_basis
             else:
                 maxiter = 10*int(com_matrix.shape[0])*maxiter_scale
                 (evals, evecs) = ssla.eigsh(com_matrix, k=max_num_evecs, sigma=-1e-6, which='LM', maxiter=maxiter, tol=tol)
+
+                # The shift-invert method loses digits of the larger eigenvalues.
+                evals = np.real(np.sum(np.conj(evecs) * com_matrix.dot(evecs), axis=0))
                 
                 inds_sort = np.argsort(np.abs(evals))
                 evals = evals[inds_sort]
-- 
2.43.0


From ee5fcfec5b63d3888a2a9dbf937d4e048aad5bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:03 +0000
Subject: [PATCH 58/71] fix: plot draws the Wigner-Seitz cell of the origin for
 skew lattice vectors

---
 qosy/visualization.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/qosy/visualization.py b/qosy/visualization.py
index 41838fd..42dd309 100644
--- a/qosy/visualization.py
+++ b/qosy/visualization.py
@@ -322,20 +322,28 @@ def plot(lattice, with_labels=False, with_lattice_vectors=True, with_unit_cell=F
                 plt.arrow(0.0, 0.0, v[0], v[1], color='r', head_width=0.1, length_includes_head=True)
 
         if with_wigner_seitz:
+            # Reduce the lattice vectors to short ones, so that all of
+            # the neighbors of the origin are among the points below.
+            vec1, vec2 = [np.array(v, dtype=float) for v in lattice.unit_cell.lattice_vectors]
+            while True:
+                if nla.norm(vec2) < nla.norm(vec1):
+                    vec1, vec2 = vec2, vec1
+                reduced_vec2 = vec2 - np.round(np.dot(vec1, vec2)/np.dot(vec1, vec1)) * vec1
+                if nla.norm(reduced_vec2) >= nla.norm(vec2):
+                    break
+                vec2 = reduced_vec2
+
             points = []
             for n1 in [-1,0,1]:
                 for n2 in [-1,0,1]:
-                    points.append(n1*lattice.unit_cell.lattice_vectors[0] + \
-                                  n2*lattice.unit_cell.lattice_vectors[1])
+                    points.append(n1*vec1 + n2*vec2)
 
             points = np.array(points)
             vor = ssp.Voronoi(points)
 
-            # Plot the first non-trivial Voronoi region.
-            region_indices = []
-            for region in vor.regions:
-                if len(region) > 0 and -1 not in region:
-                    region_indices = region + [region[0]]
+            # Plot the Voronoi region of the origin, the point in the middle.
+            region         = vor.regions[vor.point_region[len(points)//2]]
+            region_indices = region + [region[0]]
                     
             for ind_r in range(len(region_indices)-1):
                 ind1 = region_indices[ind_r]
-- 
2.43.0


From bfd73997b499bc83ea4b5e9bbb9d6110bbce7a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:03 +0000
Subject: [PATCH 59/71] fix: plot both orbitals of two-orbital operator
 strings, each in its own color

---
 qosy/visualization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qosy/visualization.py b/qosy/visualization.py
index 42dd309..5ea1788 100644
--- a/qosy/visualization.py
+++ b/qosy/visualization.py
@@ -461,11 +461,11 @@ def plot_opstring(op_string, lattice, distance_cutoff=None, weight=1.0, marker_s
 
             # TODO: flag to plot only bonds involving a particular site
 
-            plt.plot([pos1[0]], [pos1[1]], color=markercolors[orb_op1], markeredgecolor=markercolors[orb_op1], alpha=0.5*np.abs(weight), markersize=marker_size)
+            plt.plot([pos1[0]], [pos1[1]], 'o', color=markercolors[orb_op1], markeredgecolor=markercolors[orb_op1], alpha=0.5*np.abs(weight), markersize=marker_size)
             if orb_name1 != '':
                 plt.annotate(orb_name1, xy=(pos1[0],pos1[1]), color='k')
             
-            plt.plot([pos2[0]], [pos2[1]], color=markercolors[orb_op1], markeredgecolor=markercolors[orb_op2], alpha=0.5*np.abs(weight), markersize=marker_size)
+            plt.plot([pos2[0]], [pos2[1]], 'o', color=markercolors[orb_op2], markeredgecolor=markercolors[orb_op2], alpha=0.5*np.abs(weight), markersize=marker_size)
             if orb_name2 != '':
                 plt.annotate(orb_name2, xy=(pos2[0],pos2[1]), color='k')
 
@@ -543,7 +543,7 @@ def plot_opstring(op_string, lattice, distance_cutoff=None, weight=1.0, marker_s
             if orb_name1 != '':
                 ax.text(pos1[0], pos1[1], pos1[2], orb_name1, size=20, zorder=1)
 
-            ax.scatter([pos2[0]], [pos2[1]], zs=[pos2[2]], marker='o', c=markercolors[orb_op1], alpha=0.5*np.abs(weight), s=marker_size)
+            ax.scatter([pos2[0]], [pos2[1]], zs=[pos2[2]], marker='o', c=markercolors[orb_op2], alpha=0.5*np.abs(weight), s=marker_size)
             if orb_name2 != '':
                 ax.text(pos2[0], pos2[1], pos2[2], orb_name2, size=20, zorder=1)
 
-- 
2.43.0


From 93cfe6318cbce1e74ca9cd9b19c6728df5bcdc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:04 +0000
Subject: [PATCH 60/71] fix: plot operator strings of many orbitals on
 one-dimensional lattices

---
 qosy/visualization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qosy/visualization.py b/qosy/visualization.py
index 5ea1788..ca528db 100644
--- a/qosy/visualization.py
+++ b/qosy/visualization.py
@@ -477,6 +477,9 @@ def plot_opstring(op_string, lattice, distance_cutoff=None, weight=1.0, marker_s
             positions = [lattice._orbitals[orb_label][0] for (orb_op, orb_label) in op_string]
             num_pos = len(positions)
 
+            if lattice.dim == 1:
+                positions = [np.array([pos[0], 0.0]) for pos in positions]
+
             # Order the points by angles from a reference point.
             reference_pos = np.mean(np.array(positions), axis=0) + 1e-12*(2.0*np.random.rand(2)-1.0)
             angles = np.zeros(num_pos)
-- 
2.43.0


From 7a56cd8d9300640c703138b4f8019491e27fbd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:04 +0000
Subject: [PATCH 61/71] fix: plotting an operator skips the identity

---
 qosy/visualization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qosy/visualization.py b/qosy/visualization.py
index ca528db..eeb9f74 100644
--- a/qosy/visualization.py
+++ b/qosy/visualization.py
@@ -427,6 +427,10 @@ def plot_opstring(op_string, lattice, distance_cutoff=None, weight=1.0, marker_s
     
     weight = np.real(weight)
 
+    # The identity does not act on any orbitals.
+    if len(op_string.orbital_operators) == 0:
+        return
+
     # 1D or 2D plots
     if lattice.dim == 1 or lattice.dim == 2:
         if len(op_string.orbital_operators) == 1:
-- 
2.43.0


From f4a229381e89529dabcc5c3381809fddb96c4357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:04 +0000
Subject: [PATCH 62/71] fix: warn about negative imaginary coefficients in
 plot_opstring

---
 qosy/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/visualization.py b/qosy/visualization.py
index eeb9f74..942360d 100644
--- a/qosy/visualization.py
+++ b/qosy/visualization.py
@@ -422,7 +422,7 @@ def plot_opstring(op_string, lattice, distance_cutoff=None, weight=1.0, marker_s
         
     max_width = 3.0
     
-    if np.imag(weight) > 1e-10:
+    if np.abs(np.imag(weight)) > 1e-10:
         warnings.warn('Cannot plot an operator string with an imaginary coefficient. Taking real part.')
     
     weight = np.real(weight)
-- 
2.43.0


From 24a56b8cf3a21f7478f55eb042a4796cf1a45cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:04 +0000
Subject: [PATCH 63/71] fix: plotting a zero operator draws nothing

---
 qosy/visualization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qosy/visualization.py b/qosy/visualization.py
index 942360d..1f8294f 100644
--- a/qosy/visualization.py
+++ b/qosy/visualization.py
@@ -582,6 +582,10 @@ def plot_operator(operator, lattice, distance_cutoff=None, marker_size=20):
        >>> qosy.show()
     """
 
+    # There is nothing to plot for a zero operator.
+    if len(operator.coeffs) == 0 or np.max(np.abs(operator.coeffs)) == 0.0:
+        return
+
     max_coeff = np.max(np.abs(operator.coeffs))
     
     for (coeff, op_string) in operator:
-- 
2.43.0


From 801766d02594016800d651f19001f28187f725ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:04 +0000
Subject: [PATCH 64/71] fix: selected_ci_greedy ends if target_fidelity cannot
 be reached

---
 qosy/algorithms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index d9fb98c..28d024a 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -991,8 +991,9 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
             
             if target_fidelity is not None and (fidelity < target_fidelity):
                 # If it fails on the first step, it likely
-                # will keep failing.
-                if step == 0:
+                # will keep failing. If there are no more
+                # eigenvectors to include, it will keep failing.
+                if step == 0 or int(evecs.shape[1]) >= len(basis):
                     # End early.
                     end_early = True
                     if verbose:
-- 
2.43.0


From 2feaa2d98910c35c4518ebb6a83432c6dcaec321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:04 +0000
Subject: [PATCH 65/71] fix: selected_ci_greedy enlarges ncv together with
 num_vecs

---
 qosy/algorithms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 28d024a..af6f394 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -1000,6 +1000,7 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
                         print('  fidelity = {} < {}, ending early.'.format(fidelity, target_fidelity))
                 else:
                     num_vecs += 1
+                    ncv       = 40*num_vecs
                     basis     = copy.deepcopy(previous_basis)
                     if verbose:
                         print('  num_vecs = {}'.format(num_vecs))
-- 
2.43.0


From d4615c3ae872a34542c077911742c7f67f72fa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:38 +0000
Subject: [PATCH 66/71] fix: selected_ci_sweep uses the dense solver for bases
 too small for the sparse one

---
 qosy/algorithms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index af6f394..4ab0a72 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -480,7 +480,8 @@ def selected_ci_sweep(initial_operator, H, num_sweeps, threshold=1e-6, max_basis
                 com_matrix = D_inv_sqrt.dot(com_matrix.dot(D_inv_sqrt))
                 com_matrix = com_matrix.real
                 
-            if len(basis) < 2*max_num_evecs:
+            # For complex matrices, eigsh finds at most len(basis)-2 eigenvectors.
+            if len(basis) < 2*max_num_evecs or len(basis) < max_num_evecs+2:
                 (evals, evecs) = nla.eigh(com_matrix.toarray())
                 num_vecs = np.minimum(len(evals), max_num_evecs)
                 evals = evals[0:num_vecs]
-- 
2.43.0


From 05df78606d01a1c72cb54eb483c6bbc758233524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:25 +0000
Subject: [PATCH 67/71] fix: find all of the ladder operators in bases with a
 long chain of excluded vectors

---
 qosy/core.py | 58 ++++++++++++++++++++++------------------------------
 1 file changed, 25 insertions(+), 33 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index 6d78239..83bb106 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -850,46 +850,38 @@ def _ladder_operators(basis, operator, sparsification=False, tol=1e-12, return_o
     print('basisB     = \n{}'.format(basisB))
     print('smallest_basisAB = \n{}'.format(smallest_basisAB))
     
-    # Find the largest subspace of basisAB that the Liouvillian matrix
-    # maps to itself. All ladder operators are in this subspace.
-    num_AB     = len(inds_os_AB_in_A)
-    L_cols     = L[:, inds_os_AB_in_A].toarray()
-    L_notAB    = L_cols[inds_os_notAB_in_B, :]
-    valid_vecs = np.eye(num_AB, dtype=complex)
-    while valid_vecs.shape[1] > 0:
-        # The part of the output that is not in the subspace.
-        output_AB = np.dot(L_AB, valid_vecs)
-        output_AB = output_AB - np.dot(valid_vecs, np.dot(np.conj(np.transpose(valid_vecs)), output_AB))
-        outside   = np.vstack((output_AB, np.dot(L_notAB, valid_vecs)))
-
-        # The right null vectors stay in the subspace after
-        # applying the Liouvillian matrix.
-        (left_svecs, svals, right_svecsH) = nla.svd(outside)
-        num_nonzero_svals = np.sum(svals > np.maximum(tol, 1e-10*np.max(np.abs(L_cols))))
-        if num_nonzero_svals == 0:
-            break
-        valid_vecs = np.dot(valid_vecs, np.conj(np.transpose(right_svecsH))[:, num_nonzero_svals:])
-
-    # The L_A matrix projected onto the valid vectors that stay in basisA.
-    projected_L = np.dot(np.conj(np.transpose(valid_vecs)), np.dot(L_AB, valid_vecs))
-
-    print('projected_L = {}'.format(projected_L))
-    check_hermitian = np.allclose(np.conj(np.transpose(projected_L))-projected_L, np.zeros(projected_L.shape))
-    print('projected_L is Hermitian: {}'.format(check_hermitian))
-        
-    # Perform eigendecomposition on the projected L matrix.
-    (evals, evecs) = nla.eigh(0.5*(projected_L + np.conj(np.transpose(projected_L))))
+    # Diagonalize the Liouvillian matrix projected into basisAB.
+    L_cols   = L[:, inds_os_AB_in_A].toarray()
+    L_notAB  = L_cols[inds_os_notAB_in_B, :]
+    max_L    = np.max(np.abs(L_cols))
+    (evals, evecs) = nla.eigh(0.5*(L_AB + np.conj(np.transpose(L_AB))))
 
     print('evals = {}'.format(evals))
 
     # Find all of the positive eigenvalues. They always come paired with
     # a negative eigenvalue, whose eigenvector is the Hermitian conjugate.
-    inds_pos = np.where(evals > np.maximum(tol, 1e-10*np.max(np.abs(L_cols))))[0]
+    inds_pos = np.where(evals > np.maximum(tol, 1e-10*max_L))[0]
 
     print('inds_pos           = {}'.format(inds_pos))
-            
-    ladder_evals   = evals[inds_pos]
-    ladder_evecsAB = np.dot(valid_vecs, evecs[:, inds_pos])
+
+    # For each group of (nearly) degenerate eigenvalues, find the vectors
+    # that are eigenvectors of the full Liouvillian matrix, whose output
+    # can leave basisAB.
+    ladder_evals   = []
+    ladder_evecsAB = []
+    for inds in np.split(inds_pos, np.where(np.diff(evals[inds_pos]) > 1e-7*max_L)[0]+1):
+        residuals = np.vstack((np.dot(L_AB, evecs[:, inds]) - evecs[:, inds]*evals[inds],
+                               np.dot(L_notAB, evecs[:, inds])))
+        (left_svecs, svals, right_svecsH) = nla.svd(residuals)
+        num_nonzero_svals = np.sum(svals > np.maximum(tol, 1e-6*max_L))
+        null_vecs         = np.conj(np.transpose(right_svecsH))[:, num_nonzero_svals:]
+
+        (evals_group, evecs_group) = nla.eigh(np.dot(np.conj(np.transpose(null_vecs))*evals[inds], null_vecs))
+        ladder_evals.append(evals_group)
+        ladder_evecsAB.append(np.dot(evecs[:, inds], np.dot(null_vecs, evecs_group)))
+
+    ladder_evals   = np.concatenate(ladder_evals)
+    ladder_evecsAB = np.hstack(ladder_evecsAB)
         
     ladder_evecs                     = np.zeros((len(basisA), len(ladder_evals)), dtype=complex) 
     ladder_evecs[inds_os_AB_in_A, :] = ladder_evecsAB
-- 
2.43.0


From 113935fc2fc0799761f15ccfed986afa1b9a3c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:28 +0000
Subject: [PATCH 68/71] fix: find lattice positions independently of the print
 options of numpy and of the size of the cell

---
 qosy/lattice.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/qosy/lattice.py b/qosy/lattice.py
index 9b9fa28..347e373 100644
--- a/qosy/lattice.py
+++ b/qosy/lattice.py
@@ -121,7 +121,7 @@ class Lattice:
 
                 # Make sure the zeros are exactly zero (no floating point roundoff).
                 pos      = np.array([x if np.abs(x) > self.tol else 0.0 for x in pos])
-                pos_name = np.array2string(pos.flatten(), precision=self.precision)
+                pos_name = self._position_name(pos)
 
                 for orbital_name in orbitals_atom:
                     ind_orbital = len(self._orbitals)
@@ -141,6 +141,11 @@ class Lattice:
                                          + [boundary_vec + pbv for pbv in previous_bvecs] \
                                          + [-boundary_vec + pbv for pbv in previous_bvecs]
                     
+    def _position_name(self, position):
+        # Identifies positions that agree up to the precision of the Lattice.
+        # (The printed positions depend on the print options of numpy.)
+        return tuple(np.round(position.flatten(), self.precision).tolist())
+
     def index(self, position, orbital_name=''):
         """Return the index of the orbital whose atom is located
         at the given position in the Lattice.
@@ -172,7 +177,7 @@ class Lattice:
             # Make sure the zeros are exactly zero (no floating point roundoff).
             pos      = np.array([x if np.abs(x) > self.tol else 0.0 for x in pos])
             
-            pos_name = np.array2string(pos.flatten(), precision=self.precision)
+            pos_name = self._position_name(pos)
             
             if (pos_name, orbital_name) in self._indices_orbitals:
                 return self._indices_orbitals[(pos_name, orbital_name)] 
-- 
2.43.0


From 75e8d95977bd60126b01df82501f3b469f23229e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:28 +0000
Subject: [PATCH 69/71] fix: search small spaces of operators with a limited
 number of vectors

---
 qosy/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qosy/core.py b/qosy/core.py
index 83bb106..3211627 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -35,6 +35,11 @@ def _eigsh(matrix, num_vecs, sigma):
     # Find num_vecs orthonormal eigenvectors of the sparse Hermitian
     # matrix whose eigenvalues are closest to sigma. For complex matrices,
     # eigsh does not orthogonalize the eigenvectors of degenerate eigenvalues.
+    # ARPACK cannot find (almost) all of the eigenvectors of a matrix.
+    if num_vecs >= int(matrix.shape[0])-1:
+        (evals, evecs) = nla.eigh(matrix.toarray())
+        return (evals[:num_vecs], evecs[:, :num_vecs])
+
     (evals, evecs) = ssla.eigsh(matrix, k=num_vecs, sigma=sigma)
 
     inds_sort = np.argsort(evals)
-- 
2.43.0


From 413e634574c66d7461d891df8405e36099a2c80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:16 +0000
Subject: [PATCH 70/71] fix: copy the lists given to UnitCell so that add_atom
 does not change them

---
 qosy/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qosy/lattice.py b/qosy/lattice.py
index 347e373..ad82d5d 100644
--- a/qosy/lattice.py
+++ b/qosy/lattice.py
@@ -34,12 +34,12 @@ class UnitCell:
         if atom_positions is None:
             self.atom_positions = []
         else:
-            self.atom_positions = atom_positions
+            self.atom_positions = list(atom_positions) # Copies the list.
             
         if atom_orbitals is None:
             self.atom_orbitals = []
         else:
-            self.atom_orbitals = atom_orbitals
+            self.atom_orbitals = list(atom_orbitals) # Copies the list.
 
     def add_atom(self, position, orbitals=None):
         """Add an atom to the UnitCell.
-- 
2.43.0


From 3eef8557b75e786c4c943398fd2d624c9210b83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:16 +0000
Subject: [PATCH 71/71] fix: copy the list given to label_permutation so that
 the transformation does not change with it

---
 qosy/transformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/transformation.py b/qosy/transformation.py
index 975e6d8..6a1833a 100644
--- a/qosy/transformation.py
+++ b/qosy/transformation.py
@@ -336,7 +336,7 @@ def label_permutation(permutation):
     if not np.array_equal(np.sort(permutation), np.arange(len(permutation))):
         raise ValueError('Invalid permutation of orbital labels:\n{}'.format(permutation))
     
-    return Transformation(_permutation_rule, permutation)
+    return Transformation(_permutation_rule, np.array(permutation, dtype=int))
 
 def space_group_symmetry(lattice, R, d):
     """Create a space group symmetry specified by
-- 
2.43.0

