From 907c6074f11d12c8284cca32e0dc371de1f0562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:49 +0000
Subject: [PATCH 01/29] fix: find_assignments gives the last worker all
 remaining tasks

Tasks of zero weight at the end of the list were assigned to nobody.
---
 modred/parallel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modred/parallel.py b/modred/parallel.py
index ac26e9e..6a931f9 100644
--- a/modred/parallel.py
+++ b/modred/parallel.py
@@ -224,6 +224,10 @@ def find_assignments(tasks, task_weights=None):
             new_max_task_index = np.abs(np.cumsum(
                 task_weights[first_unassigned_index:]) -\
                 work_per_worker).argmin() + first_unassigned_index
+            # The last worker must do all of the remaining tasks, even those
+            # that do not add to the work load (zero weight)
+            if num_remaining_workers == 1:
+                new_max_task_index = len(task_weights) - 1
             # Append all tasks up to and including new_max_task_index
             task_assignments.append(tasks[first_unassigned_index:\
                 new_max_task_index+1])
-- 
2.43.0


From 375ff3d78a2c006481406e0ef11be8622af7f59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:11 +0000
Subject: [PATCH 02/29] fix: inner product arrays hold values of any type, not
 only the first's

The array was created with the type of the first inner product, so that
later values were truncated to integers or lost their imaginary parts.
---
 modred/vectorspace.py | 66 +++++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 21 deletions(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index e4e172f..02bb210 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -8,6 +8,19 @@ from . import util
 from .py2to3 import print_msg, range
 
 
+def _set_inner_product(IP_array, row_index, col_index, IP):
+    """Sets one element of ``IP_array``, and returns the array.
+
+    The type of the array is promoted if necessary, so that for instance the
+    first inner product may be real and later ones complex.
+    """
+    IP_type = np.result_type(IP_array.dtype, np.asarray(IP).dtype)
+    if IP_type != IP_array.dtype:
+        IP_array = IP_array.astype(IP_type)
+    IP_array[row_index, col_index] = IP
+    return IP_array
+
+
 class VectorSpaceArrays(object):
     """Implements inner products and linear combinations using data stored in
     arrays.
@@ -450,12 +463,13 @@ class VectorSpaceHandles(object):
                     if len(row_vecs) > 0:
                         for row_index in range(start_row_index, end_row_index):
                             for col_vec_index, col_vec in enumerate(col_vecs):
-                                IP_array[
+                                IP_array = _set_inner_product(
+                                    IP_array,
                                     row_index,
-                                    col_indices[col_vec_index]
-                                ] = self.inner_product(
-                                    row_vecs[row_index - start_row_index],
-                                    col_vec)
+                                    col_indices[col_vec_index],
+                                    self.inner_product(
+                                        row_vecs[row_index - start_row_index],
+                                        col_vec))
                         if (
                             (time() - self.prev_print_time) >
                             self.print_interval):
@@ -604,16 +618,24 @@ class VectorSpaceHandles(object):
                 for row_index in range(proc_row_tasks[0],
                     proc_row_tasks[-1] + 1):
                     # Diagonal term
-                    IP_array[row_index, row_index] = self.inner_product(
-                        row_vecs[row_index - proc_row_tasks[0]],
-                        row_vecs[row_index - proc_row_tasks[0]])
+                    IP_array = _set_inner_product(
+                        IP_array,
+                        row_index,
+                        row_index,
+                        self.inner_product(
+                            row_vecs[row_index - proc_row_tasks[0]],
+                            row_vecs[row_index - proc_row_tasks[0]]))
 
                     # Off-diagonal terms
                     for col_index in range(
                         row_index + 1, proc_row_tasks[-1] + 1):
-                        IP_array[row_index, col_index] = self.inner_product(
-                            row_vecs[row_index - proc_row_tasks[0]],
-                            row_vecs[col_index - proc_row_tasks[0]])
+                        IP_array = _set_inner_product(
+                            IP_array,
+                            row_index,
+                            col_index,
+                            self.inner_product(
+                                row_vecs[row_index - proc_row_tasks[0]],
+                                row_vecs[col_index - proc_row_tasks[0]]))
 
             # Number of square chunks to fill in is n * (n-1) / 2.  At each
             # iteration we fill in n of them, so we need (n-1) / 2
@@ -681,12 +703,13 @@ class VectorSpaceHandles(object):
                         for row_index in range(
                             my_row_indices[0], my_row_indices[-1] + 1):
                             for col_vec_index, col_vec in enumerate(col_vecs):
-                                IP_array[
+                                IP_array = _set_inner_product(
+                                    IP_array,
                                     row_index,
-                                    my_col_indices[col_vec_index]
-                                ] = self.inner_product(
-                                    row_vecs[row_index - my_row_indices[0]],
-                                    col_vec)
+                                    my_col_indices[col_vec_index],
+                                    self.inner_product(
+                                        row_vecs[row_index - my_row_indices[0]],
+                                        col_vec))
                             if (
                                 (time() - self.prev_print_time) >
                                 self.print_interval):
@@ -769,12 +792,13 @@ class VectorSpaceHandles(object):
                         for row_index in range(
                             proc_row_tasks[0], proc_row_tasks[-1] + 1):
                             for col_vec_index, col_vec in enumerate(col_vecs):
-                                IP_array[
+                                IP_array = _set_inner_product(
+                                    IP_array,
                                     row_index,
-                                    col_indices[col_vec_index]
-                                ] = self.inner_product(
-                                    row_vecs[row_index - proc_row_tasks[0]],
-                                    col_vec)
+                                    col_indices[col_vec_index],
+                                    self.inner_product(
+                                        row_vecs[row_index - proc_row_tasks[0]],
+                                        col_vec))
                         if (
                             (time() - self.prev_print_time) >
                             self.print_interval):
-- 
2.43.0


From 3193aa7b88ef3db4bec7319a7dfccaedc68e4483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:11 +0000
Subject: [PATCH 03/29] fix: inner product weights for vectors with a single
 entry

Squeezing made the weights 0D, which was refused.
---
 modred/vectorspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index 02bb210..e7dd866 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -32,7 +32,7 @@ class VectorSpaceArrays(object):
     def __init__(self, weights=None):
         self.weights = weights
         if self.weights is not None:
-            self.weights = np.array(self.weights).squeeze()
+            self.weights = np.atleast_1d(np.array(self.weights).squeeze())
         if self.weights is None:
             self.compute_inner_product_array = self._IP_no_weights
         elif self.weights.ndim == 1:
-- 
2.43.0


From dab71a50949e5183eb7dd8a74b04011b5568f5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 04/29] fix: get_decomp of a decomposition with a single
 eigenvalue

Squeezing an array with one entry gave a 0D array, which the other methods
cannot use.
---
 modred/bpod.py |  2 +-
 modred/dmd.py  | 10 +++++-----
 modred/pod.py  |  2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/modred/bpod.py b/modred/bpod.py
index 3c14782..34e3312 100644
--- a/modred/bpod.py
+++ b/modred/bpod.py
@@ -210,7 +210,7 @@ class BPODHandles(object):
             ``R_sing_vecs_src``: Source from which to retrieve right singular
             vectors of Hankel array.
         """
-        self.sing_vals = np.squeeze(parallel.call_and_bcast(
+        self.sing_vals = np.ravel(parallel.call_and_bcast(
             self.get_array, sing_vals_src))
         self.L_sing_vecs = parallel.call_and_bcast(
             self.get_array, L_sing_vecs_src)
diff --git a/modred/dmd.py b/modred/dmd.py
index 577f0f9..611b0cb 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -557,13 +557,13 @@ class DMDHandles(object):
             ``correlation_array_eigvecs_src``: Source from which to retrieve
             eigenvectors of correlation array.
         """
-        self.eigvals = np.squeeze(np.array(
+        self.eigvals = np.ravel(np.array(
             parallel.call_and_bcast(self.get_array, eigvals_src)))
         self.R_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, R_low_order_eigvecs_src)
         self.L_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, L_low_order_eigvecs_src)
-        self.correlation_array_eigvals = np.squeeze(np.array(
+        self.correlation_array_eigvals = np.ravel(np.array(
             parallel.call_and_bcast(
             self.get_array, correlation_array_eigvals_src)))
         self.correlation_array_eigvecs = parallel.call_and_bcast(
@@ -1979,18 +1979,18 @@ class TLSqrDMDHandles(DMDHandles):
             ``proj_correlation_array_eigvecs_src``: Source from which to
             retrieve eigenvectors of projected correlation array.
         """
-        self.eigvals = np.squeeze(np.array(
+        self.eigvals = np.ravel(np.array(
             parallel.call_and_bcast(self.get_array, eigvals_src)))
         self.R_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, R_low_order_eigvecs_src)
         self.L_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, L_low_order_eigvecs_src)
-        self.sum_correlation_array_eigvals = np.squeeze(np.array(
+        self.sum_correlation_array_eigvals = np.ravel(np.array(
             parallel.call_and_bcast(
             self.get_array, sum_correlation_array_eigvals_src)))
         self.sum_correlation_array_eigvecs = parallel.call_and_bcast(
             self.get_array, sum_correlation_array_eigvecs_src)
-        self.proj_correlation_array_eigvals = np.squeeze(np.array(
+        self.proj_correlation_array_eigvals = np.ravel(np.array(
             parallel.call_and_bcast(
             self.get_array, proj_correlation_array_eigvals_src)))
         self.proj_correlation_array_eigvecs = parallel.call_and_bcast(
diff --git a/modred/pod.py b/modred/pod.py
index 8ebf430..e639643 100644
--- a/modred/pod.py
+++ b/modred/pod.py
@@ -264,7 +264,7 @@ class PODHandles(object):
             ``eigvecs_src``: Source from which to retrieve eigenvectors of
             correlation array.
         """
-        self.eigvals = np.squeeze(np.array(parallel.call_and_bcast(
+        self.eigvals = np.ravel(np.array(parallel.call_and_bcast(
             self.get_array, eigvals_src)))
         self.eigvecs = parallel.call_and_bcast(self.get_array, eigvecs_src)
 
-- 
2.43.0


From 25470473fa2fe40c64aa0fe2b1f782783c8490f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 05/29] fix: spectral coefficients are 1D also for a single DMD
 mode

---
 modred/dmd.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 611b0cb..ad84845 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -174,7 +174,7 @@ def compute_DMD_arrays_snaps_method(
     # Compute spectral coefficients
     spectral_coeffs = np.abs(L_low_order_eigvecs.conj().T.dot(
         np.diag(correlation_array_eigvals ** 0.5).dot(
-            correlation_array_eigvecs[0, :].conj().T)).squeeze())
+            correlation_array_eigvecs[0, :].conj().T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
@@ -427,7 +427,7 @@ def compute_DMD_arrays_direct_method(
     # Compute spectral coefficients
     spectral_coeffs = np.abs(L_low_order_eigvecs.conj().T.dot(
         np.diag(correlation_array_eigvals ** 0.5).dot(
-            correlation_array_eigvecs[0, :].conj().T))).squeeze()
+            correlation_array_eigvecs[0, :].conj().T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
@@ -1076,7 +1076,7 @@ class DMDHandles(object):
         self.spectral_coeffs = np.abs(
             self.L_low_order_eigvecs.conj().T.dot(
                 np.diag(self.correlation_array_eigvals ** 0.5).dot(
-                    self.correlation_array_eigvecs[0, :]).conj().T)).squeeze()
+                    self.correlation_array_eigvecs[0, :]).conj().T))
         return self.spectral_coeffs
 
 
@@ -1327,7 +1327,7 @@ def compute_TLSqrDMD_arrays_snaps_method(
     spectral_coeffs = np.abs(
         L_low_order_eigvecs.conj().T.dot(
             np.diag(proj_correlation_array_eigvals ** 0.5).dot(
-                proj_correlation_array_eigvecs[0, :].T))).squeeze()
+                proj_correlation_array_eigvecs[0, :].T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
@@ -2148,7 +2148,7 @@ class TLSqrDMDHandles(DMDHandles):
         # ie first, last, or mean?
         self.spectral_coeffs = np.abs(self.L_low_order_eigvecs.conj().T.dot(
             np.diag(self.proj_correlation_array_eigvals ** 0.5).dot(
-                self.proj_correlation_array_eigvecs[0, :]).conj().T)).squeeze()
+                self.proj_correlation_array_eigvecs[0, :]).conj().T))
         return self.spectral_coeffs
 
 
-- 
2.43.0


From 31bc9ae9c5277b50e2bc5e467fd45da87e496049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:22 +0000
Subject: [PATCH 06/29] fix: save text arrays of any numeric type and memory
 layout

---
 modred/util.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/modred/util.py b/modred/util.py
index 15fefb1..6558921 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -82,11 +82,17 @@ def save_array_text(array, file_name, delimiter=None):
     elif array.ndim > 2:
         raise RuntimeError('Cannot save an array with >2 dimensions')
 
+    # Save complex numbers as pairs of floats, all other numbers as floats
+    if np.iscomplexobj(array):
+        array = np.ascontiguousarray(array, dtype=complex).view(float)
+    else:
+        array = array.astype(float)
+
     # Save data
     if delimiter is None:
-        np.savetxt(file_name, array.view(float))
+        np.savetxt(file_name, array)
     else:
-        np.savetxt(file_name, array.view(float), delimiter=delimiter)
+        np.savetxt(file_name, array, delimiter=delimiter)
 
 
 def load_array_text(file_name, delimiter=None, is_complex=False):
-- 
2.43.0


From 1abd21ecc3e6480f9ec511e5771e40f499bd8b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:22 +0000
Subject: [PATCH 07/29] fix: balanced truncation uses the Gramians of
 discrete-time systems

---
 modred/util.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/modred/util.py b/modred/util.py
index 6558921..e5fb41a 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -369,20 +369,21 @@ def balanced_truncation(
     A = np.array(A)
     B = np.array(B)
     C = np.array(C)
-    gram_cont = scipy.linalg.solve_lyapunov(A, B.dot(B.transpose().conj()))
-    gram_obsv = scipy.linalg.solve_lyapunov(A.transpose().conj(),
-        C.transpose().conj().dot(C))
+    gram_cont = scipy.linalg.solve_discrete_lyapunov(
+        A, B.dot(B.transpose().conj()))
+    gram_obsv = scipy.linalg.solve_discrete_lyapunov(
+        A.transpose().conj(), C.transpose().conj().dot(C))
     Uc, Ec, Vc = svd(gram_cont)
     Uo, Eo, Vo = svd(gram_obsv)
     Lc = Uc.dot(np.diag(Ec**0.5))
     Lo = Uo.dot(np.diag(Eo**0.5))
-    U, E, V = svd(Lo.transpose().dot(Lc))
+    U, E, V = svd(Lo.transpose().conj().dot(Lc))
     if order is None:
         order = len(E)
     SL = Lo.dot(U[:, :order]).dot(np.diag(E[:order]**-0.5))
     SR = Lc.dot(V[:, :order]).dot(np.diag(E[:order]**-0.5))
-    A_bal_trunc = SL.transpose().dot(A).dot(SR)
-    B_bal_trunc = SL.transpose().dot(B)
+    A_bal_trunc = SL.transpose().conj().dot(A).dot(SR)
+    B_bal_trunc = SL.transpose().conj().dot(B)
     C_bal_trunc = C.dot(SR)
     if return_sing_vals:
         return A_bal_trunc, B_bal_trunc, C_bal_trunc, E
-- 
2.43.0


From 087c575f602eb7e56d85147afcb2f354efdf912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:22 +0000
Subject: [PATCH 08/29] fix: eigh for positive definite arrays accepts
 atol=None

---
 modred/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modred/util.py b/modred/util.py
index e5fb41a..c25d060 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -283,7 +283,8 @@ def eigh(array, atol=1e-13, rtol=None, is_positive_definite=False):
     # given tolerance.  In that case, we assume the given tolerance is too
     # samll (relative to the accuracy of the computation) and increase it to at
     # least filter out negative eigenvalues.
-    if is_positive_definite and eigvals.min() < 0 and abs(eigvals.min()) > atol:
+    if is_positive_definite and eigvals.min() < 0 and (
+        atol is None or abs(eigvals.min()) > atol):
         atol = abs(eigvals.min())
 
     # Filter out small and negative eigenvalues, if necessary
-- 
2.43.0


From a413288913b7a8abca2b19b5863aa81ef6694a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 09/29] fix: spectral coefficients of complex data in TLSqrDMD
 snapshot method

---
 modred/dmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index ad84845..b3d720e 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -1327,7 +1327,7 @@ def compute_TLSqrDMD_arrays_snaps_method(
     spectral_coeffs = np.abs(
         L_low_order_eigvecs.conj().T.dot(
             np.diag(proj_correlation_array_eigvals ** 0.5).dot(
-                proj_correlation_array_eigvecs[0, :].T)))
+                proj_correlation_array_eigvecs[0, :].conj().T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
-- 
2.43.0


From 3bcd3ff27514dbc15dd0b7e582d1dc97ecd01521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 10/29] fix: DMD and TLSqrDMD honor rtol

---
 modred/dmd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index b3d720e..2711361 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -783,7 +783,7 @@ class DMDHandles(object):
         # Compute eigendecomposition of correlation array
         self.correlation_array_eigvals, self.correlation_array_eigvecs =\
             parallel.call_and_bcast(
-            util.eigh, self.correlation_array, atol=atol, rtol=None,
+            util.eigh, self.correlation_array, atol=atol, rtol=rtol,
             is_positive_definite=True)
 
         # Truncate if necessary
@@ -1282,7 +1282,7 @@ def compute_TLSqrDMD_arrays_snaps_method(
                 sum_correlation_array_eigvecs.dot(
                     sum_correlation_array_eigvecs.conj().T))))
     proj_correlation_array_eigvals, proj_correlation_array_eigvecs = util.eigh(
-        proj_correlation_array, atol=atol, rtol=None, is_positive_definite=True)
+        proj_correlation_array, atol=atol, rtol=rtol, is_positive_definite=True)
 
     # Truncate if necessary
     if max_num_eigvals is not None and (
@@ -1764,7 +1764,7 @@ class TLSqrDMDHandles(DMDHandles):
         (self.sum_correlation_array_eigvals,
         self.sum_correlation_array_eigvecs) = parallel.call_and_bcast(
             util.eigh, self.sum_correlation_array,
-            atol=atol, rtol=None, is_positive_definite=True)
+            atol=atol, rtol=rtol, is_positive_definite=True)
 
         # Truncate if necessary
         if max_num_eigvals is not None and (
@@ -1783,7 +1783,7 @@ class TLSqrDMDHandles(DMDHandles):
         (self.proj_correlation_array_eigvals,
         self.proj_correlation_array_eigvecs) = parallel.call_and_bcast(
             util.eigh, self.proj_correlation_array,
-            atol=atol, rtol=None, is_positive_definite=True)
+            atol=atol, rtol=rtol, is_positive_definite=True)
 
         # Truncate if necessary
         if max_num_eigvals is not None and (
-- 
2.43.0


From 29bf9442002bfee177ff49db03c73a66d7d581bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 11/29] fix: sequential DMD after paired DMD uses its own data
 for exact modes

---
 modred/dmd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 2711361..4f62a2a 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -856,8 +856,8 @@ class DMDHandles(object):
             of correlation array.
         """
         self.vec_handles = vec_handles
+        self.adv_vec_handles = adv_vec_handles
         if adv_vec_handles is not None:
-            self.adv_vec_handles = adv_vec_handles
             if len(self.vec_handles) != len(self.adv_vec_handles):
                 raise ValueError(('Number of vec_handles and adv_vec_handles'
                     ' is not equal.'))
@@ -1872,8 +1872,8 @@ class TLSqrDMDHandles(DMDHandles):
         under-constrined datasets.
         """
         self.vec_handles = vec_handles
+        self.adv_vec_handles = adv_vec_handles
         if adv_vec_handles is not None:
-            self.adv_vec_handles = adv_vec_handles
             if len(self.vec_handles) != len(self.adv_vec_handles):
                 raise ValueError(('Number of vec_handles and adv_vec_handles'
                     ' is not equal.'))
-- 
2.43.0


From f230e430735e528428a6344219e07e9f459e99dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 12/29] fix: DMDHandles.compute_exact_modes raises ValueError
 without suitable data

---
 modred/dmd.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 4f62a2a..ce04b90 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -958,13 +958,11 @@ class DMDHandles(object):
                     mode_handles, self.vec_handles[1:], build_coeffs_exact,
                     coeff_array_col_indices=mode_indices)
             else:
-                raise(
-                    ValueError, (
+                raise ValueError(
                     'Number of vec_handles is not correct for a sequential '
-                    'dataset.'))
+                    'dataset.')
         else:
-            raise(
-                ValueError,
+            raise ValueError(
                 'Neither vec_handles nor adv_vec_handles is defined.')
 
 
-- 
2.43.0


From e9e686b93d63423fc81b107e447876a814d8977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 13/29] fix: vector handles subtract the current vector of
 their own base handle

---
 modred/vectors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modred/vectors.py b/modred/vectors.py
index 7a45c5e..2e5c1d6 100644
--- a/modred/vectors.py
+++ b/modred/vectors.py
@@ -31,7 +31,7 @@ class VecHandle(object):
         vec = self._get()
         if self.__base_vec_handle is None:
             return self.__scale_vec(vec)
-        if self.__base_vec_handle == VecHandle.cached_base_vec_handle:
+        if self.__base_vec_handle is VecHandle.cached_base_vec_handle:
             base_vec = VecHandle.cached_base_vec
         else:
             base_vec = self.__base_vec_handle.get()
@@ -43,6 +43,9 @@ class VecHandle(object):
     def put(self, vec):
         """Put a vector to file or memory using the private (user-overwritten)
         ``_put`` function."""
+        # The cached base vector may be what is about to be replaced
+        VecHandle.cached_base_vec_handle = None
+        VecHandle.cached_base_vec = None
         return self._put(vec)
 
 
-- 
2.43.0


From 07ee287530aebce7c14a759ac8bf29db01887022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 14/29] fix: sanity check accepts vectors of any magnitude

---
 modred/vectorspace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index e7dd866..818a58d 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -165,9 +165,6 @@ class VectorSpaceHandles(object):
         # TODO: Other things which could be tested:
         # ``get``/``put`` doesn't affect other vecs (memory problems)
 
-        # Set tolerance
-        tol = 1e-12
-
         # Check inner product properties
         self._check_inner_product()
 
@@ -179,6 +176,9 @@ class VectorSpaceHandles(object):
         vec_copy = copy.deepcopy(test_vec)
         vec_copy_mag_sq = self.inner_product(vec_copy, vec_copy)
 
+        # Set tolerance, relative to the size of large vectors
+        tol = 1e-12 * max(1., abs(vec_copy_mag_sq))
+
         # Check that inner product of scaled vector is correct
         scale_factor = 2.
         vec_mult = test_vec * scale_factor
-- 
2.43.0


From bda726c8f81433a5c1f1916de36f6e7f093c243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 15/29] fix: ERA uses mc and mo given to its constructor

---
 modred/era.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modred/era.py b/modred/era.py
index f22a091..8ead961 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -144,6 +144,8 @@ class ERA(object):
         self.put_array = put_array
         self.mc = mc
         self.mo = mo
+        self._constructor_mc = mc
+        self._constructor_mo = mo
         self.outputs = None
         self.verbosity = verbosity
         self.A = None
@@ -190,8 +192,9 @@ class ERA(object):
         :math:`dt`.  You can account for this by multiplying B by :math:`dt`.
         """
         self._set_Markovs(np.array(Markovs))
-        self.mc = mc
-        self.mo = mo
+        # Values given to the constructor are used unless others are given here
+        self.mc = self._constructor_mc if mc is None else mc
+        self.mo = self._constructor_mo if mo is None else mo
 
         self._assemble_Hankel()
         self.L_sing_vecs, self.sing_vals, self.R_sing_vecs = util.svd(
-- 
2.43.0


From 556d978e3a9f9e8ae4a73d9e7ad2a16797fde583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:48 +0000
Subject: [PATCH 16/29] fix: accept lists for weights, last rows and systems
 like for other arrays

---
 modred/dmd.py  | 6 ++++--
 modred/pod.py  | 4 ++++
 modred/util.py | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index ce04b90..e68df7d 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -332,7 +332,8 @@ def compute_DMD_arrays_direct_method(
     # Set up vector space (for inner products)
     vec_space = VectorSpaceArrays(weights=inner_product_weights)
 
-    # Weight data as necessary
+    # Weight data as necessary (force weights to be an array)
+    inner_product_weights = vec_space.weights
     if inner_product_weights is None:
         vecs_weighted = vecs
         if adv_vecs is not None:
@@ -1512,7 +1513,8 @@ def compute_TLSqrDMD_arrays_direct_method(
     # Set up vector space (for inner products)
     vec_space = VectorSpaceArrays(weights=inner_product_weights)
 
-    # Weight data as necessary
+    # Weight data as necessary (force weights to be an array)
+    inner_product_weights = vec_space.weights
     if inner_product_weights is None:
         vecs_weighted = vecs
         if adv_vecs is not None:
diff --git a/modred/pod.py b/modred/pod.py
index e639643..9780d50 100644
--- a/modred/pod.py
+++ b/modred/pod.py
@@ -164,6 +164,10 @@ def compute_POD_arrays_direct_method(
     # Force data to be arrays (not matrices)
     vecs = np.array(vecs)
 
+    # Force weights to be an array
+    inner_product_weights = VectorSpaceArrays(
+        weights=inner_product_weights).weights
+
     # If no inner product weights, compute SVD directly
     if inner_product_weights is None:
         modes, sing_vals, eigvecs = util.svd(vecs, atol=atol, rtol=rtol)
diff --git a/modred/util.py b/modred/util.py
index c25d060..5f3188a 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -489,6 +489,9 @@ def impulse(A, B, C, num_time_steps=None):
     No D array is included, but one can simply be prepended to the output if
     it is non-zero.
     """
+    A = np.array(A)
+    B = np.array(B)
+    C = np.array(C)
     ss = scipy.signal.StateSpace(A, B, C, np.zeros((C.shape[0], B.shape[1])), dt=1)
     if num_time_steps is not None:
         dum, Markovs = scipy.signal.dimpulse(ss, n=num_time_steps+1)
@@ -588,7 +591,7 @@ def Hankel(first_col, last_row=None):
     if last_row is None:
         last_row = np.zeros(first_col.shape)
     else:
-        last_row = last_row.flatten()
+        last_row = np.array(last_row).flatten()
 
     unique_vals = np.concatenate((first_col, last_row[1:]))
     a, b = np.ogrid[0:len(first_col), 0:len(last_row)]
-- 
2.43.0


From d0081051496b3846d4be06e22f3fdd5b8ac7c904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:02 +0000
Subject: [PATCH 17/29] fix: get_spectral_coeffs restores a 1D array

---
 modred/dmd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index e68df7d..5a4188c 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -596,7 +596,8 @@ class DMDHandles(object):
         Args:
             ``src``: Source from which to retrieve spectral coefficients.
         """
-        self.spectral_coeffs = parallel.call_and_bcast(self.get_array, src)
+        self.spectral_coeffs = np.ravel(np.array(
+            parallel.call_and_bcast(self.get_array, src)))
 
 
     def get_proj_coeffs(self, src, adv_src):
-- 
2.43.0


From cd7c12b88ae76b4296eaa9d9404df7b54ee89d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 18/29] fix: keep DMD handles when a decomposition request is
 refused

compute_decomp of DMDHandles and TLSqrDMDHandles stored the new vector
handles before it checked their numbers, so after a refused call the modes
were computed from the refused vectors and the earlier decomposition.
---
 modred/dmd.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 5a4188c..58d41d0 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -857,12 +857,12 @@ class DMDHandles(object):
             ``correlation_array_eigvecs``: Array whose columns are eigenvectors
             of correlation array.
         """
-        self.vec_handles = vec_handles
-        self.adv_vec_handles = adv_vec_handles
         if adv_vec_handles is not None:
-            if len(self.vec_handles) != len(self.adv_vec_handles):
+            if len(vec_handles) != len(adv_vec_handles):
                 raise ValueError(('Number of vec_handles and adv_vec_handles'
                     ' is not equal.'))
+        self.vec_handles = vec_handles
+        self.adv_vec_handles = adv_vec_handles
 
         # For a sequential dataset, compute correlation array for all vectors.
         # This is more efficient because only one call is made to the inner
@@ -1872,12 +1872,12 @@ class TLSqrDMDHandles(DMDHandles):
         for over-constrained datasets, but must be enforced by the user for
         under-constrined datasets.
         """
-        self.vec_handles = vec_handles
-        self.adv_vec_handles = adv_vec_handles
         if adv_vec_handles is not None:
-            if len(self.vec_handles) != len(self.adv_vec_handles):
+            if len(vec_handles) != len(adv_vec_handles):
                 raise ValueError(('Number of vec_handles and adv_vec_handles'
                     ' is not equal.'))
+        self.vec_handles = vec_handles
+        self.adv_vec_handles = adv_vec_handles
 
         # For a sequential dataset, compute correlation array for all vectors.
         # This is more efficient because only one call is made to the inner
-- 
2.43.0


From 78a9b6ff39307cedbf97bd1db46b138cb73b7219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 19/29] fix: print_from_rank_zero prints to the channel asked
 for

The argument output_channel was ignored, so that messages for standard
error went to standard output and unknown channels were accepted.
---
 modred/parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modred/parallel.py b/modred/parallel.py
index 6a931f9..7e93fbc 100644
--- a/modred/parallel.py
+++ b/modred/parallel.py
@@ -4,7 +4,7 @@ import codecs
 
 import numpy as np
 
-from .py2to3 import range
+from .py2to3 import range, print_msg
 
 
 # Check to see if MPI is available by importing MPI-related modules
@@ -106,7 +106,7 @@ def barrier():
 def print_from_rank_zero(msg, output_channel='stdout'):
     """Prints ``msg`` from rank zero processor/MPI worker only."""
     if is_rank_zero():
-        print(msg)
+        print_msg(str(msg), output_channel=output_channel)
 
 
 def call_from_rank_zero(func, *args, **kwargs):
-- 
2.43.0


From 4afb2d0342a311e21ec26c09f27dcb51e9f5dbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 20/29] fix: keep imaginary parts of complex Markov parameters
 in ERA

make_sampled_format and the Hankel arrays of ERA were always real, so that
imaginary parts were discarded and the model was that of other data.
---
 modred/era.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modred/era.py b/modred/era.py
index 8ead961..7250e47 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -43,7 +43,9 @@ def make_sampled_format(times, Markovs, dt_tol=1e-6):
 
     time_steps = np.round((times-times[0])/dt)
     num_time_steps_corr = (num_time_steps - 1)*2
-    Markovs_corr = np.zeros((num_time_steps_corr, num_Markovs, num_inputs))
+    Markovs_corr = np.zeros(
+        (num_time_steps_corr, num_Markovs, num_inputs),
+        dtype=complex if np.iscomplexobj(Markovs) else float)
     time_steps_corr = np.zeros(num_time_steps_corr, dtype=int)
     Markovs_corr[::2] = Markovs[:-1]
     Markovs_corr[1::2] = Markovs[1:]
@@ -334,8 +336,9 @@ class ERA(object):
                 % (self.mo + self.mc + 2, self.num_time_steps))
 
         self.Hankel_array = np.zeros(
-            (self.num_Markovs * self.mo, self.num_inputs * self.mc))
-        self.Hankel_array2 = np.zeros(self.Hankel_array.shape)
+            (self.num_Markovs * self.mo, self.num_inputs * self.mc),
+            dtype=complex if np.iscomplexobj(self.Markovs) else float)
+        self.Hankel_array2 = np.zeros_like(self.Hankel_array)
         #Markovs_flattened = \
         #    self.Markovs.swapaxes(0,1).reshape((num_Markovs, -1))
         for row in range(self.mo):
-- 
2.43.0


From cfa275a0f52bc7454c0e618d659bdb7666b845d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 21/29] fix: OKID of complex signals

The data array was always real, discarding imaginary parts, and the least
squares problem conjugated the inputs but not the outputs.
---
 modred/okid.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/modred/okid.py b/modred/okid.py
index 25334af..2eea206 100644
--- a/modred/okid.py
+++ b/modred/okid.py
@@ -49,10 +49,13 @@ def OKID(inputs, outputs, num_Markovs):
     # Convenience variable
     num_inouts = num_inputs + num_outputs
 
-    V = np.zeros((num_inputs + num_inouts * num_Markovs, num_samples))
+    inputs_outputs = np.concatenate((inputs, outputs), axis=0)
+    dtype = complex if np.iscomplexobj(inputs_outputs) else float
+
+    V = np.zeros(
+        (num_inputs + num_inouts * num_Markovs, num_samples), dtype=dtype)
     V[:num_inputs] = inputs
 
-    inputs_outputs = np.concatenate((inputs, outputs), axis=0)
     for i in range(1, num_Markovs + 1):
         V[num_inputs + (i - 1) * num_inouts:num_inputs + i * num_inouts, i:] =\
             inputs_outputs[:, :num_samples - i]
@@ -60,8 +63,8 @@ def OKID(inputs, outputs, num_Markovs):
     # Ybar in book
     #Markov_aug = np.dot(outputs, np.array(np.linalg.pinv(V, cutoff)))
     # Using least squares for better numerical conditioning? outputs = M V, so
-    # outputs.T = V.T M.T, solve for M = Markovs_aug.
-    Markov_aug = np.linalg.lstsq(V.conj().T, outputs.T)[0].conj().T
+    # outputs^* = V^* M^*, solve for M = Markovs_aug.
+    Markov_aug = np.linalg.lstsq(V.conj().T, outputs.conj().T)[0].conj().T
 
     D = Markov_aug[:, :num_inputs]
 
@@ -85,11 +88,11 @@ def OKID(inputs, outputs, num_Markovs):
                 Markov_num * num_inouts + num_inouts])
 
     # Estimate the Markov parameters of the system
-    Markov_est = np.empty((num_Markovs, num_outputs, num_inputs))
+    Markov_est = np.empty((num_Markovs, num_outputs, num_inputs), dtype=dtype)
     Markov_est[0] = D
 
     for Markov_num in range(1, num_Markovs):
-        summation_term = np.zeros((num_outputs, num_inputs))
+        summation_term = np.zeros((num_outputs, num_inputs), dtype=dtype)
         for i in range(1, Markov_num + 1):
             summation_term += Markov_aug_output[i].dot(
                 Markov_est[Markov_num- i , :, :])
-- 
2.43.0


From 6612afbb9581819bfd860b0357bea6d54bc1209b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:40 +0000
Subject: [PATCH 22/29] fix: call_and_bcast: other processors no longer wait
 forever when the function raises on rank zero

---
 modred/parallel.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/modred/parallel.py b/modred/parallel.py
index 7e93fbc..ed84ab6 100644
--- a/modred/parallel.py
+++ b/modred/parallel.py
@@ -167,13 +167,22 @@ def call_and_bcast(func, *args, **kwargs):
       # ``outputs==1`` on all processors/MPI workers.
       outputs = parallel.call_and_bcast(lambda x: x+1, parallel.get_rank())
 
+    If ``func`` raises an exception, then all other processors/MPI workers raise
+    a ``RuntimeError`` (rather than waiting for ``outputs``).
     """
+    outputs = None
+    error = None
     if is_rank_zero():
-        outputs = func(*args, **kwargs)
-    else:
-        outputs = None
+        try:
+            outputs = func(*args, **kwargs)
+        except Exception as exc:
+            if _is_distributed:
+                comm.bcast((None, repr(exc)), root=0)
+            raise
     if _is_distributed:
-        outputs = comm.bcast(outputs, root=0)
+        outputs, error = comm.bcast((outputs, error), root=0)
+    if error is not None:
+        raise RuntimeError('Call on rank zero failed: ' + error)
     return outputs
 
 
-- 
2.43.0


From 876601f8abf63cd4b97a4a35589c4ed69f02fbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:40 +0000
Subject: [PATCH 23/29] fix: BPODHandles.compute_decomp refuses numbers of
 vectors that are not multiples of inputs/outputs

---
 modred/bpod.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modred/bpod.py b/modred/bpod.py
index 34e3312..74fbf5c 100644
--- a/modred/bpod.py
+++ b/modred/bpod.py
@@ -383,6 +383,13 @@ class BPODHandles(object):
             ``R_sing_vecs``: Array of right singular vectors of Hankel array
             (:math:`V`).
         """
+        if (
+            len(direct_vec_handles) % num_inputs != 0 or
+            len(adjoint_vec_handles) % num_outputs != 0):
+            raise ValueError(
+                'Number of direct (adjoint) vector handles is not a multiple '
+                'of the number of inputs (outputs).')
+
         self.direct_vec_handles = direct_vec_handles
         self.adjoint_vec_handles = adjoint_vec_handles
 
-- 
2.43.0


From 49d0585dfbfc2a954b51c6c3d72096ee8747430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:40 +0000
Subject: [PATCH 24/29] fix: other processors no longer subtract a cached base
 vector that has been replaced

---
 modred/ltigalerkinproj.py | 4 +++-
 modred/vectors.py         | 8 +++++++-
 modred/vectorspace.py     | 3 +++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/modred/ltigalerkinproj.py b/modred/ltigalerkinproj.py
index 89a7170..95100f6 100644
--- a/modred/ltigalerkinproj.py
+++ b/modred/ltigalerkinproj.py
@@ -4,7 +4,7 @@ import numpy as np
 from . import parallel
 from . import util
 from .py2to3 import range
-from .vectors import VecHandleInMemory
+from .vectors import VecHandle, VecHandleInMemory
 from .vectorspace import VectorSpaceArrays, VectorSpaceHandles
 
 
@@ -50,6 +50,8 @@ def compute_derivs_handles(vec_handles, adv_vec_handles, deriv_vec_handles, dt):
         vec_dt = adv_vec_handles[i].get()
         deriv_vec_handles[i].put((1. / dt) * (vec_dt - vec))
     parallel.barrier()
+    # Another processor may have replaced the cached base vector
+    VecHandle.forget_base_vec()
 
 
 def compute_derivs_arrays(vecs, adv_vecs, dt):
diff --git a/modred/vectors.py b/modred/vectors.py
index 2e5c1d6..58356ca 100644
--- a/modred/vectors.py
+++ b/modred/vectors.py
@@ -44,9 +44,15 @@ class VecHandle(object):
         """Put a vector to file or memory using the private (user-overwritten)
         ``_put`` function."""
         # The cached base vector may be what is about to be replaced
+        VecHandle.forget_base_vec()
+        return self._put(vec)
+
+
+    @staticmethod
+    def forget_base_vec():
+        """Forgets the cached base vector, so that it is retrieved again."""
         VecHandle.cached_base_vec_handle = None
         VecHandle.cached_base_vec = None
-        return self._put(vec)
 
 
     def _get(self):
diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index 818a58d..4d330fc 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -6,6 +6,7 @@ import numpy as np
 from . import parallel
 from . import util
 from .py2to3 import print_msg, range
+from .vectors import VecHandle
 
 
 def _set_inner_product(IP_array, row_index, col_index, IP):
@@ -1088,6 +1089,8 @@ class VectorSpaceHandles(object):
             'Completed 100% of linear combinations', output_channel='stderr')
         self.prev_print_time = time()
         parallel.barrier()
+        # Another processor may have replaced the cached base vector
+        VecHandle.forget_base_vec()
 
 
     def __eq__(self, other):
-- 
2.43.0


From e4fadb44bc79034fb77ec30c9d77280293d1cadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:11 +0000
Subject: [PATCH 25/29] fix: load_multiple_signals refuses different times
 whatever the units of time

---
 modred/util.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/modred/util.py b/modred/util.py
index 5f3188a..9bd05d3 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -554,6 +554,13 @@ def load_multiple_signals(signal_paths, delimiter=None):
 
     num_signals = signals.shape[1]
 
+    # Times may differ by a small part of the time step, whatever their units
+    if num_time_values > 1:
+        time_tol = 1e-3 * abs(
+            time_values[-1] - time_values[0]) / (num_time_values - 1)
+    else:
+        time_tol = 1e-5 * abs(time_values)
+
     # Now allocate array and read all of the signals
     all_signals = np.zeros((num_signal_paths, num_time_values, num_signals))
 
@@ -564,9 +571,10 @@ def load_multiple_signals(signal_paths, delimiter=None):
     for path_num, signal_path in enumerate(signal_paths):
         time_values_read, signals = load_signals(signal_path,
             delimiter=delimiter)
-        if not np.allclose(time_values_read, time_values):
+        if (time_values_read.shape != time_values.shape or
+            not (abs(time_values_read - time_values) <= time_tol).all()):
             raise ValueError('Time values in %s are inconsistent with '
-                'other files')
+                'other files' % signal_path)
         all_signals[path_num] = signals
 
     return time_values, all_signals
-- 
2.43.0


From bb90cfb391a56aaceaa8f128aac41a1d8f2620a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:26 +0000
Subject: [PATCH 26/29] fix: balanced_truncation keeps the states of systems
 with small inputs or outputs

---
 modred/util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modred/util.py b/modred/util.py
index 9bd05d3..dad5812 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -374,11 +374,13 @@ def balanced_truncation(
         A, B.dot(B.transpose().conj()))
     gram_obsv = scipy.linalg.solve_discrete_lyapunov(
         A.transpose().conj(), C.transpose().conj().dot(C))
-    Uc, Ec, Vc = svd(gram_cont)
-    Uo, Eo, Vo = svd(gram_obsv)
+    # The tolerances are relative since the units of B and C are arbitrary
+    Uc, Ec, Vc = svd(gram_cont, atol=0., rtol=1e-13)
+    Uo, Eo, Vo = svd(gram_obsv, atol=0., rtol=1e-13)
     Lc = Uc.dot(np.diag(Ec**0.5))
     Lo = Uo.dot(np.diag(Eo**0.5))
-    U, E, V = svd(Lo.transpose().conj().dot(Lc))
+    U, E, V = svd(
+        Lo.transpose().conj().dot(Lc), atol=0., rtol=1e-13)
     if order is None:
         order = len(E)
     SL = Lo.dot(U[:, :order]).dot(np.diag(E[:order]**-0.5))
-- 
2.43.0


From 2b086b3b4b52c91a9b638e6d6a257f8ab1b2f237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:26 +0000
Subject: [PATCH 27/29] fix: ERA keeps the states of models with small Markov
 parameters

---
 modred/era.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modred/era.py b/modred/era.py
index 7250e47..9b9a831 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -199,8 +199,9 @@ class ERA(object):
         self.mo = self._constructor_mo if mo is None else mo
 
         self._assemble_Hankel()
+        # The tolerance is relative since the units of the Markovs are arbitrary
         self.L_sing_vecs, self.sing_vals, self.R_sing_vecs = util.svd(
-            self.Hankel_array)
+            self.Hankel_array, atol=0., rtol=1e-13)
 
         # Truncate arrays
         Ur = self.L_sing_vecs[:, :num_states]
-- 
2.43.0


From 4affcf5a03eddfc9df05545703fa0bbc19a835a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:37 +0000
Subject: [PATCH 28/29] fix: accept inner products given as 0-d arrays

np.tensordot, for instance, returns a 0-d array. The array of inner products
then had dtype object, which the eigendecompositions refuse.
---
 modred/vectorspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index 4d330fc..5c29a8f 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -369,7 +369,7 @@ class VectorSpaceHandles(object):
         start_time = time()
         IP = self.inner_product(row_vec, col_vec)
         IP_time = time() - start_time
-        IP_type = type(IP)
+        IP_type = np.asarray(IP).dtype
 
         # Estimate time to compute entire inner product array
         total_IP_time = (
@@ -570,7 +570,7 @@ class VectorSpaceHandles(object):
         start_time = time()
         IP = self.inner_product(test_vec, test_vec)
         IP_time = time() - start_time
-        IP_type = type(IP)
+        IP_type = np.asarray(IP).dtype
 
         # Estimate the time to compute the total inner product array
         total_IP_time = (
-- 
2.43.0


From 2b1051bec1f702973fe7efbac7c0f20025b08253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:35 +0000
Subject: [PATCH 29/29] fix: time step indices of make_sampled_format for long
 records with jitter

The indices were the rounded times over the first time step, so that the allowed
deviation of that step accumulated and indices were repeated or skipped.
---
 modred/era.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modred/era.py b/modred/era.py
index 9b9a831..854c242 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -41,7 +41,7 @@ def make_sampled_format(times, Markovs, dt_tol=1e-6):
     if np.amax(np.abs(np.diff(times)-dt)) > dt_tol:
         raise ValueError('Data is not equally spaced in time')
 
-    time_steps = np.round((times-times[0])/dt)
+    time_steps = np.arange(num_time_steps)
     num_time_steps_corr = (num_time_steps - 1)*2
     Markovs_corr = np.zeros(
         (num_time_steps_corr, num_Markovs, num_inputs),
-- 
2.43.0

