From ac6cfe56d60fc2625e877f9162c211f2d3e21714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:28 +0000
Subject: [PATCH 01/20] fix: never serve a sparse or half-filled matrix as the
 dense kernel matrix

KM[:,:] returned a sparse lil matrix, and after full_sparse (or KM[:,:]) the
properties full, centered, normed_km and frob_norm worked on a sparse and/or
upper-triangular matrix.
---
 kernelmethods/base.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index f84bc4a..5e1f54f 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -409,8 +409,7 @@ class KernelMatrix(object):
             raise ValueError('No sample is attached yet!\n Attach a sample first '
                              'before trying to use the KernelMatrix')
 
-        if not self._populated_fully:
-            self._populate_fully(fill_lower_tri=True, dense_fmt=True)
+        self._populate_dense()
 
         if self._keep_normed:
             if not self._is_normed:
@@ -452,8 +451,7 @@ class KernelMatrix(object):
             raise NotImplementedError('Centering is not implemented (or possible)'
                                       ' when KM is attached two separate samples.')
 
-        if not self._populated_fully:
-            self._full_km = self._populate_fully(fill_lower_tri=True, dense_fmt=True)
+        self._populate_dense()
 
         self._centered = center_km(self._full_km)
         self._is_centered = True
@@ -478,8 +476,7 @@ class KernelMatrix(object):
 
         """
 
-        if not self._populated_fully:
-            self._populate_fully(dense_fmt=True, fill_lower_tri=True)
+        self._populate_dense()
 
         if not self._is_normed:
             if not self._two_samples:
@@ -524,8 +521,7 @@ class KernelMatrix(object):
     def frob_norm(self):
         """Returns the Frobenius norm of the current kernel matrix"""
 
-        if not self._populated_fully:
-            self._populate_fully(dense_fmt=True, fill_lower_tri=True)
+        self._populate_dense()
 
         if not hasattr(self, '_frob_norm'):
             self._frob_norm = frobenius_norm(self._full_km)
@@ -624,7 +620,7 @@ class KernelMatrix(object):
         # the entire kernel matrix with KM[:,:],
         # without exploiting the fact that KM is symmetric
         if are_all_selected_dim_one and are_all_selected_dim_two:
-            return self._populate_fully(fill_lower_tri=True)
+            return self._populate_fully(fill_lower_tri=True, dense_fmt=True)
         else:
             return self._compute_for_index_combinations(set_one, set_two)
 
@@ -695,6 +691,14 @@ class KernelMatrix(object):
                         dtype=cfg.km_dtype).reshape(len(set_one), len(set_two))
 
 
+    def _populate_dense(self):
+        """Ensures the full matrix (both triangles) is available in dense format"""
+
+        if not (self._populated_fully and self._lower_tri_km_filled) \
+            or issparse(self._full_km):
+            self._populate_fully(dense_fmt=True, fill_lower_tri=True)
+
+
     def _populate_fully(self, dense_fmt=False, fill_lower_tri=False):
         """Applies the kernel function on all pairs of points in a sample.
 
@@ -750,7 +754,7 @@ class KernelMatrix(object):
                 self._lower_tri_km_filled = True
 
         if issparse(self._full_km) and dense_fmt:
-            self._full_km = self._full_km.todense()
+            self._full_km = self._full_km.toarray()
 
         if contains_nan_inf(self._full_km):
             warn('Kernel matrix computation resulted in Inf or NaN values!'
-- 
2.43.0


From e34be6138ecf6cc2dc4ba79a95f5597f12e08017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:28 +0000
Subject: [PATCH 02/20] fix: retain a populated kernel matrix only once it is
 complete

---
 kernelmethods/base.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 5e1f54f..dab18ba 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -712,13 +712,13 @@ class KernelMatrix(object):
         #   so we need only to STORE half the matrix!
         # as we are computing the full matrix anyways, it's better to keep a copy
         #   to avoid recomputing it for each access of self.full* attributes
-        if not self._populated_fully and not hasattr(self, '_full_km'):
+        if not self._populated_fully:
             if not dense_fmt:
-                self._full_km = lil_matrix(self.shape, dtype=cfg.km_dtype)
+                full_km = lil_matrix(self.shape, dtype=cfg.km_dtype)
             else:
                 # filling with nan to avoid unexpected usage!
-                self._full_km = np.full(self.shape, fill_value=np.nan,
-                                        dtype=cfg.km_dtype)
+                full_km = np.full(self.shape, fill_value=np.nan,
+                                  dtype=cfg.km_dtype)
 
             try:
                 # kernel matrix is symmetric (in a single sample case)
@@ -728,11 +728,13 @@ class KernelMatrix(object):
                 #   refers to sample_two in the two_samples case
                 for ix_one in range(self.shape[0]): # number of rows!
                     for ix_two in range(ix_one, self.shape[1]): # from second sample!
-                        self._full_km[ix_one, ix_two] = \
+                        full_km[ix_one, ix_two] = \
                             self._eval_kernel(ix_one, ix_two)
             except:
                 raise RuntimeError('Unable to fully compute the kernel matrix!')
             else:
+                # retaining it only when complete, to never serve partial results
+                self._full_km = full_km
                 self._populated_fully = True
 
         if fill_lower_tri and not self._lower_tri_km_filled:
-- 
2.43.0


From 0b98941961c8732b62b6db26fb3bbc7313343730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:32 +0000
Subject: [PATCH 03/20] fix: a rejected sample no longer corrupts the state of
 a kernel matrix

---
 kernelmethods/base.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index dab18ba..a29532d 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -248,7 +248,15 @@ class KernelMatrix(object):
             Name for the second sample.
         """
 
-        self._sample = ensure_ndarray_2D(sample_one, ensure_dtype=sample_one.dtype)
+        # validating both inputs first, so a rejected sample leaves this KM unchanged
+        sample_one = ensure_ndarray_2D(sample_one, ensure_dtype=sample_one.dtype)
+        if sample_two is not None:
+            sample_two = ensure_ndarray_2D(sample_two, ensure_dtype=sample_two.dtype)
+
+            if sample_one.shape[1] != sample_two.shape[1]:
+                raise ValueError('Dimensionalities of the two samples differ!')
+
+        self._sample = sample_one
         self._sample_name = name_one
 
         if sample_two is None:
@@ -263,12 +271,7 @@ class KernelMatrix(object):
                                                 self._sample.shape)
 
         else:
-            self._sample_two = ensure_ndarray_2D(sample_two,
-                                                 ensure_dtype=sample_two.dtype)
-
-            if self._sample.shape[1] != self._sample_two.shape[1]:
-                raise ValueError('Dimensionalities of the two samples differ!')
-
+            self._sample_two = sample_two
             self._name_two = name_two
             self._num_samples = (self._sample.shape[0], self._sample_two.shape[0])
             self.shape = (self._sample.shape[0], self._sample_two.shape[0])
-- 
2.43.0


From 9dba8355c363e1fb93e19898db696f4f79e2ac95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:22 +0000
Subject: [PATCH 04/20] fix: promote integer features to float so kernels never
 wrap around

---
 kernelmethods/utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/kernelmethods/utils.py b/kernelmethods/utils.py
index 779354d..05dae30 100644
--- a/kernelmethods/utils.py
+++ b/kernelmethods/utils.py
@@ -28,8 +28,8 @@ def check_input_arrays(x, y, ensure_dtype=np.number):
 
     """
 
-    x = ensure_ndarray_1D(x, ensure_dtype)
-    y = ensure_ndarray_1D(y, ensure_dtype)
+    x = _promote_integers(ensure_ndarray_1D(x, ensure_dtype))
+    y = _promote_integers(ensure_ndarray_1D(y, ensure_dtype))
 
     if x.size != y.size:
         raise ValueError('x (n={}) and y (n={}) differ in size! '
@@ -38,6 +38,15 @@ def check_input_arrays(x, y, ensure_dtype=np.number):
     return x, y
 
 
+def _promote_integers(array):
+    """Converts integers to float, as their arithmetic wraps around silently"""
+
+    if np.issubdtype(array.dtype, np.integer):
+        array = array.astype(np.float64)
+
+    return array
+
+
 def ensure_ndarray_2D(array, ensure_dtype=np.number, ensure_num_cols=None):
     """Converts the input to a numpy array and ensure it is 1D."""
 
-- 
2.43.0


From 5df42f535f9cc6cb3840d331e64dbaa3c7ff94dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:53 +0000
Subject: [PATCH 05/20] fix: empty selection from a constant kernel matrix
 raises KMAccessError, not NameError

---
 kernelmethods/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index a29532d..e590a94 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1025,7 +1025,8 @@ class ConstantKernelMatrix(object):
 
         # slice object returns empty list if all specified are out of range
         if len(indices) == 0:
-            raise KMAccessError('No samples were selected in dim {}'.format(dim))
+            raise KMAccessError('No samples were selected with {}'
+                                ''.format(index_obj_per_dim))
 
         # removing duplicates and sorting
         indices = sorted(list(set(indices)))
-- 
2.43.0


From 251b466931c18df49e645d8bb66956afa1de6b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:21 +0000
Subject: [PATCH 06/20] fix: a non-square matrix is never symmetric, nor a
 valid precomputed kernel matrix

---
 kernelmethods/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/utils.py b/kernelmethods/utils.py
index 05dae30..216f0e5 100644
--- a/kernelmethods/utils.py
+++ b/kernelmethods/utils.py
@@ -144,7 +144,8 @@ def _ensure_min_eps(x):
 def not_symmetric(matrix):
     """Returns true if the input matrix is not symmetric."""
 
-    if not np.isclose(matrix, matrix.T).all():
+    # a non-square matrix may still be comparable to its transpose via broadcasting
+    if matrix.shape != matrix.T.shape or not np.isclose(matrix, matrix.T).all():
         return True
     else:
         return False
-- 
2.43.0


From d7f70461e7eb81568cdcea5de4c7dc7ef53a6c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:46 +0000
Subject: [PATCH 07/20] fix: allow str.format on kernels, kernel matrices and
 their sets

---
 kernelmethods/base.py | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index e590a94..0b0c1b8 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -142,7 +142,6 @@ class KernelFromCallable(BaseKernelFunction):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
@@ -782,10 +781,15 @@ class KernelMatrix(object):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
+
     # TODO implement arithmetic operations on kernel matrices
     def __add__(self, other):
         """Addition"""
@@ -871,10 +875,15 @@ class KernelMatrixPrecomputed(object):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
+
 class ConstantKernelMatrix(object):
     """Custom KernelMatrix (KM) to efficiently represent a constant.
 
@@ -1042,10 +1051,15 @@ class ConstantKernelMatrix(object):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
+
 VALID_KERNEL_MATRIX_TYPES = (KernelMatrix, KernelMatrixPrecomputed, np.ndarray)
 
 
@@ -1257,10 +1271,15 @@ class KernelSet(object):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
+
     def __iter__(self):
         """Making an iterable."""
 
@@ -1441,10 +1460,15 @@ class CompositeKernel(ABC):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
+
 class SumKernel(CompositeKernel):
     """Class to define and compute a weighted sum kernel from a KernelSet
 
-- 
2.43.0


From 55fd474183ca5b61b3767244403f9dda91c12d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:53 +0000
Subject: [PATCH 08/20] fix: allow lists of a single categorical variable in
 MatchCountKernel

---
 kernelmethods/categorical.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/categorical.py b/kernelmethods/categorical.py
index 4ef24e4..e1f4282 100644
--- a/kernelmethods/categorical.py
+++ b/kernelmethods/categorical.py
@@ -121,7 +121,10 @@ def _ensure_type_size(array, ensure_num_dim=1):
     """Checking type and size of arrays"""
 
     if not isinstance(array, np.ndarray):
-        array = np.squeeze(np.asarray(array))
+        array = np.asarray(array)
+        # not squeezing when not needed, as [x, ] is a valid 1D array
+        if array.ndim > ensure_num_dim:
+            array = np.atleast_1d(np.squeeze(array))
 
     if array.ndim != ensure_num_dim:
         raise ValueError('array must be {}-dimensional! '
-- 
2.43.0


From e9b6f3d6d56a003aafcfcd8e691abec57ee6aa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:18 +0000
Subject: [PATCH 09/20] fix: never select a kernel whose ranking metric is NaN
 as the optimal one

---
 kernelmethods/ranking.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kernelmethods/ranking.py b/kernelmethods/ranking.py
index a360b9c..92d448f 100644
--- a/kernelmethods/ranking.py
+++ b/kernelmethods/ranking.py
@@ -52,6 +52,9 @@ def find_optimal_kernel(kernel_bucket, sample, targets, method='cv_risk',
     kernel_bucket.attach_to(sample=sample)
     metric = rank_kernels(kernel_bucket, targets, method=method, **method_params)
 
+    # a metric of NaN (e.g. due to an invalid kernel matrix) must never win
+    metric = np.where(np.isnan(metric), -np.inf, metric)
+
     return kernel_bucket[np.argmax(metric)]
 
 
-- 
2.43.0


From 1b115f528be009ed8e520aaea3940bcd6cc2c22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:50 +0000
Subject: [PATCH 10/20] fix: OptimalKernelSVC/SVR can rank kernels with the
 align/corr method

---
 kernelmethods/algorithms.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index 4c69fc8..18e73f3 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -303,6 +303,15 @@ class BaseOptimalKernelMachine(BaseEstimator):
         """
 
 
+    def _search_params(self):
+        """Parameters for the search that are applicable to the ranking method"""
+
+        if self.method.lower() in ('cv_risk',):
+            return {'estimator_name': self._opt_ker_search_est_name}
+        else:
+            return dict()
+
+
     def fit(self, X, y, sample_weight=None):
         """Estimate the optimal kernel, and fit a SVM based on the custom kernel.
 
@@ -535,7 +544,7 @@ class OptimalKernelSVR(BaseOptimalKernelMachine, SVR):
         return find_optimal_kernel(self._k_bucket,
                                    self._train_X, self._train_y,
                                    method=self.method,
-                                   estimator_name=self._opt_ker_search_est_name)
+                                   **self._search_params())
 
 
     def get_params(self, deep=True):
@@ -659,7 +668,7 @@ class OptimalKernelSVC(BaseOptimalKernelMachine, SVC):
         return find_optimal_kernel(self._k_bucket,
                                    self._train_X, self._train_y,
                                    method=self.method,
-                                   estimator_name=self._opt_ker_search_est_name)
+                                   **self._search_params())
 
 
     def predict(self, X):
-- 
2.43.0


From 29777c4d04924ef47a8fff64600e093bf1d6b8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:33 +0000
Subject: [PATCH 11/20] fix: OptimalKernelSVC/SVR train on the optimal kernel
 itself, not a RBF over its rows

---
 kernelmethods/algorithms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index 18e73f3..103e491 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -364,6 +364,8 @@ class BaseOptimalKernelMachine(BaseEstimator):
 
         self.opt_kernel_ = self._find_optimal_kernel()
 
+        # SVM must be trained on the optimal kernel, not on another kernel over it
+        self.kernel = 'precomputed'
         super().fit(X=self.opt_kernel_.full, y=self._train_y,
                     sample_weight=sample_weight)
 
-- 
2.43.0


From edc8c40cd7d4fbdee002df7dce3c29e49278e80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:06 +0000
Subject: [PATCH 12/20] fix: accept numpy integers of any width as kernel
 matrix indices

---
 kernelmethods/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 0b0c1b8..fd7ab8f 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -603,7 +603,7 @@ class KernelMatrix(object):
 
         """
 
-        if np.issubdtype(type(index_obj), np.int_):
+        if np.issubdtype(type(index_obj), np.integer):
             index_obj = np.unravel_index(index_obj, self.shape)
 
         if (not isinstance(index_obj, Iterable)) or len(index_obj) != 2 or \
@@ -640,7 +640,7 @@ class KernelMatrix(object):
 
         are_all_selected = False
 
-        if np.issubdtype(type(index_obj_per_dim), np.int_):
+        if np.issubdtype(type(index_obj_per_dim), np.integer):
             indices = [index_obj_per_dim, ]  # making it iterable
         elif isinstance(index_obj_per_dim, slice):
             if index_obj_per_dim is None:
@@ -1008,7 +1008,7 @@ class ConstantKernelMatrix(object):
         if isinstance(index_obj_per_dim, str) or index_obj_per_dim is None:
             raise KMAccessError('Indices can not be strings!')
 
-        if np.issubdtype(type(index_obj_per_dim), np.int_):
+        if np.issubdtype(type(index_obj_per_dim), np.integer):
             indices = [index_obj_per_dim, ]  # making it iterable
         elif isinstance(index_obj_per_dim, slice):
             _slice_index_list = index_obj_per_dim.indices(self.num_samples)
-- 
2.43.0


From 013d5d21bda7b43413dc88c02ae24bf8a1748e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:37 +0000
Subject: [PATCH 13/20] fix: get_kernel_funcs returns a tuple as documented,
 not a one-shot generator

---
 kernelmethods/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index fd7ab8f..b8cf2c9 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1243,7 +1243,7 @@ class KernelSet(object):
 
         indices = self._check_indices(indices)
 
-        return (self._km_set[index].kernel for index in indices)
+        return tuple(self._km_set[index].kernel for index in indices)
 
 
     def _check_indices(self, indices):
-- 
2.43.0


From c8b886644d31ee88536b5333a244467678718d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:44 +0000
Subject: [PATCH 14/20] fix: target kernels of integer labels never wrap around

---
 kernelmethods/ranking.py  | 5 +++--
 kernelmethods/sampling.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/kernelmethods/ranking.py b/kernelmethods/ranking.py
index 92d448f..7a35d81 100644
--- a/kernelmethods/ranking.py
+++ b/kernelmethods/ranking.py
@@ -12,7 +12,7 @@ import numpy as np
 from kernelmethods import config as cfg
 from kernelmethods.operations import alignment_centered
 from kernelmethods.sampling import KernelBucket
-from kernelmethods.utils import min_max_scale
+from kernelmethods.utils import _promote_integers, min_max_scale
 
 
 def find_optimal_kernel(kernel_bucket, sample, targets, method='cv_risk',
@@ -143,7 +143,8 @@ def alignment_ranking(kernel_bucket, targets, **method_params):
 
     """
 
-    targets = np.asarray(targets)
+    # integers are promoted, as their products can wrap around silently
+    targets = _promote_integers(np.asarray(targets))
     target_kernel = np.outer(targets, targets)
     method_params.setdefault('value_if_zero_division', 0.0)
 
diff --git a/kernelmethods/sampling.py b/kernelmethods/sampling.py
index a93e771..efc451d 100644
--- a/kernelmethods/sampling.py
+++ b/kernelmethods/sampling.py
@@ -8,7 +8,7 @@ from kernelmethods.config import KernelMethodsException, KernelMethodsWarning
 from kernelmethods.numeric_kernels import (GaussianKernel, LaplacianKernel,
                                            LinearKernel, PolyKernel, SigmoidKernel)
 from kernelmethods.operations import alignment_centered
-from kernelmethods.utils import is_iterable_but_not_str
+from kernelmethods.utils import _promote_integers, is_iterable_but_not_str
 from scipy.stats import pearsonr
 
 
@@ -263,7 +263,8 @@ def ideal_kernel(targets):
 
     """
 
-    targets = np.array(targets).reshape((-1, 1))  # row vector
+    # integers are promoted, as their products can wrap around silently
+    targets = _promote_integers(np.array(targets)).reshape((-1, 1))  # row vector
 
     return targets.dot(targets.T)
 
-- 
2.43.0


From 4d0f312e8a5e99a282e326529cf2d9133c2e83f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:19 +0000
Subject: [PATCH 15/20] fix: Frobenius products of integer matrices never wrap
 around

---
 kernelmethods/operations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kernelmethods/operations.py b/kernelmethods/operations.py
index 7c597e8..faec77d 100644
--- a/kernelmethods/operations.py
+++ b/kernelmethods/operations.py
@@ -20,7 +20,8 @@ from warnings import warn
 
 import numpy as np
 from kernelmethods.config import KMNormError, KernelMethodsException
-from kernelmethods.utils import contains_nan_inf, ensure_ndarray_1D
+from kernelmethods.utils import (_promote_integers, contains_nan_inf,
+                                 ensure_ndarray_1D)
 from numpy import multiply as elem_wise_multiply
 from scipy.linalg import LinAlgError, eigh
 
@@ -289,7 +290,9 @@ def frobenius_product(A, B):
                          'to compute Frobenious product! They differ: {}, {}'
                          ''.format(A.shape, B.shape))
 
-    return np.sum(elem_wise_multiply(A, B), axis=None)
+    # integers are promoted, as their products can wrap around silently
+    return np.sum(elem_wise_multiply(_promote_integers(A), _promote_integers(B)),
+                  axis=None)
 
 
 def frobenius_norm(A):
-- 
2.43.0


From f385e965d5efa17675986136b9a5849f17963ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:34 +0000
Subject: [PATCH 16/20] fix: normalizing a two-sample kernel matrix honours the
 method requested

---
 kernelmethods/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index b8cf2c9..f317114 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -497,7 +497,8 @@ class KernelMatrix(object):
                 # diagonal
                 self._normed_km = normalize_km_2sample(self._full_km,
                                                        KM_XX.diagonal(),
-                                                       KM_YY.diagonal())
+                                                       KM_YY.diagonal(),
+                                                       method=method)
             self._is_normed = True
 
             if contains_nan_inf(self._normed_km):
-- 
2.43.0


From 952f7ee65fde80ccb45010728845c2f6dbaf9798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:02 +0000
Subject: [PATCH 17/20] fix: OptimalKernelSVC predicts the class labels
 themselves, which need not be integers

---
 kernelmethods/algorithms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index 103e491..0c65fb4 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -360,7 +360,7 @@ class BaseOptimalKernelMachine(BaseEstimator):
                              'KernelBucket or a sampling strategy to generate '
                              'one with make_kernel_bucket')
 
-        self._train_X, self._train_y = check_X_y(X, y, y_numeric=True)
+        self._train_X, self._train_y = check_X_y(X, y, y_numeric=is_regressor(self))
 
         self.opt_kernel_ = self._find_optimal_kernel()
 
@@ -690,8 +690,8 @@ class OptimalKernelSVC(BaseOptimalKernelMachine, SVC):
         """
 
         predicted_y = super().predict(X)
-        # casting output type to integers
-        return np.asarray(predicted_y, dtype=np.intp)
+        # class labels need not be integers
+        return np.asarray(predicted_y, dtype=self._train_y.dtype)
 
 
     def get_params(self, deep=True):
-- 
2.43.0


From d6b46c52148ef6f232da61052e039d8116907774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:23 +0000
Subject: [PATCH 18/20] fix: kernel machines are recognised as classifiers and
 regressors, so integer targets are not truncated

---
 kernelmethods/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index 0c65fb4..40872af 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -184,11 +184,11 @@ class BaseKernelMachine(BaseEstimator):
             return dict()
 
 
-class KernelMachine(BaseKernelMachine, ClassifierMixin):
+class KernelMachine(ClassifierMixin, BaseKernelMachine):
     """Classifier version of the KernelMachine"""
 
 
-class KernelMachineRegressor(BaseKernelMachine, RegressorMixin):
+class KernelMachineRegressor(RegressorMixin, BaseKernelMachine):
     """Regressor version of the KernelMachine
 
     Parameters
-- 
2.43.0


From 8f7a8fb06aa86756ed6622a144a049cb36d9fbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:54 +0000
Subject: [PATCH 19/20] fix: a single value given in a list is set as attribute
 on every kernel matrix of a set, as documented

---
 kernelmethods/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index f317114..d233388 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1361,6 +1361,8 @@ class KernelSet(object):
 
         if not isinstance(values, Iterable) or isinstance(values, str):
             values = [values] * self.size
+        elif len(values) == 1:
+            values = list(values) * self.size
         elif len(values) != self.size:
             raise ValueError('Values must be single element, or '
                              'of the same size as this KernelSet ({}), '
-- 
2.43.0


From 4231dad1686c5f8c59e96863452c3c70f1b467fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:27 +0000
Subject: [PATCH 20/20] fix: weighted combinations of integer matrices with
 integer weights never wrap around

---
 kernelmethods/base.py       | 6 ++++--
 kernelmethods/operations.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index d233388..aab381d 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1497,7 +1497,8 @@ class SumKernel(CompositeKernel):
         if kernel_weights is None:
             kernel_weights = np.ones(self.km_set.size)
         else:
-            kernel_weights = ensure_ndarray_1D(kernel_weights)
+            # not multiplying in a narrow integer type, which could wrap around
+            kernel_weights = ensure_ndarray_1D(kernel_weights).astype(np.float64)
             if kernel_weights.size != self.km_set.size:
                 raise ValueError('Incompatible set of kernel_weights given.'
                                  'Must be an array of length exactly {}'
@@ -1606,7 +1607,8 @@ class WeightedAverageKernel(CompositeKernel):
         """Computes the weighted average kernel"""
 
         self.KM = np.zeros((self.num_samples, self.num_samples))
-        for weight, km in zip(self.weights, self.km_set):
+        # not multiplying in a narrow integer type, which could wrap around
+        for weight, km in zip(self.weights.astype(np.float64), self.km_set):
             self.KM = self.KM + weight * km.full
 
         self._is_fitted = True
diff --git a/kernelmethods/operations.py b/kernelmethods/operations.py
index faec77d..2985193 100644
--- a/kernelmethods/operations.py
+++ b/kernelmethods/operations.py
@@ -413,7 +413,8 @@ def linear_combination(km_set, weights, norm_weights=False):
     """
 
     if km_set.size == len(weights):
-        weights = ensure_ndarray_1D(weights)
+        # not multiplying in a narrow integer type, which could wrap around
+        weights = ensure_ndarray_1D(weights).astype(np.float64)
     else:
         raise ValueError('Number of weights ({}) supplied differ '
                          'from the kernel set size ({})'
-- 
2.43.0

