From 8ab9c81b1b8bc70668ed02bf5af9d7098843e07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:17 +0000
Subject: [PATCH 01/28] fix: publish only complete dense kernel matrices,
 whatever was read or failed before

KernelMatrix shared one cached matrix between its views: after full_sparse or
[:, :] the other views returned sparse and/or half-filled matrices, and after a
failure of the kernel function the next access returned a NaN-filled one.
---
 kernelmethods/base.py | 49 +++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index f84bc4a..d8eb4bf 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -21,7 +21,7 @@ from kernelmethods.operations import (center_km, frobenius_norm, is_PSD,
                                       normalize_km_2sample)
 from kernelmethods.utils import (check_callable, contains_nan_inf, ensure_ndarray_1D,
                                  ensure_ndarray_2D, get_callable_name, not_symmetric)
-from scipy.sparse import issparse, lil_matrix
+from scipy.sparse import lil_matrix
 
 
 class BaseKernelFunction(ABC):
@@ -453,7 +453,7 @@ class KernelMatrix(object):
                                       ' when KM is attached two separate samples.')
 
         if not self._populated_fully:
-            self._full_km = self._populate_fully(fill_lower_tri=True, dense_fmt=True)
+            self._populate_fully(fill_lower_tri=True, dense_fmt=True)
 
         self._centered = center_km(self._full_km)
         self._is_centered = True
@@ -624,7 +624,7 @@ class KernelMatrix(object):
         # the entire kernel matrix with KM[:,:],
         # without exploiting the fact that KM is symmetric
         if are_all_selected_dim_one and are_all_selected_dim_two:
-            return self._populate_fully(fill_lower_tri=True)
+            return self._populate_fully(dense_fmt=True, fill_lower_tri=True)
         else:
             return self._compute_for_index_combinations(set_one, set_two)
 
@@ -704,17 +704,14 @@ class KernelMatrix(object):
 
         """
 
-        # kernel matrix is symmetric (in a single sample case)
-        #   so we need only to STORE half the matrix!
         # as we are computing the full matrix anyways, it's better to keep a copy
         #   to avoid recomputing it for each access of self.full* attributes
-        if not self._populated_fully and not hasattr(self, '_full_km'):
-            if not dense_fmt:
-                self._full_km = lil_matrix(self.shape, dtype=cfg.km_dtype)
-            else:
-                # filling with nan to avoid unexpected usage!
-                self._full_km = np.full(self.shape, fill_value=np.nan,
-                                        dtype=cfg.km_dtype)
+        if not self._populated_fully:
+            # building it in a local variable, and publishing it only when complete,
+            #   so an exception in the kernel function (or another thread) never
+            #   sees or leaves behind a partially filled matrix.
+            # filling with nan to avoid unexpected usage!
+            full_km = np.full(self.shape, fill_value=np.nan, dtype=cfg.km_dtype)
 
             try:
                 # kernel matrix is symmetric (in a single sample case)
@@ -724,40 +721,42 @@ class KernelMatrix(object):
                 #   refers to sample_two in the two_samples case
                 for ix_one in range(self.shape[0]): # number of rows!
                     for ix_two in range(ix_one, self.shape[1]): # from second sample!
-                        self._full_km[ix_one, ix_two] = \
-                            self._eval_kernel(ix_one, ix_two)
+                        full_km[ix_one, ix_two] = self._eval_kernel(ix_one, ix_two)
             except:
                 raise RuntimeError('Unable to fully compute the kernel matrix!')
-            else:
-                self._populated_fully = True
 
-        if fill_lower_tri and not self._lower_tri_km_filled:
             try:
                 # choosing k=-1 as main diag is already covered above (nested for
                 # loop)
                 ix_lower_tri = np.tril_indices(self.shape[0], m=self.shape[1], k=-1)
 
                 if not self._two_samples and self.shape[0] == self.shape[1]:
-                    self._full_km[ix_lower_tri] = self._full_km.T[ix_lower_tri]
+                    full_km[ix_lower_tri] = full_km.T[ix_lower_tri]
                 else:
                     # evaluating it for the lower triangle as well!
                     for ix_one, ix_two in zip(*ix_lower_tri):
-                        self._full_km[ix_one, ix_two] = self._eval_kernel(ix_one,
-                                                                          ix_two)
+                        full_km[ix_one, ix_two] = self._eval_kernel(ix_one, ix_two)
             except:
                 raise RuntimeError('Unable to symmetrize the kernel matrix!')
-            else:
-                self._lower_tri_km_filled = True
 
-        if issparse(self._full_km) and dense_fmt:
-            self._full_km = self._full_km.todense()
+            self._full_km = full_km
+            self._lower_tri_km_filled = True
+            self._populated_fully = True
 
         if contains_nan_inf(self._full_km):
             warn('Kernel matrix computation resulted in Inf or NaN values!'
                  ' Check your parameters and data!\n Kernel function: {}'
                  ''.format(self.kernel), KernelMethodsWarning)
 
-        return self._full_km
+        if dense_fmt:
+            return self._full_km
+
+        if fill_lower_tri or self._two_samples:
+            return lil_matrix(self._full_km)
+        else:
+            # kernel matrix is symmetric (in a single sample case)
+            #   so we need only to STORE half the matrix!
+            return lil_matrix(np.triu(self._full_km))
 
 
     def __str__(self):
-- 
2.43.0


From b5f8d168d55943f34195cdc7d32740114aa7d7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:17 +0000
Subject: [PATCH 02/28] fix: a rejected KernelMatrix.attach_to no longer mixes
 old and new samples

---
 kernelmethods/base.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index d8eb4bf..9649da4 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -248,7 +248,16 @@ class KernelMatrix(object):
             Name for the second sample.
         """
 
-        self._sample = ensure_ndarray_2D(sample_one, ensure_dtype=sample_one.dtype)
+        # validating both samples first, so that a rejected attach changes nothing
+        sample_one = ensure_ndarray_2D(sample_one, ensure_dtype=sample_one.dtype)
+        if sample_two is not None:
+            sample_two = ensure_ndarray_2D(sample_two,
+                                           ensure_dtype=sample_two.dtype)
+
+            if sample_one.shape[1] != sample_two.shape[1]:
+                raise ValueError('Dimensionalities of the two samples differ!')
+
+        self._sample = sample_one
         self._sample_name = name_one
 
         if sample_two is None:
@@ -263,12 +272,7 @@ class KernelMatrix(object):
                                                 self._sample.shape)
 
         else:
-            self._sample_two = ensure_ndarray_2D(sample_two,
-                                                 ensure_dtype=sample_two.dtype)
-
-            if self._sample.shape[1] != self._sample_two.shape[1]:
-                raise ValueError('Dimensionalities of the two samples differ!')
-
+            self._sample_two = sample_two
             self._name_two = name_two
             self._num_samples = (self._sample.shape[0], self._sample_two.shape[0])
             self.shape = (self._sample.shape[0], self._sample_two.shape[0])
-- 
2.43.0


From 0ab6469a67e59d4bf04423ea118cd14141f0dfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:17 +0000
Subject: [PATCH 03/28] fix: numeric kernels no longer wrap around on integer
 vectors

With uint8 data e.g. the Gaussian kernel was not even symmetric, and the linear
kernel was computed modulo 256.
---
 kernelmethods/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kernelmethods/utils.py b/kernelmethods/utils.py
index 779354d..0ace8d0 100644
--- a/kernelmethods/utils.py
+++ b/kernelmethods/utils.py
@@ -35,6 +35,11 @@ def check_input_arrays(x, y, ensure_dtype=np.number):
         raise ValueError('x (n={}) and y (n={}) differ in size! '
                          'They must be of same length'.format(x.size, y.size))
 
+    # integer arithmetic silently wraps around (e.g. x-y for unsigned types, or the
+    # products of small types), so all kernels operate on floating point values
+    x, y = (arr.astype(np.float64) if np.issubdtype(arr.dtype, np.integer) else arr
+            for arr in (x, y))
+
     return x, y
 
 
-- 
2.43.0


From 380ff3335cde0aebdb17189cb8bf98c4a370b58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:17 +0000
Subject: [PATCH 04/28] fix: KernelMatrixPrecomputed rejects 1 x n matrices

---
 kernelmethods/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/utils.py b/kernelmethods/utils.py
index 0ace8d0..46c735d 100644
--- a/kernelmethods/utils.py
+++ b/kernelmethods/utils.py
@@ -140,7 +140,8 @@ def _ensure_min_eps(x):
 def not_symmetric(matrix):
     """Returns true if the input matrix is not symmetric."""
 
-    if not np.isclose(matrix, matrix.T).all():
+    # comparing shapes first, as a (1, n) matrix can be broadcast with its transpose
+    if matrix.shape != matrix.T.shape or not np.isclose(matrix, matrix.T).all():
         return True
     else:
         return False
-- 
2.43.0


From d3ba92af527e850e8fdad76ffeec5da1c0f71c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:17 +0000
Subject: [PATCH 05/28] fix: format() of kernel matrices, sets and composites
 raised TypeError

Among others, a KernelFromCallable producing NaN raised TypeError in the
attempt to warn about it.
---
 kernelmethods/base.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 9649da4..bc36256 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -141,9 +141,7 @@ class KernelFromCallable(BaseKernelFunction):
         return "{}{}".format(self.name, arg_repr)
 
 
-    # aliasing them to __str__ for now
-    __format__ = __str__
-    __repr__ = __str__
+    # __format__ and __repr__ are inherited
 
 
 class KernelMatrix(object):
@@ -776,9 +774,13 @@ class KernelMatrix(object):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
 
     # TODO implement arithmetic operations on kernel matrices
     def __add__(self, other):
@@ -865,9 +867,13 @@ class KernelMatrixPrecomputed(object):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
 
 class ConstantKernelMatrix(object):
     """Custom KernelMatrix (KM) to efficiently represent a constant.
@@ -1035,9 +1041,13 @@ class ConstantKernelMatrix(object):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
 
 VALID_KERNEL_MATRIX_TYPES = (KernelMatrix, KernelMatrixPrecomputed, np.ndarray)
 
@@ -1250,9 +1260,13 @@ class KernelSet(object):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
 
     def __iter__(self):
         """Making an iterable."""
@@ -1434,9 +1448,13 @@ class CompositeKernel(ABC):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
 
 class SumKernel(CompositeKernel):
     """Class to define and compute a weighted sum kernel from a KernelSet
-- 
2.43.0


From b5352357c039f4738b5168bbb2c38a2b484d4430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:35 +0000
Subject: [PATCH 06/28] fix: empty selection from ConstantKernelMatrix raised
 NameError

---
 kernelmethods/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index bc36256..3c283b9 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1025,7 +1025,7 @@ class ConstantKernelMatrix(object):
 
         # slice object returns empty list if all specified are out of range
         if len(indices) == 0:
-            raise KMAccessError('No samples were selected in dim {}'.format(dim))
+            raise KMAccessError('No samples were selected in one of the dims')
 
         # removing duplicates and sorting
         indices = sorted(list(set(indices)))
-- 
2.43.0


From 5432fb5d9ae019754a440ba6c2c15bd3c3efb0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:35 +0000
Subject: [PATCH 07/28] fix: accept numpy integers of all sizes as indices into
 kernel matrices

Only the default integer type was accepted as a scalar index, although arrays
of the other types were.
---
 kernelmethods/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 3c283b9..105e0f3 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -607,7 +607,7 @@ class KernelMatrix(object):
 
         """
 
-        if np.issubdtype(type(index_obj), np.int_):
+        if np.issubdtype(type(index_obj), np.integer):
             index_obj = np.unravel_index(index_obj, self.shape)
 
         if (not isinstance(index_obj, Iterable)) or len(index_obj) != 2 or \
@@ -644,7 +644,7 @@ class KernelMatrix(object):
 
         are_all_selected = False
 
-        if np.issubdtype(type(index_obj_per_dim), np.int_):
+        if np.issubdtype(type(index_obj_per_dim), np.integer):
             indices = [index_obj_per_dim, ]  # making it iterable
         elif isinstance(index_obj_per_dim, slice):
             if index_obj_per_dim is None:
@@ -999,7 +999,7 @@ class ConstantKernelMatrix(object):
         if isinstance(index_obj_per_dim, str) or index_obj_per_dim is None:
             raise KMAccessError('Indices can not be strings!')
 
-        if np.issubdtype(type(index_obj_per_dim), np.int_):
+        if np.issubdtype(type(index_obj_per_dim), np.integer):
             indices = [index_obj_per_dim, ]  # making it iterable
         elif isinstance(index_obj_per_dim, slice):
             _slice_index_list = index_obj_per_dim.indices(self.num_samples)
-- 
2.43.0


From d09906de35236eb10a605d8d9dcb03684fdc7266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:35 +0000
Subject: [PATCH 08/28] fix: scikit-learn did not recognize
 KernelMachine(Regressor) as classifier (regressor)

Mixins must precede BaseEstimator. As a consequence, classes_ was not set,
and predictions of the regressor were truncated to integers for integer targets.
---
 kernelmethods/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index 4c69fc8..c48f540 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -184,11 +184,11 @@ class BaseKernelMachine(BaseEstimator):
             return dict()
 
 
-class KernelMachine(BaseKernelMachine, ClassifierMixin):
+class KernelMachine(ClassifierMixin, BaseKernelMachine):
     """Classifier version of the KernelMachine"""
 
 
-class KernelMachineRegressor(BaseKernelMachine, RegressorMixin):
+class KernelMachineRegressor(RegressorMixin, BaseKernelMachine):
     """Regressor version of the KernelMachine
 
     Parameters
-- 
2.43.0


From d179f0b23a515fa8d12f51fef2faf722057a899b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:35 +0000
Subject: [PATCH 09/28] fix: KernelSet.attach_to refused categorical samples

---
 kernelmethods/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 105e0f3..96975de 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1295,10 +1295,12 @@ class KernelSet(object):
 
         """
 
-        self.sample = ensure_ndarray_2D(sample)
+        # data type depends on the kernel e.g. numeric or categorical
+        sample = ensure_ndarray_2D(sample, ensure_dtype=None)
         if self._num_samples is not None and sample.shape[0] != self._num_samples:
             raise ValueError('Number of samples in input differ from this KernelSet')
         else:
+            self.sample = sample
             self._num_samples = sample.shape[0]
 
         for index in range(self.size):
-- 
2.43.0


From acd1657c295c7e1cf5653569d950f8fa969b9252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:35 +0000
Subject: [PATCH 10/28] fix: KernelSet.set_attr applies a single-element list
 to all kernel matrices, as documented

---
 kernelmethods/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 96975de..1066bf4 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1350,6 +1350,8 @@ class KernelSet(object):
 
         if not isinstance(values, Iterable) or isinstance(values, str):
             values = [values] * self.size
+        elif len(values) == 1:
+            values = list(values) * self.size
         elif len(values) != self.size:
             raise ValueError('Values must be single element, or '
                              'of the same size as this KernelSet ({}), '
-- 
2.43.0


From b1d331c6db05e31b5fe8169f6b5a2af7654dad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:12 +0000
Subject: [PATCH 11/28] fix: kernels with a non-finite matrix broke the search
 for the optimal kernel

With "align/corr" such a kernel (e.g. a sigmoid kernel that can not be
normalized, as in the default bucket) was considered optimal, and with
"cv_risk" it raised an exception.
---
 kernelmethods/ranking.py | 10 ++++++++--
 kernelmethods/utils.py   | 11 +++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/kernelmethods/ranking.py b/kernelmethods/ranking.py
index a360b9c..938f8c9 100644
--- a/kernelmethods/ranking.py
+++ b/kernelmethods/ranking.py
@@ -12,7 +12,7 @@ import numpy as np
 from kernelmethods import config as cfg
 from kernelmethods.operations import alignment_centered
 from kernelmethods.sampling import KernelBucket
-from kernelmethods.utils import min_max_scale
+from kernelmethods.utils import contains_nan_inf, min_max_scale
 
 
 def find_optimal_kernel(kernel_bucket, sample, targets, method='cv_risk',
@@ -52,7 +52,8 @@ def find_optimal_kernel(kernel_bucket, sample, targets, method='cv_risk',
     kernel_bucket.attach_to(sample=sample)
     metric = rank_kernels(kernel_bucket, targets, method=method, **method_params)
 
-    return kernel_bucket[np.argmax(metric)]
+    # kernels that could not be ranked have a score of NaN
+    return kernel_bucket[np.nanargmax(metric)]
 
 
 def rank_kernels(kernel_bucket, targets, method='align/corr', **method_params):
@@ -113,6 +114,7 @@ def CV_ranking(kernel_bucket, targets, num_folds=3, estimator_name='SVM'):
     -------
     scores : ndarray
         CV performance computed for the kernel matrices in the bucket
+        NaN for those with non-finite values, which can not be used for training.
 
     """
 
@@ -120,6 +122,10 @@ def CV_ranking(kernel_bucket, targets, num_folds=3, estimator_name='SVM'):
 
     cv_scores = list()
     for km in kernel_bucket:
+        if contains_nan_inf(km.full):
+            cv_scores.append(np.nan)
+            continue
+
         estimator, param_grid = get_estimator(estimator_name)
         gs = GridSearchCV(estimator=estimator,
                           param_grid=param_grid,
diff --git a/kernelmethods/utils.py b/kernelmethods/utils.py
index 46c735d..75db2f3 100644
--- a/kernelmethods/utils.py
+++ b/kernelmethods/utils.py
@@ -158,13 +158,16 @@ def check_operation_kernel_matrix(operation):
 
 
 def min_max_scale(array):
-    """Rescale the array values from 0 to 1 via min-max normalization."""
+    """Rescale the array values from 0 to 1 via min-max normalization.
+
+    NaNs are ignored, and retained in the output.
+    """
 
     array = np.array(array)
-    min_val = array.min()
-    spread = np.max(array) - min_val
+    min_val = np.nanmin(array)
+    spread = np.nanmax(array) - min_val
     if np.isclose(spread, 0.0):
-        return np.zeros_like(array, dtype=np.float64)
+        return np.where(np.isnan(array), np.nan, 0.0)
     return (array - min_val) / spread
 
 
-- 
2.43.0


From 6d3b7b669b5c13f8e77d68114ae88dd1b28636af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:12 +0000
Subject: [PATCH 12/28] fix: OptimalKernelSVC and OptimalKernelSVR raised
 TypeError for method="align/corr"

---
 kernelmethods/ranking.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kernelmethods/ranking.py b/kernelmethods/ranking.py
index 938f8c9..c12a501 100644
--- a/kernelmethods/ranking.py
+++ b/kernelmethods/ranking.py
@@ -137,12 +137,11 @@ def CV_ranking(kernel_bucket, targets, num_folds=3, estimator_name='SVM'):
     return 100 * min_max_scale(cv_scores)
 
 
-def alignment_ranking(kernel_bucket, targets, **method_params):
+def alignment_ranking(kernel_bucket, targets, estimator_name=None, **method_params):
     """Method to rank kernels that depend on target alignment.
 
-    .. note:
-
-        To be implemented.
+    ``estimator_name`` is ignored, as alignment doesn't depend on an estimator. It is
+    accepted so the ranking methods can be exchanged e.g. in find_optimal_kernel
 
     """
 
-- 
2.43.0


From 51ae1bea86d38a89447084ed28646ad1bc0911f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:12 +0000
Subject: [PATCH 13/28] fix: OptimalKernelSVC and OptimalKernelSVR did not use
 the optimal kernel

They trained an RBF kernel SVM on the rows of the optimal kernel matrix, instead
of an SVM with the optimal kernel.
---
 kernelmethods/algorithms.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index c48f540..8c8358c 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -396,6 +396,23 @@ class BaseOptimalKernelMachine(BaseEstimator):
         return predicted_y
 
 
+    def __sklearn_tags__(self):
+        """Input X is a regular sample, although the SVM operates on a kernel matrix.
+
+        This avoids issues with cross_val_score and safe_split
+        """
+
+        tags = super().__sklearn_tags__()
+        tags.input_tags.pairwise = False
+        return tags
+
+
+    def _more_tags(self):
+        """Same as above, for older versions of sklearn"""
+
+        return {'pairwise': False}
+
+
     @abstractmethod
     def get_params(self, deep=True):
         """returns all the relevant parameters for this estimator!"""
@@ -515,9 +532,9 @@ class OptimalKernelSVR(BaseOptimalKernelMachine, SVR):
 
         """
 
-        # not init'ing SVC/SVR with kernel='precomputed' to avoid issues with
-        # cross_val_score and safe_split
-        super().__init__(C=C, epsilon=epsilon, shrinking=shrinking, tol=tol)
+        # SVR gets trained on the matrix of the optimal kernel
+        super().__init__(kernel='precomputed',
+                         C=C, epsilon=epsilon, shrinking=shrinking, tol=tol)
 
         self.k_bucket = k_bucket
         self.method = method
@@ -640,9 +657,8 @@ class OptimalKernelSVC(BaseOptimalKernelMachine, SVC):
 
         """
 
-        # not init'ing SVC/SVR with kernel='precomputed' to avoid issues with
-        # cross_val_score and safe_split
-        super().__init__(C=C, shrinking=shrinking, tol=tol)
+        # SVC gets trained on the matrix of the optimal kernel
+        super().__init__(kernel='precomputed', C=C, shrinking=shrinking, tol=tol)
 
         self.k_bucket = k_bucket
         self.method = method
-- 
2.43.0


From 5d42d680fa53cebc14f6f183b83143aeb7955b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:44 +0000
Subject: [PATCH 14/28] fix: KernelMatrix.normalize ignored an unknown method
 when attached to two samples

---
 kernelmethods/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 1066bf4..359367f 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -500,7 +500,8 @@ class KernelMatrix(object):
                 # diagonal
                 self._normed_km = normalize_km_2sample(self._full_km,
                                                        KM_XX.diagonal(),
-                                                       KM_YY.diagonal())
+                                                       KM_YY.diagonal(),
+                                                       method=method)
             self._is_normed = True
 
             if contains_nan_inf(self._normed_km):
-- 
2.43.0


From 8ce5b87e561a1e0637efcfe647826537e8072230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:51 +0000
Subject: [PATCH 15/28] fix: a composite kernel whose refit failed returned a
 partially computed matrix

---
 kernelmethods/base.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 359367f..7f97b55 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1492,10 +1492,12 @@ class SumKernel(CompositeKernel):
                                  'Must be an array of length exactly {}'
                                  ''.format(self.km_set.size))
 
-        self.KM = np.zeros((self.num_samples, self.num_samples))
+        # publishing the result only when complete
+        KM = np.zeros((self.num_samples, self.num_samples))
         for weight, km in zip(kernel_weights, self.km_set):
-            self.KM = self.KM + weight * km.full
+            KM = KM + weight * km.full
 
+        self.KM = KM
         self._is_fitted = True
 
 
@@ -1522,10 +1524,12 @@ class ProductKernel(CompositeKernel):
     def fit(self):
         """Computes the product kernel."""
 
-        self.KM = np.ones((self.num_samples, self.num_samples))
+        # publishing the result only when complete
+        KM = np.ones((self.num_samples, self.num_samples))
         for km in self.km_set:
-            self.KM = self.KM * km.full  # * is element-wise multiplication here
+            KM = KM * km.full  # * is element-wise multiplication here
 
+        self.KM = KM
         self._is_fitted = True
 
 
@@ -1551,12 +1555,13 @@ class AverageKernel(CompositeKernel):
     def fit(self):
         """Computes the average kernel"""
 
-        self.KM = np.zeros((self.num_samples, self.num_samples))
+        # publishing the result only when complete
+        KM = np.zeros((self.num_samples, self.num_samples))
         for km in self.km_set:
-            self.KM = self.KM + km.full  # * is element-wise multiplication here
+            KM = KM + km.full  # * is element-wise multiplication here
 
         # dividing by N, to make it an average
-        self.KM = self.KM / self.km_set.size
+        self.KM = KM / self.km_set.size
 
         self._is_fitted = True
 
@@ -1594,8 +1599,10 @@ class WeightedAverageKernel(CompositeKernel):
     def fit(self):
         """Computes the weighted average kernel"""
 
-        self.KM = np.zeros((self.num_samples, self.num_samples))
+        # publishing the result only when complete
+        KM = np.zeros((self.num_samples, self.num_samples))
         for weight, km in zip(self.weights, self.km_set):
-            self.KM = self.KM + weight * km.full
+            KM = KM + weight * km.full
 
+        self.KM = KM
         self._is_fitted = True
-- 
2.43.0


From 29166aec55ba10625d90eed722da3b8ea9c9c28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:26 +0000
Subject: [PATCH 16/28] fix: an estimator whose refit failed predicted with a
 mix of old and new training data

---
 kernelmethods/algorithms.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index 8c8358c..b228b22 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -100,19 +100,23 @@ class BaseKernelMachine(BaseEstimator):
 
         """
 
+        # an earlier fit is no longer valid, even if this one fails halfway
+        if hasattr(self, '_km'):
+            del self._km
+
         if is_regressor(self):
             self._train_X, self._train_y = check_X_y(X, y, y_numeric=True)
             self._train_y = self._train_y.astype(np.float64)
         else:
             self._train_X, self._train_y = check_X_y(X, y)
 
-        self._km = KernelMatrix(self.k_func, name='train_km',
-                                normalized=self.normalized)
-        self._km.attach_to(self._train_X)
+        km = KernelMatrix(self.k_func, name='train_km', normalized=self.normalized)
+        km.attach_to(self._train_X)
 
         self._estimator, self.param_grid = get_estimator(self.learner_id)
-        self._estimator.fit(X=self._km.full, y=self._train_y,
+        self._estimator.fit(X=km.full, y=self._train_y,
                             sample_weight=sample_weight)
+        self._km = km
 
         if is_classifier(self):
             self.classes_ = self._estimator.classes_
@@ -351,12 +355,17 @@ class BaseOptimalKernelMachine(BaseEstimator):
                              'KernelBucket or a sampling strategy to generate '
                              'one with make_kernel_bucket')
 
+        # an earlier fit is no longer valid, even if this one fails halfway
+        if hasattr(self, 'opt_kernel_'):
+            del self.opt_kernel_
+
         self._train_X, self._train_y = check_X_y(X, y, y_numeric=True)
 
-        self.opt_kernel_ = self._find_optimal_kernel()
+        opt_kernel = self._find_optimal_kernel()
 
-        super().fit(X=self.opt_kernel_.full, y=self._train_y,
+        super().fit(X=opt_kernel.full, y=self._train_y,
                     sample_weight=sample_weight)
+        self.opt_kernel_ = opt_kernel
 
         # temporary hack to pass sklearn estimator checks till a bug is fixed
         # for more see: https://github.com/scikit-learn/scikit-learn/issues/14712
-- 
2.43.0


From 1e463341a25e18c09209d0f34538736831640d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:26 +0000
Subject: [PATCH 17/28] fix: ConstantKernelMatrix reports malformed indices as
 KMAccessError

---
 kernelmethods/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 7f97b55..ed3c118 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1008,7 +1008,11 @@ class ConstantKernelMatrix(object):
         elif isinstance(index_obj_per_dim, Iterable):
             # TODO no restriction on float: float indices will be rounded down
             #  towards 0
-            indices = list(map(int, index_obj_per_dim))
+            try:
+                indices = list(map(int, index_obj_per_dim))
+            except (TypeError, ValueError, OverflowError):
+                raise KMAccessError('Indices must be integers. '
+                                    'Received {}'.format(index_obj_per_dim))
         else:
             raise KMAccessError('Invalid index method/indices {indices} '
                                 'for kernel matrix of shape : {km_shape}.'
-- 
2.43.0


From ecb1ae8d93c8a004f52040a19bc5792363bbdc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:26 +0000
Subject: [PATCH 18/28] fix: MatchCountKernel refused lists with a single
 categorical variable

---
 kernelmethods/categorical.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/categorical.py b/kernelmethods/categorical.py
index 4ef24e4..10f02d9 100644
--- a/kernelmethods/categorical.py
+++ b/kernelmethods/categorical.py
@@ -121,7 +121,11 @@ def _ensure_type_size(array, ensure_num_dim=1):
     """Checking type and size of arrays"""
 
     if not isinstance(array, np.ndarray):
-        array = np.squeeze(np.asarray(array))
+        array = np.asarray(array)
+        # leaving 1st dim alone, to allow for a single categorical variable
+        axes_to_sqz = tuple(ax for ax, sz in enumerate(array.shape)
+                            if sz == 1 and ax > 0)
+        array = np.squeeze(array, axis=axes_to_sqz)
 
     if array.ndim != ensure_num_dim:
         raise ValueError('array must be {}-dimensional! '
-- 
2.43.0


From 528381a8eaef7c84e235164dced250ce12cb771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:32 +0000
Subject: [PATCH 19/28] fix: operations on integer matrices, weights and
 targets wrapped around or lost precision

---
 kernelmethods/base.py       |  7 ++++---
 kernelmethods/operations.py | 13 +++++++------
 kernelmethods/ranking.py    |  4 ++--
 kernelmethods/sampling.py   |  4 ++--
 kernelmethods/utils.py      |  9 +++++++++
 5 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index ed3c118..43cc5b3 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -20,7 +20,8 @@ from kernelmethods.operations import (center_km, frobenius_norm, is_PSD,
                                       normalize_km,
                                       normalize_km_2sample)
 from kernelmethods.utils import (check_callable, contains_nan_inf, ensure_ndarray_1D,
-                                 ensure_ndarray_2D, get_callable_name, not_symmetric)
+                                 ensure_ndarray_2D, get_callable_name, ints_to_float,
+                                 not_symmetric)
 from scipy.sparse import lil_matrix
 
 
@@ -1490,7 +1491,7 @@ class SumKernel(CompositeKernel):
         if kernel_weights is None:
             kernel_weights = np.ones(self.km_set.size)
         else:
-            kernel_weights = ensure_ndarray_1D(kernel_weights)
+            kernel_weights = ints_to_float(ensure_ndarray_1D(kernel_weights))
             if kernel_weights.size != self.km_set.size:
                 raise ValueError('Incompatible set of kernel_weights given.'
                                  'Must be an array of length exactly {}'
@@ -1593,7 +1594,7 @@ class WeightedAverageKernel(CompositeKernel):
         super().__init__(km_set, name=name)
 
         if self.km_set.size == len(weights):
-            self.weights = ensure_ndarray_1D(weights)
+            self.weights = ints_to_float(ensure_ndarray_1D(weights))
         else:
             raise ValueError('Number of weights ({}) supplied differ from the '
                              'kernel set size ({})'
diff --git a/kernelmethods/operations.py b/kernelmethods/operations.py
index 7c597e8..71bc342 100644
--- a/kernelmethods/operations.py
+++ b/kernelmethods/operations.py
@@ -20,7 +20,8 @@ from warnings import warn
 
 import numpy as np
 from kernelmethods.config import KMNormError, KernelMethodsException
-from kernelmethods.utils import contains_nan_inf, ensure_ndarray_1D
+from kernelmethods.utils import (contains_nan_inf, ensure_ndarray_1D,
+                                 ints_to_float)
 from numpy import multiply as elem_wise_multiply
 from scipy.linalg import LinAlgError, eigh
 
@@ -175,7 +176,7 @@ def normalize_km(KM, method='cosine'):
     try:
         method = method.lower()
         if method == 'cosine':
-            km_diag = KM.diagonal()
+            km_diag = ints_to_float(KM.diagonal())
             if np.isclose(km_diag, 0.0).any():
                 raise KMNormError(
                     'Some diagnoal entries in KM are [close to] zero - '
@@ -252,8 +253,8 @@ def normalize_km_2sample(cross_K_XY, diag_K_XX, diag_K_YY, method='cosine'):
                 'during Cosine normalization of KM!')
 
         # using diagflat to explicitly construct a matrix from diag values
-        diag_factor_xx = np.diagflat(1 / np.sqrt(diag_K_XX))
-        diag_factor_yy = np.diagflat(1 / np.sqrt(diag_K_YY))
+        diag_factor_xx = np.diagflat(1 / np.sqrt(ints_to_float(diag_K_XX)))
+        diag_factor_yy = np.diagflat(1 / np.sqrt(ints_to_float(diag_K_YY)))
         # notice @ is matrix multiplication operator
         normed_km = diag_factor_xx @ cross_K_XY @ diag_factor_yy
     else:
@@ -289,7 +290,7 @@ def frobenius_product(A, B):
                          'to compute Frobenious product! They differ: {}, {}'
                          ''.format(A.shape, B.shape))
 
-    return np.sum(elem_wise_multiply(A, B), axis=None)
+    return np.sum(elem_wise_multiply(ints_to_float(A), ints_to_float(B)), axis=None)
 
 
 def frobenius_norm(A):
@@ -410,7 +411,7 @@ def linear_combination(km_set, weights, norm_weights=False):
     """
 
     if km_set.size == len(weights):
-        weights = ensure_ndarray_1D(weights)
+        weights = ints_to_float(ensure_ndarray_1D(weights))
     else:
         raise ValueError('Number of weights ({}) supplied differ '
                          'from the kernel set size ({})'
diff --git a/kernelmethods/ranking.py b/kernelmethods/ranking.py
index c12a501..4adff14 100644
--- a/kernelmethods/ranking.py
+++ b/kernelmethods/ranking.py
@@ -12,7 +12,7 @@ import numpy as np
 from kernelmethods import config as cfg
 from kernelmethods.operations import alignment_centered
 from kernelmethods.sampling import KernelBucket
-from kernelmethods.utils import contains_nan_inf, min_max_scale
+from kernelmethods.utils import contains_nan_inf, ints_to_float, min_max_scale
 
 
 def find_optimal_kernel(kernel_bucket, sample, targets, method='cv_risk',
@@ -145,7 +145,7 @@ def alignment_ranking(kernel_bucket, targets, estimator_name=None, **method_para
 
     """
 
-    targets = np.asarray(targets)
+    targets = ints_to_float(np.asarray(targets))
     target_kernel = np.outer(targets, targets)
     method_params.setdefault('value_if_zero_division', 0.0)
 
diff --git a/kernelmethods/sampling.py b/kernelmethods/sampling.py
index a93e771..5421d6d 100644
--- a/kernelmethods/sampling.py
+++ b/kernelmethods/sampling.py
@@ -8,7 +8,7 @@ from kernelmethods.config import KernelMethodsException, KernelMethodsWarning
 from kernelmethods.numeric_kernels import (GaussianKernel, LaplacianKernel,
                                            LinearKernel, PolyKernel, SigmoidKernel)
 from kernelmethods.operations import alignment_centered
-from kernelmethods.utils import is_iterable_but_not_str
+from kernelmethods.utils import ints_to_float, is_iterable_but_not_str
 from scipy.stats import pearsonr
 
 
@@ -263,7 +263,7 @@ def ideal_kernel(targets):
 
     """
 
-    targets = np.array(targets).reshape((-1, 1))  # row vector
+    targets = ints_to_float(np.array(targets)).reshape((-1, 1))  # row vector
 
     return targets.dot(targets.T)
 
diff --git a/kernelmethods/utils.py b/kernelmethods/utils.py
index 75db2f3..3bb95bc 100644
--- a/kernelmethods/utils.py
+++ b/kernelmethods/utils.py
@@ -171,6 +171,15 @@ def min_max_scale(array):
     return (array - min_val) / spread
 
 
+def ints_to_float(array):
+    """Converts integer arrays to float64, as their arithmetic can wrap around."""
+
+    if np.issubdtype(array.dtype, np.integer) or array.dtype == bool:
+        return array.astype(np.float64)
+    else:
+        return array
+
+
 def contains_nan_inf(matrix):
     """
     Helper func to check for the presence of NaN or Inf.
-- 
2.43.0


From d180d745a1facdf9e80e2d929e99079609ceab46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:08 +0000
Subject: [PATCH 20/28] fix: is_psd of a kernel function with zero
 self-similarity raised KMNormError

---
 kernelmethods/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 43cc5b3..265fb29 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -14,7 +14,7 @@ from warnings import warn
 
 import numpy as np
 from kernelmethods import config as cfg
-from kernelmethods.config import (KMAccessError, KMSetAdditionError,
+from kernelmethods.config import (KMAccessError, KMNormError, KMSetAdditionError,
                                   KernelMethodsWarning)
 from kernelmethods.operations import (center_km, frobenius_norm, is_PSD,
                                       normalize_km,
@@ -65,7 +65,12 @@ class BaseKernelFunction(ABC):
         km = KernelMatrix(self)
 
         km.attach_to(np.random.rand(50, 4))  # random_sample
-        return is_PSD(km.full)
+
+        try:
+            return is_PSD(km.full)
+        except KMNormError:
+            # zero self-similarity: normalization is not possible, nor needed here
+            return is_PSD(km[:, :])
 
 
     @abstractmethod
-- 
2.43.0


From 4716895626f120b9c776d4a095509080a26d50f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:21 +0000
Subject: [PATCH 21/28] fix: numeric kernels turned None into NaN instead of
 refusing it

---
 kernelmethods/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kernelmethods/utils.py b/kernelmethods/utils.py
index 3bb95bc..ee22e31 100644
--- a/kernelmethods/utils.py
+++ b/kernelmethods/utils.py
@@ -85,6 +85,10 @@ def ensure_ndarray_size(array, ensure_dtype=np.number, ensure_num_dim=1):
 
     if ensure_dtype is not None and not np.issubdtype(array.dtype, ensure_dtype):
         prev_dtype = array.dtype
+        # numpy would silently recast None to NaN
+        if prev_dtype == object and any(item is None for item in array.flat):
+            raise ValueError('Unable to recast None to required {}!'
+                             ''.format(ensure_dtype))
         try:
             target_dtype = np.dtype(ensure_dtype)
             array = array.astype(target_dtype)
-- 
2.43.0


From 82ae45adc794ecded8cdacbdf13e4d46778d23ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:34 +0000
Subject: [PATCH 22/28] fix: a Pipeline did not recognize a fitted
 KernelMachineRegressor as fitted

---
 kernelmethods/algorithms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index b228b22..b021090 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -157,6 +157,12 @@ class BaseKernelMachine(BaseEstimator):
         return np.asarray(predicted_y, dtype=self._train_y.dtype)
 
 
+    def __sklearn_is_fitted__(self):
+        """Tells sklearn e.g. a Pipeline, whether this estimator has been fitted"""
+
+        return hasattr(self, '_km')
+
+
     def get_params(self, deep=True):
         """returns all the relevant parameters for this estimator!"""
 
-- 
2.43.0


From 181a7fbf18d54eee0a09a14f1617177f5dbd1062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:04 +0000
Subject: [PATCH 23/28] fix: 0-dimensional arrays as indices raised TypeError

---
 kernelmethods/base.py  | 6 +++++-
 kernelmethods/utils.py | 6 ++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 265fb29..65df32c 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -21,7 +21,7 @@ from kernelmethods.operations import (center_km, frobenius_norm, is_PSD,
                                       normalize_km_2sample)
 from kernelmethods.utils import (check_callable, contains_nan_inf, ensure_ndarray_1D,
                                  ensure_ndarray_2D, get_callable_name, ints_to_float,
-                                 not_symmetric)
+                                 not_symmetric, unwrap_0d)
 from scipy.sparse import lil_matrix
 
 
@@ -614,6 +614,7 @@ class KernelMatrix(object):
 
         """
 
+        index_obj = unwrap_0d(index_obj)
         if np.issubdtype(type(index_obj), np.integer):
             index_obj = np.unravel_index(index_obj, self.shape)
 
@@ -650,6 +651,7 @@ class KernelMatrix(object):
         """
 
         are_all_selected = False
+        index_obj_per_dim = unwrap_0d(index_obj_per_dim)
 
         if np.issubdtype(type(index_obj_per_dim), np.integer):
             indices = [index_obj_per_dim, ]  # making it iterable
@@ -975,6 +977,7 @@ class ConstantKernelMatrix(object):
     def __getitem__(self, index_obj):
         """Access the matrix"""
 
+        index_obj = unwrap_0d(index_obj)
         if (not isinstance(index_obj, Iterable)) or len(index_obj) != 2 or \
             isinstance(index_obj, str) or index_obj is None:
             raise KMAccessError('Indexing object must be an iterable of length 2.'
@@ -1003,6 +1006,7 @@ class ConstantKernelMatrix(object):
 
         """
 
+        index_obj_per_dim = unwrap_0d(index_obj_per_dim)
         if isinstance(index_obj_per_dim, str) or index_obj_per_dim is None:
             raise KMAccessError('Indices can not be strings!')
 
diff --git a/kernelmethods/utils.py b/kernelmethods/utils.py
index ee22e31..18e07ae 100644
--- a/kernelmethods/utils.py
+++ b/kernelmethods/utils.py
@@ -184,6 +184,12 @@ def ints_to_float(array):
         return array
 
 
+def unwrap_0d(obj):
+    """Turns 0-dimensional arrays into scalars, as they can not be iterated over."""
+
+    return obj.item() if isinstance(obj, np.ndarray) and obj.ndim == 0 else obj
+
+
 def contains_nan_inf(matrix):
     """
     Helper func to check for the presence of NaN or Inf.
-- 
2.43.0


From 8794ef60b33f6e1e15b593b3ea810a40efb0a3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:30 +0000
Subject: [PATCH 24/28] fix: estimators used the caller's training array after
 fit, so later changes to it altered predictions

---
 kernelmethods/algorithms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index b021090..befdaf7 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -105,10 +105,11 @@ class BaseKernelMachine(BaseEstimator):
             del self._km
 
         if is_regressor(self):
-            self._train_X, self._train_y = check_X_y(X, y, y_numeric=True)
+            self._train_X, self._train_y = check_X_y(X, y, y_numeric=True,
+                                                       copy=True)
             self._train_y = self._train_y.astype(np.float64)
         else:
-            self._train_X, self._train_y = check_X_y(X, y)
+            self._train_X, self._train_y = check_X_y(X, y, copy=True)
 
         km = KernelMatrix(self.k_func, name='train_km', normalized=self.normalized)
         km.attach_to(self._train_X)
@@ -365,7 +366,8 @@ class BaseOptimalKernelMachine(BaseEstimator):
         if hasattr(self, 'opt_kernel_'):
             del self.opt_kernel_
 
-        self._train_X, self._train_y = check_X_y(X, y, y_numeric=True)
+        self._train_X, self._train_y = check_X_y(X, y, y_numeric=True,
+                                                   copy=True)
 
         opt_kernel = self._find_optimal_kernel()
 
-- 
2.43.0


From 218debba41a0f1c1e1016866b53ab1a4e7a33e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:30 +0000
Subject: [PATCH 25/28] fix: KernelSet.attach_to failed halfway when the set
 had a precomputed matrix

---
 kernelmethods/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 65df32c..1d85580 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1312,6 +1312,11 @@ class KernelSet(object):
 
         # data type depends on the kernel e.g. numeric or categorical
         sample = ensure_ndarray_2D(sample, ensure_dtype=None)
+        # checking all members first, so that a rejected attach changes nothing
+        if not all(hasattr(km, 'attach_to') for km in self._km_set):
+            raise TypeError('Precomputed kernel matrices in this KernelSet can not '
+                            'be attached to a sample')
+
         if self._num_samples is not None and sample.shape[0] != self._num_samples:
             raise ValueError('Number of samples in input differ from this KernelSet')
         else:
-- 
2.43.0


From ad61cba5bc1d8e2cef6ecb6b375cab287a363fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:30 +0000
Subject: [PATCH 26/28] fix: WeightedAverageKernel ignored kernels added to the
 set after its creation

---
 kernelmethods/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 1d85580..5f14fe3 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1618,6 +1618,12 @@ class WeightedAverageKernel(CompositeKernel):
     def fit(self):
         """Computes the weighted average kernel"""
 
+        # kernels could have been added to the set since
+        if self.km_set.size != len(self.weights):
+            raise ValueError('Number of weights ({}) differ from the current '
+                             'kernel set size ({})'
+                             ''.format(len(self.weights), self.km_set.size))
+
         # publishing the result only when complete
         KM = np.zeros((self.num_samples, self.num_samples))
         for weight, km in zip(self.weights, self.km_set):
-- 
2.43.0


From 7ef202f3e0f41b661105ed1954d0276f3f81fffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:37 +0000
Subject: [PATCH 27/28] fix: alignment ranking gave 0, not NaN, to non-finite
 kernels when all targets are equal

---
 kernelmethods/ranking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kernelmethods/ranking.py b/kernelmethods/ranking.py
index 4adff14..a517bd5 100644
--- a/kernelmethods/ranking.py
+++ b/kernelmethods/ranking.py
@@ -150,6 +150,8 @@ def alignment_ranking(kernel_bucket, targets, estimator_name=None, **method_para
     method_params.setdefault('value_if_zero_division', 0.0)
 
     return np.array([
+        # undefined for non-finite matrices, even if the targets are all the same
+        np.nan if contains_nan_inf(km.full) else
         alignment_centered(km.full, target_kernel, **method_params)
         for km in kernel_bucket
     ])
-- 
2.43.0


From 4e3f357b926ca9c2cfa96845c980362b11334c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:38 +0000
Subject: [PATCH 28/28] fix: concurrent predictions of one estimator could
 return results of each other

---
 kernelmethods/algorithms.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index befdaf7..e8f51de 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -146,14 +146,14 @@ class BaseKernelMachine(BaseEstimator):
 
         test_X = check_array(X)
 
-        # this is a fresh new KM
-        self._km = KernelMatrix(self.k_func, name='test_km',
-                                normalized=self.normalized)
+        # this is a fresh new KM, local as other threads may be predicting as well
+        test_km = KernelMatrix(self.k_func, name='test_km',
+                               normalized=self.normalized)
 
         # sample_one must be test data to get the right shape for sklearn X
-        self._km.attach_to(sample_one=test_X, sample_two=self._train_X)
+        test_km.attach_to(sample_one=test_X, sample_two=self._train_X)
 
-        predicted_y = self._estimator.predict(self._km.full)
+        predicted_y = self._estimator.predict(test_km.full)
 
         return np.asarray(predicted_y, dtype=self._train_y.dtype)
 
@@ -403,9 +403,13 @@ class BaseOptimalKernelMachine(BaseEstimator):
 
         X = check_array(X)
 
+        # this is a fresh new KM, local as other threads may be predicting as well
+        test_km = KernelMatrix(self.opt_kernel_.kernel, name='test_km',
+                               normalized=self.opt_kernel_._keep_normed)
+
         # sample_one must be test data to get the right shape for sklearn X
-        self.opt_kernel_.attach_to(sample_one=X, sample_two=self._train_X)
-        test_train_KM = self.opt_kernel_.full
+        test_km.attach_to(sample_one=X, sample_two=self._train_X)
+        test_train_KM = test_km.full
         predicted_y = super().predict(test_train_KM)
 
         # data type coversion is done in child class, esp. for classification
-- 
2.43.0

