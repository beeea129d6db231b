From cf4846d6a67a6813404fddf4829cd15583a02c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:14 +0000
Subject: [PATCH 01/24] fix: put parameters back to numeric values when a
 derivative request fails

A functor raising inside a gradient, Hessian, Jacobian or Hessian-vector
product left autograd boxes in the parameters.
---
 .../ModelSensitivity.py                       |  7 ++-
 .../SparseObjectives.py                       | 61 ++++++++++---------
 2 files changed, 37 insertions(+), 31 deletions(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 8ea1e86..24f366f 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -410,9 +410,10 @@ class ParametricSensitivityTaylorExpansion(object):
         set_par(self.hyper_par, self.hyper_val0, self.hyper_is_free)
 
     def cache_and_eval(self, diff_fun, *argv, **argk):
-        result = diff_fun(*argv, **argk)
-        self.set_par_to_base_values()
-        return result
+        try:
+            return diff_fun(*argv, **argk)
+        finally:
+            self.set_par_to_base_values()
 
     def set_base_values(self, input_val0, hyper_val0, hess0=None):
         self.input_val0 = deepcopy(input_val0)
diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index 8d1d313..e80cde4 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -137,17 +137,19 @@ class Objective(object):
     # To get around this problem, the derivative functions in the objective
     # cache the value of the parameters passed to the function, which
     # are presumably numeric, and set the parameters to those values
-    # after the autograd function is called.
+    # after the autograd function is called, whether or not it succeeded.
 
     def cache_free_and_eval(self, autograd_fun, free_val, *argv, **argk):
-        result = autograd_fun(free_val, *argv, **argk)
-        self.par.set_free(free_val)
-        return result
+        try:
+            return autograd_fun(free_val, *argv, **argk)
+        finally:
+            self.par.set_free(free_val)
 
     def cache_vector_and_eval(self, autograd_fun, vec_val, *argv, **argk):
-        result = autograd_fun(vec_val, *argv, **argk)
-        self.par.set_vector(vec_val)
-        return result
+        try:
+            return autograd_fun(vec_val, *argv, **argk)
+        finally:
+            self.par.set_vector(vec_val)
 
     def fun_free_grad(self, free_val, *argv, **argk):
         return self.cache_free_and_eval(
@@ -182,15 +184,17 @@ class Objective(object):
     # See the definition of hessian_tensor_product in autograd.
     def fun_free_hvp(self, *argv, **argk):
         args, vec = argv[:-1], argv[-1]
-        result = self.ag_fun_free_hvp(*args, vec, **argk)
-        self.par.set_free(args[0])
-        return result
+        try:
+            return self.ag_fun_free_hvp(*args, vec, **argk)
+        finally:
+            self.par.set_free(args[0])
 
     def fun_vector_hvp(self, *argv, **argk):
         args, vec = argv[:-1], argv[-1]
-        result = self.ag_fun_vector_hvp(*args, vec, **argk)
-        self.par.set_vector(args[0])
-        return result
+        try:
+            return self.ag_fun_vector_hvp(*args, vec, **argk)
+        finally:
+            self.par.set_vector(args[0])
 
 
     # Pre-conditioned versions of the free functions.  The value at which
@@ -279,17 +283,19 @@ class ParameterConverter(object):
 
     def cache_free_and_eval(self, autograd_fun, free_val_in):
         vec_val_out = self.par_out.get_vector()
-        result = autograd_fun(free_val_in)
-        self.par_in.set_free(free_val_in)
-        self.par_out.set_vector(vec_val_out)
-        return result
+        try:
+            return autograd_fun(free_val_in)
+        finally:
+            self.par_in.set_free(free_val_in)
+            self.par_out.set_vector(vec_val_out)
 
     def cache_vector_and_eval(self, autograd_fun, vec_val_in):
         vec_val_out = self.par_out.get_vector()
-        result = autograd_fun(vec_val_in)
-        self.par_in.set_vector(vec_val_in)
-        self.par_out.set_vector(vec_val_out)
-        return result
+        try:
+            return autograd_fun(vec_val_in)
+        finally:
+            self.par_in.set_vector(vec_val_in)
+            self.par_out.set_vector(vec_val_out)
 
     def free_to_free_jacobian(self, free_par_in):
         return self.cache_free_and_eval(
@@ -342,13 +348,12 @@ class TwoParameterObjective(object):
         self, autograd_fun, val1, val2, val1_is_free, val2_is_free,
         *argv, **argk):
 
-        result = autograd_fun(
-            val1, val2, val1_is_free, val2_is_free, *argv, **argk)
-
-        set_par(self.par1, val1, val1_is_free)
-        set_par(self.par2, val2, val2_is_free)
-
-        return result
+        try:
+            return autograd_fun(
+                val1, val2, val1_is_free, val2_is_free, *argv, **argk)
+        finally:
+            set_par(self.par1, val1, val1_is_free)
+            set_par(self.par2, val2, val2_is_free)
 
     def eval_fun(
         self, val1, val2, val1_is_free, val2_is_free,
-- 
2.43.0


From 62059974a3687245a45fa5cd87a438690c415dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 02/24] fix: differentiate scalar and matrix transformations
 without touching the parameter

free_to_vector_jac and free_to_vector_hess differentiated through set_free,
leaving autograd boxes in the parameter (in the original one when called on a
deep copy).
---
 LinearResponseVariationalBayes/MatrixParameters.py | 10 ++++------
 LinearResponseVariationalBayes/Parameters.py       |  9 ++++-----
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index 6da871b..32b29dc 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -146,10 +146,6 @@ class PosDefMatrixParam(object):
         else:
             self.set(val)
 
-        # These will be dense, so just use autograd directly.
-        self.free_to_vector_jac_dense = autograd.jacobian(self.free_to_vector)
-        self.free_to_vector_hess_dense = autograd.hessian(self.free_to_vector)
-
     def __str__(self):
         return self.name + ':\n' + str(self.__val)
     def names(self):
@@ -177,9 +173,11 @@ class PosDefMatrixParam(object):
         self.set_free(free_val)
         return self.get_vector()
     def free_to_vector_jac(self, free_val):
-        return coo_matrix(self.free_to_vector_jac_dense(free_val))
+        return coo_matrix(pos_def_matrix_free_to_vector_jac(
+            free_val, diag_lb=self.__diag_lb))
     def free_to_vector_hess(self, free_val):
-        hess_dense = self.free_to_vector_hess_dense(free_val)
+        hess_dense = pos_def_matrix_free_to_vector_hess(
+            free_val, diag_lb=self.__diag_lb)
         return [ coo_matrix(hess_dense[ind, :, :])
                  for ind in range(hess_dense.shape[0]) ]
 
diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index faa26f4..d2b270d 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -93,9 +93,6 @@ class ScalarParam(object):
         else:
             self.set(get_inbounds_value(lb, ub))
 
-        self.free_to_vector_jac_dense = autograd.jacobian(self.free_to_vector)
-        self.free_to_vector_hess_dense = autograd.hessian(self.free_to_vector)
-
     def __str__(self):
         return self.name + ': ' + str(self.__val)
     def names(self):
@@ -128,12 +125,14 @@ class ScalarParam(object):
         self.set_free(free_val)
         return self.get()
     def free_to_vector_jac(self, free_val):
-        return coo_matrix(self.free_to_vector_jac_dense(free_val))
+        return coo_matrix(
+            constrain_scalar_jac(free_val, self.__lb, self.__ub))
     def free_to_vector_hess(self, free_val):
         with warnings.catch_warnings():
             warnings.filterwarnings(
                 "ignore", "^Output seems independent of input\.$", UserWarning)
-            hess_dense = self.free_to_vector_hess_dense(free_val)
+            hess_dense = constrain_scalar_hess(
+                free_val, self.__lb, self.__ub)
         return [ coo_matrix(hess_dense[ind, :, :])
                  for ind in range(hess_dense.shape[0]) ]
 
-- 
2.43.0


From c3a5be36f8f719f4467d72a34d9d02fa4620eaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 03/24] fix: bind the derivatives of a deep-copied objective to
 the copy

The autograd functions of a deep copy of an Objective, TwoParameterObjective
or ParameterConverter were closures over the original, so the copy's
derivatives evaluated and modified the original.
---
 .../SparseObjectives.py                       | 30 +++++++++++++++++--
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index e80cde4..052c787 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -99,6 +99,17 @@ class Objective(object):
         self.par = par
         self.fun = fun
 
+        self.set_autograd_functions()
+
+        self.preconditioner = None
+        self.logger = Logger()
+
+    # The autograd functions are bound to this object, so a copy needs its own.
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self.set_autograd_functions()
+
+    def set_autograd_functions(self):
         self.ag_fun_free_grad = autograd.grad(self.fun_free, argnum=0)
         self.ag_fun_free_hessian = autograd.hessian(self.fun_free, argnum=0)
         self.ag_fun_free_jacobian = autograd.jacobian(self.fun_free, argnum=0)
@@ -112,9 +123,6 @@ class Objective(object):
         self.ag_fun_vector_hvp = autograd.hessian_vector_product(
             self.fun_vector, argnum=0)
 
-        self.preconditioner = None
-        self.logger = Logger()
-
     # TODO: in a future version, make verbose a class attribute rather than
     # a keyword argument.
     def fun_free(self, free_val, *argv, verbose=False, **argk):
@@ -252,6 +260,14 @@ class ParameterConverter(object):
         self.par_out = par_out
         self.converter = converter
 
+        self.set_autograd_functions()
+
+    # The autograd functions are bound to this object, so a copy needs its own.
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self.set_autograd_functions()
+
+    def set_autograd_functions(self):
         self.ag_free_to_vec_jacobian = \
             autograd.jacobian(self.converter_free_to_vec)
         self.ag_free_to_free_jacobian = \
@@ -330,6 +346,14 @@ class TwoParameterObjective(object):
         self.par2 = par2
         self.fun = fun
 
+        self.set_autograd_functions()
+
+    # The autograd functions are bound to this object, so a copy needs its own.
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self.set_autograd_functions()
+
+    def set_autograd_functions(self):
         # hessian12 has par1 in the rows and par2 in the columns.
         # hessian21 has par2 in the rows and par1 in the columns.
         #
-- 
2.43.0


From 8ff946e1b0ce3f79dbead151a4b678f4abd8ca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 04/24] fix: copy flat vectors on their way into and out of
 parameters

set_vector kept, and get_vector returned, references, so a caller reusing its
buffer silently changed the parameter.
---
 LinearResponseVariationalBayes/Parameters.py       | 10 +++++-----
 LinearResponseVariationalBayes/ProjectionParams.py |  4 ++--
 LinearResponseVariationalBayes/SimplexParams.py    |  4 +++-
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index d2b270d..fc07e00 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -137,9 +137,9 @@ class ScalarParam(object):
                  for ind in range(hess_dense.shape[0]) ]
 
     def set_vector(self, val):
-        self.set(val)
+        self.set(copy.copy(val))
     def get_vector(self):
-        return np.reshape(self.__val, 1)
+        return np.reshape(copy.copy(self.__val), 1)
 
     def size(self):
         return 1
@@ -218,9 +218,9 @@ class VectorParam(object):
 
 
     def set_vector(self, val):
-        self.set(val)
+        self.set(copy.copy(val))
     def get_vector(self):
-        return self.__val
+        return copy.copy(self.__val)
 
     def size(self):
         return self.__size
@@ -309,7 +309,7 @@ class ArrayParam(object):
                 'Wrong size for array {}.  Expected {}, got {}'.format(
                     self.name, str(self.vector_size()), str(val.size))
             raise ValueError(error_string)
-        self.set(val.reshape(self.__shape))
+        self.set(copy.copy(val).reshape(self.__shape))
     def get_vector(self):
         return self.__val.flatten()
 
diff --git a/LinearResponseVariationalBayes/ProjectionParams.py b/LinearResponseVariationalBayes/ProjectionParams.py
index ff7040e..71bb1cb 100644
--- a/LinearResponseVariationalBayes/ProjectionParams.py
+++ b/LinearResponseVariationalBayes/ProjectionParams.py
@@ -88,9 +88,9 @@ class SubspaceVectorParam(object):
 
 
     def set_vector(self, val):
-        self.set(val)
+        self.set(copy.copy(val))
     def get_vector(self):
-        return self.__val
+        return copy.copy(self.__val)
 
     def dim(self):
         return self.__dim
diff --git a/LinearResponseVariationalBayes/SimplexParams.py b/LinearResponseVariationalBayes/SimplexParams.py
index 5828e26..71316d1 100644
--- a/LinearResponseVariationalBayes/SimplexParams.py
+++ b/LinearResponseVariationalBayes/SimplexParams.py
@@ -7,6 +7,8 @@ import autograd.scipy as sp
 import scipy as osp
 from scipy.sparse import coo_matrix
 
+import copy
+
 # The first index is assumed to index simplicial observations.
 def constrain_simplex_matrix(free_mat):
     # The first column is the reference value.
@@ -157,7 +159,7 @@ class SimplexParam(object):
     def set_vector(self, vec_val):
         if len(vec_val) != self.vector_size():
             raise ValueError('Wrong vector size for SimplexParam ' + self.name)
-        self.set(np.reshape(vec_val, self.__shape))
+        self.set(np.reshape(copy.copy(vec_val), self.__shape))
     def get_vector(self):
         return self.__val.flatten()
     def get_vector_indices(self, row):
-- 
2.43.0


From 03f093ef33c6b1fa2bdade4fb5cf661ffe0ef394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 05/24] fix: copy the base point and the masks given to the
 conjugate gradient solver

Reusing the array passed as x0 moved the point at which the Hessian is
evaluated, and reusing a mask changed the recorded one.
---
 LinearResponseVariationalBayes/ConjugateGradient.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/ConjugateGradient.py b/LinearResponseVariationalBayes/ConjugateGradient.py
index 6045da4..dba11d5 100644
--- a/LinearResponseVariationalBayes/ConjugateGradient.py
+++ b/LinearResponseVariationalBayes/ConjugateGradient.py
@@ -63,6 +63,7 @@ def get_masks(full_len, min_mask_len):
 class ConjugateGradientSolver(object):
     def __init__(self, eval_hessian_vector_product, x0):
         self.dim = len(x0)
+        x0 = np.array(x0)
         self.ObjHessVecProdLO = \
             LinearOperator((self.dim, self.dim),
             lambda vec: eval_hessian_vector_product(x0, vec))
@@ -100,7 +101,7 @@ class ConjugateGradientSolver(object):
             cg_time = time.time() - cg_time
             self.times.append(cg_time)
             self.vecs.append(vec_masked)
-            self.masks.append(mask)
+            self.masks.append(np.array(mask))
             self.hinv_vecs.append(hinv_vec)
             self.cg_infos.append(cg_info)
             
-- 
2.43.0


From c9b942f24f7e73997d0c9d7e33e45155c55215ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 06/24] fix: log a copy of the point, not the optimizer's array

L-BFGS-B, SLSQP and others reuse one array, which rewrote the whole history.
---
 LinearResponseVariationalBayes/SparseObjectives.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index 052c787..1714b68 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -65,6 +65,8 @@ class Logger(object):
         print('Iter ', self.iter, ' value: ', self.value)
 
     def log(self, value, x):
+        # Optimizers may reuse the array they pass in.
+        x = np.array(x)
         self.value = value
         self.x = x
         self.x_array.append(x)
-- 
2.43.0


From 3619f0b0f05760bd058acff385306da52463db8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 07/24] fix: count a logged evaluation even if reporting it
 fails

A failing callback or output stream left iter behind the number of entries.
---
 LinearResponseVariationalBayes/SparseObjectives.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index 1714b68..ab72417 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -81,12 +81,14 @@ class Logger(object):
         self.last_x = x
         self.last_value = value
 
-        if self.iter % self.print_every == 0:
-            if self.callback is None:
-                self.print_message()
-            else:
-                self.callback(self)
-        self.iter += 1
+        try:
+            if self.iter % self.print_every == 0:
+                if self.callback is None:
+                    self.print_message()
+                else:
+                    self.callback(self)
+        finally:
+            self.iter += 1
 
 # TODO: replace the Objective classes with decorators.
 
-- 
2.43.0


From d3212f34d6432394eece25d7c97fa24cece92f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 08/24] fix: measure durations with a monotonic clock

Wall-clock adjustments appeared in the recorded times, even as negative ones.
---
 LinearResponseVariationalBayes/ConjugateGradient.py | 4 ++--
 LinearResponseVariationalBayes/SparseObjectives.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/LinearResponseVariationalBayes/ConjugateGradient.py b/LinearResponseVariationalBayes/ConjugateGradient.py
index dba11d5..00c8263 100644
--- a/LinearResponseVariationalBayes/ConjugateGradient.py
+++ b/LinearResponseVariationalBayes/ConjugateGradient.py
@@ -96,9 +96,9 @@ class ConjugateGradientSolver(object):
                 print('{} of {}\n'.format(ind, num_masks))
             vec_masked = np.zeros(len(vec))
             vec_masked[mask] = vec[mask]
-            cg_time = time.time()
+            cg_time = time.monotonic()
             hinv_vec, cg_info = self.get_hinv_vec(vec_masked)
-            cg_time = time.time() - cg_time
+            cg_time = time.monotonic() - cg_time
             self.times.append(cg_time)
             self.vecs.append(vec_masked)
             self.masks.append(np.array(mask))
diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index ab72417..dbce9c7 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -36,9 +36,9 @@ class Timer(object):
     def __init__(self):
         self.time_dict = {}
     def tic(self):
-        self.tic_time = time.time()
+        self.tic_time = time.monotonic()
     def toc(self, time_name, verbose=True):
-        self.time_dict[time_name] = time.time() - self.tic_time
+        self.time_dict[time_name] = time.monotonic() - self.tic_time
         if verbose:
             print('{}: {} seconds'.format(time_name, self.time_dict[time_name]))
     def __str__(self):
-- 
2.43.0


From a1a6fd92ce1c6854d0e89b56e0c8c6f84b465dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 09/24] fix: use the Hessian and the coordinates a sensitivity
 object was given

The constructor ignored hess0, and input_is_free=False or hyper_is_free=True
used Hessians in the wrong coordinates.
---
 .../ModelSensitivity.py                       | 27 +++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 24f366f..233999c 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -402,7 +402,7 @@ class ParametricSensitivityTaylorExpansion(object):
         self.joint_objective = obj_lib.TwoParameterObjective(
             self.input_par, self.hyper_par, self.hyper_par_objective_functor)
 
-        self.set_base_values(input_val0, hyper_val0)
+        self.set_base_values(input_val0, hyper_val0, hess0)
         self.set_order(order)
 
     def set_par_to_base_values(self):
@@ -420,10 +420,12 @@ class ParametricSensitivityTaylorExpansion(object):
         self.hyper_val0 = deepcopy(hyper_val0)
         self.set_par_to_base_values()
 
-        if hess0 is None:
+        if hess0 is not None:
+            self.hess0 = hess0
+        elif self.input_is_free:
             self.hess0 = self.objective.fun_free_hessian(self.input_val0)
         else:
-            self.hess0 = hess0
+            self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
         self.hess0_chol = sp.linalg.cho_factor(self.hess0)
 
     # In order to calculate derivatives d^kinput_dhyper^k, we will be Taylor
@@ -577,7 +579,7 @@ class ParametricSensitivityLinearApproximation(object):
         self.joint_objective = obj_lib.TwoParameterObjective(
             self.input_par, self.hyper_par, self.hyper_par_objective_functor)
 
-        self.set_base_values(input_val0, hyper_val0)
+        self.set_base_values(input_val0, hyper_val0, hess0)
 
     def set_par_to_base_values(self):
         set_par(self.input_par, self.input_val0, self.input_is_free)
@@ -588,15 +590,24 @@ class ParametricSensitivityLinearApproximation(object):
         self.hyper_val0 = deepcopy(hyper_val0)
         self.set_par_to_base_values()
 
-        if hess0 is None:
+        if hess0 is not None:
+            self.hess0 = hess0
+        elif self.input_is_free:
             self.hess0 = self.objective.fun_free_hessian(self.input_val0)
         else:
-            self.hess0 = hess0
+            self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
         self.hess0_chol = sp.linalg.cho_factor(self.hess0)
 
+        if self.input_is_free and self.hyper_is_free:
+            cross_hessian_fun = self.joint_objective.fun_free_hessian12
+        elif self.input_is_free:
+            cross_hessian_fun = self.joint_objective.fun_hessian_free1_vector2
+        elif self.hyper_is_free:
+            cross_hessian_fun = self.joint_objective.fun_hessian_vector1_free2
+        else:
+            cross_hessian_fun = self.joint_objective.fun_vector_hessian12
         self.hyper_par_cross_hessian0 = \
-            self.joint_objective.fun_hessian_free1_vector2(
-                self.input_val0, self.hyper_val0)
+            cross_hessian_fun(self.input_val0, self.hyper_val0)
 
         self.hyper_par_sensitivity = \
             -1 * sp.linalg.cho_solve(
-- 
2.43.0


From 8582ee4eac8d1d0f8794d5cd2d05449cbff09f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:59 +0000
Subject: [PATCH 10/24] fix: leave a sensitivity object at its old base point
 when moving it fails

---
 .../ModelSensitivity.py                       | 67 +++++++++++--------
 .../SparseObjectives.py                       | 42 +++++++-----
 2 files changed, 65 insertions(+), 44 deletions(-)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 233999c..6797e29 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -416,17 +416,24 @@ class ParametricSensitivityTaylorExpansion(object):
             self.set_par_to_base_values()
 
     def set_base_values(self, input_val0, hyper_val0, hess0=None):
-        self.input_val0 = deepcopy(input_val0)
-        self.hyper_val0 = deepcopy(hyper_val0)
-        self.set_par_to_base_values()
+        # Compute everything before changing any attribute so that a failure
+        # leaves this object at its old base values.
+        input_val0 = deepcopy(input_val0)
+        hyper_val0 = deepcopy(hyper_val0)
+        set_par(self.input_par, input_val0, self.input_is_free)
+        set_par(self.hyper_par, hyper_val0, self.hyper_is_free)
+
+        if hess0 is None:
+            if self.input_is_free:
+                hess0 = self.objective.fun_free_hessian(input_val0)
+            else:
+                hess0 = self.objective.fun_vector_hessian(input_val0)
+        hess0_chol = sp.linalg.cho_factor(hess0)
 
-        if hess0 is not None:
-            self.hess0 = hess0
-        elif self.input_is_free:
-            self.hess0 = self.objective.fun_free_hessian(self.input_val0)
-        else:
-            self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
-        self.hess0_chol = sp.linalg.cho_factor(self.hess0)
+        self.input_val0 = input_val0
+        self.hyper_val0 = hyper_val0
+        self.hess0 = hess0
+        self.hess0_chol = hess0_chol
 
     # In order to calculate derivatives d^kinput_dhyper^k, we will be Taylor
     # expanding the gradient of the objective.
@@ -586,17 +593,19 @@ class ParametricSensitivityLinearApproximation(object):
         set_par(self.hyper_par, self.hyper_val0, self.hyper_is_free)
 
     def set_base_values(self, input_val0, hyper_val0, hess0=None):
-        self.input_val0 = deepcopy(input_val0)
-        self.hyper_val0 = deepcopy(hyper_val0)
-        self.set_par_to_base_values()
-
-        if hess0 is not None:
-            self.hess0 = hess0
-        elif self.input_is_free:
-            self.hess0 = self.objective.fun_free_hessian(self.input_val0)
-        else:
-            self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
-        self.hess0_chol = sp.linalg.cho_factor(self.hess0)
+        # Compute everything before changing any attribute so that a failure
+        # leaves this object at its old base values.
+        input_val0 = deepcopy(input_val0)
+        hyper_val0 = deepcopy(hyper_val0)
+        set_par(self.input_par, input_val0, self.input_is_free)
+        set_par(self.hyper_par, hyper_val0, self.hyper_is_free)
+
+        if hess0 is None:
+            if self.input_is_free:
+                hess0 = self.objective.fun_free_hessian(input_val0)
+            else:
+                hess0 = self.objective.fun_vector_hessian(input_val0)
+        hess0_chol = sp.linalg.cho_factor(hess0)
 
         if self.input_is_free and self.hyper_is_free:
             cross_hessian_fun = self.joint_objective.fun_free_hessian12
@@ -606,12 +615,16 @@ class ParametricSensitivityLinearApproximation(object):
             cross_hessian_fun = self.joint_objective.fun_hessian_vector1_free2
         else:
             cross_hessian_fun = self.joint_objective.fun_vector_hessian12
-        self.hyper_par_cross_hessian0 = \
-            cross_hessian_fun(self.input_val0, self.hyper_val0)
-
-        self.hyper_par_sensitivity = \
-            -1 * sp.linalg.cho_solve(
-                self.hess0_chol, self.hyper_par_cross_hessian0)
+        hyper_par_cross_hessian0 = cross_hessian_fun(input_val0, hyper_val0)
+        hyper_par_sensitivity = \
+            -1 * sp.linalg.cho_solve(hess0_chol, hyper_par_cross_hessian0)
+
+        self.input_val0 = input_val0
+        self.hyper_val0 = hyper_val0
+        self.hess0 = hess0
+        self.hess0_chol = hess0_chol
+        self.hyper_par_cross_hessian0 = hyper_par_cross_hessian0
+        self.hyper_par_sensitivity = hyper_par_sensitivity
 
     # Methods:
     def get_dinput_dhyper(self):
diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index dbce9c7..d199a86 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -559,30 +559,38 @@ class ParametricSensitivity(object):
         optimal_input_par=None,
         objective_hessian=None):
 
+        # Compute everything before changing any attribute so that a failure
+        # leaves this object at its old optimum.
         if optimal_input_par is None:
-            self.optimal_input_par = self.input_par.get_free()
+            optimal_input_par = self.input_par.get_free()
         else:
-            self.optimal_input_par = deepcopy(optimal_input_par)
+            optimal_input_par = deepcopy(optimal_input_par)
 
         if objective_hessian is None:
-            self.objective_hessian = self.objective.fun_free_hessian(
-                self.optimal_input_par)
-        else:
-            self.objective_hessian = objective_hessian
-        self.hessian_chol = sp.linalg.cho_factor(self.objective_hessian)
+            objective_hessian = self.objective.fun_free_hessian(
+                optimal_input_par)
+        hessian_chol = sp.linalg.cho_factor(objective_hessian)
 
-        self.dout_din = self.parameter_converter.free_to_vec_jacobian(
-            self.optimal_input_par)
+        dout_din = self.parameter_converter.free_to_vec_jacobian(
+            optimal_input_par)
 
-        self.optimal_hyper_par = self.hyper_par.get_vector()
-        self.hyper_par_cross_hessian = \
+        optimal_hyper_par = self.hyper_par.get_vector()
+        hyper_par_cross_hessian = \
             self.sensitivity_objective.fun_hessian_free1_vector2(
-                self.optimal_input_par, self.optimal_hyper_par)
-
-        self.optimal_output_par = self.output_par.get_vector()
-        self.hyper_par_sensitivity = \
-            -1 * sp.linalg.cho_solve(
-                self.hessian_chol, self.hyper_par_cross_hessian)
+                optimal_input_par, optimal_hyper_par)
+
+        optimal_output_par = self.output_par.get_vector()
+        hyper_par_sensitivity = \
+            -1 * sp.linalg.cho_solve(hessian_chol, hyper_par_cross_hessian)
+
+        self.optimal_input_par = optimal_input_par
+        self.objective_hessian = objective_hessian
+        self.hessian_chol = hessian_chol
+        self.dout_din = dout_din
+        self.optimal_hyper_par = optimal_hyper_par
+        self.hyper_par_cross_hessian = hyper_par_cross_hessian
+        self.optimal_output_par = optimal_output_par
+        self.hyper_par_sensitivity = hyper_par_sensitivity
 
     def get_dinput_dhyper(self):
         return self.hyper_par_sensitivity
-- 
2.43.0


From cc6d7dce0beff8f6fcf7175adfd64c5aae992006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:20 +0000
Subject: [PATCH 11/24] fix: refuse scalar and matrix values of the wrong size

---
 LinearResponseVariationalBayes/MatrixParameters.py | 6 ++----
 LinearResponseVariationalBayes/Parameters.py       | 4 ++++
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/LinearResponseVariationalBayes/MatrixParameters.py b/LinearResponseVariationalBayes/MatrixParameters.py
index 32b29dc..88e522e 100644
--- a/LinearResponseVariationalBayes/MatrixParameters.py
+++ b/LinearResponseVariationalBayes/MatrixParameters.py
@@ -221,7 +221,7 @@ class PosDefMatrixParamVector(object):
         return self.__val.tolist()
 
     def set(self, val):
-        if (val.shape != self.__shape).all():
+        if tuple(val.shape) != tuple(self.__shape):
             raise ValueError('Array is the wrong size')
         self.__val = val
     def get(self):
@@ -345,9 +345,7 @@ class PosDefMatrixParamArray(object):
         return self.__val.tolist()
 
     def set(self, val):
-        if (val.shape != self.__shape).all():
-            print(val.shape)
-            print(self.__shape)
+        if tuple(val.shape) != tuple(self.__shape):
             raise ValueError('Array is the wrong size')
         self.__val = val
 
diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index fc07e00..988066c 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -117,6 +117,8 @@ class ScalarParam(object):
         return self.__val
 
     def set_free(self, free_val):
+        if np.size(free_val) != 1:
+            raise ValueError('Wrong size for scalar ' + self.name)
         self.set(constrain(free_val, self.__lb, self.__ub))
     def get_free(self):
         return np.reshape(unconstrain_scalar(self.__val, self.__lb, self.__ub), 1)
@@ -137,6 +139,8 @@ class ScalarParam(object):
                  for ind in range(hess_dense.shape[0]) ]
 
     def set_vector(self, val):
+        if np.size(val) != 1:
+            raise ValueError('Wrong size for scalar ' + self.name)
         self.set(copy.copy(val))
     def get_vector(self):
         return np.reshape(copy.copy(self.__val), 1)
-- 
2.43.0


From af26cbbb04168ba8569194bcc282c88560066fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:33 +0000
Subject: [PATCH 12/24] fix: refuse a second component with a name already in
 use

---
 LinearResponseVariationalBayes/ParameterDictionary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/LinearResponseVariationalBayes/ParameterDictionary.py b/LinearResponseVariationalBayes/ParameterDictionary.py
index 46ff59b..9088066 100644
--- a/LinearResponseVariationalBayes/ParameterDictionary.py
+++ b/LinearResponseVariationalBayes/ParameterDictionary.py
@@ -37,6 +37,9 @@ class ModelParamsDict(object):
         return self.param_dict[key]
 
     def push_param(self, param):
+        if param.name in self.param_dict:
+            raise ValueError('There is already a parameter named {} in {}'.format(
+                param.name, self.name))
         self.param_dict[param.name] = param
         self.free_indices_dict[param.name] = \
             range(self.__free_size, self.__free_size + param.free_size())
-- 
2.43.0


From 9cf847769693760a60e1e93e876a1046092fc71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 13/24] fix: return a copy from the scalar free to vector
 transformation

---
 LinearResponseVariationalBayes/Parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index 988066c..9af7ac6 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -125,7 +125,7 @@ class ScalarParam(object):
 
     def free_to_vector(self, free_val):
         self.set_free(free_val)
-        return self.get()
+        return copy.copy(self.get())
     def free_to_vector_jac(self, free_val):
         return coo_matrix(
             constrain_scalar_jac(free_val, self.__lb, self.__ub))
-- 
2.43.0


From 1cc2ddc2790258b1c8fd7a4321ca96200a0df150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 14/24] fix: compare repeated optimizations with a copy of the
 previous point

---
 LinearResponseVariationalBayes/OptimizationUtils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/LinearResponseVariationalBayes/OptimizationUtils.py b/LinearResponseVariationalBayes/OptimizationUtils.py
index 8633ced..8b9d8e7 100644
--- a/LinearResponseVariationalBayes/OptimizationUtils.py
+++ b/LinearResponseVariationalBayes/OptimizationUtils.py
@@ -130,14 +130,15 @@ def repeatedly_optimize(
     converged = False
     f_val = objective.fun_free(init_x)
     i = 0
-    x = init_x
+    x = np.array(init_x)
 
     while i < max_iter and (not converged):
         if disp:
             print('\n---------------------------------\n' +
                   'Repeated optimization iteration ', i)
         i += 1
-        new_x, obj_opt = optimization_fun(x)
+        # The optimizer may reuse the array it is given or the one it returns.
+        new_x, obj_opt = optimization_fun(np.array(x))
         if keep_intermediate_optimizations:
             opt_results.append(obj_opt)
 
@@ -152,7 +153,7 @@ def repeatedly_optimize(
         f_conv = f_diff < ftol
         grad_conv = grad_l1 < gtol
 
-        x = new_x
+        x = np.array(new_x)
         f_val = new_f_val
         converged = x_conv or f_conv or grad_conv
         if disp:
-- 
2.43.0


From bdea0841928b217a7633eb40f399b76a4b40f29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:49 +0000
Subject: [PATCH 15/24] fix: default values between two finite bounds

---
 LinearResponseVariationalBayes/Parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index 9af7ac6..3e8e6f0 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -66,7 +66,7 @@ constrain_scalar_hess = autograd.hessian(constrain)
 def get_inbounds_value(lb, ub):
     assert lb < ub
     if lb > -float('inf') and ub < float('inf'):
-        return 0.5 * (ub - lb)
+        return 0.5 * (ub + lb)
     else:
         if lb > -float('inf'):
             # The upper bound is infinite.
-- 
2.43.0


From c0f4f2ccf0db4b45adf77205fbe26a94056f781d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 16/24] fix: value dictionary of a scalar holding a numpy
 integer

---
 LinearResponseVariationalBayes/Parameters.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/LinearResponseVariationalBayes/Parameters.py b/LinearResponseVariationalBayes/Parameters.py
index 3e8e6f0..f3bfd2f 100644
--- a/LinearResponseVariationalBayes/Parameters.py
+++ b/LinearResponseVariationalBayes/Parameters.py
@@ -1,6 +1,5 @@
 import math
 import copy
-import numbers
 
 import autograd
 import autograd.numpy as np
@@ -98,11 +97,8 @@ class ScalarParam(object):
     def names(self):
         return [ self.name ]
     def dictval(self):
-        # Assume it's either a numpy array or a float. :(
-        if isinstance(self.__val, numbers.Number):
-            return self.__val
-        else:
-            return self.__val.tolist()
+        # The value may be a numpy array, a numpy scalar or a plain number.
+        return np.asarray(self.__val).tolist()
 
     def set(self, val):
         # TODO: Make checking an option.
-- 
2.43.0


From 89f83241620fbc49b321b75ba3cad5bc17b0b78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 17/24] fix: a Taylor expansion keeps its own copy of the
 Hessian it is given

The Hessian passed as hess0 is used by every later derivative, so
overwriting that array changed them.
---
 LinearResponseVariationalBayes/ModelSensitivity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 6797e29..dd98e94 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -428,6 +428,8 @@ class ParametricSensitivityTaylorExpansion(object):
                 hess0 = self.objective.fun_free_hessian(input_val0)
             else:
                 hess0 = self.objective.fun_vector_hessian(input_val0)
+        else:
+            hess0 = deepcopy(hess0)
         hess0_chol = sp.linalg.cho_factor(hess0)
 
         self.input_val0 = input_val0
-- 
2.43.0


From e0128c930f515d14807845b40d5e065268728d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 18/24] fix: logging a point does not depend on the previous
 point

The unused distance to the previous logged point was computed between
recording the point and counting it.  It raised when the parameter had
grown since, or on overflow with errors raised, leaving an entry that was
not counted.
---
 LinearResponseVariationalBayes/SparseObjectives.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/LinearResponseVariationalBayes/SparseObjectives.py b/LinearResponseVariationalBayes/SparseObjectives.py
index d199a86..c1c325c 100644
--- a/LinearResponseVariationalBayes/SparseObjectives.py
+++ b/LinearResponseVariationalBayes/SparseObjectives.py
@@ -73,11 +73,6 @@ class Logger(object):
         self.val_array.append(value)
 
         # TODO: use the arrays instead of last_*
-        if self.last_x is None:
-            x_diff = float('inf')
-        else:
-            x_diff = np.max(np.abs(self.x - self.last_x))
-
         self.last_x = x
         self.last_value = value
 
-- 
2.43.0


From ae53dc902f7936ce76439d0d1c78a46bb669152a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:02 +0000
Subject: [PATCH 19/24] fix: a Taylor expansion with a separate hyperparameter
 objective uses the whole objective for derivatives in the input

---
 .../ModelSensitivity.py                           | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index dd98e94..4c0a97b 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -401,6 +401,8 @@ class ParametricSensitivityTaylorExpansion(object):
             self.input_par, self.objective_functor)
         self.joint_objective = obj_lib.TwoParameterObjective(
             self.input_par, self.hyper_par, self.hyper_par_objective_functor)
+        self.full_joint_objective = obj_lib.TwoParameterObjective(
+            self.input_par, self.hyper_par, self.objective_functor)
 
         self.set_base_values(input_val0, hyper_val0, hess0)
         self.set_order(order)
@@ -444,6 +446,11 @@ class ParametricSensitivityTaylorExpansion(object):
             input_val, hyper_val, self.input_is_free, self.hyper_is_free,
             *argv, **argk)
 
+    def full_objective_gradient(self, input_val, hyper_val, *argv, **argk):
+        return self.full_joint_objective.fun_grad1(
+            input_val, hyper_val, self.input_is_free, self.hyper_is_free,
+            *argv, **argk)
+
     # Get a function returning the next derivative from the Taylor terms dterms.
     def get_dkinput_dhyperk_from_terms(self, dterms):
         def dkinput_dhyperk(input_val, hyper_val, dhyper, tolerance=1e-8):
@@ -468,6 +475,14 @@ class ParametricSensitivityTaylorExpansion(object):
         # approximation.
         self.eval_g_derivs = generate_two_term_derivative_array(
             self.objective_gradient, order=self.order + 1)
+        if self.hyper_par_objective_functor is not self.objective_functor:
+            # The hyperparameter objective only contains the dependence on the
+            # hyperparameter, so the derivatives with respect to the input
+            # parameter alone need the whole objective.
+            full_g_derivs = generate_two_term_derivative_array(
+                self.full_objective_gradient, order=self.order + 1)
+            for g_derivs, full_derivs in zip(self.eval_g_derivs, full_g_derivs):
+                g_derivs[0] = full_derivs[0]
 
         self.taylor_terms_list = [ get_taylor_base_terms(self.eval_g_derivs) ]
         self.dkinput_dhyperk_list = []
-- 
2.43.0


From 7a714c858df8c80e83d198de9ac07eef31812b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:34 +0000
Subject: [PATCH 20/24] fix: a copy of a Taylor expansion has its own terms

---
 LinearResponseVariationalBayes/ModelSensitivity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/LinearResponseVariationalBayes/ModelSensitivity.py b/LinearResponseVariationalBayes/ModelSensitivity.py
index 4c0a97b..e3756fa 100644
--- a/LinearResponseVariationalBayes/ModelSensitivity.py
+++ b/LinearResponseVariationalBayes/ModelSensitivity.py
@@ -407,6 +407,11 @@ class ParametricSensitivityTaylorExpansion(object):
         self.set_base_values(input_val0, hyper_val0, hess0)
         self.set_order(order)
 
+    # The Taylor terms are bound to this object, so a copy needs its own.
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self.set_order(self.order)
+
     def set_par_to_base_values(self):
         set_par(self.input_par, self.input_val0, self.input_is_free)
         set_par(self.hyper_par, self.hyper_val0, self.hyper_is_free)
-- 
2.43.0


From 8bbf65863f9439313fd0246d26c3595808a84629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 21/24] fix: UVNMomentParamArray.var_exp is the variance, not
 the mean, of the lognormal

---
 LinearResponseVariationalBayes/NormalParams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/NormalParams.py b/LinearResponseVariationalBayes/NormalParams.py
index 509b07e..39691a3 100644
--- a/LinearResponseVariationalBayes/NormalParams.py
+++ b/LinearResponseVariationalBayes/NormalParams.py
@@ -121,7 +121,7 @@ class UVNMomentParamArray(vb.ModelParamsDict):
     def e_exp(self):
         return ef.get_e_lognormal(self['e'].get(), self.var())
     def var_exp(self):
-        return ef.get_e_lognormal(self['e'].get(), self.var())
+        return ef.get_var_lognormal(self['e'].get(), self.var())
     def e2_exp(self):
         return self.e_exp() ** 2 + self.var_exp()
     def entropy(self):
-- 
2.43.0


From 27a2946f8534a1905d002954479c4df332b09c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 22/24] fix: the scale matrix of a WishartParam has the size
 asked for

---
 LinearResponseVariationalBayes/WishartParams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/WishartParams.py b/LinearResponseVariationalBayes/WishartParams.py
index 1db19cf..580306d 100644
--- a/LinearResponseVariationalBayes/WishartParams.py
+++ b/LinearResponseVariationalBayes/WishartParams.py
@@ -12,7 +12,7 @@ class WishartParam(vb.ModelParamsDict):
         assert min_df >= size - 1
         self.push_param(vb.ScalarParam('df', lb=min_df))
         self.push_param(
-            vb.PosDefMatrixParam('v', diag_lb=diag_lb))
+            vb.PosDefMatrixParam('v', size=self.__size, diag_lb=diag_lb))
 
     def e(self):
         return self['df'].get() * self['v'].get()
-- 
2.43.0


From 18937d0250812a7617e661f3793341b45097d82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 23/24] fix: WishartParam.e_inv is the mean of the inverse
 Wishart matrix

---
 LinearResponseVariationalBayes/WishartParams.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/WishartParams.py b/LinearResponseVariationalBayes/WishartParams.py
index 580306d..fc64bc6 100644
--- a/LinearResponseVariationalBayes/WishartParams.py
+++ b/LinearResponseVariationalBayes/WishartParams.py
@@ -20,7 +20,9 @@ class WishartParam(vb.ModelParamsDict):
         return ef.e_log_det_wishart(self['df'].get(),
                                     self['v'].get())
     def e_inv(self):
-        return self['df'].get() * np.linalg.inv(self['v'].get())
+        # This is only finite if df > size + 1.
+        return np.linalg.inv(self['v'].get()) / \
+            (self['df'].get() - self.__size - 1)
 
     def entropy(self):
         return ef.wishart_entropy(self['df'].get(),
-- 
2.43.0


From dcd049a156cf336b2bde2ae9ca5e4e6f5bacace0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 24/24] fix: univariate_normal_log_prob is normalised

---
 LinearResponseVariationalBayes/Modeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LinearResponseVariationalBayes/Modeling.py b/LinearResponseVariationalBayes/Modeling.py
index f451c1a..31515ed 100644
--- a/LinearResponseVariationalBayes/Modeling.py
+++ b/LinearResponseVariationalBayes/Modeling.py
@@ -59,7 +59,7 @@ def get_standard_draws(num_draws):
 
 
 def univariate_normal_log_prob(u, u_mean, u_info):
-    return -0.5 * u_info * (u - u_mean)**2 + 0.5 * u_info \
+    return -0.5 * u_info * (u - u_mean)**2 + 0.5 * np.log(u_info) \
            - 0.5 * np.log(2 * np.pi)
 
 
-- 
2.43.0

