From 768f9670b5b6f8e14516530a3148d296ea5b6be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:01 +0000
Subject: [PATCH 01/22] fix: check the y indices against the y dimension in
 get_idx_linear

---
 pypeec/utils/voxel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/utils/voxel.py b/pypeec/utils/voxel.py
index e98a7da..3ef7372 100644
--- a/pypeec/utils/voxel.py
+++ b/pypeec/utils/voxel.py
@@ -30,7 +30,7 @@ def get_idx_linear(n, idx_tensor):
     # check bounds
     if not (np.all(idx_x >= 0) and np.all(idx_x < nx)):
         raise ValueError("invalid index range (x coordinate)")
-    if not (np.all(idx_y >= 0) and np.all(idx_y < nx)):
+    if not (np.all(idx_y >= 0) and np.all(idx_y < ny)):
         raise ValueError("invalid index range (y coordinate)")
     if not (np.all(idx_z >= 0) and np.all(idx_z < nz)):
         raise ValueError("invalid index range (z coordinate)")
-- 
2.43.0


From 87faa8c9417542aca012579923557a54b42b3224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:01 +0000
Subject: [PATCH 02/22] fix: do not modify the provided coefficients in
 get_ifft

---
 pypeec/utils/fourier.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypeec/utils/fourier.py b/pypeec/utils/fourier.py
index 4248ee7..c8b866e 100644
--- a/pypeec/utils/fourier.py
+++ b/pypeec/utils/fourier.py
@@ -51,6 +51,9 @@ def get_ifft(v_freq, n_time=None):
     The number of samples can be specified (undersampling/oversampling).
     """
 
+    # copy the coefficients (do not modify the input)
+    v_freq = np.array(v_freq, dtype=np.complex128)
+
     # scale the DC coefficient
     v_freq[0] *= 2.0
 
-- 
2.43.0


From a3a51060bcfacbb41d7ce87ae934c0d0a851be07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:01 +0000
Subject: [PATCH 03/22] fix: raise the error for invalid voxel sizes in the
 shape and STL meshers

---
 pypeec/lib_mesher/mesher_shape.py | 4 ++--
 pypeec/lib_mesher/mesher_stl.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypeec/lib_mesher/mesher_shape.py b/pypeec/lib_mesher/mesher_shape.py
index 71b5f2f..a276f0c 100644
--- a/pypeec/lib_mesher/mesher_shape.py
+++ b/pypeec/lib_mesher/mesher_shape.py
@@ -395,10 +395,10 @@ def _get_voxel_size(dx, dy, dz, stack_pos, xy_max, xy_min):
 
     # check voxel validity
     if not np.all(d > 0):
-        RuntimeError("invalid voxel dimension: should be positive")
+        raise RuntimeError("invalid voxel dimension: should be positive")
     # check voxel validity
     if not np.all(n > 0):
-        RuntimeError("invalid voxel number: should be positive")
+        raise RuntimeError("invalid voxel number: should be positive")
 
     return n, d, c
 
diff --git a/pypeec/lib_mesher/mesher_stl.py b/pypeec/lib_mesher/mesher_stl.py
index 8f9dfe2..fb60d56 100644
--- a/pypeec/lib_mesher/mesher_stl.py
+++ b/pypeec/lib_mesher/mesher_stl.py
@@ -134,10 +134,10 @@ def _get_voxel_size(d, xyz_max, xyz_min):
 
     # check voxel validity
     if not np.all(d > 0):
-        RuntimeError("invalid voxel dimension: should be positive")
+        raise RuntimeError("invalid voxel dimension: should be positive")
     # check voxel validity
     if not np.all(n > 0):
-        RuntimeError("invalid voxel number: should be positive")
+        raise RuntimeError("invalid voxel number: should be positive")
 
     return n, d, c
 
-- 
2.43.0


From a92a463ccdf92450f2703efa096d46ba69c2aff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:01 +0000
Subject: [PATCH 04/22] fix: accept zero comparison iterations for the power
 convergence check

---
 pypeec/lib_solver/equation_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/lib_solver/equation_solver.py b/pypeec/lib_solver/equation_solver.py
index 8b51201..3ec8a44 100644
--- a/pypeec/lib_solver/equation_solver.py
+++ b/pypeec/lib_solver/equation_solver.py
@@ -95,7 +95,7 @@ class _IterCounter:
             power_cmp = self.power_vec[-(self.n_cmp+1):-1]
 
             # get convergence status
-            power_err = np.max(np.abs(power_ref-power_cmp))
+            power_err = np.max(np.abs(power_ref-power_cmp), initial=0.0)
             power_thr = np.maximum(self.rel_tol*np.abs(power_ref), self.abs_tol)
             status = power_err <= power_thr
 
-- 
2.43.0


From d7c85194832c6b3d7930f41c24f06b75a3d45678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:01 +0000
Subject: [PATCH 05/22] fix: pair the voltages and currents of the source
 voxels in the same order

---
 pypeec/lib_solver/problem_geometry.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pypeec/lib_solver/problem_geometry.py b/pypeec/lib_solver/problem_geometry.py
index c1ade26..d58748b 100644
--- a/pypeec/lib_solver/problem_geometry.py
+++ b/pypeec/lib_solver/problem_geometry.py
@@ -198,21 +198,25 @@ def get_source_pos(source_idx, idx_vc, idx_src_c, idx_src_v):
     Convert from voxel indices to solver indices.
     """
 
-    # assemble indices
-    idx_src = np.concatenate((idx_src_c, idx_src_v))
+    # position of the first current and voltage source
+    offset = {"current": 0, "voltage": len(idx_src_c)}
+
+    # sort the electric indices
+    idx_s = np.argsort(idx_vc)
 
     # parse the source terminals
     for tag, source_idx_tmp in source_idx.items():
         # extract the data
         idx = source_idx_tmp["idx"]
+        source_type = source_idx_tmp["source_type"]
 
-        # get the position of the voltage terminals
-        idx_vc_tmp = np.in1d(idx_vc, idx)
-        idx_src_tmp = np.in1d(idx_src, idx)
+        # get the position of the voltages (same ordering as the source indices)
+        idx_el = idx[np.in1d(idx, idx_vc)]
+        idx_vc_tmp = idx_s[np.searchsorted(idx_vc, idx_el, sorter=idx_s)]
 
-        # find indices
-        idx_vc_tmp = np.flatnonzero(idx_vc_tmp)
-        idx_src_tmp = np.flatnonzero(idx_src_tmp)
+        # get the position of the currents (same ordering as the source indices)
+        idx_src_tmp = offset[source_type]+np.arange(len(idx), dtype=np.int64)
+        offset[source_type] += len(idx)
 
         # assign the current and voltage
         source_idx[tag]["idx_vc"] = idx_vc_tmp
-- 
2.43.0


From 584dfe10bc3ce7ed8233d954ceeccab490ccf962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:18 +0000
Subject: [PATCH 06/22] fix: refuse zero voxel dimensions

---
 pypeec/data/schema_geometry_png.yaml   | 2 +-
 pypeec/data/schema_geometry_shape.yaml | 6 +++---
 pypeec/data/schema_geometry_stl.yaml   | 2 +-
 pypeec/data/schema_geometry_voxel.yaml | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pypeec/data/schema_geometry_png.yaml b/pypeec/data/schema_geometry_png.yaml
index be96c2e..f220b61 100644
--- a/pypeec/data/schema_geometry_png.yaml
+++ b/pypeec/data/schema_geometry_png.yaml
@@ -17,7 +17,7 @@
                 "maxItems": 3
                 "items":
                     "type": "number"
-                    "minimum": 0
+                    "exclusiveMinimum": 0
             "c":
                 "type": "array"
                 "minItems": 3
diff --git a/pypeec/data/schema_geometry_shape.yaml b/pypeec/data/schema_geometry_shape.yaml
index 70ba11f..5e352c9 100644
--- a/pypeec/data/schema_geometry_shape.yaml
+++ b/pypeec/data/schema_geometry_shape.yaml
@@ -93,13 +93,13 @@
         "properties":
             "dx":
                 "type": "number"
-                "minimum": 0
+                "exclusiveMinimum": 0
             "dy":
                 "type": "number"
-                "minimum": 0
+                "exclusiveMinimum": 0
             "dz":
                 "type": "number"
-                "minimum": 0
+                "exclusiveMinimum": 0
             "cz":
                 "type":
                     - "null"
diff --git a/pypeec/data/schema_geometry_stl.yaml b/pypeec/data/schema_geometry_stl.yaml
index 2404e47..84b93e6 100644
--- a/pypeec/data/schema_geometry_stl.yaml
+++ b/pypeec/data/schema_geometry_stl.yaml
@@ -16,7 +16,7 @@
                 "maxItems": 3
                 "items":
                     "type": "number"
-                    "minimum": 0
+                    "exclusiveMinimum": 0
             "xyz_min":
                 "type":
                     - "null"
diff --git a/pypeec/data/schema_geometry_voxel.yaml b/pypeec/data/schema_geometry_voxel.yaml
index f8b9be7..ccbc11c 100644
--- a/pypeec/data/schema_geometry_voxel.yaml
+++ b/pypeec/data/schema_geometry_voxel.yaml
@@ -23,7 +23,7 @@
                 "maxItems": 3
                 "items":
                     "type": "number"
-                    "minimum": 0
+                    "exclusiveMinimum": 0
             "c":
                 "type": "array"
                 "minItems": 3
-- 
2.43.0


From 5b05589c78f83cee0874012e1759bbc524140d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:17 +0000
Subject: [PATCH 07/22] fix: enforce the minimum values of the integers in the
 data format check

---
 pypeec/lib_check/check_data_format.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pypeec/lib_check/check_data_format.py b/pypeec/lib_check/check_data_format.py
index 0f3ecb4..69e50d8 100644
--- a/pypeec/lib_check/check_data_format.py
+++ b/pypeec/lib_check/check_data_format.py
@@ -52,6 +52,12 @@ def _get_strict_validator():
         else:
             return jsonschema.Draft202012Validator.TYPE_CHECKER.is_type(instance, "array")
 
+    def get_minimum(validator, minimum, instance, _):
+        # the default check ignores the integers (as the number type is restricted to the floats)
+        if validator.is_type(instance, "integer") or validator.is_type(instance, "number"):
+            if instance < minimum:
+                yield jsonschema.ValidationError("%r is less than the minimum of %r" % (instance, minimum))
+
     # custom type checker
     type_checker = jsonschema.Draft202012Validator.TYPE_CHECKER
     type_checker = type_checker.redefine("number", get_float)
@@ -61,6 +67,7 @@ def _get_strict_validator():
     # custom validator
     StrictValidator = jsonschema.validators.extend(
         jsonschema.Draft202012Validator,
+        validators={"minimum": get_minimum},
         type_checker=type_checker,
     )
 
-- 
2.43.0


From 487339b2a113bf3bb0cca653d3de2c6b3637ed53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:28 +0000
Subject: [PATCH 08/22] fix: accept the default number of threads for PARDISO

The thread numbers can be null (library default), the comparison with zero was
failing in this case.
---
 pypeec/lib_matrix/matrix_factorization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypeec/lib_matrix/matrix_factorization.py b/pypeec/lib_matrix/matrix_factorization.py
index c0181c6..4ec86da 100644
--- a/pypeec/lib_matrix/matrix_factorization.py
+++ b/pypeec/lib_matrix/matrix_factorization.py
@@ -56,10 +56,10 @@ def _get_fact_pardiso(mat):
     thread_pardiso = PARDISO_OPTIONS["thread_pardiso"]
     thread_mkl = PARDISO_OPTIONS["thread_mkl"]
 
-    # find the number of threads
-    if thread_pardiso < 0:
+    # find the number of threads (none for the default)
+    if (thread_pardiso is not None) and (thread_pardiso < 0):
         thread_pardiso = os.cpu_count()+thread_pardiso+1
-    if thread_mkl < 0:
+    if (thread_mkl is not None) and (thread_mkl < 0):
         thread_mkl = os.cpu_count()+thread_mkl+1
     if thread_pardiso == 0:
         thread_pardiso = 1
-- 
2.43.0


From 8cacae8005fcaf2e8c434d3722d3744e86359688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 09/22] fix: handle empty systems in the iterative solvers

The segregated solver with GCROT for the magnetic domain was crashing for the
problems without magnetic materials.
---
 pypeec/lib_matrix/matrix_iterative.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypeec/lib_matrix/matrix_iterative.py b/pypeec/lib_matrix/matrix_iterative.py
index 1383a29..3c966e0 100644
--- a/pypeec/lib_matrix/matrix_iterative.py
+++ b/pypeec/lib_matrix/matrix_iterative.py
@@ -22,6 +22,10 @@ def get_solve(sol_init, op_sys, op_pcd, rhs, fct_callback, iter_options):
     n_inner = iter_options["n_inner"]
     n_outer = iter_options["n_outer"]
 
+    # nothing to solve (the solvers do not all support empty systems)
+    if len(rhs) == 0:
+        return True, rhs.copy()
+
     # call the solver
     if solver == "gmres":
         (sol, flag) = sla.gmres(
-- 
2.43.0


From e40cdae249a3c64ed2afc4d5eec098b7f16ca99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:06 +0000
Subject: [PATCH 10/22] fix: do not fail for a breakdown of the GCROT
 iterations

The warnings of SciPy are converted into errors (for detecting singular matrices).
A breakdown (exhausted Krylov space) is handled by GCROT and is not an error.
---
 pypeec/lib_matrix/matrix_iterative.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pypeec/lib_matrix/matrix_iterative.py b/pypeec/lib_matrix/matrix_iterative.py
index 3c966e0..6f42de9 100644
--- a/pypeec/lib_matrix/matrix_iterative.py
+++ b/pypeec/lib_matrix/matrix_iterative.py
@@ -6,6 +6,7 @@ __author__ = "Thomas Guillod"
 __copyright__ = "Thomas Guillod - Dartmouth College"
 __license__ = "Mozilla Public License Version 2.0"
 
+import numpy as np
 import scipy.sparse.linalg as sla
 
 
@@ -35,12 +36,14 @@ def get_solve(sol_init, op_sys, op_pcd, rhs, fct_callback, iter_options):
             callback=fct_callback, callback_type="x",
         )
     elif solver == "gcrot":
-        (sol, flag) = sla.gcrotmk(
-            op_sys, rhs, M=op_pcd, x0=sol_init,
-            rtol=rel_tol, atol=abs_tol,
-            m=n_inner, maxiter=n_outer,
-            callback=fct_callback,
-        )
+        # a breakdown (exhausted Krylov space) is handled by the solver
+        with np.errstate(divide="ignore", invalid="ignore"):
+            (sol, flag) = sla.gcrotmk(
+                op_sys, rhs, M=op_pcd, x0=sol_init,
+                rtol=rel_tol, atol=abs_tol,
+                m=n_inner, maxiter=n_outer,
+                callback=fct_callback,
+            )
     else:
         raise ValueError("invalid matrix solver")
 
-- 
2.43.0


From 903fea5b4efb7e8b193728ad722323c2cacc4908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:30 +0000
Subject: [PATCH 11/22] fix: do not assign the losses of a domain to several
 materials

---
 pypeec/lib_solver/problem_geometry.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pypeec/lib_solver/problem_geometry.py b/pypeec/lib_solver/problem_geometry.py
index d58748b..df64509 100644
--- a/pypeec/lib_solver/problem_geometry.py
+++ b/pypeec/lib_solver/problem_geometry.py
@@ -176,10 +176,15 @@ def get_material_pos(material_idx, idx_vc, idx_vm):
     for tag, material_idx_tmp in material_idx.items():
         # extract the data
         idx = material_idx_tmp["idx"]
+        material_type = material_idx_tmp["material_type"]
+
+        # indices with electric and magnetic properties (for the considered material)
+        idx_c = idx if material_type in ["electric", "electromagnetic"] else []
+        idx_m = idx if material_type in ["magnetic", "electromagnetic"] else []
 
         # get the position of the material domain
-        idx_vc_tmp = np.in1d(idx_vc, idx)
-        idx_vm_tmp = np.in1d(idx_vm, idx)
+        idx_vc_tmp = np.in1d(idx_vc, idx_c)
+        idx_vm_tmp = np.in1d(idx_vm, idx_m)
 
         # find indices
         idx_vc_tmp = np.flatnonzero(idx_vc_tmp)
-- 
2.43.0


From b392a608967a1a4b4b43ddb3d64ad6c2b57784b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:30 +0000
Subject: [PATCH 12/22] fix: accept empty domains for distributed anisotropic
 materials

---
 pypeec/lib_solver/problem_value.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypeec/lib_solver/problem_value.py b/pypeec/lib_solver/problem_value.py
index 89edda2..be3ddd5 100644
--- a/pypeec/lib_solver/problem_value.py
+++ b/pypeec/lib_solver/problem_value.py
@@ -58,6 +58,7 @@ def _get_material_field(val_dict):
             val = np.tile(val, (3, 1)).transpose()
         elif var_type == "distributed" and orientation_type == "anisotropic":
             val = np.array(val, dtype=np.float64)
+            val = val.reshape((0, 3)) if val.size == 0 else val
 
         # check
         if not (val.shape == (len(idx), 3)):
-- 
2.43.0


From 9a0b136fd051fbcbbd487c684b28155e7fc17e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 13/22] fix: check the type of the clipping flag

---
 pypeec/data/schema_plot_pyvista.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/data/schema_plot_pyvista.yaml b/pypeec/data/schema_plot_pyvista.yaml
index df04f59..08292f6 100644
--- a/pypeec/data/schema_plot_pyvista.yaml
+++ b/pypeec/data/schema_plot_pyvista.yaml
@@ -12,7 +12,7 @@
             - "clip_axis"
             - "clip_value"
         "properties":
-            "plot_clip":
+            "clip_plot":
                 "type": "boolean"
             "clip_invert":
                 "type": "boolean"
-- 
2.43.0


From e8088e323f85ec0b52dcc271a2dd181feed68162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 14/22] fix: check the format of the source values

---
 pypeec/data/schema_problem.yaml | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pypeec/data/schema_problem.yaml b/pypeec/data/schema_problem.yaml
index 69f05b9..2aaa474 100644
--- a/pypeec/data/schema_problem.yaml
+++ b/pypeec/data/schema_problem.yaml
@@ -107,3 +107,12 @@
                                     "type":
                                         - "number"
                                         - "array"
+                        "source_val":
+                            "type": "object"
+                            "additionalProperties":
+                                "type": "object"
+                                "additionalProperties":
+                                    "type":
+                                        - "number"
+                                        - "integer"
+                                        - "array"
-- 
2.43.0


From 9d4e248e00248630eb4a85512aa94d8baa50dc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 15/22] fix: refuse arrays for the lumped scalar parameters

---
 pypeec/lib_solver/problem_value.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pypeec/lib_solver/problem_value.py b/pypeec/lib_solver/problem_value.py
index be3ddd5..0b811d5 100644
--- a/pypeec/lib_solver/problem_value.py
+++ b/pypeec/lib_solver/problem_value.py
@@ -43,6 +43,10 @@ def _get_material_field(val_dict):
         # extract
         val = val_dict[tag]
 
+        # check
+        if var_type == "lumped" and orientation_type == "isotropic" and np.ndim(val) != 0:
+            raise RuntimeError("lumped isotropic parameters should be scalars")
+
         # cast
         if var_type == "lumped" and orientation_type is None:
             val = np.full(len(idx), val, dtype=np.float64)
@@ -94,6 +98,10 @@ def _get_source_field(val_dict):
         # extract
         val = val_dict[tag]
 
+        # check
+        if var_type == "lumped" and np.ndim(val) != 0:
+            raise RuntimeError("lumped parameters should be scalars")
+
         # cast
         if var_type == "lumped":
             val = np.full(len(idx), val, dtype=np.float64)
-- 
2.43.0


From 9ba54cbb915824719b39c166933c973dc25c80db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:20 +0000
Subject: [PATCH 16/22] fix: accept spaces in the filenames of the GERBER
 conversion

---
 pypeec/utils/gerber.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pypeec/utils/gerber.py b/pypeec/utils/gerber.py
index 894c75a..6461500 100644
--- a/pypeec/utils/gerber.py
+++ b/pypeec/utils/gerber.py
@@ -22,6 +22,7 @@ __license__ = "Mozilla Public License Version 2.0"
 
 import os
 import os.path
+import shlex
 import subprocess
 
 
@@ -101,6 +102,10 @@ def _get_png_file(filename_gerbv, filename_png, margin, voxel, oversampling):
     resize = 100/oversampling
     border = 100*margin
 
+    # escape the filenames
+    filename_gerbv = shlex.quote(filename_gerbv)
+    filename_png = shlex.quote(filename_png)
+
     # transform the GERBER files into a PNG file
     cmd = "gerbv -p %s -o %s -x png --border %d --dpi %d 2>/dev/null" % (
         filename_gerbv,
-- 
2.43.0


From 0add185de67f165b1bad0e9ea4cc1c486c27714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:59 +0000
Subject: [PATCH 17/22] fix: raise the error of the Qt event loop

---
 pypeec/lib_plot/manage_plotgui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/lib_plot/manage_plotgui.py b/pypeec/lib_plot/manage_plotgui.py
index dbe571a..3255d0a 100644
--- a/pypeec/lib_plot/manage_plotgui.py
+++ b/pypeec/lib_plot/manage_plotgui.py
@@ -264,7 +264,7 @@ class PlotGui:
 
         # check status
         if exit_code != 0:
-            RuntimeError("error during the Qt event loop / exit_code = %d" % exit_code)
+            raise RuntimeError("error during the Qt event loop / exit_code = %d" % exit_code)
 
     def _show_figure_nb(self):
         """
-- 
2.43.0


From 095f69d7a7b1535c73f439ca20f11356cdc30d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 18/22] fix: refuse floating electric components that touch a
 magnetic or unused voxel

---
 pypeec/lib_solver/problem_geometry.py | 20 ++++++++++++--------
 pypeec/run/solver.py                  |  7 +++----
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/pypeec/lib_solver/problem_geometry.py b/pypeec/lib_solver/problem_geometry.py
index df64509..774724a 100644
--- a/pypeec/lib_solver/problem_geometry.py
+++ b/pypeec/lib_solver/problem_geometry.py
@@ -9,6 +9,7 @@ __license__ = "Mozilla Public License Version 2.0"
 
 import scilogger
 import numpy as np
+import scipy.sparse.csgraph as csg
 
 # get a logger
 LOGGER = scilogger.get_logger(__name__, "pypeec")
@@ -54,23 +55,26 @@ def _check_indices(idx_vc, idx_src_c, idx_src_v):
         raise RuntimeError("voltage source indices should overlap with electric indices")
 
 
-def _check_source_graph(idx_vc, idx_src_c, idx_src_v, graph_def):
+def _check_source_graph(idx_vc, idx_src_c, idx_src_v, A_net_c):
     """
     Check that there is at least one source per connected component.
     A connected components without a source would lead to a singular problem.
+    Only the electric voxels are considered (the other voxels are not conducting).
     """
 
-    for idx_graph in graph_def:
-        has_electric = len(np.intersect1d(idx_graph, idx_vc)) > 0
+    # get the connected components of the electric voxels
+    (n_comp, labels) = csg.connected_components(A_net_c*A_net_c.transpose(), directed=False)
+
+    for i in range(n_comp):
+        idx_graph = idx_vc[labels == i]
         has_current_source = len(np.intersect1d(idx_graph, idx_src_c)) > 0
         has_voltage_source = len(np.intersect1d(idx_graph, idx_src_v)) > 0
 
-        if has_electric:
-            if not (has_current_source or has_voltage_source):
-                raise RuntimeError("electric components should include at least one source")
+        if not (has_current_source or has_voltage_source):
+            raise RuntimeError("electric components should include at least one source")
 
 
-def get_problem_type(idx_vc, idx_vm, idx_src_c, idx_src_v, graph_def):
+def get_problem_type(idx_vc, idx_vm, idx_src_c, idx_src_v, A_net_c):
     """
     Check the validity of the problem.
     Detect if magnetic material are present.
@@ -78,7 +82,7 @@ def get_problem_type(idx_vc, idx_vm, idx_src_c, idx_src_v, graph_def):
 
     # check voxel indices
     _check_indices(idx_vc, idx_src_c, idx_src_v)
-    _check_source_graph(idx_vc, idx_src_c, idx_src_v, graph_def)
+    _check_source_graph(idx_vc, idx_src_c, idx_src_v, A_net_c)
 
     # detect the existence of magnetic domains
     has_magnetic = len(idx_vm) > 0
diff --git a/pypeec/run/solver.py b/pypeec/run/solver.py
index 4281ed5..f4a4834 100644
--- a/pypeec/run/solver.py
+++ b/pypeec/run/solver.py
@@ -64,7 +64,6 @@ def _run_solver_init(data_solver):
     source_def = data_solver["source_def"]
     material_def = data_solver["material_def"]
     domain_def = data_solver["domain_def"]
-    graph_def = data_solver["graph_def"]
     pts_cloud = data_solver["pts_cloud"]
     sweep_solver = data_solver["sweep_solver"]
 
@@ -89,13 +88,13 @@ def _run_solver_init(data_solver):
         material_idx = problem_geometry.get_material_pos(material_idx, idx_vc, idx_vm)
         source_idx = problem_geometry.get_source_pos(source_idx, idx_vc, idx_src_c, idx_src_v)
 
-        # check problem type
-        has_magnetic = problem_geometry.get_problem_type(idx_vc, idx_vm, idx_src_c, idx_src_v, graph_def)
-
         # reduce the incidence matrix to the non-empty voxels and compute face indices
         (pts_net_c, A_net_c, idx_fc) = problem_geometry.get_reduce_matrix(pts_vox, A_vox, idx_vc)
         (pts_net_m, A_net_m, idx_fm) = problem_geometry.get_reduce_matrix(pts_vox, A_vox, idx_vm)
 
+        # check problem type
+        has_magnetic = problem_geometry.get_problem_type(idx_vc, idx_vm, idx_src_c, idx_src_v, A_net_c)
+
         # free memory
         del pts_vox
         del A_vox
-- 
2.43.0


From 2d1156f5500a1a10ae26a32753d38e35618aa7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:40 +0000
Subject: [PATCH 19/22] fix: the segregated solver does one iteration more than
 n_max

---
 pypeec/lib_solver/equation_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/lib_solver/equation_solver.py b/pypeec/lib_solver/equation_solver.py
index 3ec8a44..6cf4880 100644
--- a/pypeec/lib_solver/equation_solver.py
+++ b/pypeec/lib_solver/equation_solver.py
@@ -404,7 +404,7 @@ def _get_solver_segregated(sol_init, fct_cpl, fct_sys, fct_pcd, rhs, segregated_
         status = status_c and status_m and status_res
 
         # check convergence
-        if (n_iter > n_max) or (status and (n_iter >= n_min)):
+        if (n_iter >= n_max) or (status and (n_iter >= n_min)):
             converged = True
 
     return status, sol_all
-- 
2.43.0


From 9a7df898f61b098c536efd2f88aa7221060fc8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:19 +0000
Subject: [PATCH 20/22] fix: report diverging segregated iterations instead of
 failing with an overflow

The norms of diverging iterations overflow, and the run failed with a
RuntimeWarning of SciPy instead of reporting a sweep that has not converged.
---
 pypeec/lib_matrix/matrix_iterative.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pypeec/lib_matrix/matrix_iterative.py b/pypeec/lib_matrix/matrix_iterative.py
index 6f42de9..2942f47 100644
--- a/pypeec/lib_matrix/matrix_iterative.py
+++ b/pypeec/lib_matrix/matrix_iterative.py
@@ -27,17 +27,24 @@ def get_solve(sol_init, op_sys, op_pcd, rhs, fct_callback, iter_options):
     if len(rhs) == 0:
         return True, rhs.copy()
 
+    # nothing can be solved if the norm overflows (diverging segregated iterations)
+    with np.errstate(over="ignore"):
+        if not np.isfinite(np.linalg.norm(rhs)):
+            return False, sol_init.copy()
+
     # call the solver
     if solver == "gmres":
-        (sol, flag) = sla.gmres(
-            op_sys, rhs, M=op_pcd, x0=sol_init,
-            rtol=rel_tol, atol=abs_tol,
-            restart=n_inner, maxiter=n_outer,
-            callback=fct_callback, callback_type="x",
-        )
+        # an overflow (diverging segregated iterations) is handled below
+        with np.errstate(over="ignore", invalid="ignore"):
+            (sol, flag) = sla.gmres(
+                op_sys, rhs, M=op_pcd, x0=sol_init,
+                rtol=rel_tol, atol=abs_tol,
+                restart=n_inner, maxiter=n_outer,
+                callback=fct_callback, callback_type="x",
+            )
     elif solver == "gcrot":
         # a breakdown (exhausted Krylov space) is handled by the solver
-        with np.errstate(divide="ignore", invalid="ignore"):
+        with np.errstate(divide="ignore", over="ignore", invalid="ignore"):
             (sol, flag) = sla.gcrotmk(
                 op_sys, rhs, M=op_pcd, x0=sol_init,
                 rtol=rel_tol, atol=abs_tol,
@@ -47,6 +54,10 @@ def get_solve(sol_init, op_sys, op_pcd, rhs, fct_callback, iter_options):
     else:
         raise ValueError("invalid matrix solver")
 
+    # keep the last finite solution after an overflow
+    if not np.all(np.isfinite(sol)):
+        return False, sol_init.copy()
+
     # check for convergence
     status = flag == 0
 
-- 
2.43.0


From 397e89cc071cbc55b88918ae5d7e137c1c15bb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 21/22] fix: flush subnormal numbers in the condition
 estimation

The entries of the inverse decay exponentially in long magnetic structures,
and the run failed with an overflow in the estimation of the norm.
---
 pypeec/lib_matrix/matrix_condition.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pypeec/lib_matrix/matrix_condition.py b/pypeec/lib_matrix/matrix_condition.py
index 8a088f8..a71a014 100644
--- a/pypeec/lib_matrix/matrix_condition.py
+++ b/pypeec/lib_matrix/matrix_condition.py
@@ -19,15 +19,20 @@ def _get_inverse_operator(mat, decomposition):
     Get an inverse operator (with LU decomposition) for the provided matrix and the Hermitian matrix.
     """
 
+    # flush the subnormal numbers (the estimation cannot compute the signs)
+    def fct_flush(sol):
+        sol[np.abs(sol) < np.finfo(np.float64).tiny] = 0.0
+        return sol
+
     # get the function for the linear operator (original matrix)
     def fct_matvec(rhs):
         sol = decomposition.solve(rhs, trans="N")
-        return sol
+        return fct_flush(sol)
 
     # get the function for the linear operator (transposed matrix)
     def fct_rmatvec(rhs):
         sol = decomposition.solve(rhs, trans="H")
-        return sol
+        return fct_flush(sol)
 
     # assign linear operator for inversion
     op = sla.LinearOperator(mat.shape, matvec=fct_matvec, rmatvec=fct_rmatvec, dtype=np.complex128)
-- 
2.43.0


From 1abbb7121329e27062a330c47fc026d020fe61ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:59 +0000
Subject: [PATCH 22/22] fix: voxelize STL meshes by blocks, the inside test of
 VTK reads uninitialised random numbers beyond 640000 points

---
 pypeec/lib_mesher/mesher_stl.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pypeec/lib_mesher/mesher_stl.py b/pypeec/lib_mesher/mesher_stl.py
index fb60d56..cfc2158 100644
--- a/pypeec/lib_mesher/mesher_stl.py
+++ b/pypeec/lib_mesher/mesher_stl.py
@@ -17,6 +17,9 @@ import pyvista as pv
 # get a logger
 LOGGER = scilogger.get_logger(__name__, "pypeec")
 
+# maximum number of points for the inside test (number of points per block)
+N_BLOCK = 500000
+
 # prevent VTK to mess up the output
 vtk.vtkObject.GlobalWarningDisplayOff()
 
@@ -49,15 +52,21 @@ def _get_voxelize_stl(grid, mesh):
     Return the indices of the created voxels.
     """
 
-    # voxelize the mesh
+    # extract the points
+    points = grid.points
+
+    # create a boolean mask
+    mask = np.zeros(len(points), dtype=bool)
+
+    # voxelize the mesh (by blocks, VTK handles at most 640000 points reliably)
     try:
-        selection = grid.select_enclosed_points(mesh, tolerance=0.0, check_surface=True)
+        for idx in range(0, len(points), N_BLOCK):
+            cloud = pv.PolyData(points[idx:idx+N_BLOCK])
+            selection = cloud.select_enclosed_points(mesh, tolerance=0.0, check_surface=True)
+            mask[idx:idx+N_BLOCK] = selection["SelectedPoints"].view(bool)
     except RuntimeError:
         raise RuntimeError("invalid mesh: mesh cannot be voxelized") from None
 
-    # create a boolean mask
-    mask = selection["SelectedPoints"].view(bool)
-
     # find the voxel indices
     if np.any(mask):
         # transform the grid into an unstructured grid (keeping the non-empty voxels)
-- 
2.43.0

