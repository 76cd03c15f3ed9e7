From 58d4c3466058fda13033db201b22d338f3b56712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:53 +0000
Subject: [PATCH 01/13] fix: raise the errors for invalid voxel sizes and
 numbers (shape and STL meshers)

---
 pypeec/lib_mesher/mesher_shape.py | 4 ++--
 pypeec/lib_mesher/mesher_stl.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypeec/lib_mesher/mesher_shape.py b/pypeec/lib_mesher/mesher_shape.py
index 71b5f2f..a276f0c 100644
--- a/pypeec/lib_mesher/mesher_shape.py
+++ b/pypeec/lib_mesher/mesher_shape.py
@@ -395,10 +395,10 @@ def _get_voxel_size(dx, dy, dz, stack_pos, xy_max, xy_min):
 
     # check voxel validity
     if not np.all(d > 0):
-        RuntimeError("invalid voxel dimension: should be positive")
+        raise RuntimeError("invalid voxel dimension: should be positive")
     # check voxel validity
     if not np.all(n > 0):
-        RuntimeError("invalid voxel number: should be positive")
+        raise RuntimeError("invalid voxel number: should be positive")
 
     return n, d, c
 
diff --git a/pypeec/lib_mesher/mesher_stl.py b/pypeec/lib_mesher/mesher_stl.py
index 8f9dfe2..fb60d56 100644
--- a/pypeec/lib_mesher/mesher_stl.py
+++ b/pypeec/lib_mesher/mesher_stl.py
@@ -134,10 +134,10 @@ def _get_voxel_size(d, xyz_max, xyz_min):
 
     # check voxel validity
     if not np.all(d > 0):
-        RuntimeError("invalid voxel dimension: should be positive")
+        raise RuntimeError("invalid voxel dimension: should be positive")
     # check voxel validity
     if not np.all(n > 0):
-        RuntimeError("invalid voxel number: should be positive")
+        raise RuntimeError("invalid voxel number: should be positive")
 
     return n, d, c
 
-- 
2.43.0


From 57c69573703febd0005de400365645d23f30ce8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:53 +0000
Subject: [PATCH 02/13] fix: check the y coordinate against the number of
 voxels along y

---
 pypeec/utils/voxel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/utils/voxel.py b/pypeec/utils/voxel.py
index e98a7da..3ef7372 100644
--- a/pypeec/utils/voxel.py
+++ b/pypeec/utils/voxel.py
@@ -30,7 +30,7 @@ def get_idx_linear(n, idx_tensor):
     # check bounds
     if not (np.all(idx_x >= 0) and np.all(idx_x < nx)):
         raise ValueError("invalid index range (x coordinate)")
-    if not (np.all(idx_y >= 0) and np.all(idx_y < nx)):
+    if not (np.all(idx_y >= 0) and np.all(idx_y < ny)):
         raise ValueError("invalid index range (y coordinate)")
     if not (np.all(idx_z >= 0) and np.all(idx_z < nz)):
         raise ValueError("invalid index range (z coordinate)")
-- 
2.43.0


From d489af6f20a655517112f8e8b6b915c4d66cef12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:53 +0000
Subject: [PATCH 03/13] fix: segregated solver should not exceed the maximum
 number of iterations

---
 pypeec/lib_solver/equation_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/lib_solver/equation_solver.py b/pypeec/lib_solver/equation_solver.py
index 8b51201..63f7965 100644
--- a/pypeec/lib_solver/equation_solver.py
+++ b/pypeec/lib_solver/equation_solver.py
@@ -404,7 +404,7 @@ def _get_solver_segregated(sol_init, fct_cpl, fct_sys, fct_pcd, rhs, segregated_
         status = status_c and status_m and status_res
 
         # check convergence
-        if (n_iter > n_max) or (status and (n_iter >= n_min)):
+        if (n_iter >= n_max) or (status and (n_iter >= n_min)):
             converged = True
 
     return status, sol_all
-- 
2.43.0


From 0f3147b651edef93c0d3b6813a8ea6f2606db0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 04/13] fix: do not modify the spectrum passed to the inverse
 Fourier transform

---
 pypeec/utils/fourier.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypeec/utils/fourier.py b/pypeec/utils/fourier.py
index 4248ee7..a8c3546 100644
--- a/pypeec/utils/fourier.py
+++ b/pypeec/utils/fourier.py
@@ -51,6 +51,9 @@ def get_ifft(v_freq, n_time=None):
     The number of samples can be specified (undersampling/oversampling).
     """
 
+    # copy the spectrum (the argument should not be modified)
+    v_freq = np.copy(v_freq)
+
     # scale the DC coefficient
     v_freq[0] *= 2.0
 
-- 
2.43.0


From b80263b1a433634b4639f83d140c4082dc84c56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 05/13] fix: match the voxel order of the terminal voltages and
 currents

---
 pypeec/lib_solver/problem_geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypeec/lib_solver/problem_geometry.py b/pypeec/lib_solver/problem_geometry.py
index c1ade26..aba9211 100644
--- a/pypeec/lib_solver/problem_geometry.py
+++ b/pypeec/lib_solver/problem_geometry.py
@@ -214,6 +214,10 @@ def get_source_pos(source_idx, idx_vc, idx_src_c, idx_src_v):
         idx_vc_tmp = np.flatnonzero(idx_vc_tmp)
         idx_src_tmp = np.flatnonzero(idx_src_tmp)
 
+        # use the same voxel order for the voltages and currents
+        idx_vc_tmp = idx_vc_tmp[np.argsort(idx_vc[idx_vc_tmp])]
+        idx_src_tmp = idx_src_tmp[np.argsort(idx_src[idx_src_tmp])]
+
         # assign the current and voltage
         source_idx[tag]["idx_vc"] = idx_vc_tmp
         source_idx[tag]["idx_src"] = idx_src_tmp
-- 
2.43.0


From 244523ccaebcb5b692d5624e55cd9f981db24038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 06/13] fix: power convergence criterion without compared
 iterations

---
 pypeec/lib_solver/equation_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/lib_solver/equation_solver.py b/pypeec/lib_solver/equation_solver.py
index 63f7965..6cf4880 100644
--- a/pypeec/lib_solver/equation_solver.py
+++ b/pypeec/lib_solver/equation_solver.py
@@ -95,7 +95,7 @@ class _IterCounter:
             power_cmp = self.power_vec[-(self.n_cmp+1):-1]
 
             # get convergence status
-            power_err = np.max(np.abs(power_ref-power_cmp))
+            power_err = np.max(np.abs(power_ref-power_cmp), initial=0.0)
             power_thr = np.maximum(self.rel_tol*np.abs(power_ref), self.abs_tol)
             status = power_err <= power_thr
 
-- 
2.43.0


From 3f194b48b2322c9a716ca25252d9a6ee64e4489b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:24 +0000
Subject: [PATCH 07/13] fix: solve segregated problems without magnetic part
 with the GCROT solver

---
 pypeec/lib_matrix/matrix_iterative.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypeec/lib_matrix/matrix_iterative.py b/pypeec/lib_matrix/matrix_iterative.py
index 1383a29..efe36e9 100644
--- a/pypeec/lib_matrix/matrix_iterative.py
+++ b/pypeec/lib_matrix/matrix_iterative.py
@@ -22,6 +22,10 @@ def get_solve(sol_init, op_sys, op_pcd, rhs, fct_callback, iter_options):
     n_inner = iter_options["n_inner"]
     n_outer = iter_options["n_outer"]
 
+    # an empty system is trivially solved (but not supported by all the solvers)
+    if len(rhs) == 0:
+        return True, sol_init
+
     # call the solver
     if solver == "gmres":
         (sol, flag) = sla.gmres(
-- 
2.43.0


From 6df7a2aba6c08aeb25b2f50e6deb7653eb7fdda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 08/13] fix: accept integer spectra for the inverse Fourier
 transform (copy as complex)

---
 pypeec/utils/fourier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/utils/fourier.py b/pypeec/utils/fourier.py
index a8c3546..3fd197c 100644
--- a/pypeec/utils/fourier.py
+++ b/pypeec/utils/fourier.py
@@ -52,7 +52,7 @@ def get_ifft(v_freq, n_time=None):
     """
 
     # copy the spectrum (the argument should not be modified)
-    v_freq = np.copy(v_freq)
+    v_freq = np.array(v_freq, dtype=np.complex128)
 
     # scale the DC coefficient
     v_freq[0] *= 2.0
-- 
2.43.0


From b7db1909ea2f96134e73eaacbc858ab2569d6faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 09/13] fix: check the type of the clip_plot option

---
 pypeec/data/schema_plot_pyvista.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/data/schema_plot_pyvista.yaml b/pypeec/data/schema_plot_pyvista.yaml
index df04f59..08292f6 100644
--- a/pypeec/data/schema_plot_pyvista.yaml
+++ b/pypeec/data/schema_plot_pyvista.yaml
@@ -12,7 +12,7 @@
             - "clip_axis"
             - "clip_value"
         "properties":
-            "plot_clip":
+            "clip_plot":
                 "type": "boolean"
             "clip_invert":
                 "type": "boolean"
-- 
2.43.0


From 676a526942b7716f9557b1e459761ee5ec5b6743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 10/13] fix: check the format of the source values

---
 pypeec/data/schema_problem.yaml | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pypeec/data/schema_problem.yaml b/pypeec/data/schema_problem.yaml
index 69f05b9..9a1769a 100644
--- a/pypeec/data/schema_problem.yaml
+++ b/pypeec/data/schema_problem.yaml
@@ -107,3 +107,22 @@
                                     "type":
                                         - "number"
                                         - "array"
+                        "source_val":
+                            "type": "object"
+                            "additionalProperties":
+                                "type": "object"
+                                "anyOf":
+                                    -   "required":
+                                            - "I_re"
+                                            - "I_im"
+                                            - "Y_re"
+                                            - "Y_im"
+                                    -   "required":
+                                            - "V_re"
+                                            - "V_im"
+                                            - "Z_re"
+                                            - "Z_im"
+                                "additionalProperties":
+                                    "type":
+                                        - "number"
+                                        - "array"
-- 
2.43.0


From a66391a01b87f19bd51db1b7d7ca7800c64950b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 11/13] fix: require the matrix solver options of the
 segregated solver

---
 pypeec/data/schema_tolerance.yaml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypeec/data/schema_tolerance.yaml b/pypeec/data/schema_tolerance.yaml
index 661d319..59a763d 100644
--- a/pypeec/data/schema_tolerance.yaml
+++ b/pypeec/data/schema_tolerance.yaml
@@ -36,6 +36,8 @@
         - "n_max"
         - "rel_tol"
         - "abs_tol"
+        - "iter_electric_options"
+        - "iter_magnetic_options"
     "properties":
         "relax_electric":
             "type": "number"
-- 
2.43.0


From 5f6d30b930ef7346aa9d145488394d6373f55e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 12/13] fix: raise the error if the Qt event loop is failing

---
 pypeec/lib_plot/manage_plotgui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/lib_plot/manage_plotgui.py b/pypeec/lib_plot/manage_plotgui.py
index dbe571a..3255d0a 100644
--- a/pypeec/lib_plot/manage_plotgui.py
+++ b/pypeec/lib_plot/manage_plotgui.py
@@ -264,7 +264,7 @@ class PlotGui:
 
         # check status
         if exit_code != 0:
-            RuntimeError("error during the Qt event loop / exit_code = %d" % exit_code)
+            raise RuntimeError("error during the Qt event loop / exit_code = %d" % exit_code)
 
     def _show_figure_nb(self):
         """
-- 
2.43.0


From ecbba02373709ed4e835353f98961b6e9876dcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 13/13] fix: enforce the minimum of the integer values

---
 pypeec/lib_check/check_data_format.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pypeec/lib_check/check_data_format.py b/pypeec/lib_check/check_data_format.py
index 0f3ecb4..9686a4e 100644
--- a/pypeec/lib_check/check_data_format.py
+++ b/pypeec/lib_check/check_data_format.py
@@ -52,6 +52,11 @@ def _get_strict_validator():
         else:
             return jsonschema.Draft202012Validator.TYPE_CHECKER.is_type(instance, "array")
 
+    def get_minimum(validator, minimum, instance, _):
+        if validator.is_type(instance, "number") or validator.is_type(instance, "integer"):
+            if instance < minimum:
+                yield jsonschema.ValidationError(f"{instance!r} is less than the minimum of {minimum!r}")
+
     # custom type checker
     type_checker = jsonschema.Draft202012Validator.TYPE_CHECKER
     type_checker = type_checker.redefine("number", get_float)
@@ -61,6 +66,7 @@ def _get_strict_validator():
     # custom validator
     StrictValidator = jsonschema.validators.extend(
         jsonschema.Draft202012Validator,
+        validators={"minimum": get_minimum},
         type_checker=type_checker,
     )
 
-- 
2.43.0

