From 9569e72c82474702199f85e1489a291f8ef22e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:41 +0000
Subject: [PATCH 01/12] fix: pair the voltages and currents of the same voxel
 for the source power

The positions of the source voltages follow the voxel order of the materials
while the positions of the source currents follow the voxel order of the
sources. The power of a source with several voxels was wrong if the two orders
were different.
---
 pypeec/lib_solver/problem_geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypeec/lib_solver/problem_geometry.py b/pypeec/lib_solver/problem_geometry.py
index c1ade26..be152b5 100644
--- a/pypeec/lib_solver/problem_geometry.py
+++ b/pypeec/lib_solver/problem_geometry.py
@@ -214,6 +214,10 @@ def get_source_pos(source_idx, idx_vc, idx_src_c, idx_src_v):
         idx_vc_tmp = np.flatnonzero(idx_vc_tmp)
         idx_src_tmp = np.flatnonzero(idx_src_tmp)
 
+        # use the same voxel order for the voltages and the currents
+        idx_vc_tmp = idx_vc_tmp[np.argsort(idx_vc[idx_vc_tmp])]
+        idx_src_tmp = idx_src_tmp[np.argsort(idx_src[idx_src_tmp])]
+
         # assign the current and voltage
         source_idx[tag]["idx_vc"] = idx_vc_tmp
         source_idx[tag]["idx_src"] = idx_src_tmp
-- 
2.43.0


From 97738d357ba6972e037eec4af5dc8a72e90d8b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:51 +0000
Subject: [PATCH 02/12] fix: check the y index of the voxels with the size
 along y

The conversion of tensor indices compared the y coordinate with the number of
voxels along x: valid indices were refused and invalid indices were accepted
for non-cubic grids.
---
 pypeec/utils/voxel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/utils/voxel.py b/pypeec/utils/voxel.py
index e98a7da..3ef7372 100644
--- a/pypeec/utils/voxel.py
+++ b/pypeec/utils/voxel.py
@@ -30,7 +30,7 @@ def get_idx_linear(n, idx_tensor):
     # check bounds
     if not (np.all(idx_x >= 0) and np.all(idx_x < nx)):
         raise ValueError("invalid index range (x coordinate)")
-    if not (np.all(idx_y >= 0) and np.all(idx_y < nx)):
+    if not (np.all(idx_y >= 0) and np.all(idx_y < ny)):
         raise ValueError("invalid index range (y coordinate)")
     if not (np.all(idx_z >= 0) and np.all(idx_z < nz)):
         raise ValueError("invalid index range (z coordinate)")
-- 
2.43.0


From 69bee230a966a56f3901e437a00cff52be1cd859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:51 +0000
Subject: [PATCH 03/12] fix: do not modify the spectrum passed to the inverse
 Fourier transform

The DC coefficient of the array of the caller was multiplied by two by each
call.
---
 pypeec/utils/fourier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypeec/utils/fourier.py b/pypeec/utils/fourier.py
index 4248ee7..f902e06 100644
--- a/pypeec/utils/fourier.py
+++ b/pypeec/utils/fourier.py
@@ -51,7 +51,8 @@ def get_ifft(v_freq, n_time=None):
     The number of samples can be specified (undersampling/oversampling).
     """
 
-    # scale the DC coefficient
+    # scale the DC coefficient (without altering the input)
+    v_freq = np.array(v_freq, dtype=np.complex128)
     v_freq[0] *= 2.0
 
     # if the required size is specified, use undersampling/oversampling
-- 
2.43.0


From afcadbb74bdd3ef86807f461cd8dfb54a235bb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:51 +0000
Subject: [PATCH 04/12] fix: limit the segregated solver to the maximum number
 of iterations

The solver was making one iteration more than the specified maximum.
---
 pypeec/lib_solver/equation_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/lib_solver/equation_solver.py b/pypeec/lib_solver/equation_solver.py
index 8b51201..63f7965 100644
--- a/pypeec/lib_solver/equation_solver.py
+++ b/pypeec/lib_solver/equation_solver.py
@@ -404,7 +404,7 @@ def _get_solver_segregated(sol_init, fct_cpl, fct_sys, fct_pcd, rhs, segregated_
         status = status_c and status_m and status_res
 
         # check convergence
-        if (n_iter > n_max) or (status and (n_iter >= n_min)):
+        if (n_iter >= n_max) or (status and (n_iter >= n_min)):
             converged = True
 
     return status, sol_all
-- 
2.43.0


From 75286f58b29ac9279deed8dd3d4ad822cf066619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:51 +0000
Subject: [PATCH 05/12] fix: solve long chains of sweeps without reaching the
 recursion limit

A chain of more than a thousand sweeps, where each sweep uses the previous one
as initial solution, was failing before anything was solved.
---
 pypeec/lib_solver/sweep_joblib.py | 69 +++++++++++++++++--------------
 1 file changed, 38 insertions(+), 31 deletions(-)

diff --git a/pypeec/lib_solver/sweep_joblib.py b/pypeec/lib_solver/sweep_joblib.py
index 565bb25..4d248c8 100644
--- a/pypeec/lib_solver/sweep_joblib.py
+++ b/pypeec/lib_solver/sweep_joblib.py
@@ -53,15 +53,18 @@ def _get_tree_check(sweep_tree, tag_init, init_list):
     Run through the tree from the root and gather the nodes.
     """
 
-    # find the sweeps to be computed
-    tag_sub = sweep_tree[tag_init]
+    # nodes to be visited (no recursion, the tree can be arbitrarily deep)
+    tag_list = [tag_init]
 
-    # add the design to the computed design
-    init_list += tag_sub
+    while tag_list:
+        # find the sweeps to be computed
+        tag_sub = sweep_tree[tag_list.pop()]
 
-    # recursive call for the dependent sweeps
-    for tag_tmp in tag_sub:
-        init_list = _get_tree_check(sweep_tree, tag_tmp, init_list)
+        # add the design to the computed design
+        init_list += tag_sub
+
+        # add the dependent sweeps
+        tag_list += reversed(tag_sub)
 
     return init_list
 
@@ -106,36 +109,40 @@ def _get_tree_compute(parallel_sweep, sweep_tree, sweep_param, fct_compute, tag_
     This is done by walking through the graph from the root.
     """
 
-    # find the sweeps to be computed
-    tag_sub = sweep_tree[tag_init]
+    # nodes to be visited (no recursion, the tree can be arbitrarily deep)
+    tag_list = [tag_init]
 
-    # find the dependency for the sweeps
-    if tag_init is None:
-        init_tmp = None
-    else:
-        init_tmp = init[tag_init]
+    while tag_list:
+        # find the sweeps to be computed
+        tag_init = tag_list.pop()
+        tag_sub = sweep_tree[tag_init]
+
+        # find the dependency for the sweeps
+        if tag_init is None:
+            init_tmp = None
+        else:
+            init_tmp = init[tag_init]
 
-    # get the input
-    data_sub = [sweep_param[tag_tmp] for tag_tmp in tag_sub]
-    init_sub = [init_tmp]*len(tag_sub)
+        # get the input
+        data_sub = [sweep_param[tag_tmp] for tag_tmp in tag_sub]
+        init_sub = [init_tmp]*len(tag_sub)
 
-    # return if there is nothing to compute
-    if not tag_sub:
-        return output, init
+        # skip if there is nothing to compute
+        if not tag_sub:
+            continue
 
-    # run the serial or parallel loop
-    arg_list = zip(tag_sub, data_sub, init_sub)
-    out_list = _get_parallel_loop(parallel_sweep, fct_compute, arg_list)
+        # run the serial or parallel loop
+        arg_list = zip(tag_sub, data_sub, init_sub)
+        out_list = _get_parallel_loop(parallel_sweep, fct_compute, arg_list)
 
-    # assemble the results
-    for tag_tmp, out_tmp in zip(tag_sub, out_list):
-        (output_tmp, sol_tmp) = out_tmp
-        output[tag_tmp] = output_tmp
-        init[tag_tmp] = sol_tmp
+        # assemble the results
+        for tag_tmp, out_tmp in zip(tag_sub, out_list):
+            (output_tmp, sol_tmp) = out_tmp
+            output[tag_tmp] = output_tmp
+            init[tag_tmp] = sol_tmp
 
-    # recursive call for the dependent sweeps
-    for tag_tmp in tag_sub:
-        (output, init) = _get_tree_compute(parallel_sweep, sweep_tree, sweep_param, fct_compute, tag_tmp, output, init)
+        # add the dependent sweeps
+        tag_list += reversed(tag_sub)
 
     return output, init
 
-- 
2.43.0


From 5ed9c9db3230891534ac3153855accae8adb4869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:10 +0000
Subject: [PATCH 06/12] fix: accept empty equation systems with the GCROT
 solver

The segregated coupling with GCROT failed for all the problems without
magnetic voxels (SciPy does not accept empty systems for this solver).
---
 pypeec/lib_matrix/matrix_iterative.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypeec/lib_matrix/matrix_iterative.py b/pypeec/lib_matrix/matrix_iterative.py
index 1383a29..30fde2b 100644
--- a/pypeec/lib_matrix/matrix_iterative.py
+++ b/pypeec/lib_matrix/matrix_iterative.py
@@ -22,6 +22,10 @@ def get_solve(sol_init, op_sys, op_pcd, rhs, fct_callback, iter_options):
     n_inner = iter_options["n_inner"]
     n_outer = iter_options["n_outer"]
 
+    # nothing to solve for an empty equation system (not accepted by all the solvers)
+    if len(rhs) == 0:
+        return True, rhs
+
     # call the solver
     if solver == "gmres":
         (sol, flag) = sla.gmres(
-- 
2.43.0


From c0e5d2530c31590257d5e67020cf99d8928c8ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:55 +0000
Subject: [PATCH 07/12] fix: accept an exact solution with the GCROT solver

The warnings of SciPy are transformed into errors (for the factorization),
such that the breakdown of GCROT with an exact solution stopped the run.
---
 pypeec/lib_matrix/matrix_iterative.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pypeec/lib_matrix/matrix_iterative.py b/pypeec/lib_matrix/matrix_iterative.py
index 30fde2b..505c91c 100644
--- a/pypeec/lib_matrix/matrix_iterative.py
+++ b/pypeec/lib_matrix/matrix_iterative.py
@@ -6,6 +6,7 @@ __author__ = "Thomas Guillod"
 __copyright__ = "Thomas Guillod - Dartmouth College"
 __license__ = "Mozilla Public License Version 2.0"
 
+import warnings
 import scipy.sparse.linalg as sla
 
 
@@ -35,12 +36,15 @@ def get_solve(sol_init, op_sys, op_pcd, rhs, fct_callback, iter_options):
             callback=fct_callback, callback_type="x",
         )
     elif solver == "gcrot":
-        (sol, flag) = sla.gcrotmk(
-            op_sys, rhs, M=op_pcd, x0=sol_init,
-            rtol=rel_tol, atol=abs_tol,
-            m=n_inner, maxiter=n_outer,
-            callback=fct_callback,
-        )
+        # an exact solution is signaled by a warning inside the solver (not an error)
+        with warnings.catch_warnings():
+            warnings.filterwarnings("ignore", category=RuntimeWarning, module="scipy.sparse.linalg")
+            (sol, flag) = sla.gcrotmk(
+                op_sys, rhs, M=op_pcd, x0=sol_init,
+                rtol=rel_tol, atol=abs_tol,
+                m=n_inner, maxiter=n_outer,
+                callback=fct_callback,
+            )
     else:
         raise ValueError("invalid matrix solver")
 
-- 
2.43.0


From c49329d5150302404fd57a7f6af10a803c180792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 08/12] fix: enforce the minimum of the integers in the input
 formats

---
 pypeec/lib_check/check_data_format.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pypeec/lib_check/check_data_format.py b/pypeec/lib_check/check_data_format.py
index 0f3ecb4..065cd66 100644
--- a/pypeec/lib_check/check_data_format.py
+++ b/pypeec/lib_check/check_data_format.py
@@ -52,6 +52,12 @@ def _get_strict_validator():
         else:
             return jsonschema.Draft202012Validator.TYPE_CHECKER.is_type(instance, "array")
 
+    def get_minimum(validator, minimum, instance, _):
+        is_number = validator.is_type(instance, "number")
+        is_integer = validator.is_type(instance, "integer")
+        if (is_number or is_integer) and (instance < minimum):
+            yield jsonschema.ValidationError(f"{instance!r} is less than the minimum of {minimum!r}")
+
     # custom type checker
     type_checker = jsonschema.Draft202012Validator.TYPE_CHECKER
     type_checker = type_checker.redefine("number", get_float)
@@ -61,6 +67,7 @@ def _get_strict_validator():
     # custom validator
     StrictValidator = jsonschema.validators.extend(
         jsonschema.Draft202012Validator,
+        validators={"minimum": get_minimum},
         type_checker=type_checker,
     )
 
-- 
2.43.0


From 77ee4302510dcfae0a31829eefbbad3b8ca881c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 09/12] fix: check the type of clip_plot (misspelled name in
 the plot format)

---
 pypeec/data/schema_plot_pyvista.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/data/schema_plot_pyvista.yaml b/pypeec/data/schema_plot_pyvista.yaml
index df04f59..08292f6 100644
--- a/pypeec/data/schema_plot_pyvista.yaml
+++ b/pypeec/data/schema_plot_pyvista.yaml
@@ -12,7 +12,7 @@
             - "clip_axis"
             - "clip_value"
         "properties":
-            "plot_clip":
+            "clip_plot":
                 "type": "boolean"
             "clip_invert":
                 "type": "boolean"
-- 
2.43.0


From 0662f03012f1e2563ffe0806cbee872c762e6088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 10/12] fix: require the iterative solver options of the
 segregated solver

---
 pypeec/data/schema_tolerance.yaml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypeec/data/schema_tolerance.yaml b/pypeec/data/schema_tolerance.yaml
index 661d319..59a763d 100644
--- a/pypeec/data/schema_tolerance.yaml
+++ b/pypeec/data/schema_tolerance.yaml
@@ -36,6 +36,8 @@
         - "n_max"
         - "rel_tol"
         - "abs_tol"
+        - "iter_electric_options"
+        - "iter_magnetic_options"
     "properties":
         "relax_electric":
             "type": "number"
-- 
2.43.0


From 39913b9bc0d8a7b592b08da547f4c0e28a5d80db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 11/12] fix: check the format of the source values

---
 pypeec/data/schema_problem.yaml | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pypeec/data/schema_problem.yaml b/pypeec/data/schema_problem.yaml
index 69f05b9..9a1769a 100644
--- a/pypeec/data/schema_problem.yaml
+++ b/pypeec/data/schema_problem.yaml
@@ -107,3 +107,22 @@
                                     "type":
                                         - "number"
                                         - "array"
+                        "source_val":
+                            "type": "object"
+                            "additionalProperties":
+                                "type": "object"
+                                "anyOf":
+                                    -   "required":
+                                            - "I_re"
+                                            - "I_im"
+                                            - "Y_re"
+                                            - "Y_im"
+                                    -   "required":
+                                            - "V_re"
+                                            - "V_im"
+                                            - "Z_re"
+                                            - "Z_im"
+                                "additionalProperties":
+                                    "type":
+                                        - "number"
+                                        - "array"
-- 
2.43.0


From 1df62fc174d4067e3d05b790f83d8bb5bf9a45a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 12/12] fix: quote the file names in the commands of the GERBER
 conversion

---
 pypeec/utils/gerber.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pypeec/utils/gerber.py b/pypeec/utils/gerber.py
index 894c75a..a634af5 100644
--- a/pypeec/utils/gerber.py
+++ b/pypeec/utils/gerber.py
@@ -22,6 +22,7 @@ __license__ = "Mozilla Public License Version 2.0"
 
 import os
 import os.path
+import shlex
 import subprocess
 
 
@@ -101,6 +102,10 @@ def _get_png_file(filename_gerbv, filename_png, margin, voxel, oversampling):
     resize = 100/oversampling
     border = 100*margin
 
+    # the paths can contain spaces or special characters
+    filename_gerbv = shlex.quote(filename_gerbv)
+    filename_png = shlex.quote(filename_png)
+
     # transform the GERBER files into a PNG file
     cmd = "gerbv -p %s -o %s -x png --border %d --dpi %d 2>/dev/null" % (
         filename_gerbv,
-- 
2.43.0

