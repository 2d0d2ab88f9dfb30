From 790f266249b30cface29aba1ac750653ec27735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:45 +0000
Subject: [PATCH 01/40] fix: c_codegen postproc_substitution_dict no longer
 crashes when CSE finds common subexpressions

---
 nrpy/c_codegen.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nrpy/c_codegen.py b/nrpy/c_codegen.py
index c464d6d..2a89831 100644
--- a/nrpy/c_codegen.py
+++ b/nrpy/c_codegen.py
@@ -592,8 +592,13 @@ def c_codegen(
                 )
             else:
                 if CCGParams.postproc_substitution_dict:
-                    common_subexpression[1] = apply_substitution_dict(
-                        common_subexpression[1], CCGParams.postproc_substitution_dict
+                    # Entries are tuples, which do not support item assignment.
+                    common_subexpression = (
+                        common_subexpression[0],
+                        apply_substitution_dict(
+                            common_subexpression[1],
+                            CCGParams.postproc_substitution_dict,
+                        ),
                     )
                 outstring += (
                     full_type_string
-- 
2.43.0


From e2735fde04a1d91e8ba9e2adefb8e7d706a65082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:34 +0000
Subject: [PATCH 02/40] fix: SIMD output declares the constant 1 it uses for
 powers -1/2, -3/2, -5/2

---
 nrpy/helpers/simd.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nrpy/helpers/simd.py b/nrpy/helpers/simd.py
index 78606c9..b211120 100644
--- a/nrpy/helpers/simd.py
+++ b/nrpy/helpers/simd.py
@@ -338,6 +338,14 @@ def expr_convert_to_simd_intrins(
         if func == Pow:
             one = Symbol(prefix + "_Integer_1")
             exponent = lookup_rational(args[1])
+            # The (-n/2)-power replacements below introduce the constant 1, so
+            #   make sure it gets declared.
+            if exponent in (-Rational(1, 2), -Rational(3, 2), -Rational(5, 2)) or (
+                exponent in (-0.5, -1.5, -2.5)
+            ):
+                if sympify(1) not in map_rat_to_sym:
+                    symbol_to_Rational_dict[one] = S.One
+                    map_rat_to_sym[sympify(1)] = one
             if exponent in (Rational(1, 2), 0.5):
                 subtree.expr = SqrtSIMD(args[0])
                 subtree.children.pop(1)
-- 
2.43.0


From 8c8de65cfd86441e8c5d6d25a9bacde0533f8ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:34 +0000
Subject: [PATCH 03/40] fix: sign of NegFusedMulSubSIMD in the SSE2+FMA branch
 of simd_intrinsics.h

---
 nrpy/helpers/simd_intrinsics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/helpers/simd_intrinsics.h b/nrpy/helpers/simd_intrinsics.h
index 5780cca..bd1f547 100644
--- a/nrpy/helpers/simd_intrinsics.h
+++ b/nrpy/helpers/simd_intrinsics.h
@@ -162,7 +162,7 @@
 #define FusedMulAddSIMD(a, b, c) _mm_fmadd_pd((a), (b), (c))
 #define FusedMulSubSIMD(a, b, c) _mm_fmsub_pd((a), (b), (c))
 #define NegFusedMulAddSIMD(a, b, c) _mm_sub_pd((c), _mm_mul_pd((a), (b)))                                   // c - a*b
-#define NegFusedMulSubSIMD(a, b, c) _mm_sub_pd((c), _mm_sub_pd((c), _mm_sub_pd(_mm_mul_pd((a), (b)), (c)))) // -a*b - c = c - (c + a*b + c)
+#define NegFusedMulSubSIMD(a, b, c) _mm_sub_pd((c), _mm_add_pd((c), _mm_add_pd(_mm_mul_pd((a), (b)), (c)))) // -a*b - c = c - (c + a*b + c)
 #else
 // Fused Multiply-Add/Subtract Operations without FMA
 #define FusedMulAddSIMD(a, b, c) _mm_add_pd(_mm_mul_pd((a), (b)), (c))    // a*b + c
-- 
2.43.0


From 3318b1ff6af26aec1a05c7ee38d4383108efd57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:19 +0000
Subject: [PATCH 04/40] fix: register_gridfunctions_for_single_rank1 registers
 every component when dimension is not 3

---
 nrpy/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/grid.py b/nrpy/grid.py
index de95448..ba8c5dd 100644
--- a/nrpy/grid.py
+++ b/nrpy/grid.py
@@ -890,7 +890,7 @@ def register_gridfunctions_for_single_rank1(
 
     # Step 2: Register each gridfunction
     gf_list = []
-    for i in range(3):
+    for i in range(dimension):
         gf_list += [str(IDX_OBJ_TMP[i])]
     # Manually adjust kwargs so that basename is not checked (we're not passing the basename!),
     # and rank is set to 1.
-- 
2.43.0


From b8c8fdbdf386d9fabe524dff704db4508c40f5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:19 +0000
Subject: [PATCH 05/40] fix: parity types of four-dimensional rank-1
 gridfunctions (time component is a scalar)

---
 nrpy/grid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nrpy/grid.py b/nrpy/grid.py
index ba8c5dd..89fa212 100644
--- a/nrpy/grid.py
+++ b/nrpy/grid.py
@@ -204,7 +204,11 @@ class GridFunction:
                     if gf.rank == 0:
                         parity_type.append(0)
                     elif gf.rank == 1:
-                        parity_type.append(int(gf.name[-1]) + 1)
+                        if gf.dimension == 4:
+                            # time component is a scalar; i component is vector-like
+                            parity_type.append(int(gf.name[-1]))
+                        else:
+                            parity_type.append(int(gf.name[-1]) + 1)
                     elif gf.rank == 2:
                         idx0 = gf.name[-2]
                         idx1 = gf.name[-1]
-- 
2.43.0


From a5045cffed16e8e8be5a9b328fbfb536dbc1324e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:15 +0000
Subject: [PATCH 06/40] fix: superB MoL applies boundary conditions after every
 substep of non-diagonal and RK3 methods

---
 nrpy/infrastructures/superB/MoL.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nrpy/infrastructures/superB/MoL.py b/nrpy/infrastructures/superB/MoL.py
index 502db8e..e300ea2 100644
--- a/nrpy/infrastructures/superB/MoL.py
+++ b/nrpy/infrastructures/superB/MoL.py
@@ -587,6 +587,7 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
                     + Butcher[3][2] * k2_or_y_nplus_a32_k2_gfs * dt,
                     Butcher[2][2] * k2_or_y_nplus_a32_k2_gfs * dt + y_n_gfs,
                 ],
+                post_rhs_bcs_str=post_rhs_bcs_str,
                 post_rhs_output_list=[
                     k2_or_y_nplus_a32_k2_gfs,
                     k1_or_y_nplus_a21_k1_or_y_nplus1_running_total_gfs,
@@ -683,6 +684,7 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
                     rhs_output_expr=rhs_output,
                     RK_lhs_list=[RK_lhs],
                     RK_rhs_list=[RK_rhs],
+                    post_rhs_bcs_str=post_rhs_bcs_str,
                     post_rhs_output_list=[post_rhs_output],
                     enable_simd=enable_simd,
                     gf_aliases=gf_aliases,
-- 
2.43.0


From 0d84bf0d91a5bcb7bd3b38f8d46c9d02b97a1e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:15 +0000
Subject: [PATCH 07/40] fix: superB MoL step for Euler is reachable from the
 substep switch

---
 nrpy/infrastructures/superB/MoL.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nrpy/infrastructures/superB/MoL.py b/nrpy/infrastructures/superB/MoL.py
index e300ea2..507d7bb 100644
--- a/nrpy/infrastructures/superB/MoL.py
+++ b/nrpy/infrastructures/superB/MoL.py
@@ -700,6 +700,10 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
             if (
                 MoL_method == "Euler"
             ):  # Euler's method doesn't require any k_i, and gets its own unique algorithm
+                body += """
+          case RK_SUBSTEP_K1:
+          {
+"""
                 body += single_RK_substep_input_symbolic(
                     comment_block="// ***Euler timestepping only requires one RHS evaluation***",
                     substep_time_offset_dt=Butcher[0][0],
@@ -714,6 +718,9 @@ REAL *restrict {y_n_gridfunctions} = {gf_prefix}{y_n_gridfunctions};
                     gf_aliases=gf_aliases,
                     post_rhs_string=post_rhs_string,
                 )
+                body += """
+          break;
+          }"""
             else:
                 for s in range(num_steps):
                     # If we're on the first step (s=0), we use y_n gridfunction as input.
-- 
2.43.0


From c196bb5badd23c6907b088ece952d880ae7d63af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:15 +0000
Subject: [PATCH 08/40] fix: MoL Euler allocates the array that
 diagnostic_output_gfs2 points to

---
 nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py b/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py
index 4bdbff9..1fd7884 100644
--- a/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py
+++ b/nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py
@@ -135,6 +135,9 @@ def generate_gridfunction_names(
                 # Allocate memory for diagonal Butcher tables that aren't Euler
                 # Need k_odd for k_1,3,5... and k_even for k_2,4,6...
                 non_y_n_gridfunctions_list.extend(["k_odd_gfs", "k_even_gfs"])
+            else:
+                # Euler needs no k_i, but diagnostic_output_gfs2 needs its own storage
+                non_y_n_gridfunctions_list.append("k_odd_gfs")
             diagnostic_gridfunctions_point_to = "y_nplus1_running_total_gfs"
             diagnostic_gridfunctions2_point_to = "k_odd_gfs"
 
-- 
2.43.0


From 294fefe175591c4b1cd4458f171db3895df37da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:12 +0000
Subject: [PATCH 09/40] fix: Makefile object names: replace only the file
 suffix, not every occurrence of .c in the path

---
 nrpy/infrastructures/BHaH/Makefile_helpers.py   | 2 +-
 nrpy/infrastructures/superB/Makefile_helpers.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/Makefile_helpers.py b/nrpy/infrastructures/BHaH/Makefile_helpers.py
index 902f91d..3f3f899 100644
--- a/nrpy/infrastructures/BHaH/Makefile_helpers.py
+++ b/nrpy/infrastructures/BHaH/Makefile_helpers.py
@@ -154,7 +154,7 @@ def output_CFunctions_function_prototypes_and_construct_Makefile(
 
     # Object files
     OBJ_FILES_str = "OBJ_FILES = " + " ".join(
-        c_file.replace(f".{src_code_file_ext}", ".o")
+        f"{c_file[: -len(src_code_file_ext)]}o"
         for c_file in sorted(Makefile_list_of_files, key=str.lower)
     )
 
diff --git a/nrpy/infrastructures/superB/Makefile_helpers.py b/nrpy/infrastructures/superB/Makefile_helpers.py
index f871f66..a84b91a 100644
--- a/nrpy/infrastructures/superB/Makefile_helpers.py
+++ b/nrpy/infrastructures/superB/Makefile_helpers.py
@@ -161,7 +161,7 @@ def output_CFunctions_function_prototypes_and_construct_Makefile(
 
     OBJ_FILES_str = "OBJ_FILES ="
     for c_file in sorted(Makefile_list_of_files):
-        OBJ_FILES_str += " " + c_file.replace(".cpp", ".o")
+        OBJ_FILES_str += " " + f"{c_file[: -len('cpp')]}o"
 
     LDFLAGS_str = "LDFLAGS ="
     if addl_libraries is not None:
-- 
2.43.0


From 99396eec07a2895d702467c098039efa4bc2778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:13 +0000
Subject: [PATCH 10/40] fix: rfm wrappers: forward all arguments when two
 parameters are functions

---
 nrpy/infrastructures/BHaH/rfm_wrapper_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/rfm_wrapper_functions.py b/nrpy/infrastructures/BHaH/rfm_wrapper_functions.py
index c78f4e2..4801cad 100644
--- a/nrpy/infrastructures/BHaH/rfm_wrapper_functions.py
+++ b/nrpy/infrastructures/BHaH/rfm_wrapper_functions.py
@@ -73,7 +73,7 @@ def register_CFunctions_CoordSystem_wrapper_funcs() -> None:
         params = " ".join(params.split())
         # Case: functions passed to function.
         # Remove all function arguments. E.g., void f(REAL x) -> void f.
-        params = re.sub("\\(.*\\)", "", params)
+        params = re.sub("\\([^()]*\\)", "", params)
         # Case: fixed-size arrays.
         # Remove size. E.g., const REAL xx[3] -> const REAL xx.
         params = re.sub("\\[[0-9A-Z_]*\\]", "", params)
-- 
2.43.0


From 3a30acaffcf7baf616c758da1c1810fa9de1a308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:13 +0000
Subject: [PATCH 11/40] fix: schedule.ccl of a thorn without scheduled
 functions no longer raises KeyError

---
 nrpy/infrastructures/CarpetX/schedule_ccl.py  | 2 +-
 nrpy/infrastructures/ETLegacy/schedule_ccl.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/CarpetX/schedule_ccl.py b/nrpy/infrastructures/CarpetX/schedule_ccl.py
index 8c4dd0e..0284d77 100644
--- a/nrpy/infrastructures/CarpetX/schedule_ccl.py
+++ b/nrpy/infrastructures/CarpetX/schedule_ccl.py
@@ -63,7 +63,7 @@ def construct_schedule_ccl(
 # Step 0: Allocate memory for gridfunctions, using the STORAGE: keyword.
 {STORAGE}
 """
-    schedule_ccl_dict: Dict[str, List[ScheduleCCL]] = {}
+    schedule_ccl_dict: Dict[str, List[ScheduleCCL]] = {thorn_name: []}
     for function_name, item in sorted(cfc.CFunction_dict.items()):
         if item.ET_schedule_bins_entries:
             for schedule_bin, entry in item.ET_schedule_bins_entries:
diff --git a/nrpy/infrastructures/ETLegacy/schedule_ccl.py b/nrpy/infrastructures/ETLegacy/schedule_ccl.py
index 9e6dfb2..fa460ed 100644
--- a/nrpy/infrastructures/ETLegacy/schedule_ccl.py
+++ b/nrpy/infrastructures/ETLegacy/schedule_ccl.py
@@ -63,7 +63,7 @@ def construct_schedule_ccl(
 # Step 0: Allocate memory for gridfunctions, using the STORAGE: keyword.
 {STORAGE}
 """
-    schedule_ccl_dict: Dict[str, List[ScheduleCCL]] = {}
+    schedule_ccl_dict: Dict[str, List[ScheduleCCL]] = {thorn_name: []}
     for function_name, item in sorted(cfc.CFunction_dict.items()):
         if item.ET_schedule_bins_entries:
             for schedule_bin, entry in item.ET_schedule_bins_entries:
-- 
2.43.0


From be457a9b8ee59e7e9806941f0e10c42b8468e4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:50 +0000
Subject: [PATCH 12/40] fix: Cart_to_xx_and_nearest_i0i1i2 opens its block for
 global Cartesian input too

With relative_to="global_grid_center" the generated function closed a block that was never opened, so it did not compile.
---
 nrpy/infrastructures/BHaH/xx_tofrom_Cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py b/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
index 81395e8..6199a59 100644
--- a/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
+++ b/nrpy/infrastructures/BHaH/xx_tofrom_Cart.py
@@ -64,8 +64,8 @@ def register_CFunction__Cart_to_xx_and_nearest_i0i1i2(
   Cartx -= Cart_originx;
   Carty -= Cart_originy;
   Cartz -= Cart_originz;
-  {
 """
+    body += "  {\n"
     if "theta_adj" in CoordSystem:
         body += ccg.c_codegen(
             [rfm.Cart_to_xx[0], rfm.Cart_to_xx[1], rfm.Cart_to_xx[2]],
-- 
2.43.0


From d0ceebc9e5b12f7c499adbd999fb7fc1ca6123aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:50 +0000
Subject: [PATCH 13/40] fix: chare grids end at their own upper boundary

params_chare->xxmax was the global xxmax shifted by the chare's offset, i.e. outside the domain for every chare but the first.
---
 nrpy/infrastructures/superB/numerical_grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/superB/numerical_grids.py b/nrpy/infrastructures/superB/numerical_grids.py
index 59c7c59..a94a302 100644
--- a/nrpy/infrastructures/superB/numerical_grids.py
+++ b/nrpy/infrastructures/superB/numerical_grids.py
@@ -75,10 +75,10 @@ params_chare->Nxx_plus_2NGHOSTS2 = params_chare->Nxx2 + 2*NGHOSTS;
         body += f"params_chare->{key} = {value};\n"
 
     body += "\n// Set xxmin, xxmax\n"
-    for minmax in ["min", "max"]:
+    for minmax, offset in [("min", ""), ("max", " + 1")]:
         for dirn in range(3):
             param_dir = f"params_chare->xx{minmax}{dirn}"
-            body += f"{param_dir} = params->xx{minmax}{dirn} + (params->dxx{dirn} * (REAL)(params_chare->Nxx{dirn} * chare_index[{dirn}]));\n"
+            body += f"{param_dir} = params->xxmin{dirn} + (params->dxx{dirn} * (REAL)(params_chare->Nxx{dirn} * (chare_index[{dirn}]{offset})));\n"
 
     body += r"""
 
-- 
2.43.0


From 1320f19bf2aeb2970329dbe2b03d6e70671e55c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:13 +0000
Subject: [PATCH 14/40] fix: read_CodeParameters dereferences non-REAL Cactus
 parameters

CCTK_ParameterGet returns a pointer to the parameter; for types other than
CCTK_REAL the generated code initialised the variable with that pointer, and
looked it up in the NRPy module instead of the thorn.  CarpetX without SIMD
already has these parameters from DECLARE_CCTK_PARAMETERS.
---
 nrpy/infrastructures/CarpetX/CodeParameters.py  | 4 ++--
 nrpy/infrastructures/ETLegacy/CodeParameters.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nrpy/infrastructures/CarpetX/CodeParameters.py b/nrpy/infrastructures/CarpetX/CodeParameters.py
index c298ff0..e31576f 100644
--- a/nrpy/infrastructures/CarpetX/CodeParameters.py
+++ b/nrpy/infrastructures/CarpetX/CodeParameters.py
@@ -105,9 +105,9 @@ def read_CodeParameters(
             CPtype = CodeParam.cparam_type
             if CPtype in ("CCTK_REAL", "REAL"):
                 read_CP_str += read_CCTK_REAL_CodeParameter(CPname, CPthorn)
-            else:
+            elif enable_simd:  # else: declared by DECLARE_CCTK_PARAMETERS
                 CPcomment = f"  // {CPthorn}::{CPname}"
-                c_output = f'const {CPtype} {CPname} = CCTK_ParameterGet("{CPname}", "{CodeParam.module}", NULL);{CPcomment}\n'
+                c_output = f'const {CPtype} {CPname} = *(const {CPtype} *)CCTK_ParameterGet("{CPname}", "{CPthorn}", NULL);{CPcomment}\n'
                 read_CP_str += c_output
     if declare_invdxxs:
         for dirn in range(3):
diff --git a/nrpy/infrastructures/ETLegacy/CodeParameters.py b/nrpy/infrastructures/ETLegacy/CodeParameters.py
index b7f07a0..c53d5e5 100644
--- a/nrpy/infrastructures/ETLegacy/CodeParameters.py
+++ b/nrpy/infrastructures/ETLegacy/CodeParameters.py
@@ -114,7 +114,7 @@ def read_CodeParameters(
                 read_CP_str += read_CCTK_REAL_CodeParameter(CPname, CPthorn)
             else:
                 CPcomment = f"  // {CPthorn}::{CPname}"
-                c_output = f'const {CPtype} {CPname} = CCTK_ParameterGet("{CPname}", "{CodeParam.module}", NULL);{CPcomment}\n'
+                c_output = f'const {CPtype} {CPname} = *(const {CPtype} *)CCTK_ParameterGet("{CPname}", "{CPthorn}", NULL);{CPcomment}\n'
                 read_CP_str += c_output
     if declare_invdxxs:
         for dirn in range(3):
-- 
2.43.0


From 8e860f558738ac35a5389df485317732296a00d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:17 +0000
Subject: [PATCH 15/40] fix: simple_loop_1D writes no index when there are no
 points on the axis

i1_pts and i2_pts have length zero in that case, but element 0 was still assigned.
---
 nrpy/infrastructures/BHaH/simple_loop.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/simple_loop.py b/nrpy/infrastructures/BHaH/simple_loop.py
index 9b69c29..a4ea79f 100644
--- a/nrpy/infrastructures/BHaH/simple_loop.py
+++ b/nrpy/infrastructures/BHaH/simple_loop.py
@@ -356,10 +356,9 @@ dp1d.xCart_axis = {'xCart[1];' if axis == "y" else 'xCart[2];'}
     for i in range(3):
         if numpts[i] == Nxx[i]:
             out_string += f"{pragma}for(int i{i}=NGHOSTS; i{i}<Nxx{i} + NGHOSTS; i{i}++) i{i}_pts[i{i}-NGHOSTS] = i{i};\n"
-        elif numpts == [0, 0, 0] and i == 0:
-            out_string += (
-                f"// CoordSystem = {CoordSystem} has no points on the {axis} axis!\n"
-            )
+        elif numpts == [0, 0, 0]:
+            if i == 0:
+                out_string += f"// CoordSystem = {CoordSystem} has no points on the {axis} axis!\n"
         else:
             for j, pt in enumerate(i012_pts[i]):
                 out_string += f"i{i}_pts[{j}] = (int)({sp.ccode(pt)});\n"
-- 
2.43.0


From 935412f347a9f945df26c6a4c07f029a686b4b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:38 +0000
Subject: [PATCH 16/40] fix: parameter file parser bounds the array size text
 and the number of array values

---
 .../infrastructures/BHaH/cmdline_input_and_parfiles.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 515a98a..748bafe 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -258,6 +258,10 @@ static void parse_param(const char *param_str, char *param_name, int *array_size
     }
     char size_str[16];
     size_t size_len = bracket_end - bracket_start - 1;
+    if (size_len >= sizeof(size_str)) {
+      fprintf(stderr, "Error: Invalid array size in parameter %s.\n", param_name);
+      exit(1);
+    }
     strncpy(size_str, bracket_start + 1, size_len);
     size_str[size_len] = '\0';
     *array_size = atoi(size_str);
@@ -291,12 +295,12 @@ static void parse_value(const char *value_str, char values[][PARAM_SIZE], int *v
     char *saveptr;
     val_token = strtok_r(value_copy, ",", &saveptr);
     while (val_token != NULL) {
-      safe_copy(values[count], trim_space(val_token), PARAM_SIZE);
-      count++;
-      if (count > MAX_ARRAY_SIZE) {
+      if (count >= MAX_ARRAY_SIZE) {
         fprintf(stderr, "Error: Array size exceeds maximum allowed.\n");
         exit(1);
       }
+      safe_copy(values[count], trim_space(val_token), PARAM_SIZE);
+      count++;
       val_token = strtok_r(NULL, ",", &saveptr);
     }
     *value_count = count;
-- 
2.43.0


From 61ca65caae81e41a908d8270408b81678466c021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:38 +0000
Subject: [PATCH 17/40] fix: quoted command-line strings cannot overflow the
 parser's copy buffer

---
 nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 748bafe..537ff7a 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -358,7 +358,7 @@ static void read_chararray(const char *value, char *result, const char *param_na
   size_t len = strlen(value);
   char trimmed_value[PARAM_SIZE];
   if (value[0] == '"' && value[len - 1] == '"') {
-    if (len - 2 >= size) {
+    if (len - 2 >= size || len - 2 >= sizeof(trimmed_value)) {
       fprintf(stderr, "Error: Buffer overflow detected for %s.\n", param_name);
       exit(1);
     }
-- 
2.43.0


From fa9a687cb742cf84216ef52f64833bdf6a256357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:38 +0000
Subject: [PATCH 18/40] fix: parameter file parser rejects integers that do not
 fit an int

---
 nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 537ff7a..ebcd201 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -324,7 +324,7 @@ static void read_integer(const char *value, int *result, const char *param_name)
   errno = 0; // To detect overflow
   long int_val = strtol(value, &endptr, 10);
 
-  if (endptr == value || *endptr != '\0' || errno == ERANGE) {
+  if (endptr == value || *endptr != '\0' || errno == ERANGE || int_val < INT_MIN || int_val > INT_MAX) {
     fprintf(stderr, "Error: Invalid integer value for %s: %s.\n", param_name, value);
     exit(1);
   }
@@ -639,6 +639,7 @@ static void read_boolean(const char *value, bool *result, const char *param_name
             "<string.h>",
             "<ctype.h>",
             "<errno.h>",
+            "<limits.h>",
             "<stdbool.h>",
         ],
         prefunc=prefunc,
-- 
2.43.0


From a8d69492a5e6bae26f6c48550f9f1255fadb776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:38 +0000
Subject: [PATCH 19/40] fix: parameter file parser keeps the whole value after
 the first equals sign

---
 nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index ebcd201..7feb8be 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -485,7 +485,7 @@ static void read_boolean(const char *value, bool *result, const char *param_name
     char *p = strtok(line, "=");
     if (p) {{
       safe_copy(param, trim_space(p), sizeof(param));
-      p = strtok(NULL, "=");
+      p = strtok(NULL, "");
       if (p) {{
         safe_copy(value, trim_space(p), sizeof(value));
 
-- 
2.43.0


From 5a987fe49df48df947151668c66439a2793662e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:38 +0000
Subject: [PATCH 20/40] fix: parameter file parser accepts array values as long
 as a line

---
 nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 7feb8be..b61250e 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -470,7 +470,7 @@ static void read_boolean(const char *value, bool *result, const char *param_name
 
   char line[LINE_SIZE];
   char param[PARAM_SIZE];
-  char value[PARAM_SIZE];
+  char value[LINE_SIZE];
   int params_set[NUM_PARAMETERS] = {{0}}; // Track which parameters have been set.
 
   // Iterate through each line of the parameter file.
-- 
2.43.0


From ebe1f3322baecae4f0d03b648d666e0e67d28aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:38 +0000
Subject: [PATCH 21/40] fix: command-line overrides apply after the whole
 parameter file is read

---
 nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index b61250e..1184d7d 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -605,6 +605,9 @@ static void read_boolean(const char *value, bool *result, const char *param_name
     }
 }
 
+  } // END WHILE LOOP over all lines in the file
+  fclose(file); // Close the parameter file.
+
     // Handling options 3 and 4: Overwriting steerable parameters
     if (option == 3 || option == 4) {
         // For options 3 and 4, we extract the last arguments as steerable parameters
@@ -628,8 +631,6 @@ static void read_boolean(const char *value, bool *result, const char *param_name
     body += steerable_body
     body += """
     } // END IF (option == 3 || option == 4)
-  } // END WHILE LOOP over all lines in the file
-  fclose(file); // Close the parameter file.
 """
 
     # Register the C function with the constructed components
-- 
2.43.0


From a78ea4414a373c3d4da9373da38488ed6996a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:38 +0000
Subject: [PATCH 22/40] fix: parameter file parser reads the bool parameters
 that the default parameter file lists

---
 .../BHaH/cmdline_input_and_parfiles.py                | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
index 1184d7d..74fda42 100644
--- a/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
+++ b/nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py
@@ -134,7 +134,7 @@ static void print_usage() {{
 #define MAX_ARRAY_SIZE 100 // Adjust as needed
 
 // Parameter types
-typedef enum { PARAM_REAL, PARAM_INT, PARAM_CHARARRAY, PARAM_REAL_ARRAY, PARAM_INT_ARRAY } param_type;
+typedef enum { PARAM_REAL, PARAM_INT, PARAM_CHARARRAY, PARAM_REAL_ARRAY, PARAM_INT_ARRAY, PARAM_BOOL } param_type;
 
 // Parameter descriptor struct
 typedef struct {
@@ -180,6 +180,9 @@ param_descriptor param_table[] = {
             elif cparam_type == "REAL":
                 param_type = "PARAM_REAL"
                 found_REAL = True
+            elif cparam_type == "bool":
+                param_type = "PARAM_BOOL"
+                found_boolean = True
             elif "char" in cparam_type and "[" in cparam_type and "]" in cparam_type:
                 param_type = "PARAM_CHARARRAY"
                 buffer_size = int(cparam_type.split("[")[1].split("]")[0])
@@ -572,6 +575,12 @@ static void read_boolean(const char *value, bool *result, const char *param_name
                 f'            read_integer(values_array[0], &commondata->{param_name}, "{param_name}");\n'
                 f"        }}\n"
             )
+        elif param_type == "PARAM_BOOL":
+            assignment_code += (
+                f"        {prefix} (param_desc->index == {index}) {{\n"
+                f'            read_boolean(values_array[0], &commondata->{param_name}, "{param_name}");\n'
+                f"        }}\n"
+            )
         elif param_type == "PARAM_CHARARRAY":
             # buffer_size is used instead of array_size
             assignment_code += (
-- 
2.43.0


From b99f77b0e1c3315e469f12e85030fb2670ae6c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:21 +0000
Subject: [PATCH 23/40] fix: read_checkpoint replaces the y_n_gfs allocation
 instead of leaking it

---
 nrpy/infrastructures/BHaH/checkpointing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nrpy/infrastructures/BHaH/checkpointing.py b/nrpy/infrastructures/BHaH/checkpointing.py
index 20b320d..86a122c 100644
--- a/nrpy/infrastructures/BHaH/checkpointing.py
+++ b/nrpy/infrastructures/BHaH/checkpointing.py
@@ -78,6 +78,8 @@ def register_CFunction_read_checkpoint(
     FREAD(out_data_indices, sizeof(int), count, cp_file);
     FREAD(compact_out_data, sizeof(REAL), count * NUM_EVOL_GFS, cp_file);
 
+    // y_n_gfs are already allocated when the initial data are set; replace that allocation.
+    MoL_free_memory_y_n_gfs(&griddata[grid].gridfuncs);
     MoL_malloc_y_n_gfs(commondata, &griddata[grid].params, &griddata[grid].gridfuncs);
 #pragma omp parallel for
     for (int i = 0; i < count; i++) {
-- 
2.43.0


From 9904f47e4561190a1eb09a833b69c5aa20a18b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:26 +0000
Subject: [PATCH 24/40] fix: an interrupted checkpoint write leaves the
 previous checkpoint intact

---
 nrpy/infrastructures/BHaH/checkpointing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nrpy/infrastructures/BHaH/checkpointing.py b/nrpy/infrastructures/BHaH/checkpointing.py
index 86a122c..a8bb20e 100644
--- a/nrpy/infrastructures/BHaH/checkpointing.py
+++ b/nrpy/infrastructures/BHaH/checkpointing.py
@@ -145,7 +145,10 @@ def register_CFunction_write_checkpoint(
 // Step 2: Multiplying by outevery yields the exact time we should output again, t_out.
 // Step 3: If fabs(t_out - currtime) < 0.5 * currdt, then currtime is as close to t_out as possible!
 if (fabs(round(currtime / outevery) * outevery - currtime) < 0.5 * currdt) {
-  FILE *cp_file = fopen(filename, "w+");
+  // Write to a temporary file first, so that an interrupted write leaves the previous checkpoint intact.
+  char tmp_filename[300];
+  snprintf(tmp_filename, 300, "%s.tmp", filename);
+  FILE *cp_file = fopen(tmp_filename, "w+");
   fwrite(commondata, sizeof(commondata_struct), 1, cp_file);
   fprintf(stderr, "WRITING CHECKPOINT: cd struct size = %ld time=%e\n", sizeof(commondata_struct), commondata->time);
 """
@@ -197,6 +200,7 @@ if (fabs(round(currtime / outevery) * outevery - currtime) < 0.5 * currdt) {
     for(int i=0;i<ntot*NUM_EVOL_GFS;i++) griddata[grid].gridfuncs.y_n_gfs[i] = griddata[grid].gridfuncs.diagnostic_output_gfs[i];
   }
   fclose(cp_file);
+  rename(tmp_filename, filename);
   fprintf(stderr, "FINISHED WRITING CHECKPOINT\n");
 }
 """
-- 
2.43.0


From 4d4697ce0349ba3d39ef64f4e8283c5e464e10f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:57 +0000
Subject: [PATCH 25/40] fix: elliptic L2 norm weights by the volume element
 sqrt(detgammahat)

---
 .../BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py   | 2 +-
 .../superB/nrpyelliptic/conformally_flat_C_codegen_library.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py b/nrpy/infrastructures/BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py
index 1d7e383..84d2a0b 100644
--- a/nrpy/infrastructures/BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py
+++ b/nrpy/infrastructures/BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py
@@ -368,7 +368,7 @@ def register_CFunction_compute_L2_norm_of_gridfunction(
     loop_body = ccg.c_codegen(
         [
             rfm.xxSph[0],
-            rfm.detgammahat,
+            sp.sqrt(rfm.detgammahat),
         ],
         [
             "const DOUBLE r",
diff --git a/nrpy/infrastructures/superB/nrpyelliptic/conformally_flat_C_codegen_library.py b/nrpy/infrastructures/superB/nrpyelliptic/conformally_flat_C_codegen_library.py
index e2f64f7..a991233 100644
--- a/nrpy/infrastructures/superB/nrpyelliptic/conformally_flat_C_codegen_library.py
+++ b/nrpy/infrastructures/superB/nrpyelliptic/conformally_flat_C_codegen_library.py
@@ -11,6 +11,8 @@ from inspect import currentframe as cfr
 from types import FrameType as FT
 from typing import Dict, Tuple, Union, cast
 
+import sympy as sp
+
 import nrpy.c_codegen as ccg
 import nrpy.c_function as cfc
 import nrpy.helpers.parallel_codegen as pcg
@@ -45,7 +47,7 @@ def register_CFunction_compute_L2_norm_of_gridfunction(
     loop_body = ccg.c_codegen(
         [
             rfm.xxSph[0],
-            rfm.detgammahat,
+            sp.sqrt(rfm.detgammahat),
         ],
         [
             "const REAL r",
-- 
2.43.0


From 425bb4f7b55312a2938ea14668dc982c53c326e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:57 +0000
Subject: [PATCH 26/40] fix: spherical Gaussian exact solution is finite at the
 origin

---
 .../wave_equation/wave_equation_C_codegen_library.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/nrpy/infrastructures/BHaH/wave_equation/wave_equation_C_codegen_library.py b/nrpy/infrastructures/BHaH/wave_equation/wave_equation_C_codegen_library.py
index e467260..0822fb8 100644
--- a/nrpy/infrastructures/BHaH/wave_equation/wave_equation_C_codegen_library.py
+++ b/nrpy/infrastructures/BHaH/wave_equation/wave_equation_C_codegen_library.py
@@ -72,6 +72,18 @@ def register_CFunction_exact_solution_single_Cartesian_point(
         verbose=False,
         include_braces=False,
     )
+    if WaveType == "SphericalGaussian":
+        # uu_exactsoln and vv_exactsoln are 0/0 at the origin; use their limits there.
+        body_r0 = ccg.c_codegen(
+            [exactsoln.uu_exactsoln_r0, exactsoln.vv_exactsoln_r0],
+            ["*exact_soln_UUGF", "*exact_soln_VVGF"],
+            verbose=False,
+            include_braces=False,
+        )
+        body = f"""if (xCart0*xCart0 + xCart1*xCart1 + xCart2*xCart2 > 1e-20) {{
+{body}}} else {{
+{body_r0}}}
+"""
     cfc.register_CFunction(
         includes=includes,
         desc=desc,
-- 
2.43.0


From d687299ea8baab85e10f336a87e144bea88dc8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:41 +0000
Subject: [PATCH 27/40] fix: psi4 mode extraction never interpolates across
 radial ghost zones

---
 .../BHaH/general_relativity/BSSN_C_codegen_library.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py b/nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py
index da906e7..13e70dd 100644
--- a/nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py
+++ b/nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py
@@ -955,14 +955,17 @@ static void lowlevel_decompose_psi4_into_swm2_modes(const int Nxx_plus_2NGHOSTS1
     //  NGHOSTS>=NinterpGHOSTS of filled neighbor pts.
     if(IS_IN_GRID_INTERIOR(Cart_to_i0i1i2, Nxx_plus_2NGHOSTS0, Nxx_plus_2NGHOSTS1, Nxx_plus_2NGHOSTS2, NGHOSTS)) {
 
+      // psi4 is set in the grid interior only, so keep the interpolation stencil out of the radial ghost zones.
+      const int i0_stencil_start = MIN(MAX(closest_i0 - N0/2, NGHOSTS), Nxx_plus_2NGHOSTS0 - NGHOSTS - 1 - N0);
+
       // Step 2.a.i: Set radial interpolation coefficients for r=R_ext.
       REAL l0i__times__w0i_inv[2*NinterpGHOSTS+1];
       {
         for(int i=0;i<=N0;i++) {
           REAL prod_numer_i = 1.0;
           int  prod_denom_i = 1;
-          for(int l=0;  l<i;  l++) { prod_denom_i *= i-l; prod_numer_i *= closest_xx[0] - xx[0][closest_i0 - N0/2 + l]; }
-          for(int l=i+1;l<=N0;l++) { prod_denom_i *= i-l; prod_numer_i *= closest_xx[0] - xx[0][closest_i0 - N0/2 + l]; }
+          for(int l=0;  l<i;  l++) { prod_denom_i *= i-l; prod_numer_i *= closest_xx[0] - xx[0][i0_stencil_start + l]; }
+          for(int l=i+1;l<=N0;l++) { prod_denom_i *= i-l; prod_numer_i *= closest_xx[0] - xx[0][i0_stencil_start + l]; }
           l0i__times__w0i_inv[i] = prod_numer_i / ( pow_dxx0__N0 * (REAL)prod_denom_i );
         }
       }
@@ -981,8 +984,8 @@ static void lowlevel_decompose_psi4_into_swm2_modes(const int Nxx_plus_2NGHOSTS1
           for(int i=0;i<=N0;i++) {
             // psi4r and psi4i in fixed frame have been stored to diagnostic_output_gfs.
             //  Here we interpolate to specific radius.
-            sum_psi4r += diagnostic_output_gfs[IDX4(PSI4_REGF, i + closest_i0 - N0/2, i1, i2)] * l0i__times__w0i_inv[i];
-            sum_psi4i += diagnostic_output_gfs[IDX4(PSI4_IMGF, i + closest_i0 - N0/2, i1, i2)] * l0i__times__w0i_inv[i];
+            sum_psi4r += diagnostic_output_gfs[IDX4(PSI4_REGF, i + i0_stencil_start, i1, i2)] * l0i__times__w0i_inv[i];
+            sum_psi4i += diagnostic_output_gfs[IDX4(PSI4_IMGF, i + i0_stencil_start, i1, i2)] * l0i__times__w0i_inv[i];
           }
           // Store result to "2D" array (actually 1D array with 2D storage):
           const int idx2d = (i1-NGHOSTS)*(Nxx_plus_2NGHOSTS2-2*NGHOSTS)+(i2-NGHOSTS);
-- 
2.43.0


From 19aded871e478e94970a00a0f36e29c60d32d036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:24 +0000
Subject: [PATCH 28/40] fix: scalar Carpet Ricci and constraint kernels declare
 the inverse grid spacings

---
 .../ETLegacy/general_relativity/BSSN_constraints.py          | 5 ++++-
 .../ETLegacy/general_relativity/Ricci_eval.py                | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py b/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
index 3cb2fbf..067526c 100644
--- a/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
+++ b/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
@@ -70,7 +70,10 @@ def register_CFunction_BSSN_constraints(
 
 """
     else:
-        body += """  DECLARE_CCTK_PARAMETERS;
+        body += """  const CCTK_REAL invdxx0 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(0);
+  const CCTK_REAL invdxx1 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(1);
+  const CCTK_REAL invdxx2 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(2);
+  DECLARE_CCTK_PARAMETERS;
 
 """
 
diff --git a/nrpy/infrastructures/ETLegacy/general_relativity/Ricci_eval.py b/nrpy/infrastructures/ETLegacy/general_relativity/Ricci_eval.py
index 680dfbe..922f590 100644
--- a/nrpy/infrastructures/ETLegacy/general_relativity/Ricci_eval.py
+++ b/nrpy/infrastructures/ETLegacy/general_relativity/Ricci_eval.py
@@ -66,7 +66,10 @@ def register_CFunction_Ricci_eval(
 
 """
     else:
-        body += """  DECLARE_CCTK_PARAMETERS;
+        body += """  const CCTK_REAL invdxx0 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(0);
+  const CCTK_REAL invdxx1 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(1);
+  const CCTK_REAL invdxx2 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(2);
+  DECLARE_CCTK_PARAMETERS;
 
 """
 
-- 
2.43.0


From 91e8cf642039378f0ca2d2de7911d75750e1c4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:24 +0000
Subject: [PATCH 29/40] fix: vacuum thorns do not read the stress-energy
 parameter PI, which they do not have

---
 .../CarpetX/general_relativity/BSSN_constraints.py       | 7 +++++--
 .../CarpetX/general_relativity/rhs_eval.py               | 9 ++++++---
 .../ETLegacy/general_relativity/BSSN_constraints.py      | 7 +++++--
 .../ETLegacy/general_relativity/rhs_eval.py              | 9 ++++++---
 4 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/nrpy/infrastructures/CarpetX/general_relativity/BSSN_constraints.py b/nrpy/infrastructures/CarpetX/general_relativity/BSSN_constraints.py
index a680ad5..8c985ef 100644
--- a/nrpy/infrastructures/CarpetX/general_relativity/BSSN_constraints.py
+++ b/nrpy/infrastructures/CarpetX/general_relativity/BSSN_constraints.py
@@ -58,13 +58,16 @@ def register_CFunction_BSSN_constraints(
     body = f"""  DECLARE_CCTK_ARGUMENTSX_{name};
 """
     if enable_simd:
-        body += f"""
+        body += """
   const REAL_SIMD_ARRAY invdxx0 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(0));
   const REAL_SIMD_ARRAY invdxx1 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(1));
   const REAL_SIMD_ARRAY invdxx2 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(2));
+
+"""
+        if enable_T4munu:
+            body += f"""
   const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
   const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
-
 """
     else:
         body += """  const CCTK_REAL invdxx0 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(0);
diff --git a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
index cfadab8..0f2168b 100644
--- a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
+++ b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
@@ -94,10 +94,13 @@ def register_CFunction_rhs_eval(
   const REAL_SIMD_ARRAY invdxx0 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(0));
   const REAL_SIMD_ARRAY invdxx1 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(1));
   const REAL_SIMD_ARRAY invdxx2 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(2));
-  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
-  const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
   const CCTK_REAL *param_eta CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("eta", "{thorn_name}", NULL);
   const REAL_SIMD_ARRAY eta CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_eta);
+"""
+        if enable_T4munu:
+            body += f"""
+  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
+  const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
 """
         if enable_CAKO:
             body += f"""
@@ -376,7 +379,7 @@ if(FD_order == {fd_order}) {{
             "C_CAHD",
             "CFL_FACTOR__ignore_repeats_Carpet_timeref_factors",
         ]
-    if thorn_name == "Baikal":
+    if enable_T4munu:
         params += ["PI"]
 
     cfc.register_CFunction(
diff --git a/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py b/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
index 067526c..52295f7 100644
--- a/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
+++ b/nrpy/infrastructures/ETLegacy/general_relativity/BSSN_constraints.py
@@ -61,13 +61,16 @@ def register_CFunction_BSSN_constraints(
     body = f"""  DECLARE_CCTK_ARGUMENTS_{name};
 """
     if enable_simd:
-        body += f"""
+        body += """
   const REAL_SIMD_ARRAY invdxx0 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(0));
   const REAL_SIMD_ARRAY invdxx1 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(1));
   const REAL_SIMD_ARRAY invdxx2 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(2));
+
+"""
+        if enable_T4munu:
+            body += f"""
   const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
   const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
-
 """
     else:
         body += """  const CCTK_REAL invdxx0 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(0);
diff --git a/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py b/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py
index 4666531..2afc61b 100644
--- a/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py
+++ b/nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py
@@ -98,10 +98,13 @@ def register_CFunction_rhs_eval(
   const REAL_SIMD_ARRAY invdxx0 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(0));
   const REAL_SIMD_ARRAY invdxx1 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(1));
   const REAL_SIMD_ARRAY invdxx2 CCTK_ATTRIBUTE_UNUSED = ConstSIMD(1.0/CCTK_DELTA_SPACE(2));
-  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
-  const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
   const CCTK_REAL *param_eta CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("eta", "{thorn_name}", NULL);
   const REAL_SIMD_ARRAY eta CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_eta);
+"""
+        if enable_T4munu:
+            body += f"""
+  const CCTK_REAL *param_PI CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("PI", "{thorn_name}", NULL);
+  const REAL_SIMD_ARRAY PI CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_PI);
 """
     else:
         body += """
@@ -408,7 +411,7 @@ if(FD_order == {fd_order}) {{
             "C_CAHD",
             "CFL_FACTOR__ignore_repeats_Carpet_timeref_factors",
         ]
-    if thorn_name == "Baikal":
+    if enable_T4munu:
         params += ["PI"]
 
     cfc.register_CFunction(
-- 
2.43.0


From 8d1a8fc76eefc22c9367b84d36fa2540458d8fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:24 +0000
Subject: [PATCH 30/40] fix: CarpetX rhs_eval defines the CAHD prefactor as the
 Carpet version does

---
 .../CarpetX/general_relativity/rhs_eval.py    | 31 ++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
index 0f2168b..9c6dd67 100644
--- a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
+++ b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
@@ -116,10 +116,13 @@ def register_CFunction_rhs_eval(
 """
         if enable_CAHD:
             body += f"""
+  const CCTK_REAL *param_CFL_FACTOR__ignore_repeats_Carpet_timeref_factors CCTK_ATTRIBUTE_UNUSED =
+  CCTK_ParameterGet("CFL_FACTOR__ignore_repeats_Carpet_timeref_factors", "{thorn_name}", NULL);
   const CCTK_REAL *param_C_CAHD CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("C_CAHD", "{thorn_name}", NULL);
-  const REAL_SIMD_ARRAY C_CAHD CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*param_C_CAHD);
-  // cahdprefactor = C_CAHD * sp.symbols("CFL_FACTOR") * sp.symbols("dsmin")
-  const REAL_SIMD_ARRAY cahdprefactor CCTK_ATTRIBUTE_UNUSED = MulSIMD(C_CAHD, MulSIMD(,));
+  // cahdprefactor = C_CAHD * CFL_FACTOR * dsmin
+  const CCTK_REAL dsmin CCTK_ATTRIBUTE_UNUSED = fmin(CCTK_DELTA_SPACE(0), fmin(CCTK_DELTA_SPACE(1), CCTK_DELTA_SPACE(2)));
+  const CCTK_REAL noSIMD_cahdprefactor CCTK_ATTRIBUTE_UNUSED = (*param_C_CAHD) * (*param_CFL_FACTOR__ignore_repeats_Carpet_timeref_factors) * dsmin;
+  const REAL_SIMD_ARRAY cahdprefactor CCTK_ATTRIBUTE_UNUSED = ConstSIMD(noSIMD_cahdprefactor);
 """
         if enable_SSL:
             body += f"""
@@ -139,8 +142,9 @@ def register_CFunction_rhs_eval(
 """
         if enable_CAHD:
             body += """
-  // cahdprefactor = C_CAHD * sp.symbols("CFL_FACTOR") * sp.symbols("dsmin")
-  const CCTK_REAL cahdprefactor = C_CAHD * ;
+  // cahdprefactor = C_CAHD * CFL_FACTOR * dsmin
+  const CCTK_REAL dsmin CCTK_ATTRIBUTE_UNUSED = fmin(CCTK_DELTA_SPACE(0), fmin(CCTK_DELTA_SPACE(1), CCTK_DELTA_SPACE(2)));
+  const CCTK_REAL cahdprefactor CCTK_ATTRIBUTE_UNUSED = C_CAHD * CFL_FACTOR__ignore_repeats_Carpet_timeref_factors * dsmin;
 """
         if enable_SSL:
             body += """
@@ -262,8 +266,21 @@ def register_CFunction_rhs_eval(
             + ("_RbarDD_gridfunctions" if enable_RbarDD_gridfunctions else "")
             + ("_T4munu" if enable_T4munu else "")
         ]
-        _C_CAHD = par.register_CodeParameter(
-            "REAL", __name__, "C_CAHD", 0.15, commondata=True, add_to_parfile=True
+        _C_CAHD, _CFL_FACTOR__ignore_repeats_Carpet_timeref_factors = (
+            par.register_CodeParameters(
+                "REAL",
+                __name__,
+                [
+                    "C_CAHD",
+                    "CFL_FACTOR__ignore_repeats_Carpet_timeref_factors",
+                ],
+                [
+                    0.15,
+                    0.5,
+                ],
+                commondata=True,
+                add_to_parfile=True,
+            )
         )
         # Initialize CAHD_term assuming phi is the evolved conformal factor. CFL_FACTOR is defined in MoL.
         # CAHD_term = -C_CAHD * (sp.symbols("CFL_FACTOR") * sp.symbols("dsmin")) * Bcon.H
-- 
2.43.0


From 1e51ef159e80c4fe1d0c25b1e681c1db3c568150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:24 +0000
Subject: [PATCH 31/40] fix: CarpetX rhs_eval takes the slow-start-lapse time
 from cctk_time

---
 nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
index 9c6dd67..e07196d 100644
--- a/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
+++ b/nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py
@@ -129,8 +129,8 @@ def register_CFunction_rhs_eval(
     const CCTK_REAL *SSL_h CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("SSL_h", "{thorn_name}", NULL);
     const CCTK_REAL *SSL_sigma CCTK_ATTRIBUTE_UNUSED = CCTK_ParameterGet("SSL_sigma", "{thorn_name}", NULL);
 
-    const CCTK_REAL noSIMD_SSL_Gaussian_prefactor CCTK_ATTRIBUTE_UNUSED = *SSL_h * exp(-CCTK_TIME * CCTK_TIME / (2 * (*SSL_sigma) * (*SSL_sigma)));
-    const REAL_SIMD_ARRAY SSL_Gaussian_prefactor CCTK_ATTRIBUTE_UNUSED = ConstSIMD(*noSIMD_SSL_Gaussian_prefactor);
+    const CCTK_REAL noSIMD_SSL_Gaussian_prefactor CCTK_ATTRIBUTE_UNUSED = *SSL_h * exp(-cctk_time * cctk_time / (2 * (*SSL_sigma) * (*SSL_sigma)));
+    const REAL_SIMD_ARRAY SSL_Gaussian_prefactor CCTK_ATTRIBUTE_UNUSED = ConstSIMD(noSIMD_SSL_Gaussian_prefactor);
 """
     else:
         body += """  const CCTK_REAL invdxx0 CCTK_ATTRIBUTE_UNUSED = 1.0/CCTK_DELTA_SPACE(0);
@@ -148,7 +148,7 @@ def register_CFunction_rhs_eval(
 """
         if enable_SSL:
             body += """
-  const CCTK_REAL SSL_Gaussian_prefactor CCTK_ATTRIBUTE_UNUSED = SSL_h * exp(-CCTK_TIME * CCTK_TIME / (2 * (SSL_sigma) * (SSL_sigma)));
+  const CCTK_REAL SSL_Gaussian_prefactor CCTK_ATTRIBUTE_UNUSED = SSL_h * exp(-cctk_time * cctk_time / (2 * (SSL_sigma) * (SSL_sigma)));
 """
     rhs = BSSN_RHSs[
         CoordSystem
-- 
2.43.0


From 05d5e2a32dcc363a204db41706a57d4b6d23df4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:00 +0000
Subject: [PATCH 32/40] fix: the evolved conformal factor phi tends to 0, not
 1, at infinity

---
 nrpy/equations/general_relativity/BSSN_quantities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nrpy/equations/general_relativity/BSSN_quantities.py b/nrpy/equations/general_relativity/BSSN_quantities.py
index 15c0f52..85a6472 100644
--- a/nrpy/equations/general_relativity/BSSN_quantities.py
+++ b/nrpy/equations/general_relativity/BSSN_quantities.py
@@ -76,9 +76,13 @@ class BSSNQuantities:
             )
 
             # Step 2.b: Register scalar quantities, using gri.register_gridfunctions()
+            #    The value at infinity is that of flat space: phi -> 0, W and chi -> 1.
+            cf_infinity = (
+                0.0 if par.parval_from_str("EvolvedConformalFactor_cf") == "phi" else 1.0
+            )
             self.trK, self.cf, self.alpha = gri.register_gridfunctions(
                 ["trK", "cf", "alpha"],
-                f_infinity=[0.0, 1.0, 1.0],
+                f_infinity=[0.0, cf_infinity, 1.0],
                 wavespeed=[1.0, 1.0, sp.sqrt(2.0)],
             )
 
-- 
2.43.0


From 34721ca2debafd02dc0fa6186691686d98a332e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:30 +0000
Subject: [PATCH 33/40] fix: cse_preprocess declares _Integer_1 where it
 replaces (-1)^(even) by it

---
 nrpy/helpers/cse_preprocess_postprocess.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nrpy/helpers/cse_preprocess_postprocess.py b/nrpy/helpers/cse_preprocess_postprocess.py
index 4f9eea6..fe4e921 100644
--- a/nrpy/helpers/cse_preprocess_postprocess.py
+++ b/nrpy/helpers/cse_preprocess_postprocess.py
@@ -220,6 +220,10 @@ def cse_preprocess(
                         )
                         tree.build(subtree)
                         changed_expr = True
+                        # Declare _One_ wherever it is introduced.
+                        if subtree.expr == _One_:
+                            symbol_to_Rational_dict[_One_] = sp.S.One
+                            map_rat_to_sym[sp.S.One] = _One_
             if changed_expr:
                 expr = tree.reconstruct()
 
-- 
2.43.0


From 20c2d0ffa136525fcb61c3251afae07adda4eddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:24 +0000
Subject: [PATCH 34/40] fix: cache files appear complete or not at all

---
 nrpy/helpers/cached_functions.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/nrpy/helpers/cached_functions.py b/nrpy/helpers/cached_functions.py
index 073b37f..69d28de 100644
--- a/nrpy/helpers/cached_functions.py
+++ b/nrpy/helpers/cached_functions.py
@@ -11,7 +11,9 @@ Author: Zachariah B. Etienne
 """
 
 import hashlib
+import os
 import pickle
+import tempfile
 from pathlib import Path
 from typing import Any, cast
 
@@ -97,6 +99,29 @@ def read_cached(unique_id: str) -> Any:
         return pickle.load(file)
 
 
+def atomic_pickle_dump(path: Path, data: Any) -> None:
+    """
+    Pickle data to a file so that other processes see either no file or the complete file.
+
+    :param path: The file to be created or replaced.
+    :param data: The data to be written.
+
+    DocTests:
+    >>> atomic_pickle_dump(cache_file('test_atomic'), {'value': 789})
+    >>> read_cached('test_atomic') == {'value': 789}
+    True
+    """
+    tmp_fd, tmp_name = tempfile.mkstemp(dir=str(path.parent), suffix=".tmp")
+    try:
+        with os.fdopen(tmp_fd, "wb") as file:
+            pickle.dump(data, file)
+        os.replace(tmp_name, str(path))
+    except BaseException:
+        if os.path.exists(tmp_name):
+            os.remove(tmp_name)
+        raise
+
+
 def write_cached(unique_id: str, data: Any) -> None:
     """
     Write data to the cache file associated with a unique ID.
@@ -110,9 +135,7 @@ def write_cached(unique_id: str, data: Any) -> None:
     True
     """
     # print(f"Writing " + str(unique_id[:80]).replace("\n", ""))
-    with open(cache_file(unique_id), "wb") as file:
-        # print(f"Writing cached file {file.name}.")
-        pickle.dump(data, file)
+    atomic_pickle_dump(cache_file(unique_id), data)
 
 
 def cached_simplify(expr: sp.Basic) -> sp.Expr:
@@ -141,8 +164,7 @@ def cached_simplify(expr: sp.Basic) -> sp.Expr:
                 return cast(sp.Expr, pickle.load(file))
         else:
             simplified = sp.simplify(expr)
-            with open(cache_fle, "wb") as file:
-                pickle.dump(simplified, file)
+            atomic_pickle_dump(cache_fle, simplified)
             return cast(sp.Expr, simplified)
     except pickle.PicklingError:
         return cast(sp.Expr, sp.simplify(expr))
-- 
2.43.0


From 61badba7570d8f8cdbbeba46e3864f8911cf97b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:24 +0000
Subject: [PATCH 35/40] fix: ConditionalFileUpdater leaves the file alone when
 producing its content fails

---
 nrpy/helpers/conditional_file_updater.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nrpy/helpers/conditional_file_updater.py b/nrpy/helpers/conditional_file_updater.py
index a89dc80..32c37d8 100644
--- a/nrpy/helpers/conditional_file_updater.py
+++ b/nrpy/helpers/conditional_file_updater.py
@@ -77,6 +77,10 @@ class ConditionalFileUpdater:
         :param exception_value: Exception value if an exception was raised within the context.
         :param traceback: Traceback object if an exception was raised within the context.
         """
+        # If the content could not be produced, leave the file as it is.
+        if exception_type is not None:
+            return
+
         print(f"Checking {self.fname}...", end="")
         new_content = self.fd.getvalue()
         if self.do_format:
-- 
2.43.0


From 5d81ffb66731796169c21b6f3443bb4b3724578b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:24 +0000
Subject: [PATCH 36/40] fix: nrpyinline keeps the indentation of code behind
 comment markers

---
 bin/nrpyinline.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/bin/nrpyinline.py b/bin/nrpyinline.py
index 66fb7d7..2453bb5 100644
--- a/bin/nrpyinline.py
+++ b/bin/nrpyinline.py
@@ -28,17 +28,15 @@ def strip_comment_markers(line: str) -> str:
     stripped_line = line.lstrip()
     leading_spaces = line[: len(line) - len(stripped_line)]
 
-    # Remove leading comment markers
-    if stripped_line.startswith("//"):
-        stripped_line = stripped_line[2:].lstrip()
-    elif stripped_line.startswith("/*"):
-        stripped_line = stripped_line[2:].lstrip()
-    elif stripped_line.startswith("*"):
-        stripped_line = stripped_line[1:].lstrip()
-
-    # Remove trailing comment markers
+    # Remove leading comment markers, keeping the indentation that follows them
+    if stripped_line.startswith(("//", "/*")):
+        stripped_line = stripped_line[2:]
+    elif stripped_line.startswith("*") and not stripped_line.startswith("*/"):
+        stripped_line = stripped_line[1:]
+
+    # Remove trailing comment markers, keeping the end of the line
     if stripped_line.rstrip().endswith("*/"):
-        stripped_line = stripped_line.rstrip()[:-2].rstrip()
+        stripped_line = stripped_line.rstrip()[:-2].rstrip() + "\n"
 
     # Return the line with original leading spaces and processed content
     return leading_spaces + stripped_line
-- 
2.43.0


From 87253950750f1fd0aa0caad9e309450e337e7250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:58 +0000
Subject: [PATCH 37/40] fix: superB: psi4 diagnostic counts and pointers were
 uninitialised without psi4 diagnostics, so checkpoints packed arrays of
 arbitrary length

---
 nrpy/infrastructures/superB/timestepping_chare.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index bb09298..0633055 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -653,6 +653,15 @@ Timestepping::Timestepping(CommondataObject &&inData) {
   // Step 1.c: Allocate NUMGRIDS griddata arrays, each containing data specific to an individual grid.
   griddata = (griddata_struct *restrict)malloc(sizeof(griddata_struct) * commondata.NUMGRIDS);
   griddata_chare = (griddata_struct *restrict)malloc(sizeof(griddata_struct) * commondata.NUMGRIDS);
+  // Without psi4 diagnostics on this grid, the psi4 arrays stay empty; they are PUP'ed and freed all the same.
+  for (int grid = 0; grid < commondata.NUMGRIDS; grid++) {
+    griddata_chare[grid].diagnosticstruct.num_of_R_exts_chare = 0;
+    griddata_chare[grid].diagnosticstruct.psi4_spinweightm2_sph_harmonics_max_l = 0;
+    griddata_chare[grid].diagnosticstruct.length_localsums_for_psi4_decomp = 0;
+    griddata_chare[grid].diagnosticstruct.list_of_R_exts_chare = NULL;
+    griddata_chare[grid].diagnosticstruct.localsums_for_psi4_decomp = NULL;
+    griddata_chare[grid].diagnosticstruct.globalsums_for_psi4_decomp = NULL;
+  }
 
   // Step 1.d: Set each CodeParameter in griddata.params to default.
   params_struct_set_to_default(&commondata, griddata);
-- 
2.43.0


From fd22b3575c0cbfbf68b97b00c7cc7d19e7d7ef27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:49 +0000
Subject: [PATCH 38/40] fix: superB: checkpoints truncated the
 chare-to-neighbour tables to the number of neighbours, though they are
 indexed by chare

---
 nrpy/infrastructures/superB/superB/superB_pup.py | 16 +++++++++-------
 .../superB/superB_pup_function_prototypes.h      |  4 ++--
 .../infrastructures/superB/timestepping_chare.py |  2 +-
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/nrpy/infrastructures/superB/superB/superB_pup.py b/nrpy/infrastructures/superB/superB/superB_pup.py
index 796b5af..bc6ab07 100644
--- a/nrpy/infrastructures/superB/superB/superB_pup.py
+++ b/nrpy/infrastructures/superB/superB/superB_pup.py
@@ -378,16 +378,18 @@ void pup_tmpBuffers_struct(PUP::er &p, tmpBuffers_struct &tmpBuffers, const para
 }
 
 // PUP routine for struct nonlocalinnerbc_struct
-void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal) {
+void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal, const commondata_struct &commondata) {
+  // idx3chare_to_{src,dst}_chare_id are indexed by the idx3 of any chare
+  const int tot_num_chares = commondata.Nchare0 * commondata.Nchare1 * commondata.Nchare2;
   p | nonlocal.tot_num_src_chares;
   p | nonlocal.tot_num_dst_chares;
   if (p.isUnpacking()) {
     nonlocal.idx3_of_src_chares = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_src_chares);
-    nonlocal.idx3chare_to_src_chare_id = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_src_chares);
+    nonlocal.idx3chare_to_src_chare_id = (int *restrict)malloc(sizeof(int) * tot_num_chares);
     nonlocal.num_srcpts_each_chare = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_src_chares);
 
     nonlocal.idx3_of_dst_chares = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_dst_chares);
-    nonlocal.idx3chare_to_dst_chare_id = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_dst_chares);
+    nonlocal.idx3chare_to_dst_chare_id = (int *restrict)malloc(sizeof(int) * tot_num_chares);
     nonlocal.num_srcpts_tosend_each_chare = (int *restrict)malloc(sizeof(int) * nonlocal.tot_num_dst_chares);
 
     nonlocal.map_srcchare_and_srcpt_id_to_linear_id = (int **)malloc(sizeof(int *) * nonlocal.tot_num_src_chares);
@@ -396,11 +398,11 @@ void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal) {
     nonlocal.globalidx3_srcpts_tosend = (int **)malloc(sizeof(int *) * nonlocal.tot_num_dst_chares);
   }
   PUParray(p, nonlocal.idx3_of_src_chares, nonlocal.tot_num_src_chares);
-  PUParray(p, nonlocal.idx3chare_to_src_chare_id, nonlocal.tot_num_src_chares);
+  PUParray(p, nonlocal.idx3chare_to_src_chare_id, tot_num_chares);
   PUParray(p, nonlocal.num_srcpts_each_chare, nonlocal.tot_num_src_chares);
 
   PUParray(p, nonlocal.idx3_of_dst_chares, nonlocal.tot_num_dst_chares);
-  PUParray(p, nonlocal.idx3chare_to_dst_chare_id, nonlocal.tot_num_dst_chares);
+  PUParray(p, nonlocal.idx3chare_to_dst_chare_id, tot_num_chares);
   PUParray(p, nonlocal.num_srcpts_tosend_each_chare, nonlocal.tot_num_dst_chares);
 
   for (int src_chare = 0; src_chare < nonlocal.tot_num_src_chares; src_chare++) {
@@ -438,7 +440,7 @@ void pup_griddata(PUP::er &p, griddata_struct &gd) {
 
 // PUP routine for struct griddata_chare
 // For unpacking order is important, unpacked structs are used for unpacking the subsequent structs
-void pup_griddata_chare(PUP::er &p, griddata_struct &gd, const params_struct &params) {
+void pup_griddata_chare(PUP::er &p, griddata_struct &gd, const params_struct &params, const commondata_struct &commondata) {
 
   pup_params_struct(p, gd.params);
 
@@ -457,7 +459,7 @@ void pup_griddata_chare(PUP::er &p, griddata_struct &gd, const params_struct &pa
 
   pup_bc_struct(p, gd.bcstruct);
 
-  pup_nonlocalinnerbc_struct(p, gd.nonlocalinnerbcstruct);
+  pup_nonlocalinnerbc_struct(p, gd.nonlocalinnerbcstruct, commondata);
 
   pup_MoL_gridfunctions_struct(p, gd.gridfuncs, gd.params);
 
diff --git a/nrpy/infrastructures/superB/superB/superB_pup_function_prototypes.h b/nrpy/infrastructures/superB/superB/superB_pup_function_prototypes.h
index e83da9e..cdb1832 100644
--- a/nrpy/infrastructures/superB/superB/superB_pup_function_prototypes.h
+++ b/nrpy/infrastructures/superB/superB/superB_pup_function_prototypes.h
@@ -9,7 +9,7 @@ void pup_MoL_gridfunctions_struct(PUP::er &p, MoL_gridfunctions_struct &mol_gfs,
 void pup_charecomm_struct(PUP::er &p, charecomm_struct &cc, const params_struct &params, const params_struct &params_chare);
 void pup_diagnostic_struct(PUP::er &p, diagnostic_struct &ds, const int num_diagnostics_chare);
 void pup_tmpBuffers_struct(PUP::er &p, tmpBuffers_struct &tmpBuffers, const params_struct &params, const nonlocalinnerbc_struct &nonlocalinnerbc);
-void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal);
+void pup_nonlocalinnerbc_struct(PUP::er &p, nonlocalinnerbc_struct &nonlocal, const commondata_struct &commondata);
 void pup_griddata(PUP::er &p, griddata_struct &gd);
-void pup_griddata_chare(PUP::er &p, griddata_struct &gd, const params_struct &params);
+void pup_griddata_chare(PUP::er &p, griddata_struct &gd, const params_struct &params, const commondata_struct &commondata);
 
diff --git a/nrpy/infrastructures/superB/timestepping_chare.py b/nrpy/infrastructures/superB/timestepping_chare.py
index 0633055..8888985 100644
--- a/nrpy/infrastructures/superB/timestepping_chare.py
+++ b/nrpy/infrastructures/superB/timestepping_chare.py
@@ -249,7 +249,7 @@ void Timestepping::pup(PUP::er &p) {
     griddata_chare = (griddata_struct *restrict)malloc(sizeof(griddata_struct) * commondata.NUMGRIDS);
   }
   for (int i = 0; i < commondata.NUMGRIDS; i++) {
-    pup_griddata_chare(p, griddata_chare[i], griddata[i].params);
+    pup_griddata_chare(p, griddata_chare[i], griddata[i].params, commondata);
   }
   p | is_boundarychare;
   p | time_start;
-- 
2.43.0


From 45bb7da0de301404766da26a2f84aefe702c4594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:07 +0000
Subject: [PATCH 39/40] fix: give NRPyPN each hole's own spin (object 1 is
 mass_m, object 2 is mass_M)

---
 .../NRPyPN_quasicircular_momenta.py                  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/general_relativity/NRPyPN_quasicircular_momenta.py b/nrpy/infrastructures/BHaH/general_relativity/NRPyPN_quasicircular_momenta.py
index 262f004..96f8cc8 100644
--- a/nrpy/infrastructures/BHaH/general_relativity/NRPyPN_quasicircular_momenta.py
+++ b/nrpy/infrastructures/BHaH/general_relativity/NRPyPN_quasicircular_momenta.py
@@ -96,12 +96,12 @@ if(commondata->initial_p_t == -1.0 && commondata->initial_p_r == -1.0) {
     // In NRPyPN, q = m2/m1 = mass_M/mass_m. So mass_m = object 1, and mass_M is object 2.
     const REAL q = commondata->mass_ratio;
     const REAL r = commondata->initial_sep;
-    const REAL chi1U0 = commondata->bbhxy_BH_M_chix;
-    const REAL chi1U1 = commondata->bbhxy_BH_M_chiy;
-    const REAL chi1U2 = commondata->bbhxy_BH_M_chiz;
-    const REAL chi2U0 = commondata->bbhxy_BH_m_chix;
-    const REAL chi2U1 = commondata->bbhxy_BH_m_chiy;
-    const REAL chi2U2 = commondata->bbhxy_BH_m_chiz;
+    const REAL chi1U0 = commondata->bbhxy_BH_m_chix;
+    const REAL chi1U1 = commondata->bbhxy_BH_m_chiy;
+    const REAL chi1U2 = commondata->bbhxy_BH_m_chiz;
+    const REAL chi2U0 = commondata->bbhxy_BH_M_chix;
+    const REAL chi2U1 = commondata->bbhxy_BH_M_chiy;
+    const REAL chi2U2 = commondata->bbhxy_BH_M_chiz;
 
     const REAL mass_M =   q / (1.0 + q);
     const REAL mass_m = 1.0 / (1.0 + q);
-- 
2.43.0


From 4b593ffd07b384c4c619f51ea7da7ddf49c4e86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:07 +0000
Subject: [PATCH 40/40] fix: apply TwoPunctures' center_offset in the unrotated
 frame it is given in

---
 .../BHaH/general_relativity/TwoPunctures/TP_interp.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/TP_interp.py b/nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/TP_interp.py
index 625a4eb..00ff4bc 100644
--- a/nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/TP_interp.py
+++ b/nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/TP_interp.py
@@ -116,12 +116,11 @@ static inline void swap(REAL *restrict const a, REAL *restrict const b) {
   // z_dest = x_src; x_dest = y_src; y_dest = z_src
   REAL xx, yy, zz;
   {
-    const REAL x_dest = x - ID_persist->center_offset[0];
-    const REAL y_dest = y - ID_persist->center_offset[1];
-    const REAL z_dest = z - ID_persist->center_offset[2];
-    xx = z_dest;
-    yy = x_dest;
-    zz = y_dest;
+    // center_offset is specified in the (unrotated) TwoPunctures frame, in which
+    //   the punctures lie on the x-axis; so it is applied after the rotation.
+    xx = z - ID_persist->center_offset[0];
+    yy = x - ID_persist->center_offset[1];
+    zz = y - ID_persist->center_offset[2];
   }
 
   // We implement swapping the x and z coordinates as follows.
-- 
2.43.0

