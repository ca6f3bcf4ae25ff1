From 2a8f990fba3a7342ac81b37e72a596002770559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 01/48] =?UTF-8?q?fix:=20use=20the=20v=5F=CE=B8=20coefficie?=
 =?UTF-8?q?nt=20for=20v=5F=CE=B8=20in=20the=20third=20order=20taylor=20ser?=
 =?UTF-8?q?ies?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/disc_solver/solve/deriv_midplane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/deriv_midplane.py b/src/disc_solver/solve/deriv_midplane.py
index 2211ed7..75b3a3a 100644
--- a/src/disc_solver/solve/deriv_midplane.py
+++ b/src/disc_solver/solve/deriv_midplane.py
@@ -420,7 +420,7 @@ def get_taylor_third_order(
 
     third_order[ODEIndex.B_r] = derivs[ODEIndex.B_r]
     third_order[ODEIndex.B_φ] = derivs[ODEIndex.B_φ]
-    third_order[ODEIndex.v_θ] = derivs[ODEIndex.v_φ]
+    third_order[ODEIndex.v_θ] = derivs[ODEIndex.v_θ]
     log.debug("Third order taylor {}".format(third_order))
 
     return third_order
-- 
2.43.0


From 7a85253f9505c90397e915772a22fa0f9eae793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 02/48] =?UTF-8?q?fix:=20remove=20the=20spurious=20half=20f?=
 =?UTF-8?q?rom=20the=20v=5Fr=20term=20of=20the=20midplane=20=CF=81''?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The polar momentum equation at first order off the midplane gives
ρ'' = -(v_φ² + a_0 (...) - γ (1 - 4γ) v_r²).
---
 src/disc_solver/solve/deriv_midplane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/deriv_midplane.py b/src/disc_solver/solve/deriv_midplane.py
index 75b3a3a..c9a67fe 100644
--- a/src/disc_solver/solve/deriv_midplane.py
+++ b/src/disc_solver/solve/deriv_midplane.py
@@ -68,7 +68,7 @@ def Y_1_func(*, v_r, v_φ, deriv_B_r, deriv_B_φ, γ, a_0):
     """
     return v_φ ** 2 + a_0 * (
         deriv_B_r * (1/4 - γ + deriv_B_r) + deriv_B_φ ** 2
-    ) - v_r ** 2 * γ * (1 - 4 * γ) / 2
+    ) - v_r ** 2 * γ * (1 - 4 * γ)
 
 
 def Y_2_func(
-- 
2.43.0


From e3e3c79da49d27c6fa82d4ba5cd4773b134240d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 03/48] fix: correct the signs of the ambipolar and Hall terms
 when using E_r
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Eliminating B_r' from the definition of E_r using E_φ = 0 gives a positive sign
for both of these terms (as used in the denominator of B_φ'' when E_r is not
used).
---
 src/disc_solver/solve/deriv_funcs.py | 8 +++++---
 src/disc_solver/solve/solution.py    | 7 ++-----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/disc_solver/solve/deriv_funcs.py b/src/disc_solver/solve/deriv_funcs.py
index 77e0ac8..9a0e991 100644
--- a/src/disc_solver/solve/deriv_funcs.py
+++ b/src/disc_solver/solve/deriv_funcs.py
@@ -21,7 +21,7 @@ def Z_5_func(*, η_O, η_A, η_H, b_r, b_θ, b_φ, C):
 
 def deriv_B_φ_func(
     *, θ, γ, B_r, B_θ, B_φ, v_r, v_φ, v_θ, η_O, η_A, η_H, E_r, b_r, b_φ, b_θ,
-    C, Z_5, tan=np_tan,
+    C, tan=np_tan,
 ):
     """
     Compute the derivative of B_φ, assuming E_r is being used
@@ -30,7 +30,7 @@ def deriv_B_φ_func(
         C * (v_θ * B_r - v_r * B_θ) - E_r - v_φ * B_θ + B_φ * (
             v_θ + tan(θ) * (η_O + η_A * (1 - b_r ** 2)) + (1 / 4 - γ) * (
                 η_H * b_φ + η_A * b_r * b_θ
-            ) - C * (
+            ) + C * (
                 η_A * b_φ * (
                     b_r * tan(θ) -
                     b_θ * (1/4 - γ)
@@ -40,7 +40,9 @@ def deriv_B_φ_func(
                 )
             )
         )
-    ) / Z_5
+    ) / (
+        η_O + η_A * (1 - b_r ** 2) + C * (η_H * b_θ + η_A * b_r * b_φ)
+    )
 
 
 def deriv_B_r_func(
diff --git a/src/disc_solver/solve/solution.py b/src/disc_solver/solve/solution.py
index 3ede174..140ec83 100644
--- a/src/disc_solver/solve/solution.py
+++ b/src/disc_solver/solve/solution.py
@@ -20,7 +20,7 @@ from scikits.odes.sundials.cvode import StatusEnum
 
 from .deriv_funcs import (
     dderiv_B_φ_soln, deriv_B_r_func, deriv_η_skw_func, deriv_B_φ_func,
-    deriv_E_r_func, C_func, A_func, Z_5_func, B_unit_derivs,
+    deriv_E_r_func, C_func, A_func, B_unit_derivs,
 )
 from .deriv_midplane import (
     taylor_series, get_taylor_first_order, get_taylor_second_order,
@@ -147,15 +147,12 @@ def ode_system(
         b_r, b_φ, b_θ = B_r/B_mag, B_φ/B_mag, B_θ/B_mag
 
         C = C_func(η_O=η_O, η_A=η_A, η_H=η_H, b_θ=b_θ, b_r=b_r, b_φ=b_φ)
-        Z_5 = Z_5_func(
-            η_O=η_O, η_A=η_A, η_H=η_H, b_r=b_r, b_θ=b_θ, b_φ=b_φ, C=C,
-        )
 
         if use_E_r:
             deriv_B_φ = deriv_B_φ_func(
                 θ=θ, γ=γ, B_r=B_r, B_θ=B_θ, B_φ=B_φ, v_r=v_r, v_φ=v_φ, v_θ=v_θ,
                 η_O=η_O, η_A=η_A, η_H=η_H, E_r=E_r, b_θ=b_θ, b_r=b_r, b_φ=b_φ,
-                C=C, Z_5=Z_5,
+                C=C,
             )
         else:
             deriv_B_φ = B_φ_prime
-- 
2.43.0


From 0554fc1f5545a4efb91bb712f80c0634f1a51296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 04/48] fix: write sonic-on-scale to the output file, also
 without a sonic point

---
 src/disc_solver/analyse/info.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/disc_solver/analyse/info.py b/src/disc_solver/analyse/info.py
index 80f6106..f6e7c09 100644
--- a/src/disc_solver/analyse/info.py
+++ b/src/disc_solver/analyse/info.py
@@ -116,10 +116,14 @@ def info(soln_file, *, group, soln_range, output_file, filename):
         _, sonic_θ, _, _ = get_all_sonic_points(
             soln_instance
         )
-        print("{}: {}".format(
-            soln_file.config_input.label,
-            sonic_θ / get_scale_height(soln_instance)
-        ))
+        print(
+            "{}: {}".format(
+                soln_file.config_input.label,
+                None if sonic_θ is None
+                else sonic_θ / get_scale_height(soln_instance)
+            ),
+            file=output_file
+        )
     elif group == "solutions":
         for name, _ in sort_solutions(soln_file.solutions):
             print(name, file=output_file)
-- 
2.43.0


From bb744b0277d5432e41210b8e56d29328e9682bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:13 +0000
Subject: [PATCH 05/48] fix: start integrating at the angle the taylor series
 was evaluated at

---
 src/disc_solver/solve/solution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/solve/solution.py b/src/disc_solver/solve/solution.py
index 140ec83..9572cce 100644
--- a/src/disc_solver/solve/solution.py
+++ b/src/disc_solver/solve/solution.py
@@ -408,7 +408,7 @@ def taylor_solution(
         raise SolverError("Taylor solver did not find taylor_stop_angle")
 
     new_angles = angles[angles > taylor_stop_angle]
-    insert(new_angles, 0, taylor_stop_angle)
+    new_angles = insert(new_angles, 0, taylor_stop_angle)
 
     return TaylorSolution(
         angles=scaled_to_rad(soln.values.t, θ_scale), params=soln.values.y,
@@ -427,7 +427,7 @@ def taylor_jump(
     """
     taylor_stop_angle = rad_to_scaled(taylor_stop_angle, θ_scale)
     new_angles = angles[angles > taylor_stop_angle]
-    insert(new_angles, 0, taylor_stop_angle)
+    new_angles = insert(new_angles, 0, taylor_stop_angle)
 
     first_order_taylor_values = get_taylor_first_order(
         init_con=init_con, γ=γ, a_0=a_0,
-- 
2.43.0


From 419fafc031dfebd4b189943e7d15443f139485a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 06/48] fix: cross the sonic point from where the solver found
 it

---
 src/disc_solver/solve/solution.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/disc_solver/solve/solution.py b/src/disc_solver/solve/solution.py
index 9572cce..497f0eb 100644
--- a/src/disc_solver/solve/solution.py
+++ b/src/disc_solver/solve/solution.py
@@ -329,6 +329,16 @@ def jacobian_viewer_generator(internal_data):
     return lambda _1, jac_flag, _2, _3, _4, _5, _6: jac_flag
 
 
+def get_end_of_solution(soln):
+    """
+    Get where the solver stopped, which if it found a root is beyond the last
+    of the requested angles it reached
+    """
+    if soln.roots.t is not None:
+        return soln.roots.t[-1], soln.roots.y[-1]
+    return soln.values.t[-1], soln.values.y[-1]
+
+
 def jump_across_sonic(
     *, base_solution, angles, system_initial_conditions, γ, a_0,
     norm_kepler_sq, η_derivs=True, θ_scale=float_type(1), use_E_r=False,
@@ -339,8 +349,7 @@ def jump_across_sonic(
     """
     if jump_after_sonic is None:
         jump_after_sonic = jump_before_sonic
-    initial_angle = base_solution.values.t[-1]
-    initial_values = base_solution.values.y[-1]
+    initial_angle, initial_values = get_end_of_solution(base_solution)
 
     system, _ = ode_system(
         γ=γ, a_0=a_0, norm_kepler_sq=norm_kepler_sq,
@@ -478,21 +487,20 @@ def interp_cross_sonic(
         log.exception("Failed to initialise interpolation")
         return None, None, None, None
 
-    starting_angle = base_solution.values.t[-1]
+    starting_angle, starting_values = get_end_of_solution(base_solution)
     soln, internal_data = main_solution(
         system_initial_conditions=system_initial_conditions,
         root_func=velocity_stop_generator(1 + after_sonic), root_func_args=1,
-        angles=angles[angles >= starting_angle],
-        ode_initial_conditions=base_solution.values.y[-1], γ=γ, a_0=a_0,
+        angles=concatenate(
+            ([starting_angle], angles[angles > starting_angle])
+        ), ode_initial_conditions=starting_values, γ=γ, a_0=a_0,
         norm_kepler_sq=norm_kepler_sq, relative_tolerance=relative_tolerance,
         absolute_tolerance=absolute_tolerance, max_steps=max_steps,
         η_derivs=η_derivs, store_internal=store_internal, θ_scale=θ_scale,
         use_E_r=use_E_r, deriv_v_θ_func=deriv_v_θ_func,
     )
-    new_angles = concatenate(
-        ([soln.values.t[-1]], angles[angles > soln.values.t[-1]])
-    )
-    new_init_con = soln.values.y[-1]
+    end_angle, new_init_con = get_end_of_solution(soln)
+    new_angles = concatenate(([end_angle], angles[angles > end_angle]))
 
     return soln, internal_data, new_angles, new_init_con
 
-- 
2.43.0


From d025e030a2ef07ac7721813832d7d4ea0b4c4f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 07/48] fix: load internal data stored by format versions 1 and
 2

---
 src/disc_solver/file_format/_loaders.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index 5789890..fb70292 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -23,7 +23,6 @@ def _internal_load(group):
         v_r_taylor=group["v_r_taylor"]["data"],
         v_φ_taylor=group["v_φ_taylor"]["data"],
         ρ_taylor=group["ρ_taylor"]["data"],
-        jacobians=None,
     )
 
 
@@ -40,7 +39,6 @@ def _internal_load2(group):
         v_φ_taylor=group["v_φ_taylor"]["data"],
         ρ_taylor=group["ρ_taylor"]["data"],
         problems=group["problems"],
-        jacobians=None,
     )
 
 
-- 
2.43.0


From 4b6097abdc506972946e43f02d0af19bcc39fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 08/48] fix: load inputs from versions without all of the mcmc
 options

---
 src/disc_solver/file_format/_loaders.py | 26 +++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index fb70292..57ba8bb 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -239,6 +239,10 @@ def _config_loader(group):
         label=group.attrs["label"],
         relative_tolerance=group.attrs["relative_tolerance"],
         absolute_tolerance=group.attrs["absolute_tolerance"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         split_method="v_θ_deriv",
         γ=_str_β_to_γ(group.attrs["β"]),
         v_rin_on_c_s=group.attrs["v_rin_on_c_s"],
@@ -262,6 +266,10 @@ def _config_loader2(group):
         label=group.attrs["label"],
         relative_tolerance=group.attrs["relative_tolerance"],
         absolute_tolerance=group.attrs["absolute_tolerance"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         split_method="v_θ_deriv",
         γ=_str_β_to_γ(group.attrs["β"]),
         v_rin_on_c_s=group.attrs["v_rin_on_c_s"],
@@ -286,6 +294,10 @@ def _config_loader3(group):
         label=group.attrs["label"],
         relative_tolerance=group.attrs["relative_tolerance"],
         absolute_tolerance=group.attrs["absolute_tolerance"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         split_method="v_θ_deriv",
         γ=_str_β_to_γ(group.attrs["β"]),
         v_rin_on_c_s=group.attrs["v_rin_on_c_s"],
@@ -344,6 +356,7 @@ def _config_loader5(group):
         nwalkers=group.attrs["nwalkers"],
         iterations=group.attrs["iterations"],
         threads=group.attrs["threads"],
+        target_velocity=None,
         split_method="v_θ_deriv",
         v_rin_on_c_s=group.attrs["v_rin_on_c_s"],
         v_a_on_c_s=group.attrs["v_a_on_c_s"],
@@ -658,6 +671,10 @@ def _input_loader(group):
         num_angles=group.attrs["num_angles"],
         relative_tolerance=group.attrs["relative_tolerance"],
         absolute_tolerance=group.attrs["absolute_tolerance"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         split_method="v_θ_deriv",
         γ=5/4 - group.attrs["β"],
         v_rin_on_c_s=group.attrs["v_rin_on_c_s"],
@@ -684,6 +701,10 @@ def _input_loader2(group):
         num_angles=group.attrs["num_angles"],
         relative_tolerance=group.attrs["relative_tolerance"],
         absolute_tolerance=group.attrs["absolute_tolerance"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         split_method="v_θ_deriv",
         γ=5/4 - group.attrs["β"],
         v_rin_on_c_s=group.attrs["v_rin_on_c_s"],
@@ -711,6 +732,10 @@ def _input_loader3(group):
         num_angles=group.attrs["num_angles"],
         relative_tolerance=group.attrs["relative_tolerance"],
         absolute_tolerance=group.attrs["absolute_tolerance"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         split_method="v_θ_deriv",
         γ=5/4 - group.attrs["β"],
         v_rin_on_c_s=group.attrs["v_rin_on_c_s"],
@@ -776,6 +801,7 @@ def _input_loader5(group):
         nwalkers=group.attrs["nwalkers"],
         iterations=group.attrs["iterations"],
         threads=group.attrs["threads"],
+        target_velocity=None,
         v_rin_on_c_s=group.attrs["v_rin_on_c_s"],
         v_a_on_c_s=group.attrs["v_a_on_c_s"],
         c_s_on_v_k=group.attrs["c_s_on_v_k"],
-- 
2.43.0


From 5dc1fe5f3efd785a73a6516f1050aa333802f07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 09/48] fix: use the splitting method of the time for version 4
 configs

---
 src/disc_solver/file_format/_loaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index 57ba8bb..cf24939 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -336,7 +336,7 @@ def _config_loader4(group):
         iterations=None,
         threads=None,
         target_velocity=None,
-        split_method=None,
+        split_method="v_θ_deriv",
         use_E_r=None,
     )
 
-- 
2.43.0


From ef95abb8a78213be0630888af52375b39026ff0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 10/48] fix: load optional solver inputs which were stored as
 python numbers

---
 src/disc_solver/file_format/_loaders.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index cf24939..db08237 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -1138,19 +1138,19 @@ def _input_loader14(group):
     if group["jump_before_sonic"] is None:
         jump_before_sonic = None
     else:
-        jump_before_sonic = group["jump_before_sonic"]["data"]
+        jump_before_sonic = ensure_fully_loaded(group["jump_before_sonic"])
     if group["v_θ_sonic_crit"] is None:
         v_θ_sonic_crit = None
     else:
-        v_θ_sonic_crit = group["v_θ_sonic_crit"]["data"]
+        v_θ_sonic_crit = ensure_fully_loaded(group["v_θ_sonic_crit"])
     if group["after_sonic"] is None:
         after_sonic = None
     else:
-        after_sonic = group["after_sonic"]["data"]
+        after_sonic = ensure_fully_loaded(group["after_sonic"])
     if group["sonic_interp_size"] is None:
         sonic_interp_size = None
     else:
-        sonic_interp_size = group["sonic_interp_size"]["data"]
+        sonic_interp_size = ensure_fully_loaded(group["sonic_interp_size"])
     if group["interp_range"] is None:
         interp_range = None
     else:
-- 
2.43.0


From 92a99f2e0a7dd00ea2301b0aca680af24ab81df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 11/48] fix: load the derivatives of a solution as an array

---
 src/disc_solver/file_format/_loaders.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index db08237..6fda7bb 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -149,7 +149,7 @@ def _solution_loader_2(group):
         solution_input=group["solution_input"],
         t_roots=t_roots,
         y_roots=y_roots,
-        derivatives=group["derivatives"],
+        derivatives=ensure_fully_loaded(group["derivatives"]),
         sonic_point=None,
         sonic_point_values=None,
     )
@@ -187,7 +187,7 @@ def _solution_loader_3(group):
         y_roots=y_roots,
         sonic_point=sonic_point,
         sonic_point_values=sonic_point_values,
-        derivatives=group["derivatives"],
+        derivatives=ensure_fully_loaded(group["derivatives"]),
     )
 
 
@@ -223,7 +223,7 @@ def _solution_loader_4(group):
         y_roots=y_roots,
         sonic_point=sonic_point,
         sonic_point_values=sonic_point_values,
-        derivatives=group["derivatives"],
+        derivatives=ensure_fully_loaded(group["derivatives"]),
         is_post_shock_only=group.attrs["is_post_shock_only"],
     )
 
-- 
2.43.0


From 9fcbcceaec133951f564e9a21036f2cb5001a289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 12/48] fix: fill in use_E_r for runs stored before the option
 existed

---
 src/disc_solver/file_format/_loaders.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index 6fda7bb..f7b47b8 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -1188,8 +1188,22 @@ def _input_loader14(group):
     )
 
 
+def _use_derivative_formulation(config_input, solutions, final_solution):
+    """
+    Fill in `use_E_r` for runs which predate it
+    """
+    if config_input.use_E_r is None:
+        config_input.use_E_r = "False"
+    for soln in (*solutions.values(), final_solution):
+        if soln is not None and soln.solution_input.use_E_r is None:
+            soln.solution_input.use_E_r = False
+
+
 @ds_registry.loader("Run", version=1)
 def _run_loader(group):
+    _use_derivative_formulation(
+        group["config_input"], group["solutions"], group["final_solution"],
+    )
     return Run(
         config_input=group["config_input"],
         config_filename=group["config_filename"],
@@ -1204,6 +1218,9 @@ def _run_loader(group):
 
 @ds_registry.loader("Run", version=2)
 def _run_loader2(group):
+    _use_derivative_formulation(
+        group["config_input"], group["solutions"], group["final_solution"],
+    )
     return Run(
         config_input=group["config_input"],
         config_filename=group["config_filename"],
@@ -1218,6 +1235,9 @@ def _run_loader2(group):
 
 @ds_registry.loader("Run", version=3)
 def _run_loader3(group):
+    _use_derivative_formulation(
+        group["config_input"], group["solutions"], group["final_solution"],
+    )
     return Run(
         config_input=group["config_input"],
         config_filename=group["config_filename"],
@@ -1232,6 +1252,9 @@ def _run_loader3(group):
 
 @ds_registry.loader("Run", version=4)
 def _run_loader4(group):
+    _use_derivative_formulation(
+        group["config_input"], group["solutions"], group["final_solution"],
+    )
     return Run(
         config_input=group["config_input"],
         config_filename=group["config_filename"],
-- 
2.43.0


From 55ffc28a414d0272e1b2f44a15ed2f56624ccd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 13/48] fix: load the time of a run as a number after it was
 written again

---
 src/disc_solver/file_format/_loaders.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index f7b47b8..69a805c 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -1207,7 +1207,7 @@ def _run_loader(group):
     return Run(
         config_input=group["config_input"],
         config_filename=group["config_filename"],
-        time=group["time"],
+        time=ensure_fully_loaded(group["time"]),
         final_solution=group["final_solution"],
         solutions=group["solutions"],
         disc_solver_version=None,
@@ -1224,7 +1224,7 @@ def _run_loader2(group):
     return Run(
         config_input=group["config_input"],
         config_filename=group["config_filename"],
-        time=group["time"],
+        time=ensure_fully_loaded(group["time"]),
         final_solution=group["final_solution"],
         solutions=group["solutions"],
         disc_solver_version=group["disc_solver_version"],
@@ -1241,7 +1241,7 @@ def _run_loader3(group):
     return Run(
         config_input=group["config_input"],
         config_filename=group["config_filename"],
-        time=group["time"],
+        time=ensure_fully_loaded(group["time"]),
         final_solution=group["final_solution"],
         solutions=group["solutions"],
         disc_solver_version=group["disc_solver_version"],
@@ -1258,7 +1258,7 @@ def _run_loader4(group):
     return Run(
         config_input=group["config_input"],
         config_filename=group["config_filename"],
-        time=group["time"],
+        time=ensure_fully_loaded(group["time"]),
         final_solution=group["final_solution"],
         solutions=group["solutions"],
         disc_solver_version=group["disc_solver_version"],
@@ -1289,7 +1289,7 @@ def _run_loader5(group):
     return Run(
         config_input=config_input,
         config_filename=group["config_filename"],
-        time=group["time"],
+        time=ensure_fully_loaded(group["time"]),
         final_solution=final_solution,
         solutions=solutions,
         disc_solver_version=group["disc_solver_version"],
@@ -1321,7 +1321,7 @@ def _run_loader6(group):
     return Run(
         config_input=config_input,
         config_filename=group["config_filename"],
-        time=group["time"],
+        time=ensure_fully_loaded(group["time"]),
         final_solution=final_solution,
         solutions=solutions,
         disc_solver_version=group["disc_solver_version"],
-- 
2.43.0


From 4055006706ac823310cace737c2dab588d56e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 14/48] fix: keep absent and open ended slices when converting
 to a config

---
 src/disc_solver/file_format/_containers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index 356d24e..a42efb0 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -51,6 +51,10 @@ def slice_to_str(slice_):
     """
     Convert a slice back to a string
     """
+    if slice_ is None:
+        return "None"
+    if slice_.start is None or slice_.stop is None:
+        return f"slice({slice_.start}, {slice_.stop}, {slice_.step})"
     return ','.join([
         str(i) for i in (slice_.start, slice_.stop, slice_.step)
         if i is not None
-- 
2.43.0


From e7bf8d64ad412da085ddc57fb3129c6c41cfec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 15/48] fix: write labels containing % to config files

---
 src/disc_solver/file_format/_containers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index a42efb0..2d9b96c 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -149,7 +149,8 @@ class ConfigInput:
         cfg["config"]["taylor_stop_angle"] = self.taylor_stop_angle
         cfg["config"]["max_steps"] = self.max_steps
         cfg["config"]["num_angles"] = self.num_angles
-        cfg["config"]["label"] = self.label
+        # % is special to ConfigParser
+        cfg["config"]["label"] = self.label.replace("%", "%%")
         cfg["config"]["relative_tolerance"] = self.relative_tolerance
         cfg["config"]["absolute_tolerance"] = self.absolute_tolerance
         cfg["config"]["nwalkers"] = self.nwalkers
-- 
2.43.0


From 45b42071198da16d2ee7fcabc39f64d3591ea438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 16/48] fix: write absent mcmc_vars to config files, as they
 are not the default

---
 src/disc_solver/file_format/_containers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index 2d9b96c..5263dd3 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -175,8 +175,7 @@ class ConfigInput:
 
         if self.jump_before_sonic is not None:
             cfg["config"]["jump_before_sonic"] = self.jump_before_sonic
-        if self.mcmc_vars is not None:
-            cfg["config"]["mcmc_vars"] = self.mcmc_vars
+        cfg["config"]["mcmc_vars"] = str(self.mcmc_vars)
         if self.v_θ_sonic_crit is not None:
             cfg["config"]["v_θ_sonic_crit"] = self.v_θ_sonic_crit
         if self.after_sonic is not None:
-- 
2.43.0


From bb4f1d213ce245b77affac1165d759f604750503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 17/48] fix: resolve solutions whose use_E_r differs from the
 config's

---
 src/disc_solver/solve/resolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/resolve.py b/src/disc_solver/solve/resolve.py
index 9aebb55..6480933 100644
--- a/src/disc_solver/solve/resolve.py
+++ b/src/disc_solver/solve/resolve.py
@@ -46,7 +46,7 @@ def resolve(
         disc_solver_version=ds_version,
         float_type=str(float_type),
         sonic_method=sonic_method,
-        use_E_r=new_soln_input.use_E_r,
+        use_E_r=bool(new_soln_input.use_E_r),
         based_on_solution_filename=fspath(soln_filename),
         based_on_solution_solution_name=soln_range,
     )
-- 
2.43.0


From e8f998514f96f848f73226c912a8863c3b122f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 18/48] fix: read tables of inputs without a header

csv.Sniffer was given the first line only, for which it always claims there
is a header, so the first input of a table without one was used as the names
of the columns and none of the inputs could be used.
---
 src/disc_solver/solve/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/disc_solver/solve/utils.py b/src/disc_solver/solve/utils.py
index 5201d52..07fdb80 100644
--- a/src/disc_solver/solve/utils.py
+++ b/src/disc_solver/solve/utils.py
@@ -2,7 +2,7 @@
 """
 Utility function and classes for solver associated code
 """
-from csv import DictReader, Sniffer, get_dialect
+from csv import DictReader, Sniffer, get_dialect, reader as csv_reader
 from multiprocessing import current_process
 from pathlib import Path
 
@@ -229,14 +229,15 @@ class CSVReaderHelper:
         """
         self._comments.append(line.strip()[len(self.comment):])
 
-    def has_csv_header(self):
+    def has_csv_header(self, fieldnames):
         """
-        Checks if csv file has header
+        Checks if csv file has header, which is when the first line names any
+        of `fieldnames`
         """
         self.file.seek(0)
-        has_header = Sniffer().has_header(next(iter(self)))
+        first_row = next(csv_reader(self, dialect="unix"), [])
         self.file.seek(0)
-        return has_header
+        return any(name in fieldnames for name in first_row)
 
     def get_dialect(self, *args, lines=5, **kwargs):
         """
@@ -304,7 +305,7 @@ def get_csv_inputs(input_file, label=''):
     """
     with open(input_file) as infile:
         helper = CSVReaderHelper(infile)
-        if helper.has_csv_header():
+        if helper.has_csv_header(CONFIG_FIELDS):
             inputs = filter_csv_columns(add_labels(
                 DictReader(helper, dialect="unix"), label=label
             ), columns=CONFIG_FIELDS + SOLUTION_IDENTIFICATION_FIELDS)
-- 
2.43.0


From 8a494e92bdfe618c9bd8bbabd7ee867972758f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 19/48] fix: options which rows of a table end before take
 their defaults

The missing cells were None, which is not something the options take (e.g.
use_E_r), so tables without a header written before the newest options were
added could not be solved.
---
 src/disc_solver/solve/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/utils.py b/src/disc_solver/solve/utils.py
index 07fdb80..cf81837 100644
--- a/src/disc_solver/solve/utils.py
+++ b/src/disc_solver/solve/utils.py
@@ -194,7 +194,10 @@ def filter_csv_columns(seq, *, columns):
     """
     new_seq = []
     for d in seq:
-        new_seq.append({k: v for k, v in d.items() if k in columns})
+        # columns the row does not reach are None
+        new_seq.append({
+            k: v for k, v in d.items() if k in columns and v is not None
+        })
     return new_seq
 
 
-- 
2.43.0


From 499000cd87dd3458688c46d079a1c492b36abe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 20/48] fix: keep the labels given in tables of inputs

They were replaced by the default, empty, label even if none was given on the
command line.
---
 src/disc_solver/solve/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/solve/utils.py b/src/disc_solver/solve/utils.py
index cf81837..e01ef10 100644
--- a/src/disc_solver/solve/utils.py
+++ b/src/disc_solver/solve/utils.py
@@ -179,11 +179,12 @@ def validate_overrides(overrides):
 
 def add_labels(seq, *, label=''):
     """
-    Add labels
+    Add labels, `label` if given or else the one in the table
     """
     new_seq = []
     for d in seq:
-        d['label'] = label
+        if label or d.get('label') is None:
+            d['label'] = label
         new_seq.append(d)
     return new_seq
 
-- 
2.43.0


From ee0138ce0cab23965a6af10db7965a869a9c3ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:56 +0000
Subject: [PATCH 21/48] fix: sniff the dialect of a csv file from text

csv.Sniffer takes a string, so get_dialect always raised TypeError.
---
 src/disc_solver/solve/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/utils.py b/src/disc_solver/solve/utils.py
index e01ef10..4690d6a 100644
--- a/src/disc_solver/solve/utils.py
+++ b/src/disc_solver/solve/utils.py
@@ -249,7 +249,7 @@ class CSVReaderHelper:
         """
         self.file.seek(0)
         dialect = Sniffer().sniff(
-            [line for line, _ in zip(self, range(lines))],
+            "".join(line for line, _ in zip(self, range(lines))),
             *args, **kwargs
         )
         self.file.seek(0)
-- 
2.43.0


From 5ab3fcfdff6668817d39495766a2d126583e0731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 22/48] fix: remove problems by the same keys as they are added
 and found by

All other access converts the key, usually an angle, to its text first.
---
 src/disc_solver/file_format/_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index 5263dd3..3036c09 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -367,7 +367,7 @@ class Problems(MutableMapping):
             self._problems[str(key)].extend(val)
 
     def __delitem__(self, key):
-        del self._problems[key]
+        del self._problems[str(key)]
 
     def __iter__(self):
         yield from self._problems
-- 
2.43.0


From 35fbe8994d0290df5de78865820c9058aa127f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 23/48] fix: number solutions on from the last one

Using their number as the next index meant no solution could be added to a
collection from which one had been removed, or that the solution added was not
the one found as the last one.
---
 src/disc_solver/file_format/_containers.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index 3036c09..1349c39 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -575,10 +575,7 @@ class Solutions(MutableMapping):
         """
         Get the next available index
         """
-        if str(len(self._solutions)) not in self._solutions:
-            return str(len(self._solutions))
-        else:
-            raise RuntimeError("Failed to guess a solution location")
+        return str(max((int(key) for key in self._solutions), default=-1) + 1)
 
     def get_last_solution(self):
         """
-- 
2.43.0


From 1414cd7c5905b74cb116789351332d72ca1b8ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 24/48] fix: wave speeds are in the units solutions are
 normalised in

---
 src/disc_solver/analyse/combine_plot.py |  2 +-
 src/disc_solver/analyse/diverge_plot.py |  4 +++-
 src/disc_solver/analyse/plot.py         |  2 +-
 src/disc_solver/critical_points.py      | 14 +++++++++-----
 4 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/disc_solver/analyse/combine_plot.py b/src/disc_solver/analyse/combine_plot.py
index 2702edb..be92643 100644
--- a/src/disc_solver/analyse/combine_plot.py
+++ b/src/disc_solver/analyse/combine_plot.py
@@ -105,7 +105,7 @@ def generate_plot_combine(
 
     norms = get_normalisation(inp)  # need to allow config here
     B_norm, v_norm, ρ_norm = norms["B_norm"], norms["v_norm"], norms["ρ_norm"]
-    wave_speeds = np.sqrt(mhd_wave_speeds(values=solution))
+    wave_speeds = np.sqrt(mhd_wave_speeds(values=solution, a_0=cons.a_0))
 
     plot_props = OrderedDict([
         ("velocity", {
diff --git a/src/disc_solver/analyse/diverge_plot.py b/src/disc_solver/analyse/diverge_plot.py
index 99db55c..fde3a09 100644
--- a/src/disc_solver/analyse/diverge_plot.py
+++ b/src/disc_solver/analyse/diverge_plot.py
@@ -115,7 +115,9 @@ def generate_diverge_plot(
             label=soln_name, color=color, linestyle=linestyle,
         )
 
-        wave_speeds = np.sqrt(mhd_wave_speeds(values=solution))
+        wave_speeds = np.sqrt(mhd_wave_speeds(
+            values=solution, a_0=soln.initial_conditions.a_0
+        ))
 
         if with_slow:
             ax.plot(
diff --git a/src/disc_solver/analyse/plot.py b/src/disc_solver/analyse/plot.py
index 9d1837a..ccc0d60 100644
--- a/src/disc_solver/analyse/plot.py
+++ b/src/disc_solver/analyse/plot.py
@@ -111,7 +111,7 @@ def generate_plot(
     roots_angles = soln.t_roots
     roots_values = soln.y_roots
 
-    wave_speeds = sqrt(mhd_wave_speeds(values=solution))
+    wave_speeds = sqrt(mhd_wave_speeds(values=solution, a_0=cons.a_0))
 
     indexes = (start <= degrees(angles)) & (degrees(angles) <= stop)
 
diff --git a/src/disc_solver/critical_points.py b/src/disc_solver/critical_points.py
index 1fd8310..cc1ff9a 100644
--- a/src/disc_solver/critical_points.py
+++ b/src/disc_solver/critical_points.py
@@ -2,16 +2,18 @@
 """
 Functions relating to the sonic and MHD points
 """
-from numpy import sqrt, any as np_any, pi
+from numpy import sqrt, any as np_any
 
 from .utils import (
     ODEIndex, MHD_Wave_Index, interp_for_value, first_closest_index,
 )
 
 
-def mhd_wave_speeds(*, values, sound_speed=1):
+def mhd_wave_speeds(*, values, a_0, sound_speed=1):
     """
-    Computes MHD wave speeds (slow, alfven, fast)
+    Computes the squares of the MHD wave speeds (slow, alfven, fast), for
+    values normalised as in the solution (i.e. by the sound speed, and the
+    midplane density and field, whose Alfvén speed squared is `a_0`)
     """
     B_r = values[..., ODEIndex.B_r]
     B_φ = values[..., ODEIndex.B_φ]
@@ -24,7 +26,7 @@ def mhd_wave_speeds(*, values, sound_speed=1):
     # Blandford and Payne (see section 2.4 "Critical Points")
     cos_sq_psi = (B_θ ** 2) / B_sq
 
-    v_a_sq = B_sq / (4 * pi * ρ)
+    v_a_sq = a_0 * B_sq / ρ
     slow = 1/2 * (
         v_a_sq + sound_speed**2 - sqrt(
             (v_a_sq + sound_speed**2)**2 -
@@ -53,7 +55,9 @@ def get_mach_numbers(solution):
     # Blandford and Payne (see section 2.4 "Critical Points")
     v_sq = v_θ ** 2
 
-    wave_speeds_sq = mhd_wave_speeds(values=soln)
+    wave_speeds_sq = mhd_wave_speeds(
+        values=soln, a_0=solution.initial_conditions.a_0
+    )
 
     slow_mach = sqrt(v_sq / wave_speeds_sq[MHD_Wave_Index.slow])
     alfven_mach = sqrt(v_sq / wave_speeds_sq[MHD_Wave_Index.alfven])
-- 
2.43.0


From 365cdf2ad537f22c0046d0d2100f0cf0ebc9e28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 25/48] fix: wave speeds are real where the field is along the
 vertical

---
 src/disc_solver/critical_points.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/disc_solver/critical_points.py b/src/disc_solver/critical_points.py
index cc1ff9a..eab627e 100644
--- a/src/disc_solver/critical_points.py
+++ b/src/disc_solver/critical_points.py
@@ -27,19 +27,16 @@ def mhd_wave_speeds(*, values, a_0, sound_speed=1):
     cos_sq_psi = (B_θ ** 2) / B_sq
 
     v_a_sq = a_0 * B_sq / ρ
-    slow = 1/2 * (
-        v_a_sq + sound_speed**2 - sqrt(
-            (v_a_sq + sound_speed**2)**2 -
-            4 * v_a_sq * sound_speed**2 * cos_sq_psi
-        )
-    )
     alfven = v_a_sq * cos_sq_psi
+    # This is never negative, unlike differences of rounded squares, and by the
+    # same token slow is found from slow * fast = alfven * sound_speed**2
     fast = 1/2 * (
         v_a_sq + sound_speed**2 + sqrt(
-            (v_a_sq + sound_speed**2)**2 -
-            4 * v_a_sq * sound_speed**2 * cos_sq_psi
+            (v_a_sq - sound_speed**2)**2 +
+            4 * v_a_sq * sound_speed**2 * (1 - cos_sq_psi)
         )
     )
+    slow = alfven * sound_speed**2 / fast
     return slow, alfven, fast
 
 
-- 
2.43.0


From 1b6792bea234589f8baac427b3866f078213a513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 26/48] fix: interpolate crossings between the two points
 around them

---
 src/disc_solver/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index ecabbe2..ee43e2d 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -436,8 +436,8 @@ def interp_for_value(*, xs, ys, y, **kwargs):
     if ys[initial_index] == y:
         return xs[initial_index]
     min_index = max(0, initial_index - 1)
-    # Add 2 as we want the next index, plus stop is non-inclusive
-    interp_slice = slice(min_index, initial_index + 2)
+    # Add 1 as stop is non-inclusive
+    interp_slice = slice(min_index, initial_index + 1)
     return interp1d(ys[interp_slice], xs[interp_slice], **kwargs)(y)
 
 
-- 
2.43.0


From 9d8a380647dec5507b32d80bd87324c8161635d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 27/48] fix: scale to cylindrical radii by heights in units of
 the radius

---
 src/disc_solver/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index ee43e2d..073dbcc 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -231,7 +231,8 @@ def get_vertical_scaling(angles, *, c_s_on_v_k):
     """
     Get scaling from spherical to vertical_scale
     """
-    heights = get_heights(angles, c_s_on_v_k=c_s_on_v_k)
+    # heights are in terms of the scale height, not the radius
+    heights = c_s_on_v_k * get_heights(angles, c_s_on_v_k=c_s_on_v_k)
     return sqrt(1 + heights**2)
 
 
-- 
2.43.0


From 5322575714ca20b1afa77c519433d034e9f785cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 28/48] fix: get the value closest to an angle, not the one
 after it

---
 src/disc_solver/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index 073dbcc..173e25e 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -459,6 +459,10 @@ def get_closest_value_sorted(*, xs, ys, x):
     """
     Get value from `ys` from the index in `xs` of the value closest to `x`.
 
-    `xs` must be sorted, `ys` does not.
+    `xs` must be sorted, `ys` does not. Raises an IndexError when `x` is beyond
+    the end of `xs`.
     """
-    return ys[searchsorted(xs, x)]
+    index = searchsorted(xs, x)
+    if index > 0 and x - xs[index - 1] < xs[index] - x:
+        index -= 1
+    return ys[index]
-- 
2.43.0


From 381162156865d50f89b15abce374228767d6aeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 29/48] fix: stepping leaves the inputs of stored solutions
 alone

---
 src/disc_solver/solve/fast_crosser.py | 3 ++-
 src/disc_solver/solve/stepper.py      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/solve/fast_crosser.py b/src/disc_solver/solve/fast_crosser.py
index 7715080..6b1f091 100644
--- a/src/disc_solver/solve/fast_crosser.py
+++ b/src/disc_solver/solve/fast_crosser.py
@@ -71,7 +71,8 @@ def stepper_creator(soln_writer, *, step_size, solution_input):
         """
         nonlocal phase
         soln_writer(soln, attempt)
-        inp_dict = vars(soln.solution_input)
+        # this must not change the input of the solution we step from
+        inp_dict = dict(vars(soln.solution_input))
         current_v_r = inp_dict["v_rin_on_c_s"]
         current_quality = compute_quality(soln)
         log.notice("v_r is {}", current_v_r)
diff --git a/src/disc_solver/solve/stepper.py b/src/disc_solver/solve/stepper.py
index 23ed565..13695fd 100644
--- a/src/disc_solver/solve/stepper.py
+++ b/src/disc_solver/solve/stepper.py
@@ -279,7 +279,8 @@ def step_input():
         """
         Return new input
         """
-        inp_dict = vars(soln.solution_input)
+        # this must not change the input of the solution we step from
+        inp_dict = dict(vars(soln.solution_input))
         prev_γ = inp_dict["γ"]
         if soln_type == SplitterStatus.DIVERGE:
             inp_dict["γ"] -= step_size
-- 
2.43.0


From 8278f7e019ac170be7a00fadd02cd3b869e19798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 30/48] fix: steps at the numerical limit end, whatever the
 step size

---
 src/disc_solver/solve/stepper.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/disc_solver/solve/stepper.py b/src/disc_solver/solve/stepper.py
index 13695fd..83ed679 100644
--- a/src/disc_solver/solve/stepper.py
+++ b/src/disc_solver/solve/stepper.py
@@ -6,7 +6,7 @@ from enum import Enum
 
 import logbook
 
-from numpy import diff, any as np_any, logical_and as np_and
+from numpy import diff, any as np_any, logical_and as np_and, nextafter
 
 from .config import define_conditions
 from .solution import solution
@@ -296,10 +296,7 @@ def step_input():
                 raise StepperStop("Hit numerical limit")
 
             # we've got a sign flip solution then
-            bigger_step = 0
-            while prev_γ == inp_dict["γ"]:
-                bigger_step += step_size
-                inp_dict["γ"] += bigger_step
+            inp_dict["γ"] = nextafter(prev_γ, float("inf"))
         return SolutionInput(**inp_dict)
     return step_func
 
-- 
2.43.0


From a35081916ea5fe52484691668b2c2396acc89bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 31/48] fix: use the default splitter for unknown split methods

---
 src/disc_solver/solve/stepper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/stepper.py b/src/disc_solver/solve/stepper.py
index 83ed679..ddf5ba4 100644
--- a/src/disc_solver/solve/stepper.py
+++ b/src/disc_solver/solve/stepper.py
@@ -248,7 +248,7 @@ def create_soln_splitter(method):
         "human": human_view_splitter_generator,
     }
 
-    return method_dict.get(method)() or v_θ_deriv_splitter
+    return method_dict.get(method, method_dict["v_θ_deriv"])()
 
 
 def solution_generator(*, store_internal=True):
-- 
2.43.0


From 83012c3bce67805a7fca5274a97324284c4dbf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 32/48] fix: start the golden-section search inside the limits
 found

---
 src/disc_solver/solve/fast_crosser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/fast_crosser.py b/src/disc_solver/solve/fast_crosser.py
index 6b1f091..07bcc26 100644
--- a/src/disc_solver/solve/fast_crosser.py
+++ b/src/disc_solver/solve/fast_crosser.py
@@ -121,7 +121,7 @@ def stepper_creator(soln_writer, *, step_size, solution_input):
             # golden ratio
             return SolutionInput(**get_next_input(
                 inp_dict, limits["min"] + (
-                    (limits["min"] - limits["max"]) / (GOLDEN_RATIO - 1)
+                    (limits["max"] - limits["min"]) * (GOLDEN_RATIO - 1)
                 )
             ))
         if phase == Phase.BISECTING:
-- 
2.43.0


From 12e4996f9f5f45bd017f734117375ff810f79cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 33/48] fix: name of the flag of successful solutions

---
 src/disc_solver/solve/sonic_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/sonic_root.py b/src/disc_solver/solve/sonic_root.py
index ddffd0d..4458d65 100644
--- a/src/disc_solver/solve/sonic_root.py
+++ b/src/disc_solver/solve/sonic_root.py
@@ -232,7 +232,7 @@ def write_solution(run, initial_solution, sonic_solution):
         logger.warn("Sonic solution failed with flag {}".format(
             sonic_solution.flag.name
         ))
-    elif sonic_solution.flag != StatusFlag.SUCESS:
+    elif sonic_solution.flag != StatusFlag.SUCCESS:
         logger.info("Sonic solution ended with flag {}".format(
             sonic_solution.flag.name
         ))
-- 
2.43.0


From eb469c0c3e29f5fc81e266b1bbd24344482f12a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 34/48] fix: guesses at the sonic point leave the initial
 conditions alone

---
 src/disc_solver/solve/sonic_root.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disc_solver/solve/sonic_root.py b/src/disc_solver/solve/sonic_root.py
index 4458d65..956888a 100644
--- a/src/disc_solver/solve/sonic_root.py
+++ b/src/disc_solver/solve/sonic_root.py
@@ -187,6 +187,7 @@ def total_vars_to_mod_cons(*, initial_conditions, guess, sonic_stop):
     """
     θ_sonic = guess[TotalVars.θ_sonic]
     mod_cons = InitialConditions(**vars(initial_conditions))
+    mod_cons.init_con = initial_conditions.init_con.copy()
     mod_cons.angles = linspace(
         θ_sonic, sonic_stop, len(initial_conditions.angles)
     )
-- 
2.43.0


From ae5abd6712541a8746c46e340cc9f962cdd9e84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 35/48] fix: solutions whose quality is unknown have no
 probability

---
 src/disc_solver/solve/mcmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/mcmc.py b/src/disc_solver/solve/mcmc.py
index 9974e49..605d926 100644
--- a/src/disc_solver/solve/mcmc.py
+++ b/src/disc_solver/solve/mcmc.py
@@ -133,7 +133,8 @@ class LogProbGenerator:
             return - float("inf")
         logprob = get_logprob_of_soln(soln)
         if not isfinite(logprob):
-            return logprob
+            # emcee does not take NaN as a probability
+            return - float("inf")
         soln_index = self._run.solutions.add_solution(soln)
         if logprob > self._best_logprob:
             self._best_logprob = logprob
-- 
2.43.0


From 014f5232a359e2db1919c2e6d4bb4b9d85e4b93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:56 +0000
Subject: [PATCH 36/48] fix: sonic_root: solutions which cannot be compared are
 failures, not errors

---
 src/disc_solver/solve/sonic_root.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/solve/sonic_root.py b/src/disc_solver/solve/sonic_root.py
index 956888a..1178398 100644
--- a/src/disc_solver/solve/sonic_root.py
+++ b/src/disc_solver/solve/sonic_root.py
@@ -7,7 +7,8 @@ from enum import IntEnum
 import logbook
 
 from numpy import (
-    concatenate, diff, full, isnan, linspace, zeros, array, sqrt, log, exp,
+    all as np_all, concatenate, diff, full, isfinite, isnan, linspace, zeros,
+    array, sqrt, log, exp,
 )
 
 from scipy.optimize import root
@@ -141,7 +142,10 @@ def get_root_results(*, sonic_soln, midplane_soln):
     ))
     root_results.append(sonic_soln.angles[-1] - midplane_soln.angles[-1])
     logger.info("Root diff is {}".format(root_results))
-    return array(root_results)
+    root_results = array(root_results)
+    if not np_all(isfinite(root_results)):
+        raise SolverError("Solutions cannot be compared")
+    return root_results
 
 
 def guess_root_vals(inp, initial_solution):
-- 
2.43.0


From de5814af7bbbb8869ce96adac5bba4b971793462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:56 +0000
Subject: [PATCH 37/48] fix: fast_crosser: fail, rather than an IndexError, if
 nothing can be solved

---
 src/disc_solver/solve/fast_crosser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/disc_solver/solve/fast_crosser.py b/src/disc_solver/solve/fast_crosser.py
index 07bcc26..38319ab 100644
--- a/src/disc_solver/solve/fast_crosser.py
+++ b/src/disc_solver/solve/fast_crosser.py
@@ -228,6 +228,8 @@ def solver(
     if not isinstance(run.final_solution, Solution):
         if isinstance(best_solution, Solution):
             run.final_solution = best_solution
+        elif not run.solutions:
+            run.final_solution = None
         else:
             run.final_solution = run.solutions.get_last_solution()
 
-- 
2.43.0


From 2e40181dfac61f29e981bc2754938601f16c41a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:45 +0000
Subject: [PATCH 38/48] fix: read back the solutions of runs which did not
 finish

---
 src/disc_solver/file_format/_loaders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index 69a805c..9709299 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -1312,7 +1312,8 @@ def _run_loader6(group):
         if soln.solution_input.use_E_r is None:
             soln.solution_input.use_E_r = use_E_r
 
-    final_solution = group["final_solution"]
+    # a run which was interrupted has no final solution
+    final_solution = group.get("final_solution")
     if final_solution is not None and (
         final_solution.solution_input.use_E_r is None
     ):
-- 
2.43.0


From 785885f1bcf825be6de33a6cb1aee0be5652066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:45 +0000
Subject: [PATCH 39/48] =?UTF-8?q?fix:=20taylor=5Fspace:=20=CE=B7=5FA=20and?=
 =?UTF-8?q?=20=CE=B7=5FH=20are=20not=20each=20other?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/disc_solver/solve/taylor_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/solve/taylor_space.py b/src/disc_solver/solve/taylor_space.py
index 6b9ebcc..bc725e2 100644
--- a/src/disc_solver/solve/taylor_space.py
+++ b/src/disc_solver/solve/taylor_space.py
@@ -135,8 +135,8 @@ def solution_input_generator(
             v_a_on_c_s=v_a_on_c_s[i],
             c_s_on_v_k=c_s_on_v_k[i],
             η_O=η_O,
-            η_H=η_A,
-            η_A=η_H,
+            η_H=η_H,
+            η_A=η_A,
         )
 
 
-- 
2.43.0


From 355c6c9011f9f145067890b36bcd1c91c0afb1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 40/48] fix: shock: create the directory shocks are written to

---
 src/disc_solver/solve/shock.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/shock.py b/src/disc_solver/solve/shock.py
index 5e3650f..b12fb02 100644
--- a/src/disc_solver/solve/shock.py
+++ b/src/disc_solver/solve/shock.py
@@ -103,7 +103,8 @@ class ShockFinder:
         self.new_solution_input = new_solution_input
         self.initial_conditions = initial_conditions
         self.angles = angles
-        self.output_dir = output_dir
+        self.output_dir = expanded_path(output_dir)
+        self.output_dir.mkdir(parents=True, exist_ok=True)
         self.store_internal = store_internal
         self.run = run
 
-- 
2.43.0


From f59fb8bb261e237a36511cd715e1463332d943a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:02 +0000
Subject: [PATCH 41/48] fix: taylor-plot: do not convert the angles of ratios
 to degrees twice

---
 src/disc_solver/analyse/taylor_plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disc_solver/analyse/taylor_plot.py b/src/disc_solver/analyse/taylor_plot.py
index 3dea2c7..3e6b5f1 100644
--- a/src/disc_solver/analyse/taylor_plot.py
+++ b/src/disc_solver/analyse/taylor_plot.py
@@ -155,15 +155,15 @@ def generate_taylor_plot(
         )
     else:
         axes[0].plot(
-            degrees(deriv_angles),
+            deriv_angles,
             np.abs(v_r_normal / v_r_taylor), '.'
         )
         axes[1].plot(
-            degrees(deriv_angles),
+            deriv_angles,
             np.abs(v_φ_normal / v_φ_taylor), '.'
         )
         axes[2].plot(
-            degrees(deriv_angles),
+            deriv_angles,
             np.abs(ρ_normal / ρ_taylor), '.'
         )
 
-- 
2.43.0


From 8665a993b7c0175e874c64a2086cb2660ca5c8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:35 +0000
Subject: [PATCH 42/48] fix: validate-plot: polar induction has the signs of
 the equations solved

---
 src/disc_solver/analyse/validate_plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/disc_solver/analyse/validate_plot.py b/src/disc_solver/analyse/validate_plot.py
index e28b831..789592b 100644
--- a/src/disc_solver/analyse/validate_plot.py
+++ b/src/disc_solver/analyse/validate_plot.py
@@ -348,15 +348,15 @@ def validate_polar_induction(initial_conditions, values):
             values.B_θ * (1 - initial_conditions.β) - values.deriv.B_r
         ) * (
             values.η_O + values.η_A * (1 - values.norm_B_φ**2)
-        ) + values.deriv.B_φ * (
-            values.η_H * values.norm_B_θ -
+        ) - values.deriv.B_φ * (
+            values.η_H * values.norm_B_θ +
             values.η_A * values.norm_B_r * values.norm_B_φ
-        ) + values.B_φ * (
+        ) - values.B_φ * (
             values.η_H * (
                 values.norm_B_r * (1 - initial_conditions.β) -
                 values.norm_B_θ * tan(values.angles)
             ) - values.η_A * values.norm_B_φ * (
-                values.norm_B_θ * (1 - initial_conditions.β) -
+                values.norm_B_θ * (1 - initial_conditions.β) +
                 values.norm_B_r * tan(values.angles)
             )
         )
-- 
2.43.0


From fb802dfd0c4258e97dd4a5acf7a0478a11bea95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:12 +0000
Subject: [PATCH 43/48] fix: stats: the worst fit is the difference furthest
 from zero

---
 src/disc_solver/analyse/stats.py | 41 +++++++++++++++-----------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/disc_solver/analyse/stats.py b/src/disc_solver/analyse/stats.py
index 57e02f1..bc1ed87 100644
--- a/src/disc_solver/analyse/stats.py
+++ b/src/disc_solver/analyse/stats.py
@@ -9,7 +9,7 @@ from sys import stdin, exc_info
 import logbook
 from logbook.compat import redirected_warnings, redirected_logging
 
-from numpy import degrees, nanargmax, nanmax, sqrt, nan
+from numpy import absolute, degrees, nanargmax, nanmax, sqrt, nan
 
 from h5preserve import open as h5open
 
@@ -68,28 +68,25 @@ def compute_max_difference_in_equations(solution):
     Use validity calculations to determine worst fit values.
     """
     values = get_values(solution)
-    return {
-        "max_diff_continuity": max(validate_continuity(
-            values.initial_conditions, values
-        )),
-        "max_diff_solenoid": max(validate_solenoid(
-            values.initial_conditions, values
-        )),
-        "max_diff_radial_momentum": max(validate_radial_momentum(
-            values.initial_conditions, values
-        )),
-        "max_diff_azimuthal_momentum": max(validate_azimuthal_mometum(
-            values.initial_conditions, values
-        )),
-        "max_diff_polar_momentum": max(validate_polar_momentum(
-            values.initial_conditions, values
-        )),
-        "max_diff_polar_induction": max(validate_polar_induction(
-            values.initial_conditions, values
-        )),
-        "max_diff_E_φ": max(validate_E_φ(
+
+    def max_difference(validate_func):
+        """
+        Find the difference furthest from zero, whichever its sign.
+        """
+        return nanmax(absolute(validate_func(
             values.initial_conditions, values
-        )),
+        )))
+
+    return {
+        "max_diff_continuity": max_difference(validate_continuity),
+        "max_diff_solenoid": max_difference(validate_solenoid),
+        "max_diff_radial_momentum": max_difference(validate_radial_momentum),
+        "max_diff_azimuthal_momentum": max_difference(
+            validate_azimuthal_mometum
+        ),
+        "max_diff_polar_momentum": max_difference(validate_polar_momentum),
+        "max_diff_polar_induction": max_difference(validate_polar_induction),
+        "max_diff_E_φ": max_difference(validate_E_φ),
     }
 
 
-- 
2.43.0


From 4ace52a9a4dd32f6e4695a5c83fc555f864411a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:39 +0000
Subject: [PATCH 44/48] fix: compute the jacobian at the last point if there is
 no critical point

---
 src/disc_solver/analyse/compute_jacobian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/analyse/compute_jacobian.py b/src/disc_solver/analyse/compute_jacobian.py
index b3ae542..bcce645 100644
--- a/src/disc_solver/analyse/compute_jacobian.py
+++ b/src/disc_solver/analyse/compute_jacobian.py
@@ -526,7 +526,7 @@ def compute_jacobian_at_index(soln, *, eps, θ_scale=float_type(1), index):
     """
     Compute jacobian from solution at index
     """
-    s = slice(index, index+1)
+    s = [index]  # index can be from the end
     solution = soln.solution[s]
     angles = soln.angles[s]
     cons = soln.initial_conditions
-- 
2.43.0


From 2e2dfea882fc6011620012079645f65d84021ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:15 +0000
Subject: [PATCH 45/48] fix: ds-flow-file: accept the options of the command

---
 src/disc_solver/analyse/trajectory.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/disc_solver/analyse/trajectory.py b/src/disc_solver/analyse/trajectory.py
index fec9190..d25f7ab 100644
--- a/src/disc_solver/analyse/trajectory.py
+++ b/src/disc_solver/analyse/trajectory.py
@@ -133,10 +133,6 @@ def trajectory_parser(parser):
     parser.add_argument(
         "--B-step-scaling", type=float, default=DEFAULT_B_STEP_SCALING,
     )
-    parser.add_argument(
-        "--no-max-v-angle", action='store_false', dest="with_max_v_angle",
-        default=True
-    )
     return parser
 
 
@@ -145,6 +141,10 @@ def plot_parser(parser):
     Add arguments for plot command to parser
     """
     trajectory_parser(parser)
+    parser.add_argument(
+        "--no-max-v-angle", action='store_false', dest="with_max_v_angle",
+        default=True
+    )
     common_plot_appearence_options(parser)
     common_output_plot_options(parser)
     return parser
@@ -163,7 +163,7 @@ def trajectory_output_parser(parser):
 
 def get_args(args):
     """
-    Parse plot args
+    Parse trajectory args
     """
     v_start_position = args.get("v_start_position")
     if v_start_position is None:
@@ -185,7 +185,6 @@ def get_args(args):
     v_step_scaling = args.get("v_step_scaling", DEFAULT_V_STEP_SCALING)
     B_max_steps = args.get("B_max_steps", DEFAULT_B_MAX_STEPS)
     B_step_scaling = args.get("B_step_scaling", DEFAULT_B_STEP_SCALING)
-    with_max_v_angle = args.get("with_max_v_angle")
 
     return {
         "v_start_position": v_start_position,
@@ -194,10 +193,18 @@ def get_args(args):
         "B_start_position": B_start_position,
         "B_max_steps": B_max_steps,
         "B_step_scaling": B_step_scaling,
-        "with_max_v_angle": with_max_v_angle,
     }
 
 
+def get_plot_args(args):
+    """
+    Parse plot args
+    """
+    return dict(
+        with_max_v_angle=args.get("with_max_v_angle", True), **get_args(args)
+    )
+
+
 def get_trajectory_out_args(args):
     """
     Parse output arguments
@@ -316,7 +323,7 @@ def save_trajectory(
     cmd_parser_splitters={
         "common_plot_output_args": get_common_plot_output_args,
         "common_plot_appearence_args": get_common_plot_appearence_args,
-        "plot_args": get_args,
+        "plot_args": get_plot_args,
     }
 )
 def plot_main(
-- 
2.43.0


From 40509b9b3ec152d08ed1c729bb36e4809393cca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:15 +0000
Subject: [PATCH 46/48] fix: trajectories can start outside of the solution

---
 src/disc_solver/analyse/trajectory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disc_solver/analyse/trajectory.py b/src/disc_solver/analyse/trajectory.py
index d25f7ab..9f81884 100644
--- a/src/disc_solver/analyse/trajectory.py
+++ b/src/disc_solver/analyse/trajectory.py
@@ -65,7 +65,7 @@ def follow_trajectory(
     # Using 0 means that no change will happen on the first scaling if there is
     # an error
     prev_vals = 0
-    prev_pos = 0
+    prev_pos = pos
     for step in range(max_steps):
         try:
             vals = compute_values(
@@ -116,7 +116,7 @@ def get_trajectory(
     ):
         values.append(vals)
         positions.append(pos)
-    return array(values), array(positions)
+    return array(values).reshape(-1, 2), array(positions).reshape(-1, 2)
 
 
 def trajectory_parser(parser):
@@ -453,7 +453,7 @@ def generate_plot(
             label=f"Max angle in solution {degrees(max_soln_angle)}°",
             color="C7",
         )
-    if with_max_v_angle:
+    if with_max_v_angle and len(v_positions) > 0:
         max_v_angle = max(arctan2(v_positions[:, 1], v_positions[:, 0]))
         ax.axline(
             (0, 0), slope=tan(max_v_angle),
-- 
2.43.0


From 40d5f8ae6c4bcc6f4244d828a90ca29fa5c38e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:59 +0000
Subject: [PATCH 47/48] fix: component-plot: radial terms are those which are
 added up

---
 src/disc_solver/analyse/component_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/analyse/component_plot.py b/src/disc_solver/analyse/component_plot.py
index a685195..a348277 100644
--- a/src/disc_solver/analyse/component_plot.py
+++ b/src/disc_solver/analyse/component_plot.py
@@ -161,7 +161,7 @@ def compute_components(soln, indexes, angles):
 
     components = {
         "radial momentum": {
-            "radial terms": v_r ** 2 + v_θ ** 2 + 5 / 2 - 2 * γ,
+            "radial terms": v_r ** 2 / 2 + v_θ ** 2 + 5 / 2 - 2 * γ,
             "keplerian terms": (v_φ - norm_kepler) * (v_φ + norm_kepler),
             "magnetic terms": (
                 a_0 / ρ * (B_θ * deriv_B_r + (1/4 - γ) * (B_θ ** 2 + B_φ ** 2))
-- 
2.43.0


From ed81e76dc3197f84d57346891b58c69642f78826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:59 +0000
Subject: [PATCH 48/48] fix: settings of one plot are not those of the next

---
 src/disc_solver/analyse/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/analyse/utils.py b/src/disc_solver/analyse/utils.py
index 114949b..0dd423a 100644
--- a/src/disc_solver/analyse/utils.py
+++ b/src/disc_solver/analyse/utils.py
@@ -124,7 +124,8 @@ def get_common_arguments(
     parameters
     """
     params = PLOT_ORDERINGS[ordering]
-    args = [COMMON_ARGUMENTS[param] for param in params]
+    # The settings are changed below, which must not change later plots
+    args = [dict(COMMON_ARGUMENTS[param]) for param in params]
 
     if "v_θ" in params:
         args[ODEIndex.v_θ]["scale"] = v_θ_scale
-- 
2.43.0

