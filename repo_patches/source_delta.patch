From 09a3a1048388312643ecf4a4ff26163151b55f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 01/53] fix: searches no longer change the input of the
 solution just recorded

---
 src/disc_solver/solve/fast_crosser.py | 2 +-
 src/disc_solver/solve/stepper.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/solve/fast_crosser.py b/src/disc_solver/solve/fast_crosser.py
index 7715080..9ef91db 100644
--- a/src/disc_solver/solve/fast_crosser.py
+++ b/src/disc_solver/solve/fast_crosser.py
@@ -71,7 +71,7 @@ def stepper_creator(soln_writer, *, step_size, solution_input):
         """
         nonlocal phase
         soln_writer(soln, attempt)
-        inp_dict = vars(soln.solution_input)
+        inp_dict = soln.solution_input.asdict()
         current_v_r = inp_dict["v_rin_on_c_s"]
         current_quality = compute_quality(soln)
         log.notice("v_r is {}", current_v_r)
diff --git a/src/disc_solver/solve/stepper.py b/src/disc_solver/solve/stepper.py
index 23ed565..a31fec7 100644
--- a/src/disc_solver/solve/stepper.py
+++ b/src/disc_solver/solve/stepper.py
@@ -279,7 +279,7 @@ def step_input():
         """
         Return new input
         """
-        inp_dict = vars(soln.solution_input)
+        inp_dict = soln.solution_input.asdict()
         prev_γ = inp_dict["γ"]
         if soln_type == SplitterStatus.DIVERGE:
             inp_dict["γ"] -= step_size
-- 
2.43.0


From ad09f9b24ed94149e80e2d92b286d46e6d8e06ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 02/53] fix: stepper nudges past the numerical limit in bounded
 time

---
 src/disc_solver/solve/stepper.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/disc_solver/solve/stepper.py b/src/disc_solver/solve/stepper.py
index a31fec7..59e6af3 100644
--- a/src/disc_solver/solve/stepper.py
+++ b/src/disc_solver/solve/stepper.py
@@ -6,7 +6,7 @@ from enum import Enum
 
 import logbook
 
-from numpy import diff, any as np_any, logical_and as np_and
+from numpy import diff, any as np_any, logical_and as np_and, nextafter
 
 from .config import define_conditions
 from .solution import solution
@@ -295,10 +295,7 @@ def step_input():
                 raise StepperStop("Hit numerical limit")
 
             # we've got a sign flip solution then
-            bigger_step = 0
-            while prev_γ == inp_dict["γ"]:
-                bigger_step += step_size
-                inp_dict["γ"] += bigger_step
+            inp_dict["γ"] = nextafter(prev_γ, float("inf"))
         return SolutionInput(**inp_dict)
     return step_func
 
-- 
2.43.0


From 2328d3dfd55903663fde63956238180471c364a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 03/53] =?UTF-8?q?fix:=20stepper=20looks=20at=20the=20deriv?=
 =?UTF-8?q?ative=20of=20v=5F=CE=B8,=20not=20at=20the=20sixth=20set=20of=20?=
 =?UTF-8?q?derivatives?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/disc_solver/solve/stepper.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/solve/stepper.py b/src/disc_solver/solve/stepper.py
index 59e6af3..493e68a 100644
--- a/src/disc_solver/solve/stepper.py
+++ b/src/disc_solver/solve/stepper.py
@@ -6,7 +6,9 @@ from enum import Enum
 
 import logbook
 
-from numpy import diff, any as np_any, logical_and as np_and, nextafter
+from numpy import (
+    asarray, diff, any as np_any, logical_and as np_and, nextafter,
+)
 
 from .config import define_conditions
 from .solution import solution
@@ -220,7 +222,7 @@ def v_θ_deriv_splitter(soln, cutoff=DEFAULT_SPLITTER_CUTOFF, **kwargs):
         log.notice("Skipping checking problems due to no internal data")
 
     if soln.internal_data is not None:
-        deriv_v_θ = soln.internal_data.derivs[ODEIndex.v_θ]
+        deriv_v_θ = asarray(soln.internal_data.derivs)[:, ODEIndex.v_θ]
         if any(diff(deriv_v_θ, 2) > 0):
             return SplitterStatus.DIVERGE
         if any(diff(deriv_v_θ) < 0):
-- 
2.43.0


From 2069c562ea8b7fa0152413529ba4eec0c89d9d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 04/53] fix: unknown split methods use the default method as
 intended

---
 src/disc_solver/solve/stepper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/stepper.py b/src/disc_solver/solve/stepper.py
index 493e68a..9cbdbf4 100644
--- a/src/disc_solver/solve/stepper.py
+++ b/src/disc_solver/solve/stepper.py
@@ -250,7 +250,7 @@ def create_soln_splitter(method):
         "human": human_view_splitter_generator,
     }
 
-    return method_dict.get(method)() or v_θ_deriv_splitter
+    return method_dict.get(method, lambda: v_θ_deriv_splitter)()
 
 
 def solution_generator(*, store_internal=True):
-- 
2.43.0


From 6bcbe1f100d6fe2b6cc1f3677166e6183ae916cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 05/53] fix: fast-crosser starts its golden-section search
 inside the bracket

---
 src/disc_solver/solve/fast_crosser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/fast_crosser.py b/src/disc_solver/solve/fast_crosser.py
index 9ef91db..348c241 100644
--- a/src/disc_solver/solve/fast_crosser.py
+++ b/src/disc_solver/solve/fast_crosser.py
@@ -120,7 +120,7 @@ def stepper_creator(soln_writer, *, step_size, solution_input):
             # golden ratio
             return SolutionInput(**get_next_input(
                 inp_dict, limits["min"] + (
-                    (limits["min"] - limits["max"]) / (GOLDEN_RATIO - 1)
+                    (limits["max"] - limits["min"]) / GOLDEN_RATIO
                 )
             ))
         if phase == Phase.BISECTING:
-- 
2.43.0


From 34eb4d8859b066b2c99ea6c55abd4f87a1f0563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 06/53] fix: fast-crosser reports failure when no solution was
 found

---
 src/disc_solver/solve/fast_crosser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/fast_crosser.py b/src/disc_solver/solve/fast_crosser.py
index 348c241..ddab786 100644
--- a/src/disc_solver/solve/fast_crosser.py
+++ b/src/disc_solver/solve/fast_crosser.py
@@ -227,8 +227,10 @@ def solver(
     if not isinstance(run.final_solution, Solution):
         if isinstance(best_solution, Solution):
             run.final_solution = best_solution
-        else:
+        elif run.solutions:
             run.final_solution = run.solutions.get_last_solution()
+        else:
+            run.final_solution = None
 
     if run.final_solution is None:
         # This implies there were no solutions found
-- 
2.43.0


From d6108f383c22d7d2aeb92a45a05dd7f840060001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 07/53] fix: main integration starts where the midplane
 expansion ends

---
 src/disc_solver/solve/solution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/solve/solution.py b/src/disc_solver/solve/solution.py
index 3ede174..fb00d4e 100644
--- a/src/disc_solver/solve/solution.py
+++ b/src/disc_solver/solve/solution.py
@@ -411,7 +411,7 @@ def taylor_solution(
         raise SolverError("Taylor solver did not find taylor_stop_angle")
 
     new_angles = angles[angles > taylor_stop_angle]
-    insert(new_angles, 0, taylor_stop_angle)
+    new_angles = insert(new_angles, 0, taylor_stop_angle)
 
     return TaylorSolution(
         angles=scaled_to_rad(soln.values.t, θ_scale), params=soln.values.y,
@@ -430,7 +430,7 @@ def taylor_jump(
     """
     taylor_stop_angle = rad_to_scaled(taylor_stop_angle, θ_scale)
     new_angles = angles[angles > taylor_stop_angle]
-    insert(new_angles, 0, taylor_stop_angle)
+    new_angles = insert(new_angles, 0, taylor_stop_angle)
 
     first_order_taylor_values = get_taylor_first_order(
         init_con=init_con, γ=γ, a_0=a_0,
-- 
2.43.0


From 0880077a8080a7355660dc06afa59964368c09d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 08/53] fix: samples without a finite score are rejected
 instead of ending the sampling

---
 src/disc_solver/solve/mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/mcmc.py b/src/disc_solver/solve/mcmc.py
index 9974e49..2db01df 100644
--- a/src/disc_solver/solve/mcmc.py
+++ b/src/disc_solver/solve/mcmc.py
@@ -133,7 +133,7 @@ class LogProbGenerator:
             return - float("inf")
         logprob = get_logprob_of_soln(soln)
         if not isfinite(logprob):
-            return logprob
+            return - float("inf")
         soln_index = self._run.solutions.add_solution(soln)
         if logprob > self._best_logprob:
             self._best_logprob = logprob
-- 
2.43.0


From 0f083074f7c809e62ea2898965528c86d4d0f7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:02 +0000
Subject: [PATCH 09/53] fix: sonic root trials which end normally no longer
 crash

---
 src/disc_solver/solve/sonic_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/sonic_root.py b/src/disc_solver/solve/sonic_root.py
index ddffd0d..4458d65 100644
--- a/src/disc_solver/solve/sonic_root.py
+++ b/src/disc_solver/solve/sonic_root.py
@@ -232,7 +232,7 @@ def write_solution(run, initial_solution, sonic_solution):
         logger.warn("Sonic solution failed with flag {}".format(
             sonic_solution.flag.name
         ))
-    elif sonic_solution.flag != StatusFlag.SUCESS:
+    elif sonic_solution.flag != StatusFlag.SUCCESS:
         logger.info("Sonic solution ended with flag {}".format(
             sonic_solution.flag.name
         ))
-- 
2.43.0


From c54f57a205af473e625a7821785b7d4f1384dde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:02 +0000
Subject: [PATCH 10/53] fix: sonic root trials no longer change the recorded
 initial conditions

---
 src/disc_solver/solve/sonic_root.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disc_solver/solve/sonic_root.py b/src/disc_solver/solve/sonic_root.py
index 4458d65..dfa59cd 100644
--- a/src/disc_solver/solve/sonic_root.py
+++ b/src/disc_solver/solve/sonic_root.py
@@ -187,6 +187,7 @@ def total_vars_to_mod_cons(*, initial_conditions, guess, sonic_stop):
     """
     θ_sonic = guess[TotalVars.θ_sonic]
     mod_cons = InitialConditions(**vars(initial_conditions))
+    mod_cons.init_con = mod_cons.init_con.copy()
     mod_cons.angles = linspace(
         θ_sonic, sonic_stop, len(initial_conditions.angles)
     )
-- 
2.43.0


From e880c48b9d71efbc0700462084c8f208be22ee13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 11/53] fix: solutions which never near the sonic point are not
 carried across it

---
 src/disc_solver/solve/solution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/solution.py b/src/disc_solver/solve/solution.py
index fb00d4e..e89a09e 100644
--- a/src/disc_solver/solve/solution.py
+++ b/src/disc_solver/solve/solution.py
@@ -686,7 +686,11 @@ def solution(
         )
         joined_solution = concatenate((taylor_soln.params, soln.values.y))
 
-    if sonic_interp_size is not None:
+    if soln.flag != StatusEnum.ROOT_RETURN:
+        # The solution never got close enough to the sonic point to cross it
+        pass
+
+    elif sonic_interp_size is not None:
         int_soln, int_internal, int_angles, int_init_con = interp_cross_sonic(
             base_solution=soln, angles=post_taylor_angles,
             system_initial_conditions=init_con, γ=γ, a_0=a_0,
-- 
2.43.0


From 077e074863656bf82a6ee65c7f8bd10d718123df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 12/53] fix: problems can be removed by angle like they are
 recorded

---
 src/disc_solver/file_format/_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index 356d24e..5bdbba1 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -363,7 +363,7 @@ class Problems(MutableMapping):
             self._problems[str(key)].extend(val)
 
     def __delitem__(self, key):
-        del self._problems[key]
+        del self._problems[str(key)]
 
     def __iter__(self):
         yield from self._problems
-- 
2.43.0


From 0c27b54cfca7a1cbdeb08b5c8e82dc68809a3761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 13/53] fix: asking whether there are problems at an angle does
 not record it

---
 src/disc_solver/file_format/_containers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index 5bdbba1..c10a19d 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -365,6 +365,9 @@ class Problems(MutableMapping):
     def __delitem__(self, key):
         del self._problems[str(key)]
 
+    def __contains__(self, key):
+        return str(key) in self._problems
+
     def __iter__(self):
         yield from self._problems
 
-- 
2.43.0


From 30baf869f4908d5e48d7f1a7a6847ddeb96c1ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:43 +0000
Subject: [PATCH 14/53] fix: csv batch runner keeps its chatter out of the rows
 on standard output

---
 src/disc_solver/solve/csvrunner.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/disc_solver/solve/csvrunner.py b/src/disc_solver/solve/csvrunner.py
index 3e2bfe8..62da81c 100644
--- a/src/disc_solver/solve/csvrunner.py
+++ b/src/disc_solver/solve/csvrunner.py
@@ -4,6 +4,7 @@ csvrunner module
 """
 from csv import DictWriter
 from multiprocessing import current_process
+from sys import stderr
 
 from pympler.asizeof import asizeof
 
@@ -47,7 +48,7 @@ class SolutionFinder:
         config_input = add_overrides(
             config_input=ConfigInput(**input_dict), overrides=self.overrides
         )
-        print(f"Config is {config_input}")
+        print(f"Config is {config_input}", file=stderr)
 
         soln_input = config_input.to_soln_input()
 
@@ -62,7 +63,9 @@ class SolutionFinder:
             based_on_solution_solution_name=soln_range,
         )
 
-        print(f"Run size in {process_name} is {asizeof(run)}")
+        print(
+            f"Run size in {process_name} is {asizeof(run)}", file=stderr,
+        )
 
         try:
             succeeded = sonic_solver(
@@ -70,14 +73,16 @@ class SolutionFinder:
                 **self.kwargs
             )
         except SolverError as e:
-            print(str(e))
+            print(str(e), file=stderr)
             return None
 
-        print(f"Run size in {process_name} is {asizeof(run)}")
+        print(
+            f"Run size in {process_name} is {asizeof(run)}", file=stderr,
+        )
 
         if succeeded:
             if run.final_solution is None:
-                print(run)
+                print(run, file=stderr)
                 return None
             return run.final_solution.solution_input.asdict()
         return None
@@ -110,7 +115,7 @@ def csvrunner(
                 overrides=overrides, **kwargs
             ), inputs):
                 if best_input is None:
-                    print("No final solution found for input")
+                    print("No final solution found for input", file=stderr)
                 else:
                     csvwriter.writerow(best_input)
                     out.flush()
-- 
2.43.0


From f41d65ddd5a1b42dbca89403654336ecb7336895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:14 +0000
Subject: [PATCH 15/53] fix: inputs of old files lacking sampling settings load
 with the defaults

---
 src/disc_solver/file_format/_loaders.py | 45 ++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index 5789890..2f066bc 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -2,6 +2,7 @@
 Defines the loaders for the data strutures
 """
 
+from ..float_handling import float_type
 from ._containers import (
     Solution, SolutionInput, ConfigInput, Problems, InternalData, Run,
     InitialConditions, JacobianData, Solutions, MCMCVars,
@@ -249,6 +250,10 @@ def _config_loader(group):
         η_O=group.attrs["η_O"],
         η_H=group.attrs["η_H"],
         η_A=group.attrs["η_A"],
+        nwalkers="8",
+        iterations="3",
+        threads="1",
+        target_velocity="0.9",
         use_E_r=None,
     )
 
@@ -273,6 +278,10 @@ def _config_loader2(group):
         η_H=group.attrs["η_H"],
         η_A=group.attrs["η_A"],
         jump_before_sonic=group["jump_before_sonic"],
+        nwalkers="8",
+        iterations="3",
+        threads="1",
+        target_velocity="0.9",
         use_E_r=None,
     )
 
@@ -298,6 +307,10 @@ def _config_loader3(group):
         η_A=group.attrs["η_A"],
         jump_before_sonic=group["jump_before_sonic"],
         η_derivs=group.attrs["η_derivs"],
+        nwalkers="8",
+        iterations="3",
+        threads="1",
+        target_velocity="0.9",
         use_E_r=None,
     )
 
@@ -322,11 +335,11 @@ def _config_loader4(group):
         η_A=group.attrs["η_A"],
         jump_before_sonic=group["jump_before_sonic"],
         η_derivs=group.attrs["η_derivs"],
-        nwalkers=None,
-        iterations=None,
-        threads=None,
-        target_velocity=None,
-        split_method=None,
+        nwalkers="8",
+        iterations="3",
+        threads="1",
+        target_velocity="0.9",
+        split_method="v_θ_deriv",
         use_E_r=None,
     )
 
@@ -346,6 +359,7 @@ def _config_loader5(group):
         nwalkers=group.attrs["nwalkers"],
         iterations=group.attrs["iterations"],
         threads=group.attrs["threads"],
+        target_velocity="0.9",
         split_method="v_θ_deriv",
         v_rin_on_c_s=group.attrs["v_rin_on_c_s"],
         v_a_on_c_s=group.attrs["v_a_on_c_s"],
@@ -668,6 +682,10 @@ def _input_loader(group):
         η_O=group.attrs["η_O"],
         η_H=group.attrs["η_H"],
         η_A=group.attrs["η_A"],
+        nwalkers=8,
+        iterations=3,
+        threads=1,
+        target_velocity=float_type(0.9),
         use_E_r=None,
     )
 
@@ -695,6 +713,10 @@ def _input_loader2(group):
         η_H=group.attrs["η_H"],
         η_A=group.attrs["η_A"],
         jump_before_sonic=jump_before_sonic,
+        nwalkers=8,
+        iterations=3,
+        threads=1,
+        target_velocity=float_type(0.9),
         use_E_r=None,
     )
 
@@ -723,6 +745,10 @@ def _input_loader3(group):
         η_A=group.attrs["η_A"],
         jump_before_sonic=jump_before_sonic,
         η_derivs=group.attrs["η_derivs"],
+        nwalkers=8,
+        iterations=3,
+        threads=1,
+        target_velocity=float_type(0.9),
         use_E_r=None,
     )
 
@@ -751,10 +777,10 @@ def _input_loader4(group):
         η_A=group.attrs["η_A"],
         jump_before_sonic=jump_before_sonic,
         η_derivs=group.attrs["η_derivs"],
-        nwalkers=None,
-        iterations=None,
-        threads=None,
-        target_velocity=None,
+        nwalkers=8,
+        iterations=3,
+        threads=1,
+        target_velocity=float_type(0.9),
         use_E_r=None,
     )
 
@@ -778,6 +804,7 @@ def _input_loader5(group):
         nwalkers=group.attrs["nwalkers"],
         iterations=group.attrs["iterations"],
         threads=group.attrs["threads"],
+        target_velocity=float_type(0.9),
         v_rin_on_c_s=group.attrs["v_rin_on_c_s"],
         v_a_on_c_s=group.attrs["v_a_on_c_s"],
         c_s_on_v_k=group.attrs["c_s_on_v_k"],
-- 
2.43.0


From 8281fd1a27032824ab6857e83c8bfbcfb83b1ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:14 +0000
Subject: [PATCH 16/53] fix: internal data of old files without jacobians loads

---
 src/disc_solver/file_format/_loaders.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index 2f066bc..9d3d468 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -24,7 +24,6 @@ def _internal_load(group):
         v_r_taylor=group["v_r_taylor"]["data"],
         v_φ_taylor=group["v_φ_taylor"]["data"],
         ρ_taylor=group["ρ_taylor"]["data"],
-        jacobians=None,
     )
 
 
@@ -41,7 +40,6 @@ def _internal_load2(group):
         v_φ_taylor=group["v_φ_taylor"]["data"],
         ρ_taylor=group["ρ_taylor"]["data"],
         problems=group["problems"],
-        jacobians=None,
     )
 
 
-- 
2.43.0


From 2cff11e2804af9a57104ea2248e2c11185601814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:14 +0000
Subject: [PATCH 17/53] fix: derivatives of a solution are read back as an
 array

---
 src/disc_solver/file_format/_loaders.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index 9d3d468..9350df1 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -150,7 +150,7 @@ def _solution_loader_2(group):
         solution_input=group["solution_input"],
         t_roots=t_roots,
         y_roots=y_roots,
-        derivatives=group["derivatives"],
+        derivatives=ensure_fully_loaded(group["derivatives"]),
         sonic_point=None,
         sonic_point_values=None,
     )
@@ -188,7 +188,7 @@ def _solution_loader_3(group):
         y_roots=y_roots,
         sonic_point=sonic_point,
         sonic_point_values=sonic_point_values,
-        derivatives=group["derivatives"],
+        derivatives=ensure_fully_loaded(group["derivatives"]),
     )
 
 
@@ -224,7 +224,7 @@ def _solution_loader_4(group):
         y_roots=y_roots,
         sonic_point=sonic_point,
         sonic_point_values=sonic_point_values,
-        derivatives=group["derivatives"],
+        derivatives=ensure_fully_loaded(group["derivatives"]),
         is_post_shock_only=group.attrs["is_post_shock_only"],
     )
 
-- 
2.43.0


From 70c34427150c28be1513e762a78814c33af04f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:25 +0000
Subject: [PATCH 18/53] fix: inputs of old files always know whether E_r was
 used

---
 src/disc_solver/file_format/_containers.py | 14 ++++
 src/disc_solver/file_format/_loaders.py    | 98 ++++++++++++----------
 2 files changed, 70 insertions(+), 42 deletions(-)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index c10a19d..ec10d36 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -515,6 +515,7 @@ class Solutions(MutableMapping):
     """
     def __init__(self, **solutions):
         self._solutions = {}
+        self._missing_use_E_r = None
         self.update(solutions)
         self._cache_values_ = None
 
@@ -533,6 +534,8 @@ class Solutions(MutableMapping):
         value = self._solutions[key]
         if isinstance(value, OnDemandWrapper):
             value = value()
+            if value.solution_input.use_E_r is None:
+                value.solution_input.use_E_r = self._missing_use_E_r
             if self._cache_values:
                 self._solutions[key] = value
         return value
@@ -562,6 +565,17 @@ class Solutions(MutableMapping):
             for key, val in self._solutions.items()
         ) + ")"
 
+    def set_missing_use_E_r(self, use_E_r):
+        """
+        Set the value of use_E_r for solutions whose input does not store it
+        """
+        self._missing_use_E_r = use_E_r
+        for soln in self._solutions.values():
+            if not isinstance(soln, OnDemandWrapper) and (
+                soln.solution_input.use_E_r is None
+            ):
+                soln.solution_input.use_E_r = use_E_r
+
     def add_solution(self, soln):
         """
         Add a solution returning the index of the solution
diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index 9350df1..7fff9c9 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -1189,14 +1189,40 @@ def _input_loader14(group):
     )
 
 
+def _fill_missing_use_E_r(group, *, use_E_r):
+    """
+    Older inputs did not store use_E_r, use what was used for the whole run
+    """
+    config_input = group["config_input"]
+    if config_input.use_E_r is None:
+        config_input.use_E_r = str(use_E_r)
+
+    solutions = group["solutions"]
+    if isinstance(solutions, dict):
+        solutions = Solutions(**solutions)
+    solutions.set_missing_use_E_r(use_E_r)
+
+    final_solution = group["final_solution"]
+    if final_solution is not None and (
+        final_solution.solution_input.use_E_r is None
+    ):
+        final_solution.solution_input.use_E_r = use_E_r
+
+    return config_input, solutions, final_solution
+
+
 @ds_registry.loader("Run", version=1)
 def _run_loader(group):
+    config_input, solutions, final_solution = _fill_missing_use_E_r(
+        group, use_E_r=False
+    )
+
     return Run(
-        config_input=group["config_input"],
+        config_input=config_input,
         config_filename=group["config_filename"],
         time=group["time"],
-        final_solution=group["final_solution"],
-        solutions=group["solutions"],
+        final_solution=final_solution,
+        solutions=solutions,
         disc_solver_version=None,
         float_type=None,
         sonic_method="unknown",
@@ -1205,12 +1231,16 @@ def _run_loader(group):
 
 @ds_registry.loader("Run", version=2)
 def _run_loader2(group):
+    config_input, solutions, final_solution = _fill_missing_use_E_r(
+        group, use_E_r=False
+    )
+
     return Run(
-        config_input=group["config_input"],
+        config_input=config_input,
         config_filename=group["config_filename"],
         time=group["time"],
-        final_solution=group["final_solution"],
-        solutions=group["solutions"],
+        final_solution=final_solution,
+        solutions=solutions,
         disc_solver_version=group["disc_solver_version"],
         float_type=None,
         sonic_method="unknown",
@@ -1219,12 +1249,16 @@ def _run_loader2(group):
 
 @ds_registry.loader("Run", version=3)
 def _run_loader3(group):
+    config_input, solutions, final_solution = _fill_missing_use_E_r(
+        group, use_E_r=False
+    )
+
     return Run(
-        config_input=group["config_input"],
+        config_input=config_input,
         config_filename=group["config_filename"],
         time=group["time"],
-        final_solution=group["final_solution"],
-        solutions=group["solutions"],
+        final_solution=final_solution,
+        solutions=solutions,
         disc_solver_version=group["disc_solver_version"],
         float_type=group["float_type"],
         sonic_method="unknown",
@@ -1233,12 +1267,16 @@ def _run_loader3(group):
 
 @ds_registry.loader("Run", version=4)
 def _run_loader4(group):
+    config_input, solutions, final_solution = _fill_missing_use_E_r(
+        group, use_E_r=False
+    )
+
     return Run(
-        config_input=group["config_input"],
+        config_input=config_input,
         config_filename=group["config_filename"],
         time=group["time"],
-        final_solution=group["final_solution"],
-        solutions=group["solutions"],
+        final_solution=final_solution,
+        solutions=solutions,
         disc_solver_version=group["disc_solver_version"],
         float_type=group["float_type"],
         sonic_method=group["sonic_method"],
@@ -1248,21 +1286,9 @@ def _run_loader4(group):
 @ds_registry.loader("Run", version=5)
 def _run_loader5(group):
     use_E_r = group["use_E_r"]
-
-    config_input = group["config_input"]
-    if config_input.use_E_r is None:
-        config_input.use_E_r = str(use_E_r)
-
-    solutions = group["solutions"]
-    for soln in solutions.values():
-        if soln.solution_input.use_E_r is None:
-            soln.solution_input.use_E_r = use_E_r
-
-    final_solution = group["final_solution"]
-    if final_solution is not None and (
-        final_solution.solution_input.use_E_r is None
-    ):
-        final_solution.solution_input.use_E_r = use_E_r
+    config_input, solutions, final_solution = _fill_missing_use_E_r(
+        group, use_E_r=use_E_r
+    )
 
     return Run(
         config_input=config_input,
@@ -1280,21 +1306,9 @@ def _run_loader5(group):
 @ds_registry.loader("Run", version=6)
 def _run_loader6(group):
     use_E_r = group["use_E_r"]
-
-    config_input = group["config_input"]
-    if config_input.use_E_r is None:
-        config_input.use_E_r = str(use_E_r)
-
-    solutions = group["solutions"]
-    for soln in solutions.values():
-        if soln.solution_input.use_E_r is None:
-            soln.solution_input.use_E_r = use_E_r
-
-    final_solution = group["final_solution"]
-    if final_solution is not None and (
-        final_solution.solution_input.use_E_r is None
-    ):
-        final_solution.solution_input.use_E_r = use_E_r
+    config_input, solutions, final_solution = _fill_missing_use_E_r(
+        group, use_E_r=use_E_r
+    )
 
     return Run(
         config_input=config_input,
-- 
2.43.0


From 165e462d19e6efdcd2adc1d4291eff2ba2b9fb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 19/53] fix: csv inputs without a header keep their first row

---
 src/disc_solver/solve/utils.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/disc_solver/solve/utils.py b/src/disc_solver/solve/utils.py
index 5201d52..eb49150 100644
--- a/src/disc_solver/solve/utils.py
+++ b/src/disc_solver/solve/utils.py
@@ -2,7 +2,7 @@
 """
 Utility function and classes for solver associated code
 """
-from csv import DictReader, Sniffer, get_dialect
+from csv import DictReader, Sniffer, get_dialect, reader
 from multiprocessing import current_process
 from pathlib import Path
 
@@ -229,14 +229,15 @@ class CSVReaderHelper:
         """
         self._comments.append(line.strip()[len(self.comment):])
 
-    def has_csv_header(self):
+    def has_csv_header(self, *, columns):
         """
-        Checks if csv file has header
+        Checks if csv file has header, i.e. the first row names at least one of
+        columns
         """
         self.file.seek(0)
-        has_header = Sniffer().has_header(next(iter(self)))
+        first_row = next(reader(self, dialect="unix"), [])
         self.file.seek(0)
-        return has_header
+        return any(name in columns for name in first_row)
 
     def get_dialect(self, *args, lines=5, **kwargs):
         """
@@ -302,20 +303,23 @@ def get_csv_inputs(input_file, label=''):
     """
     Get inputs from csv file
     """
+    columns = CONFIG_FIELDS + SOLUTION_IDENTIFICATION_FIELDS
     with open(input_file) as infile:
         helper = CSVReaderHelper(infile)
-        if helper.has_csv_header():
-            inputs = filter_csv_columns(add_labels(
-                DictReader(helper, dialect="unix"), label=label
-            ), columns=CONFIG_FIELDS + SOLUTION_IDENTIFICATION_FIELDS)
+        if helper.has_csv_header(columns=columns):
+            csvreader = DictReader(helper, dialect="unix")
         else:
-            inputs = filter_csv_columns(add_labels(DictReader(
+            csvreader = DictReader(
                 helper, fieldnames=SOLUTION_INPUT_FIELDS, dialect="unix",
-            ), label=label), columns=(
-                CONFIG_FIELDS + SOLUTION_IDENTIFICATION_FIELDS
-            ))
+            )
+        inputs = filter_csv_columns(
+            add_labels(csvreader, label=label), columns=columns
+        )
 
-    return inputs
+    # rows can be shorter than the header, use the defaults for these
+    return [
+        {k: v for k, v in d.items() if v is not None} for d in inputs
+    ]
 
 
 def get_multiprocessing_filename(run):
-- 
2.43.0


From dbd0946fe1f0fed955d69312cc487913dd3e3b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 20/53] fix: repeated headers in csv inputs are not taken as
 inputs

---
 src/disc_solver/solve/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/utils.py b/src/disc_solver/solve/utils.py
index eb49150..a0340f4 100644
--- a/src/disc_solver/solve/utils.py
+++ b/src/disc_solver/solve/utils.py
@@ -316,9 +316,11 @@ def get_csv_inputs(input_file, label=''):
             add_labels(csvreader, label=label), columns=columns
         )
 
-    # rows can be shorter than the header, use the defaults for these
+    # rows can be shorter than the header, use the defaults for these, and the
+    # header is repeated if there were multiple runs writing to the same file
     return [
         {k: v for k, v in d.items() if v is not None} for d in inputs
+        if any(k != v for k, v in d.items() if k != "label")
     ]
 
 
-- 
2.43.0


From d17a6671b94e12bce533b0a1268330b9e22f2312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 21/53] fix: absent and open-ended slices survive conversion to
 text

---
 src/disc_solver/file_format/_containers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index ec10d36..01ca498 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -51,6 +51,10 @@ def slice_to_str(slice_):
     """
     Convert a slice back to a string
     """
+    if slice_ is None:
+        return "None"
+    if slice_.start is None or slice_.stop is None:
+        return str(slice_)
     return ','.join([
         str(i) for i in (slice_.start, slice_.stop, slice_.step)
         if i is not None
-- 
2.43.0


From 30dbca701d9557be9fee04b3dbab95de56eee3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 22/53] fix: spaces between mcmc variables do not drop them

---
 src/disc_solver/file_format/_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index 01ca498..60e82c3 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -26,7 +26,7 @@ def mcmc_vars_str_to_obj(mcmc_str):
         return None
     if isinstance(mcmc_str, MCMCVars):
         return mcmc_str
-    split_str = mcmc_str.strip().split(',')
+    split_str = [name.strip() for name in mcmc_str.split(',')]
     return MCMCVars(
         with_v_r="v_r" in split_str,
         with_v_a="v_a" in split_str,
-- 
2.43.0


From 8afa2d1a05b906b5e35eb0e0f3a18239fcbff511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 23/53] fix: config files can contain percent signs

---
 src/disc_solver/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index ecabbe2..2b51dd4 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -156,8 +156,12 @@ def expanded_path(*path):
 class CaseDependentConfigParser(ConfigParser):
     # pylint: disable=too-many-ancestors
     """
-    configparser.ConfigParser subclass that removes the case transform.
+    configparser.ConfigParser subclass that removes the case transform (and
+    interpolation, such that any label can be used).
     """
+    def __init__(self, *args, interpolation=None, **kwargs):
+        super().__init__(*args, interpolation=interpolation, **kwargs)
+
     def optionxform(self, optionstr):
         return optionstr
 
-- 
2.43.0


From 8c82842d276e11a5e36cc84ee5410f65c883b0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 24/53] fix: blank lines before the header of csv inputs do not
 hide it

---
 src/disc_solver/solve/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/utils.py b/src/disc_solver/solve/utils.py
index a0340f4..9d41442 100644
--- a/src/disc_solver/solve/utils.py
+++ b/src/disc_solver/solve/utils.py
@@ -235,7 +235,7 @@ class CSVReaderHelper:
         columns
         """
         self.file.seek(0)
-        first_row = next(reader(self, dialect="unix"), [])
+        first_row = next(filter(None, reader(self, dialect="unix")), [])
         self.file.seek(0)
         return any(name in columns for name in first_row)
 
-- 
2.43.0


From 25f783f450018dab8ecbc11320c2290318502c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 25/53] fix: re-solving can use whether E_r was used from a
 stored solution

---
 src/disc_solver/solve/resolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/resolve.py b/src/disc_solver/solve/resolve.py
index 9aebb55..6480933 100644
--- a/src/disc_solver/solve/resolve.py
+++ b/src/disc_solver/solve/resolve.py
@@ -46,7 +46,7 @@ def resolve(
         disc_solver_version=ds_version,
         float_type=str(float_type),
         sonic_method=sonic_method,
-        use_E_r=new_soln_input.use_E_r,
+        use_E_r=bool(new_soln_input.use_E_r),
         based_on_solution_filename=fspath(soln_filename),
         based_on_solution_solution_name=soln_range,
     )
-- 
2.43.0


From cbca6ed73997228c3de516c531e444151a4679fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 26/53] fix: blank lines in csv inputs are skipped wherever
 they are

---
 src/disc_solver/solve/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/utils.py b/src/disc_solver/solve/utils.py
index 9d41442..5d86201 100644
--- a/src/disc_solver/solve/utils.py
+++ b/src/disc_solver/solve/utils.py
@@ -218,6 +218,8 @@ class CSVReaderHelper:
         """
         Filter function which collects comments, and returns data lines
         """
+        if not line.strip():
+            return None
         if line.strip().startswith(self.comment):
             self._add_to_comments(line)
             return None
@@ -235,7 +237,7 @@ class CSVReaderHelper:
         columns
         """
         self.file.seek(0)
-        first_row = next(filter(None, reader(self, dialect="unix")), [])
+        first_row = next(reader(self, dialect="unix"), [])
         self.file.seek(0)
         return any(name in columns for name in first_row)
 
-- 
2.43.0


From 5e5e0a3f1b5758484f51877740f0729b88e50a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 27/53] fix: shorter repeated headers in csv inputs are not
 taken as inputs

---
 src/disc_solver/solve/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/disc_solver/solve/utils.py b/src/disc_solver/solve/utils.py
index 5d86201..67744e9 100644
--- a/src/disc_solver/solve/utils.py
+++ b/src/disc_solver/solve/utils.py
@@ -318,11 +318,14 @@ def get_csv_inputs(input_file, label=''):
             add_labels(csvreader, label=label), columns=columns
         )
 
-    # rows can be shorter than the header, use the defaults for these, and the
-    # header is repeated if there were multiple runs writing to the same file
-    return [
+    # rows can be shorter than the header, use the defaults for these
+    inputs = [
         {k: v for k, v in d.items() if v is not None} for d in inputs
-        if any(k != v for k, v in d.items() if k != "label")
+    ]
+    # the header is repeated if there were multiple runs writing to the same
+    # file
+    return [
+        d for d in inputs if any(k != v for k, v in d.items() if k != "label")
     ]
 
 
-- 
2.43.0


From 2975ea7a3de454f84656d7b984c3c9f962bc1769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 28/53] fix: shocks of a run given as a path object can be
 saved

---
 src/disc_solver/solve/shock.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/shock.py b/src/disc_solver/solve/shock.py
index 5e3650f..4df1ca8 100644
--- a/src/disc_solver/solve/shock.py
+++ b/src/disc_solver/solve/shock.py
@@ -1,6 +1,7 @@
 """
 Support for calculating shocks
 """
+from os import fspath
 from sys import stderr
 from traceback import format_exc
 
@@ -236,6 +237,6 @@ def shock_from_file(run, *, soln_range, filename, nworkers):
     print("Looking at", filename, "solution", soln_range)
     soln = get_solutions(run, soln_range)
     shock_run = run.create_shock_run(
-        filename=filename, solution_name=soln_range,
+        filename=fspath(filename), solution_name=soln_range,
     )
     compute_shock(soln, run=shock_run, nworkers=nworkers)
-- 
2.43.0


From 874aa894623158f6200da61ba80b30d9d8f8e1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 29/53] fix: arguments for a plot are not changed by earlier
 plots

---
 src/disc_solver/analyse/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/analyse/utils.py b/src/disc_solver/analyse/utils.py
index 114949b..e36ba82 100644
--- a/src/disc_solver/analyse/utils.py
+++ b/src/disc_solver/analyse/utils.py
@@ -124,7 +124,8 @@ def get_common_arguments(
     parameters
     """
     params = PLOT_ORDERINGS[ordering]
-    args = [COMMON_ARGUMENTS[param] for param in params]
+    # Copy so that one plot's changes do not carry over to later plots
+    args = [dict(COMMON_ARGUMENTS[param]) for param in params]
 
     if "v_θ" in params:
         args[ODEIndex.v_θ]["scale"] = v_θ_scale
-- 
2.43.0


From d72e7f94633d4d028a568fff3a3eb2c9682e069e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 30/53] fix: critical points are found in the interval of the
 first crossing

---
 src/disc_solver/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index 2b51dd4..13cdf83 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -440,8 +440,9 @@ def interp_for_value(*, xs, ys, y, **kwargs):
     if ys[initial_index] == y:
         return xs[initial_index]
     min_index = max(0, initial_index - 1)
-    # Add 2 as we want the next index, plus stop is non-inclusive
-    interp_slice = slice(min_index, initial_index + 2)
+    # Only use the points either side of the first crossing, as points beyond
+    # it may cross back. Add 1 as stop is non-inclusive
+    interp_slice = slice(min_index, initial_index + 1)
     return interp1d(ys[interp_slice], xs[interp_slice], **kwargs)(y)
 
 
-- 
2.43.0


From 9d9fdc53c6523b07909d2448bb400686e28de79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 31/53] fix: sonic-on-scale is written to the output file, and
 copes with no sonic point

---
 src/disc_solver/analyse/info.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/disc_solver/analyse/info.py b/src/disc_solver/analyse/info.py
index 80f6106..6111e78 100644
--- a/src/disc_solver/analyse/info.py
+++ b/src/disc_solver/analyse/info.py
@@ -116,10 +116,12 @@ def info(soln_file, *, group, soln_range, output_file, filename):
         _, sonic_θ, _, _ = get_all_sonic_points(
             soln_instance
         )
+        sonic_on_scale = None
+        if sonic_θ is not None:
+            sonic_on_scale = sonic_θ / get_scale_height(soln_instance)
         print("{}: {}".format(
-            soln_file.config_input.label,
-            sonic_θ / get_scale_height(soln_instance)
-        ))
+            soln_file.config_input.label, sonic_on_scale
+        ), file=output_file)
     elif group == "solutions":
         for name, _ in sort_solutions(soln_file.solutions):
             print(name, file=output_file)
-- 
2.43.0


From 913419940b6862ef1744649b1c168804c013d0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 32/53] fix: a solution whose statistics fail does not end the
 statistics of the others

---
 src/disc_solver/analyse/stats.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/disc_solver/analyse/stats.py b/src/disc_solver/analyse/stats.py
index 57e02f1..98d63e1 100644
--- a/src/disc_solver/analyse/stats.py
+++ b/src/disc_solver/analyse/stats.py
@@ -239,15 +239,16 @@ def write_stats(solutions, *, output_file):
             }
             if soln is not None:
                 soln_info.update(soln.solution_input.asdict())
+                # pylint: disable=broad-exception-caught
                 try:
-                    csvwriter.writerow(compute_solution_stats(
-                        soln, metadata=soln_info
-                    ))
-                except ValueError:
+                    stats = compute_solution_stats(soln, metadata=soln_info)
+                except Exception:
                     log.exception(
                         "Failed to collect stats for {} {}",
                         filename, soln_name,
                     )
+                else:
+                    csvwriter.writerow(stats)
                 out.flush()
                 del soln
 
-- 
2.43.0


From 7cdc7470d274e98d85c688bdf4c90fcbe4db61bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 33/53] fix: log records reach the log file when running with
 --quiet or --verbose

---
 src/disc_solver/logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/logging.py b/src/disc_solver/logging.py
index 6cf685a..1b7d361 100644
--- a/src/disc_solver/logging.py
+++ b/src/disc_solver/logging.py
@@ -42,9 +42,9 @@ def log_handler(args, thread_wrapping=True):
     if not isinstance(args, dict):
         args = vars(args)
     if args.get("quiet"):
-        stderr_handler = ColorizedStderrHandler(level="ERROR")
+        stderr_handler = ColorizedStderrHandler(level="ERROR", bubble=True)
     elif args.get("verbose"):
-        stderr_handler = ColorizedStderrHandler(level="DEBUG")
+        stderr_handler = ColorizedStderrHandler(level="DEBUG", bubble=True)
     else:
         stderr_handler = ColorizedStderrHandler(
             level=args.get("stderr_level", "NOTICE").upper(), bubble=True
-- 
2.43.0


From a1cb58b28c47ad2f1140cfb53fa283203a5be0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 34/53] fix: log records still in the threaded handlers are
 written before a command ends

---
 src/disc_solver/logging.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/logging.py b/src/disc_solver/logging.py
index 1b7d361..b5b36b9 100644
--- a/src/disc_solver/logging.py
+++ b/src/disc_solver/logging.py
@@ -35,6 +35,17 @@ def logging_options(parser):
     )
 
 
+class ClosingNestedSetup(NestedSetup):
+    """
+    Set up handlers which are closed on leaving the context, so that records
+    still waiting in the threaded handlers are written out.
+    """
+    def __exit__(self, exc_type, exc_value, tb):
+        super().__exit__(exc_type, exc_value, tb)
+        for handler in reversed(self.objects):
+            handler.close()
+
+
 def log_handler(args, thread_wrapping=True):
     """
     Return log handler with given config
@@ -68,7 +79,7 @@ def log_handler(args, thread_wrapping=True):
             file_handler = ThreadedWrapperHandler(file_handler)
             stderr_handler = ThreadedWrapperHandler(stderr_handler)
 
-    return NestedSetup([
+    return ClosingNestedSetup([
         NullHandler(),  # catch everything else
         file_handler, stderr_handler
     ])
-- 
2.43.0


From eef2c5227c642fbdcb3f7aa79b2d1a0500a5d783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 35/53] fix: an unknown sonic method fails before a file is
 created

---
 src/disc_solver/solve/__init__.py | 7 ++++---
 src/disc_solver/solve/resolve.py  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/disc_solver/solve/__init__.py b/src/disc_solver/solve/__init__.py
index 4339227..4ffa2ac 100644
--- a/src/disc_solver/solve/__init__.py
+++ b/src/disc_solver/solve/__init__.py
@@ -46,6 +46,10 @@ def solve(
     """
     Main function to generate solution
     """
+    sonic_solver = SONIC_METHOD_MAP.get(sonic_method)
+    if sonic_solver is None:
+        raise SolverError("No method chosen to cross sonic point")
+
     config_input = get_input_from_conffile(
         config_file=config_file, overrides=overrides
     )
@@ -65,9 +69,6 @@ def solve(
 
     with h5open(output_file, registries, mode='x') as f:
         f["run"] = run
-        sonic_solver = SONIC_METHOD_MAP.get(sonic_method)
-        if sonic_solver is None:
-            raise SolverError("No method chosen to cross sonic point")
         succeeded = sonic_solver(
             soln_input, run,
             store_internal=store_internal, **kwargs
diff --git a/src/disc_solver/solve/resolve.py b/src/disc_solver/solve/resolve.py
index 6480933..b2a7b38 100644
--- a/src/disc_solver/solve/resolve.py
+++ b/src/disc_solver/solve/resolve.py
@@ -31,6 +31,10 @@ def resolve(
     """
     Main function to generate solution
     """
+    sonic_solver = SONIC_METHOD_MAP.get(sonic_method)
+    if sonic_solver is None:
+        raise SolverError("No method chosen to cross sonic point")
+
     with h5open(soln_filename, registries, mode='r') as soln_file:
         old_run = soln_file["run"]
         old_solution = get_solutions(old_run, soln_range)
@@ -59,9 +63,6 @@ def resolve(
 
     with h5open(output_file, registries, mode='x') as f:
         f["run"] = run
-        sonic_solver = SONIC_METHOD_MAP.get(sonic_method)
-        if sonic_solver is None:
-            raise SolverError("No method chosen to cross sonic point")
         succeeded = sonic_solver(
             new_soln_input, run, store_internal=store_internal, **kwargs
         )
-- 
2.43.0


From 9aadbf50af6c6a8183d810aa3d5fa3db58552871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:02 +0000
Subject: [PATCH 36/53] fix: an integration range too short to start on is a
 solver failure

It is reported as SolverError like any other failure to integrate, so it only affects the trial or batch entry it happens in.
---
 src/disc_solver/solve/hydrostatic.py | 2 +-
 src/disc_solver/solve/mod_hydro.py   | 2 +-
 src/disc_solver/solve/solution.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disc_solver/solve/hydrostatic.py b/src/disc_solver/solve/hydrostatic.py
index c5c4f4e..8fce6f1 100644
--- a/src/disc_solver/solve/hydrostatic.py
+++ b/src/disc_solver/solve/hydrostatic.py
@@ -605,7 +605,7 @@ def hydrostatic_solution(
             )
         )
         if soln.flag == StatusEnum.TOO_CLOSE:
-            raise e
+            raise SolverError(soln.message) from e
     except CVODESolveFoundRoot as e:
         soln = e.soln
         log.notice("Found root at {}".format(
diff --git a/src/disc_solver/solve/mod_hydro.py b/src/disc_solver/solve/mod_hydro.py
index df3bdf1..8f81bbd 100644
--- a/src/disc_solver/solve/mod_hydro.py
+++ b/src/disc_solver/solve/mod_hydro.py
@@ -657,7 +657,7 @@ def mod_hydro_solution(
             )
         )
         if soln.flag == StatusEnum.TOO_CLOSE:
-            raise e
+            raise SolverError(soln.message) from e
     except CVODESolveFoundRoot as e:
         soln = e.soln
         log.notice("Found root at {}".format(
diff --git a/src/disc_solver/solve/solution.py b/src/disc_solver/solve/solution.py
index e89a09e..efdc265 100644
--- a/src/disc_solver/solve/solution.py
+++ b/src/disc_solver/solve/solution.py
@@ -581,7 +581,7 @@ def main_solution(
             )
         )
         if soln.flag == StatusEnum.TOO_CLOSE:
-            raise e
+            raise SolverError(soln.message) from e
     except CVODESolveFoundRoot as e:
         soln = e.soln
         log.notice("Found root at {}".format(
-- 
2.43.0


From 305acccc30cda5d86a24f3fb929e7fc270de309a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:52 +0000
Subject: [PATCH 37/53] fix: the flow file command passed an option only the
 plot has

ds-flow-file failed with a TypeError whatever it was given.
---
 src/disc_solver/analyse/trajectory.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/disc_solver/analyse/trajectory.py b/src/disc_solver/analyse/trajectory.py
index fec9190..1aaa97d 100644
--- a/src/disc_solver/analyse/trajectory.py
+++ b/src/disc_solver/analyse/trajectory.py
@@ -133,10 +133,6 @@ def trajectory_parser(parser):
     parser.add_argument(
         "--B-step-scaling", type=float, default=DEFAULT_B_STEP_SCALING,
     )
-    parser.add_argument(
-        "--no-max-v-angle", action='store_false', dest="with_max_v_angle",
-        default=True
-    )
     return parser
 
 
@@ -145,6 +141,10 @@ def plot_parser(parser):
     Add arguments for plot command to parser
     """
     trajectory_parser(parser)
+    parser.add_argument(
+        "--no-max-v-angle", action='store_false', dest="with_max_v_angle",
+        default=True
+    )
     common_plot_appearence_options(parser)
     common_output_plot_options(parser)
     return parser
@@ -163,7 +163,7 @@ def trajectory_output_parser(parser):
 
 def get_args(args):
     """
-    Parse plot args
+    Parse trajectory args
     """
     v_start_position = args.get("v_start_position")
     if v_start_position is None:
@@ -185,7 +185,6 @@ def get_args(args):
     v_step_scaling = args.get("v_step_scaling", DEFAULT_V_STEP_SCALING)
     B_max_steps = args.get("B_max_steps", DEFAULT_B_MAX_STEPS)
     B_step_scaling = args.get("B_step_scaling", DEFAULT_B_STEP_SCALING)
-    with_max_v_angle = args.get("with_max_v_angle")
 
     return {
         "v_start_position": v_start_position,
@@ -194,7 +193,16 @@ def get_args(args):
         "B_start_position": B_start_position,
         "B_max_steps": B_max_steps,
         "B_step_scaling": B_step_scaling,
-        "with_max_v_angle": with_max_v_angle,
+    }
+
+
+def get_plot_args(args):
+    """
+    Parse plot args
+    """
+    return {
+        **get_args(args),
+        "with_max_v_angle": args["with_max_v_angle"],
     }
 
 
@@ -316,7 +324,7 @@ def save_trajectory(
     cmd_parser_splitters={
         "common_plot_output_args": get_common_plot_output_args,
         "common_plot_appearence_args": get_common_plot_appearence_args,
-        "plot_args": get_args,
+        "plot_args": get_plot_args,
     }
 )
 def plot_main(
-- 
2.43.0


From 06ec8b9f26adc6d47b76474773ddaa2675acb75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:04 +0000
Subject: [PATCH 38/53] fix: a path starting beyond the solution is empty
 rather than a TypeError

---
 src/disc_solver/analyse/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/analyse/trajectory.py b/src/disc_solver/analyse/trajectory.py
index 1aaa97d..f8c86a4 100644
--- a/src/disc_solver/analyse/trajectory.py
+++ b/src/disc_solver/analyse/trajectory.py
@@ -65,7 +65,7 @@ def follow_trajectory(
     # Using 0 means that no change will happen on the first scaling if there is
     # an error
     prev_vals = 0
-    prev_pos = 0
+    prev_pos = pos
     for step in range(max_steps):
         try:
             vals = compute_values(
-- 
2.43.0


From 1fb1afeb193cf534f9a5c63efa1cdb7905a7190a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:04 +0000
Subject: [PATCH 39/53] fix: a path has no point twice where its steps become
 smaller

---
 src/disc_solver/analyse/trajectory.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/disc_solver/analyse/trajectory.py b/src/disc_solver/analyse/trajectory.py
index f8c86a4..487af4f 100644
--- a/src/disc_solver/analyse/trajectory.py
+++ b/src/disc_solver/analyse/trajectory.py
@@ -89,15 +89,11 @@ def follow_trajectory(
             except IndexError:
                 print("Errored at step with new scaling, stopping", step, pos)
                 break
-            prev_vals = vals
-            prev_pos = pos
-            yield vals, pos
-        else:
-            prev_vals = vals
-            prev_pos = pos
-            yield vals, pos
-            # Add in scaling by r^2 to allow for bigger steps
-            pos = pos + step_scaling * vals
+        prev_vals = vals
+        prev_pos = pos
+        yield vals, pos
+        # Add in scaling by r^2 to allow for bigger steps
+        pos = pos + step_scaling * vals
 
 
 def get_trajectory(
-- 
2.43.0


From f581aa331015896a391c76188da27f2523bc228d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:13 +0000
Subject: [PATCH 40/53] fix: get_closest_value_sorted picks the closest value,
 not the next one

---
 src/disc_solver/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index 13cdf83..fd004b5 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -465,4 +465,7 @@ def get_closest_value_sorted(*, xs, ys, x):
 
     `xs` must be sorted, `ys` does not.
     """
-    return ys[searchsorted(xs, x)]
+    index = searchsorted(xs, x)
+    if 0 < index < len(xs) and x - xs[index - 1] < xs[index] - x:
+        index -= 1
+    return ys[index]
-- 
2.43.0


From 7d00620b191dc9fb2b9bc1b5e2dcf6fb9a52a015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:56 +0000
Subject: [PATCH 41/53] =?UTF-8?q?fix:=20the=20third-order=20start=20of=20t?=
 =?UTF-8?q?he=20polar=20velocity=20is=20the=20one=20of=20v=5F=CE=B8,=20not?=
 =?UTF-8?q?=20of=20v=5F=CF=86?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

get_taylor_third_order stored the third-order coefficient of the azimuthal
velocity in the place of the polar velocity's.
---
 src/disc_solver/solve/deriv_midplane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/deriv_midplane.py b/src/disc_solver/solve/deriv_midplane.py
index 2211ed7..75b3a3a 100644
--- a/src/disc_solver/solve/deriv_midplane.py
+++ b/src/disc_solver/solve/deriv_midplane.py
@@ -420,7 +420,7 @@ def get_taylor_third_order(
 
     third_order[ODEIndex.B_r] = derivs[ODEIndex.B_r]
     third_order[ODEIndex.B_φ] = derivs[ODEIndex.B_φ]
-    third_order[ODEIndex.v_θ] = derivs[ODEIndex.v_φ]
+    third_order[ODEIndex.v_θ] = derivs[ODEIndex.v_θ]
     log.debug("Third order taylor {}".format(third_order))
 
     return third_order
-- 
2.43.0


From 1d9e9b6d81e2c19652e107f45d1ca97d934ac07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:56 +0000
Subject: [PATCH 42/53] fix: the sign of the poloidal terms in Z_5'' at the
 midplane
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Z_5 = η_O + η_A (1 - b_r^2) + C (η_H b_θ + η_A b_r b_φ): its second derivative
has -2 η_A b_r'^2 and +2 C η_A b_r' b_φ'.
---
 src/disc_solver/solve/deriv_midplane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/solve/deriv_midplane.py b/src/disc_solver/solve/deriv_midplane.py
index 75b3a3a..8025e16 100644
--- a/src/disc_solver/solve/deriv_midplane.py
+++ b/src/disc_solver/solve/deriv_midplane.py
@@ -57,8 +57,8 @@ def dderiv_Z_5_midplane(
     """
     Compute Z_5'' at the midplane
     """
-    return dderiv_η_P - 2 * η_A * deriv_b_φ ** 2 + deriv_A * η_H + C * (
-        dderiv_η_H + η_H * dderiv_b_θ - 2 * η_A * deriv_b_r * deriv_b_φ
+    return dderiv_η_P - 2 * η_A * deriv_b_r ** 2 + deriv_A * η_H + C * (
+        dderiv_η_H + η_H * dderiv_b_θ + 2 * η_A * deriv_b_r * deriv_b_φ
     )
 
 
-- 
2.43.0


From 6c97c681a590e44ab4c2006ad20a76eeefd5d4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:56 +0000
Subject: [PATCH 43/53] fix: Y_1 has the whole of the advection of the radial
 velocity
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The radial momentum equation at the midplane has γ (1 - 4 γ) v_r^2, not half
of it.
---
 src/disc_solver/solve/deriv_midplane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/deriv_midplane.py b/src/disc_solver/solve/deriv_midplane.py
index 8025e16..8b9a043 100644
--- a/src/disc_solver/solve/deriv_midplane.py
+++ b/src/disc_solver/solve/deriv_midplane.py
@@ -68,7 +68,7 @@ def Y_1_func(*, v_r, v_φ, deriv_B_r, deriv_B_φ, γ, a_0):
     """
     return v_φ ** 2 + a_0 * (
         deriv_B_r * (1/4 - γ + deriv_B_r) + deriv_B_φ ** 2
-    ) - v_r ** 2 * γ * (1 - 4 * γ) / 2
+    ) - v_r ** 2 * γ * (1 - 4 * γ)
 
 
 def Y_2_func(
-- 
2.43.0


From 087d6ec9a69881becd489da761750d5848ad97c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:56 +0000
Subject: [PATCH 44/53] fix: Y_4 is complete
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The tension of the toroidal field (B_θ = 1 at the midplane) was missing, and the
advection was half of what it is.
---
 src/disc_solver/solve/deriv_midplane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/solve/deriv_midplane.py b/src/disc_solver/solve/deriv_midplane.py
index 8b9a043..f12f207 100644
--- a/src/disc_solver/solve/deriv_midplane.py
+++ b/src/disc_solver/solve/deriv_midplane.py
@@ -110,8 +110,8 @@ def Y_4_func(*, a_0, v_r, v_φ, deriv_B_r, deriv_B_φ, γ, Y_2, Y_1):
     Compute Y_4
     """
     return 2 * a_0 * (
-        Y_2 - deriv_B_φ * (deriv_B_r * (5/4 - γ) - Y_1)
-    ) - 4 * γ * v_r * v_φ
+        Y_2 - deriv_B_φ * (deriv_B_r * (5/4 - γ) + 1 - Y_1)
+    ) - 8 * γ * v_r * v_φ
 
 
 def Y_5_func(*, a_0, v_r, γ, Z_5):
-- 
2.43.0


From 4112054987cbf2c481e793a5d986e57b66356be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:56 +0000
Subject: [PATCH 45/53] =?UTF-8?q?fix:=20the=20slope=20of=20B=5F=CF=86=20wi?=
 =?UTF-8?q?th=20E=5Fr=20as=20a=20variable=20follows=20from=20E=5Fr?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The C terms had the wrong sign, and the denominator was the one of the system
without E_r.
---
 src/disc_solver/solve/deriv_funcs.py | 8 +++++---
 src/disc_solver/solve/solution.py    | 7 ++-----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/disc_solver/solve/deriv_funcs.py b/src/disc_solver/solve/deriv_funcs.py
index 77e0ac8..9a0e991 100644
--- a/src/disc_solver/solve/deriv_funcs.py
+++ b/src/disc_solver/solve/deriv_funcs.py
@@ -21,7 +21,7 @@ def Z_5_func(*, η_O, η_A, η_H, b_r, b_θ, b_φ, C):
 
 def deriv_B_φ_func(
     *, θ, γ, B_r, B_θ, B_φ, v_r, v_φ, v_θ, η_O, η_A, η_H, E_r, b_r, b_φ, b_θ,
-    C, Z_5, tan=np_tan,
+    C, tan=np_tan,
 ):
     """
     Compute the derivative of B_φ, assuming E_r is being used
@@ -30,7 +30,7 @@ def deriv_B_φ_func(
         C * (v_θ * B_r - v_r * B_θ) - E_r - v_φ * B_θ + B_φ * (
             v_θ + tan(θ) * (η_O + η_A * (1 - b_r ** 2)) + (1 / 4 - γ) * (
                 η_H * b_φ + η_A * b_r * b_θ
-            ) - C * (
+            ) + C * (
                 η_A * b_φ * (
                     b_r * tan(θ) -
                     b_θ * (1/4 - γ)
@@ -40,7 +40,9 @@ def deriv_B_φ_func(
                 )
             )
         )
-    ) / Z_5
+    ) / (
+        η_O + η_A * (1 - b_r ** 2) + C * (η_H * b_θ + η_A * b_r * b_φ)
+    )
 
 
 def deriv_B_r_func(
diff --git a/src/disc_solver/solve/solution.py b/src/disc_solver/solve/solution.py
index efdc265..846473e 100644
--- a/src/disc_solver/solve/solution.py
+++ b/src/disc_solver/solve/solution.py
@@ -20,7 +20,7 @@ from scikits.odes.sundials.cvode import StatusEnum
 
 from .deriv_funcs import (
     dderiv_B_φ_soln, deriv_B_r_func, deriv_η_skw_func, deriv_B_φ_func,
-    deriv_E_r_func, C_func, A_func, Z_5_func, B_unit_derivs,
+    deriv_E_r_func, C_func, A_func, B_unit_derivs,
 )
 from .deriv_midplane import (
     taylor_series, get_taylor_first_order, get_taylor_second_order,
@@ -147,15 +147,12 @@ def ode_system(
         b_r, b_φ, b_θ = B_r/B_mag, B_φ/B_mag, B_θ/B_mag
 
         C = C_func(η_O=η_O, η_A=η_A, η_H=η_H, b_θ=b_θ, b_r=b_r, b_φ=b_φ)
-        Z_5 = Z_5_func(
-            η_O=η_O, η_A=η_A, η_H=η_H, b_r=b_r, b_θ=b_θ, b_φ=b_φ, C=C,
-        )
 
         if use_E_r:
             deriv_B_φ = deriv_B_φ_func(
                 θ=θ, γ=γ, B_r=B_r, B_θ=B_θ, B_φ=B_φ, v_r=v_r, v_φ=v_φ, v_θ=v_θ,
                 η_O=η_O, η_A=η_A, η_H=η_H, E_r=E_r, b_θ=b_θ, b_r=b_r, b_φ=b_φ,
-                C=C, Z_5=Z_5,
+                C=C,
             )
         else:
             deriv_B_φ = B_φ_prime
-- 
2.43.0


From d3eea8690b283a2f8e5f9a23b6f52bee441d3190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:56 +0000
Subject: [PATCH 46/53] =?UTF-8?q?fix:=20the=20Taylor=20search=20does=20not?=
 =?UTF-8?q?=20exchange=20=CE=B7=5FA=20and=20=CE=B7=5FH?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/disc_solver/solve/taylor_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/solve/taylor_space.py b/src/disc_solver/solve/taylor_space.py
index 6b9ebcc..2adebad 100644
--- a/src/disc_solver/solve/taylor_space.py
+++ b/src/disc_solver/solve/taylor_space.py
@@ -135,8 +135,8 @@ def solution_input_generator(
             v_a_on_c_s=v_a_on_c_s[i],
             c_s_on_v_k=c_s_on_v_k[i],
             η_O=η_O,
-            η_H=η_A,
-            η_A=η_H,
+            η_A=η_A,
+            η_H=η_H,
         )
 
 
-- 
2.43.0


From 3f3ab7b0292cadaca0d5f43427537e2c61a343c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:56 +0000
Subject: [PATCH 47/53] fix: the polar induction check has the signs of the
 equation

---
 src/disc_solver/analyse/validate_plot.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/disc_solver/analyse/validate_plot.py b/src/disc_solver/analyse/validate_plot.py
index e28b831..903900f 100644
--- a/src/disc_solver/analyse/validate_plot.py
+++ b/src/disc_solver/analyse/validate_plot.py
@@ -348,15 +348,15 @@ def validate_polar_induction(initial_conditions, values):
             values.B_θ * (1 - initial_conditions.β) - values.deriv.B_r
         ) * (
             values.η_O + values.η_A * (1 - values.norm_B_φ**2)
-        ) + values.deriv.B_φ * (
-            values.η_H * values.norm_B_θ -
+        ) - values.deriv.B_φ * (
+            values.η_H * values.norm_B_θ +
             values.η_A * values.norm_B_r * values.norm_B_φ
         ) + values.B_φ * (
             values.η_H * (
-                values.norm_B_r * (1 - initial_conditions.β) -
-                values.norm_B_θ * tan(values.angles)
-            ) - values.η_A * values.norm_B_φ * (
-                values.norm_B_θ * (1 - initial_conditions.β) -
+                values.norm_B_θ * tan(values.angles) -
+                values.norm_B_r * (1 - initial_conditions.β)
+            ) + values.η_A * values.norm_B_φ * (
+                values.norm_B_θ * (1 - initial_conditions.β) +
                 values.norm_B_r * tan(values.angles)
             )
         )
-- 
2.43.0


From e7f2aa4c41f666d5909cd77f7120089f92a310c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:56 +0000
Subject: [PATCH 48/53] fix: the radial terms of component_plot are those of
 the equation

The radial momentum equation has v_r^2 / 2.
---
 src/disc_solver/analyse/component_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/analyse/component_plot.py b/src/disc_solver/analyse/component_plot.py
index a685195..a348277 100644
--- a/src/disc_solver/analyse/component_plot.py
+++ b/src/disc_solver/analyse/component_plot.py
@@ -161,7 +161,7 @@ def compute_components(soln, indexes, angles):
 
     components = {
         "radial momentum": {
-            "radial terms": v_r ** 2 + v_θ ** 2 + 5 / 2 - 2 * γ,
+            "radial terms": v_r ** 2 / 2 + v_θ ** 2 + 5 / 2 - 2 * γ,
             "keplerian terms": (v_φ - norm_kepler) * (v_φ + norm_kepler),
             "magnetic terms": (
                 a_0 / ρ * (B_θ * deriv_B_r + (1/4 - γ) * (B_θ ** 2 + B_φ ** 2))
-- 
2.43.0


From 27517059be335827a69ad82f8dfaf3cd5f9bca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:56 +0000
Subject: [PATCH 49/53] fix: taylor_plot converts its angles to degrees once

---
 src/disc_solver/analyse/taylor_plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disc_solver/analyse/taylor_plot.py b/src/disc_solver/analyse/taylor_plot.py
index 3dea2c7..3e6b5f1 100644
--- a/src/disc_solver/analyse/taylor_plot.py
+++ b/src/disc_solver/analyse/taylor_plot.py
@@ -155,15 +155,15 @@ def generate_taylor_plot(
         )
     else:
         axes[0].plot(
-            degrees(deriv_angles),
+            deriv_angles,
             np.abs(v_r_normal / v_r_taylor), '.'
         )
         axes[1].plot(
-            degrees(deriv_angles),
+            deriv_angles,
             np.abs(v_φ_normal / v_φ_taylor), '.'
         )
         axes[2].plot(
-            degrees(deriv_angles),
+            deriv_angles,
             np.abs(ρ_normal / ρ_taylor), '.'
         )
 
-- 
2.43.0


From df849400bc6ffb1efc36a5098213a48e1f02d41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:08 +0000
Subject: [PATCH 50/53] fix: modified hydrostatic discs with E_r fulfil Ohm's
 law
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The Hall and ambipolar terms with C had the wrong sign, and the coefficient of
B_φ' was the one of the system without E_r, so the velocities and the slope of
B_φ were not those for which the electric field is E_r.
---
 src/disc_solver/solve/mod_hydro.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/disc_solver/solve/mod_hydro.py b/src/disc_solver/solve/mod_hydro.py
index 8f81bbd..471c02a 100644
--- a/src/disc_solver/solve/mod_hydro.py
+++ b/src/disc_solver/solve/mod_hydro.py
@@ -192,6 +192,13 @@ def Z_7_func(*, a_0, X, v_r, B_θ, ρ, Z_5, norm_kepler, C, v_φ, Z_4):
     )
 
 
+def Z_5_E_r_func(*, η_O, η_A, η_H, b_r, b_θ, b_φ, C):
+    """
+    Compute the value of the variable Z_5 when E_r is being used
+    """
+    return η_O + η_A * (1 - b_r ** 2) + C * (η_H * b_θ + η_A * b_r * b_φ)
+
+
 def Z_8_func(*, θ, b_r, b_θ, b_φ, B_φ, η_O, η_A, η_H, E_r, Z_5, C):
     """
     Compute the value of the variable Z_8
@@ -200,7 +207,7 @@ def Z_8_func(*, θ, b_r, b_θ, b_φ, B_φ, η_O, η_A, η_H, E_r, Z_5, C):
         - E_r + B_φ * (
             tan(θ) * (η_O + η_A * (1 - b_r ** 2)) + (
                 η_H * b_φ + η_A * b_r * b_θ
-            ) / 4 - C * (
+            ) / 4 + C * (
                 η_A * b_φ * (
                     b_r * tan(θ) - b_θ / 4
                 ) + η_H * (
@@ -340,7 +347,7 @@ def fix_solution(
 
         C = C_func(η_O=η_O, η_A=η_A, η_H=η_H, b_θ=b_θ, b_r=b_r, b_φ=b_φ)
         X = X_func(η_O=η_O, η_A=η_A, η_H=η_H, b_θ=b_θ, b_r=b_r, b_φ=b_φ)
-        Z_5 = Z_5_func(
+        Z_5 = Z_5_E_r_func(
             η_O=η_O, η_A=η_A, η_H=η_H, b_r=b_r, b_θ=b_θ, b_φ=b_φ, C=C
         )
         Z_8 = Z_8_func(
@@ -428,7 +435,8 @@ def ode_system(
 
         C = C_func(η_O=η_O, η_A=η_A, η_H=η_H, b_θ=b_θ, b_r=b_r, b_φ=b_φ)
         X = X_func(η_O=η_O, η_A=η_A, η_H=η_H, b_θ=b_θ, b_r=b_r, b_φ=b_φ)
-        Z_5 = Z_5_func(
+        Z_5_variant = Z_5_E_r_func if use_E_r else Z_5_func
+        Z_5 = Z_5_variant(
             η_O=η_O, η_A=η_A, η_H=η_H, b_r=b_r, b_θ=b_θ, b_φ=b_φ, C=C
         )
 
-- 
2.43.0


From c274d13fe0dda5b4fea888611abb83b069070d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:28 +0000
Subject: [PATCH 51/53] =?UTF-8?q?fix:=20params=5Fplot=20takes=20the=20Kepl?=
 =?UTF-8?q?erian=20velocity=20off=20v=5F=CF=86,=20as=20its=20title=20says?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/disc_solver/analyse/params_plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/analyse/params_plot.py b/src/disc_solver/analyse/params_plot.py
index 577d97d..449c48d 100644
--- a/src/disc_solver/analyse/params_plot.py
+++ b/src/disc_solver/analyse/params_plot.py
@@ -85,7 +85,8 @@ def generate_params_plot(
     for i, settings in enumerate(param_names):
         ax = axes[i]
         plot_log_lines(
-            ax, degrees(param_angles[indexes]), params[indexes, i], linestyle
+            ax, degrees(param_angles[indexes]),
+            params[indexes, i] - settings.get("offset", 0), linestyle
         )
         ax.set_xlabel("angle from plane (°)")
         ax.set_title(settings["name"])
-- 
2.43.0


From 67d27cae1073000c4a7cdaf8dfe07e189767f065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:49 +0000
Subject: [PATCH 52/53] fix: compare_plot names the radial electric field of
 solutions using E_r

---
 src/disc_solver/analyse/compare_plot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/analyse/compare_plot.py b/src/disc_solver/analyse/compare_plot.py
index 2d0f5ad..4d91fba 100644
--- a/src/disc_solver/analyse/compare_plot.py
+++ b/src/disc_solver/analyse/compare_plot.py
@@ -93,7 +93,9 @@ def generate_plot(
 
         indexes = (start <= degrees(angles)) & (degrees(angles) <= stop)
 
-        ordering = PlotOrdering.E_r if use_E_r else PlotOrdering.B_φ_prime
+        ordering = PlotOrdering.E_r if (
+            use_E_r or soln.solution_input.use_E_r
+        ) else PlotOrdering.B_φ_prime
 
         param_names = get_common_arguments(
             ordering, v_θ_scale=v_θ_scale, initial_conditions=cons
-- 
2.43.0


From 02c2bcad3f75f4ce71a11f725e5a80eec38b3ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:47 +0000
Subject: [PATCH 53/53] fix: the worst misfit of an equation is the one of
 largest magnitude

---
 src/disc_solver/analyse/stats.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/disc_solver/analyse/stats.py b/src/disc_solver/analyse/stats.py
index 98d63e1..43aa268 100644
--- a/src/disc_solver/analyse/stats.py
+++ b/src/disc_solver/analyse/stats.py
@@ -9,7 +9,7 @@ from sys import stdin, exc_info
 import logbook
 from logbook.compat import redirected_warnings, redirected_logging
 
-from numpy import degrees, nanargmax, nanmax, sqrt, nan
+from numpy import absolute, degrees, nanargmax, nanmax, sqrt, nan
 
 from h5preserve import open as h5open
 
@@ -69,27 +69,27 @@ def compute_max_difference_in_equations(solution):
     """
     values = get_values(solution)
     return {
-        "max_diff_continuity": max(validate_continuity(
+        "max_diff_continuity": max(absolute(validate_continuity(
             values.initial_conditions, values
-        )),
-        "max_diff_solenoid": max(validate_solenoid(
+        ))),
+        "max_diff_solenoid": max(absolute(validate_solenoid(
             values.initial_conditions, values
-        )),
-        "max_diff_radial_momentum": max(validate_radial_momentum(
+        ))),
+        "max_diff_radial_momentum": max(absolute(validate_radial_momentum(
             values.initial_conditions, values
-        )),
-        "max_diff_azimuthal_momentum": max(validate_azimuthal_mometum(
+        ))),
+        "max_diff_azimuthal_momentum": max(absolute(validate_azimuthal_mometum(
             values.initial_conditions, values
-        )),
-        "max_diff_polar_momentum": max(validate_polar_momentum(
+        ))),
+        "max_diff_polar_momentum": max(absolute(validate_polar_momentum(
             values.initial_conditions, values
-        )),
-        "max_diff_polar_induction": max(validate_polar_induction(
+        ))),
+        "max_diff_polar_induction": max(absolute(validate_polar_induction(
             values.initial_conditions, values
-        )),
-        "max_diff_E_φ": max(validate_E_φ(
+        ))),
+        "max_diff_E_φ": max(absolute(validate_E_φ(
             values.initial_conditions, values
-        )),
+        ))),
     }
 
 
-- 
2.43.0

