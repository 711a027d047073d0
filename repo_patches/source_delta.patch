From 8debcea8c65273c5ee9aff9542c7446d68f6ebf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 01/41] =?UTF-8?q?fix:=20use=20third=20derivative=20of=20v?=
 =?UTF-8?q?=5F=CE=B8=20(not=20second=20of=20v=5F=CF=86)=20in=20taylor=20se?=
 =?UTF-8?q?ries?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/disc_solver/solve/deriv_midplane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/deriv_midplane.py b/src/disc_solver/solve/deriv_midplane.py
index 2211ed7..75b3a3a 100644
--- a/src/disc_solver/solve/deriv_midplane.py
+++ b/src/disc_solver/solve/deriv_midplane.py
@@ -420,7 +420,7 @@ def get_taylor_third_order(
 
     third_order[ODEIndex.B_r] = derivs[ODEIndex.B_r]
     third_order[ODEIndex.B_φ] = derivs[ODEIndex.B_φ]
-    third_order[ODEIndex.v_θ] = derivs[ODEIndex.v_φ]
+    third_order[ODEIndex.v_θ] = derivs[ODEIndex.v_θ]
     log.debug("Third order taylor {}".format(third_order))
 
     return third_order
-- 
2.43.0


From b9521b4012a068f83357bc10de58a4e45466c594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 02/41] =?UTF-8?q?fix:=20drop=20spurious=20factor=20of=20a?=
 =?UTF-8?q?=20half=20in=20second=20derivative=20of=20=CF=81=20at=20midplan?=
 =?UTF-8?q?e?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/disc_solver/solve/deriv_midplane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/deriv_midplane.py b/src/disc_solver/solve/deriv_midplane.py
index 75b3a3a..c9a67fe 100644
--- a/src/disc_solver/solve/deriv_midplane.py
+++ b/src/disc_solver/solve/deriv_midplane.py
@@ -68,7 +68,7 @@ def Y_1_func(*, v_r, v_φ, deriv_B_r, deriv_B_φ, γ, a_0):
     """
     return v_φ ** 2 + a_0 * (
         deriv_B_r * (1/4 - γ + deriv_B_r) + deriv_B_φ ** 2
-    ) - v_r ** 2 * γ * (1 - 4 * γ) / 2
+    ) - v_r ** 2 * γ * (1 - 4 * γ)
 
 
 def Y_2_func(
-- 
2.43.0


From 5b17ddad6f5fc37e697ce24bbfd760244dd9ec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 03/41] =?UTF-8?q?fix:=20sign=20of=20Hall=20term=20in=20B?=
 =?UTF-8?q?=5F=CF=86'=20when=20using=20E=5Fr?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/disc_solver/solve/deriv_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/deriv_funcs.py b/src/disc_solver/solve/deriv_funcs.py
index 77e0ac8..9d6b542 100644
--- a/src/disc_solver/solve/deriv_funcs.py
+++ b/src/disc_solver/solve/deriv_funcs.py
@@ -30,7 +30,7 @@ def deriv_B_φ_func(
         C * (v_θ * B_r - v_r * B_θ) - E_r - v_φ * B_θ + B_φ * (
             v_θ + tan(θ) * (η_O + η_A * (1 - b_r ** 2)) + (1 / 4 - γ) * (
                 η_H * b_φ + η_A * b_r * b_θ
-            ) - C * (
+            ) + C * (
                 η_A * b_φ * (
                     b_r * tan(θ) -
                     b_θ * (1/4 - γ)
-- 
2.43.0


From 54d69b015b747968dd69ce6be7414c5b5163964b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 04/41] fix: do not modify the input of a stored solution when
 stepping

---
 src/disc_solver/solve/fast_crosser.py | 2 +-
 src/disc_solver/solve/stepper.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/solve/fast_crosser.py b/src/disc_solver/solve/fast_crosser.py
index 7715080..1e9a4b4 100644
--- a/src/disc_solver/solve/fast_crosser.py
+++ b/src/disc_solver/solve/fast_crosser.py
@@ -71,7 +71,7 @@ def stepper_creator(soln_writer, *, step_size, solution_input):
         """
         nonlocal phase
         soln_writer(soln, attempt)
-        inp_dict = vars(soln.solution_input)
+        inp_dict = dict(vars(soln.solution_input))
         current_v_r = inp_dict["v_rin_on_c_s"]
         current_quality = compute_quality(soln)
         log.notice("v_r is {}", current_v_r)
diff --git a/src/disc_solver/solve/stepper.py b/src/disc_solver/solve/stepper.py
index 23ed565..a4218bf 100644
--- a/src/disc_solver/solve/stepper.py
+++ b/src/disc_solver/solve/stepper.py
@@ -279,7 +279,7 @@ def step_input():
         """
         Return new input
         """
-        inp_dict = vars(soln.solution_input)
+        inp_dict = dict(vars(soln.solution_input))
         prev_γ = inp_dict["γ"]
         if soln_type == SplitterStatus.DIVERGE:
             inp_dict["γ"] -= step_size
-- 
2.43.0


From 17a8b06ce5388c54cfd9e4900a027d75c5d836f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 05/41] fix: start golden-section search inside the limits
 found

---
 src/disc_solver/solve/fast_crosser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/fast_crosser.py b/src/disc_solver/solve/fast_crosser.py
index 1e9a4b4..f9c55d6 100644
--- a/src/disc_solver/solve/fast_crosser.py
+++ b/src/disc_solver/solve/fast_crosser.py
@@ -120,7 +120,7 @@ def stepper_creator(soln_writer, *, step_size, solution_input):
             # golden ratio
             return SolutionInput(**get_next_input(
                 inp_dict, limits["min"] + (
-                    (limits["min"] - limits["max"]) / (GOLDEN_RATIO - 1)
+                    (limits["max"] - limits["min"]) * (GOLDEN_RATIO - 1)
                 )
             ))
         if phase == Phase.BISECTING:
-- 
2.43.0


From b336cadc3eb8966f78d635f54ea92f3e5085608c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 06/41] fix: report failure from fast_crosser if no solutions
 were found

---
 src/disc_solver/solve/fast_crosser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/fast_crosser.py b/src/disc_solver/solve/fast_crosser.py
index f9c55d6..61403ad 100644
--- a/src/disc_solver/solve/fast_crosser.py
+++ b/src/disc_solver/solve/fast_crosser.py
@@ -227,8 +227,10 @@ def solver(
     if not isinstance(run.final_solution, Solution):
         if isinstance(best_solution, Solution):
             run.final_solution = best_solution
-        else:
+        elif len(run.solutions) > 0:
             run.final_solution = run.solutions.get_last_solution()
+        else:
+            run.final_solution = None
 
     if run.final_solution is None:
         # This implies there were no solutions found
-- 
2.43.0


From a134d14ea2b8c87999b2998da2073aecce8b3227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 07/41] fix: name of success flag in sonic_root

---
 src/disc_solver/solve/sonic_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/sonic_root.py b/src/disc_solver/solve/sonic_root.py
index ddffd0d..4458d65 100644
--- a/src/disc_solver/solve/sonic_root.py
+++ b/src/disc_solver/solve/sonic_root.py
@@ -232,7 +232,7 @@ def write_solution(run, initial_solution, sonic_solution):
         logger.warn("Sonic solution failed with flag {}".format(
             sonic_solution.flag.name
         ))
-    elif sonic_solution.flag != StatusFlag.SUCESS:
+    elif sonic_solution.flag != StatusFlag.SUCCESS:
         logger.info("Sonic solution ended with flag {}".format(
             sonic_solution.flag.name
         ))
-- 
2.43.0


From 15767c4c02dd638132f25a7849adda22ba678042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 08/41] fix: do not modify midplane initial conditions in
 sonic_root

---
 src/disc_solver/solve/sonic_root.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disc_solver/solve/sonic_root.py b/src/disc_solver/solve/sonic_root.py
index 4458d65..dfa59cd 100644
--- a/src/disc_solver/solve/sonic_root.py
+++ b/src/disc_solver/solve/sonic_root.py
@@ -187,6 +187,7 @@ def total_vars_to_mod_cons(*, initial_conditions, guess, sonic_stop):
     """
     θ_sonic = guess[TotalVars.θ_sonic]
     mod_cons = InitialConditions(**vars(initial_conditions))
+    mod_cons.init_con = mod_cons.init_con.copy()
     mod_cons.angles = linspace(
         θ_sonic, sonic_stop, len(initial_conditions.angles)
     )
-- 
2.43.0


From 5ecc9b3f45acd6710667e4c2277241bf6fb50f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 09/41] fix: only interpolate across the crossing in
 interp_for_value

---
 src/disc_solver/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index ecabbe2..81029b3 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -436,8 +436,9 @@ def interp_for_value(*, xs, ys, y, **kwargs):
     if ys[initial_index] == y:
         return xs[initial_index]
     min_index = max(0, initial_index - 1)
-    # Add 2 as we want the next index, plus stop is non-inclusive
-    interp_slice = slice(min_index, initial_index + 2)
+    # Only interpolate between the values either side of y. Add 1 as stop is
+    # non-inclusive
+    interp_slice = slice(min_index, initial_index + 1)
     return interp1d(ys[interp_slice], xs[interp_slice], **kwargs)(y)
 
 
-- 
2.43.0


From 411822a6d53fdb1e0f16a20700429edc354ca20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 10/41] fix: do not leak plot arguments between plots

---
 src/disc_solver/analyse/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/analyse/utils.py b/src/disc_solver/analyse/utils.py
index 114949b..b40077b 100644
--- a/src/disc_solver/analyse/utils.py
+++ b/src/disc_solver/analyse/utils.py
@@ -124,7 +124,7 @@ def get_common_arguments(
     parameters
     """
     params = PLOT_ORDERINGS[ordering]
-    args = [COMMON_ARGUMENTS[param] for param in params]
+    args = [dict(COMMON_ARGUMENTS[param]) for param in params]
 
     if "v_θ" in params:
         args[ODEIndex.v_θ]["scale"] = v_θ_scale
-- 
2.43.0


From 8ea10e1522ca2ac4b437d63cd8077ec1751a8bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 11/41] fix: close file in open_or_stream on errors

---
 src/disc_solver/utils.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index 81029b3..e8f1bde 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -334,18 +334,16 @@ def open_or_stream(filename, *args, **kwargs):
     Passing '-' as the filename uses stdout.
     """
     if filename == '-':
-        file = None
         yield stdout
     elif isinstance(filename, IOBase):
-        file = None
         yield filename
     else:
         # pylint: disable=consider-using-with
         file = open(filename, *args, **kwargs)
-        yield file
-
-    if file is not None:
-        file.close()
+        try:
+            yield file
+        finally:
+            file.close()
 
 
 def main_entry_point_wrapper(description, **kwargs):
-- 
2.43.0


From 4fba4497144b5cadc65c94415651cce8513caad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 12/41] fix: do not hide errors creating pool

---
 src/disc_solver/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index e8f1bde..ee6b391 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -382,8 +382,8 @@ def nicer_mp_pool(*args, **kwargs):
     """
     Wrapper around multiprocessing.Pool - maybe look at forks or alternatives?
     """
+    pool = Pool(*args, **kwargs)  # pylint: disable=consider-using-with
     try:
-        pool = Pool(*args, **kwargs)  # pylint: disable=consider-using-with
         yield pool
     finally:
         # terminate is usually called, which can break stuff if there's a
-- 
2.43.0


From 3a19754d033dd2da9593ca6cfc37faf22f28976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 13/41] =?UTF-8?q?fix:=20do=20not=20swap=20=CE=B7=5FH=20and?=
 =?UTF-8?q?=20=CE=B7=5FA=20in=20taylor=20space?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/disc_solver/solve/taylor_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/solve/taylor_space.py b/src/disc_solver/solve/taylor_space.py
index 6b9ebcc..bc725e2 100644
--- a/src/disc_solver/solve/taylor_space.py
+++ b/src/disc_solver/solve/taylor_space.py
@@ -135,8 +135,8 @@ def solution_input_generator(
             v_a_on_c_s=v_a_on_c_s[i],
             c_s_on_v_k=c_s_on_v_k[i],
             η_O=η_O,
-            η_H=η_A,
-            η_A=η_H,
+            η_H=η_H,
+            η_A=η_A,
         )
 
 
-- 
2.43.0


From c47a88045fc9d4c502b4ef592f5dfb9289797822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 14/41] fix: lookup and deletion in Problems

---
 src/disc_solver/file_format/_containers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index 356d24e..c10a19d 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -363,7 +363,10 @@ class Problems(MutableMapping):
             self._problems[str(key)].extend(val)
 
     def __delitem__(self, key):
-        del self._problems[key]
+        del self._problems[str(key)]
+
+    def __contains__(self, key):
+        return str(key) in self._problems
 
     def __iter__(self):
         yield from self._problems
-- 
2.43.0


From 5d2da68f0b5c270fdd5c998ac6500476eec429d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 15/41] fix: skip NaN before the crossing in interp_for_value

---
 src/disc_solver/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index ee6b391..f4b1f1c 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -433,11 +433,11 @@ def interp_for_value(*, xs, ys, y, **kwargs):
         return None
     if ys[initial_index] == y:
         return xs[initial_index]
-    min_index = max(0, initial_index - 1)
-    # Only interpolate between the values either side of y. Add 1 as stop is
-    # non-inclusive
-    interp_slice = slice(min_index, initial_index + 1)
-    return interp1d(ys[interp_slice], xs[interp_slice], **kwargs)(y)
+    # Only interpolate between the values either side of y, ignoring any NaN
+    # before the crossing (there must be at least one valid value).
+    min_index = (~isnan(ys[:initial_index])).nonzero()[0][-1]
+    interp_indices = [min_index, initial_index]
+    return interp1d(ys[interp_indices], xs[interp_indices], **kwargs)(y)
 
 
 def deduplicate_and_interpolate(x, y, **kwargs):
-- 
2.43.0


From 4023921b125e3b3c9b99b19b0ad8b7eb3548c11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 16/41] fix: detect csv files without a header

---
 src/disc_solver/solve/utils.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/disc_solver/solve/utils.py b/src/disc_solver/solve/utils.py
index 5201d52..3e16167 100644
--- a/src/disc_solver/solve/utils.py
+++ b/src/disc_solver/solve/utils.py
@@ -2,7 +2,7 @@
 """
 Utility function and classes for solver associated code
 """
-from csv import DictReader, Sniffer, get_dialect
+from csv import DictReader, Sniffer, get_dialect, reader as csv_reader
 from multiprocessing import current_process
 from pathlib import Path
 
@@ -190,11 +190,13 @@ def add_labels(seq, *, label=''):
 
 def filter_csv_columns(seq, *, columns):
     """
-    Only pass through specified columns
+    Only pass through specified columns, dropping those which were missing
     """
     new_seq = []
     for d in seq:
-        new_seq.append({k: v for k, v in d.items() if k in columns})
+        new_seq.append({
+            k: v for k, v in d.items() if k in columns and v is not None
+        })
     return new_seq
 
 
@@ -234,9 +236,12 @@ class CSVReaderHelper:
         Checks if csv file has header
         """
         self.file.seek(0)
-        has_header = Sniffer().has_header(next(iter(self)))
+        first_row = next(filter(None, csv_reader(self, dialect="unix")), [])
         self.file.seek(0)
-        return has_header
+        return any(
+            name in CONFIG_FIELDS + SOLUTION_IDENTIFICATION_FIELDS
+            for name in first_row
+        )
 
     def get_dialect(self, *args, lines=5, **kwargs):
         """
-- 
2.43.0


From 625b2e8f0688afa201853b5a63cc2da4db211c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 17/41] fix: keep open ended and missing slices when converting
 to strings

---
 src/disc_solver/file_format/_containers.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index c10a19d..189cede 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -44,17 +44,21 @@ def str_to_slice(slice_str):
         return slice_str
     if slice_str.startswith('slice('):
         return eval(slice_str)  # pylint: disable=eval-used
-    return slice(*[int(i) for i in slice_str.strip().split(',')])
+    return slice(*[
+        None if i == "None" else int(i) for i in slice_str.strip().split(',')
+    ])
 
 
 def slice_to_str(slice_):
     """
     Convert a slice back to a string
     """
-    return ','.join([
-        str(i) for i in (slice_.start, slice_.stop, slice_.step)
-        if i is not None
-    ])
+    if slice_ is None:
+        return "None"
+    parts = [str(slice_.start), str(slice_.stop)]
+    if slice_.step is not None:
+        parts.append(str(slice_.step))
+    return ','.join(parts)
 
 
 def replace_empty_string(string):
-- 
2.43.0


From cbadf7d34a69ed128063537cd4a26079cd8649d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 18/41] fix: do not turn on all mcmc variables if none were
 wanted

---
 src/disc_solver/file_format/_containers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index 189cede..4e8856a 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -733,6 +733,9 @@ class MCMCVars:
             true_vars.append("v_a")
         if self.with_v_k:
             true_vars.append("v_k")
+        if not true_vars:
+            # An empty string would be treated as not having been set
+            return ','
         return ','.join(true_vars)
 
 # pylint: enable=too-few-public-methods
-- 
2.43.0


From 1f78d9ab9ffa7cebbf43ed6ae353f16583ca952c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 19/41] fix: escape % when writing config files

---
 src/disc_solver/file_format/_containers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index 4e8856a..b89a755 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -149,7 +149,8 @@ class ConfigInput:
         cfg["config"]["taylor_stop_angle"] = self.taylor_stop_angle
         cfg["config"]["max_steps"] = self.max_steps
         cfg["config"]["num_angles"] = self.num_angles
-        cfg["config"]["label"] = self.label
+        # Values are interpolated when read
+        cfg["config"]["label"] = self.label.replace("%", "%%")
         cfg["config"]["relative_tolerance"] = self.relative_tolerance
         cfg["config"]["absolute_tolerance"] = self.absolute_tolerance
         cfg["config"]["nwalkers"] = self.nwalkers
-- 
2.43.0


From d092eec00579b02cb3505c08fa57e84bd99683ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 20/41] fix: stop trajectories starting outside the solution

---
 src/disc_solver/analyse/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/analyse/trajectory.py b/src/disc_solver/analyse/trajectory.py
index fec9190..2f953c5 100644
--- a/src/disc_solver/analyse/trajectory.py
+++ b/src/disc_solver/analyse/trajectory.py
@@ -65,7 +65,7 @@ def follow_trajectory(
     # Using 0 means that no change will happen on the first scaling if there is
     # an error
     prev_vals = 0
-    prev_pos = 0
+    prev_pos = pos
     for step in range(max_steps):
         try:
             vals = compute_values(
-- 
2.43.0


From 601bbd2b1221172f38e4fce2d9c94df2051369e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 21/41] fix: do not pass plot only options to save_trajectory

---
 src/disc_solver/analyse/trajectory.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/disc_solver/analyse/trajectory.py b/src/disc_solver/analyse/trajectory.py
index 2f953c5..835a46f 100644
--- a/src/disc_solver/analyse/trajectory.py
+++ b/src/disc_solver/analyse/trajectory.py
@@ -133,10 +133,6 @@ def trajectory_parser(parser):
     parser.add_argument(
         "--B-step-scaling", type=float, default=DEFAULT_B_STEP_SCALING,
     )
-    parser.add_argument(
-        "--no-max-v-angle", action='store_false', dest="with_max_v_angle",
-        default=True
-    )
     return parser
 
 
@@ -145,6 +141,10 @@ def plot_parser(parser):
     Add arguments for plot command to parser
     """
     trajectory_parser(parser)
+    parser.add_argument(
+        "--no-max-v-angle", action='store_false', dest="with_max_v_angle",
+        default=True
+    )
     common_plot_appearence_options(parser)
     common_output_plot_options(parser)
     return parser
@@ -185,7 +185,6 @@ def get_args(args):
     v_step_scaling = args.get("v_step_scaling", DEFAULT_V_STEP_SCALING)
     B_max_steps = args.get("B_max_steps", DEFAULT_B_MAX_STEPS)
     B_step_scaling = args.get("B_step_scaling", DEFAULT_B_STEP_SCALING)
-    with_max_v_angle = args.get("with_max_v_angle")
 
     return {
         "v_start_position": v_start_position,
@@ -194,7 +193,16 @@ def get_args(args):
         "B_start_position": B_start_position,
         "B_max_steps": B_max_steps,
         "B_step_scaling": B_step_scaling,
-        "with_max_v_angle": with_max_v_angle,
+    }
+
+
+def get_plot_args(args):
+    """
+    Parse plot args, including those which only apply when plotting
+    """
+    return {
+        "with_max_v_angle": args.get("with_max_v_angle", True),
+        **get_args(args),
     }
 
 
@@ -316,7 +324,7 @@ def save_trajectory(
     cmd_parser_splitters={
         "common_plot_output_args": get_common_plot_output_args,
         "common_plot_appearence_args": get_common_plot_appearence_args,
-        "plot_args": get_args,
+        "plot_args": get_plot_args,
     }
 )
 def plot_main(
-- 
2.43.0


From ce4a49ba815bede90bfd5969dcdfc5f1feb7e982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 22/41] fix: do not abort MCMC if the probability is NaN

---
 src/disc_solver/solve/mcmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/mcmc.py b/src/disc_solver/solve/mcmc.py
index 9974e49..9b736eb 100644
--- a/src/disc_solver/solve/mcmc.py
+++ b/src/disc_solver/solve/mcmc.py
@@ -133,7 +133,8 @@ class LogProbGenerator:
             return - float("inf")
         logprob = get_logprob_of_soln(soln)
         if not isfinite(logprob):
-            return logprob
+            # NaN causes emcee to raise an error
+            return - float("inf")
         soln_index = self._run.solutions.add_solution(soln)
         if logprob > self._best_logprob:
             self._best_logprob = logprob
-- 
2.43.0


From e0192d3074898b99006f1394959c0bf668c8f0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 23/41] fix: start the main solution where the taylor series
 stops

---
 src/disc_solver/solve/solution.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/disc_solver/solve/solution.py b/src/disc_solver/solve/solution.py
index 3ede174..a8b41f5 100644
--- a/src/disc_solver/solve/solution.py
+++ b/src/disc_solver/solve/solution.py
@@ -411,7 +411,7 @@ def taylor_solution(
         raise SolverError("Taylor solver did not find taylor_stop_angle")
 
     new_angles = angles[angles > taylor_stop_angle]
-    insert(new_angles, 0, taylor_stop_angle)
+    new_angles = insert(new_angles, 0, taylor_stop_angle)
 
     return TaylorSolution(
         angles=scaled_to_rad(soln.values.t, θ_scale), params=soln.values.y,
@@ -430,7 +430,7 @@ def taylor_jump(
     """
     taylor_stop_angle = rad_to_scaled(taylor_stop_angle, θ_scale)
     new_angles = angles[angles > taylor_stop_angle]
-    insert(new_angles, 0, taylor_stop_angle)
+    new_angles = insert(new_angles, 0, taylor_stop_angle)
 
     first_order_taylor_values = get_taylor_first_order(
         init_con=init_con, γ=γ, a_0=a_0,
@@ -453,8 +453,9 @@ def taylor_jump(
     )
 
     return TaylorSolution(
-        angles=scaled_to_rad(array([0, taylor_stop_angle]), θ_scale),
-        params=array([init_con, taylor_values]),
+        # The values at the end of the jump are the first of the main solution
+        angles=scaled_to_rad(array([float_type(0)]), θ_scale),
+        params=array([init_con]),
         new_angles=new_angles, internal_data=None,
         new_initial_conditions=taylor_values, angle_stopped=taylor_stop_angle,
     )
-- 
2.43.0


From d4950b0f3b125a87bfd619870e02f4e9ebd56804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 24/41] fix: handle solutions without a sonic point in info

---
 src/disc_solver/analyse/info.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/analyse/info.py b/src/disc_solver/analyse/info.py
index 80f6106..f39dbff 100644
--- a/src/disc_solver/analyse/info.py
+++ b/src/disc_solver/analyse/info.py
@@ -118,8 +118,9 @@ def info(soln_file, *, group, soln_range, output_file, filename):
         )
         print("{}: {}".format(
             soln_file.config_input.label,
-            sonic_θ / get_scale_height(soln_instance)
-        ))
+            None if sonic_θ is None
+            else sonic_θ / get_scale_height(soln_instance)
+        ), file=output_file)
     elif group == "solutions":
         for name, _ in sort_solutions(soln_file.solutions):
             print(name, file=output_file)
-- 
2.43.0


From e9339200cd9bca3d518b0e34eddb2966fa0ccdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 25/41] fix: load files written with old versions of the inputs
 and internal data

---
 src/disc_solver/file_format/_loaders.py | 28 +++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index 5789890..7969e10 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -23,7 +23,6 @@ def _internal_load(group):
         v_r_taylor=group["v_r_taylor"]["data"],
         v_φ_taylor=group["v_φ_taylor"]["data"],
         ρ_taylor=group["ρ_taylor"]["data"],
-        jacobians=None,
     )
 
 
@@ -40,7 +39,6 @@ def _internal_load2(group):
         v_φ_taylor=group["v_φ_taylor"]["data"],
         ρ_taylor=group["ρ_taylor"]["data"],
         problems=group["problems"],
-        jacobians=None,
     )
 
 
@@ -241,6 +239,10 @@ def _config_loader(group):
         label=group.attrs["label"],
         relative_tolerance=group.attrs["relative_tolerance"],
         absolute_tolerance=group.attrs["absolute_tolerance"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         split_method="v_θ_deriv",
         γ=_str_β_to_γ(group.attrs["β"]),
         v_rin_on_c_s=group.attrs["v_rin_on_c_s"],
@@ -264,6 +266,10 @@ def _config_loader2(group):
         label=group.attrs["label"],
         relative_tolerance=group.attrs["relative_tolerance"],
         absolute_tolerance=group.attrs["absolute_tolerance"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         split_method="v_θ_deriv",
         γ=_str_β_to_γ(group.attrs["β"]),
         v_rin_on_c_s=group.attrs["v_rin_on_c_s"],
@@ -288,6 +294,10 @@ def _config_loader3(group):
         label=group.attrs["label"],
         relative_tolerance=group.attrs["relative_tolerance"],
         absolute_tolerance=group.attrs["absolute_tolerance"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         split_method="v_θ_deriv",
         γ=_str_β_to_γ(group.attrs["β"]),
         v_rin_on_c_s=group.attrs["v_rin_on_c_s"],
@@ -346,6 +356,7 @@ def _config_loader5(group):
         nwalkers=group.attrs["nwalkers"],
         iterations=group.attrs["iterations"],
         threads=group.attrs["threads"],
+        target_velocity=None,
         split_method="v_θ_deriv",
         v_rin_on_c_s=group.attrs["v_rin_on_c_s"],
         v_a_on_c_s=group.attrs["v_a_on_c_s"],
@@ -660,6 +671,10 @@ def _input_loader(group):
         num_angles=group.attrs["num_angles"],
         relative_tolerance=group.attrs["relative_tolerance"],
         absolute_tolerance=group.attrs["absolute_tolerance"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         split_method="v_θ_deriv",
         γ=5/4 - group.attrs["β"],
         v_rin_on_c_s=group.attrs["v_rin_on_c_s"],
@@ -686,6 +701,10 @@ def _input_loader2(group):
         num_angles=group.attrs["num_angles"],
         relative_tolerance=group.attrs["relative_tolerance"],
         absolute_tolerance=group.attrs["absolute_tolerance"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         split_method="v_θ_deriv",
         γ=5/4 - group.attrs["β"],
         v_rin_on_c_s=group.attrs["v_rin_on_c_s"],
@@ -713,6 +732,10 @@ def _input_loader3(group):
         num_angles=group.attrs["num_angles"],
         relative_tolerance=group.attrs["relative_tolerance"],
         absolute_tolerance=group.attrs["absolute_tolerance"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         split_method="v_θ_deriv",
         γ=5/4 - group.attrs["β"],
         v_rin_on_c_s=group.attrs["v_rin_on_c_s"],
@@ -773,6 +796,7 @@ def _input_loader5(group):
         num_angles=group.attrs["num_angles"],
         relative_tolerance=group.attrs["relative_tolerance"],
         absolute_tolerance=group.attrs["absolute_tolerance"],
+        target_velocity=None,
         split_method="v_θ_deriv",
         γ=group.attrs["γ"],
         nwalkers=group.attrs["nwalkers"],
-- 
2.43.0


From 854780d5ce34d70a7df8300d75816de88fd57e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 26/41] fix: load runs which were not finalised

---
 src/disc_solver/file_format/_loaders.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index 7969e10..16546fd 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -1194,7 +1194,7 @@ def _run_loader(group):
         config_input=group["config_input"],
         config_filename=group["config_filename"],
         time=group["time"],
-        final_solution=group["final_solution"],
+        final_solution=group.get("final_solution"),
         solutions=group["solutions"],
         disc_solver_version=None,
         float_type=None,
@@ -1208,7 +1208,7 @@ def _run_loader2(group):
         config_input=group["config_input"],
         config_filename=group["config_filename"],
         time=group["time"],
-        final_solution=group["final_solution"],
+        final_solution=group.get("final_solution"),
         solutions=group["solutions"],
         disc_solver_version=group["disc_solver_version"],
         float_type=None,
@@ -1222,7 +1222,7 @@ def _run_loader3(group):
         config_input=group["config_input"],
         config_filename=group["config_filename"],
         time=group["time"],
-        final_solution=group["final_solution"],
+        final_solution=group.get("final_solution"),
         solutions=group["solutions"],
         disc_solver_version=group["disc_solver_version"],
         float_type=group["float_type"],
@@ -1236,7 +1236,7 @@ def _run_loader4(group):
         config_input=group["config_input"],
         config_filename=group["config_filename"],
         time=group["time"],
-        final_solution=group["final_solution"],
+        final_solution=group.get("final_solution"),
         solutions=group["solutions"],
         disc_solver_version=group["disc_solver_version"],
         float_type=group["float_type"],
@@ -1257,7 +1257,7 @@ def _run_loader5(group):
         if soln.solution_input.use_E_r is None:
             soln.solution_input.use_E_r = use_E_r
 
-    final_solution = group["final_solution"]
+    final_solution = group.get("final_solution")
     if final_solution is not None and (
         final_solution.solution_input.use_E_r is None
     ):
@@ -1289,7 +1289,7 @@ def _run_loader6(group):
         if soln.solution_input.use_E_r is None:
             soln.solution_input.use_E_r = use_E_r
 
-    final_solution = group["final_solution"]
+    final_solution = group.get("final_solution")
     if final_solution is not None and (
         final_solution.solution_input.use_E_r is None
     ):
-- 
2.43.0


From 93ce5affef7be4f77d865f9c16ed97ad7950cfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:50 +0000
Subject: [PATCH 27/41] fix: load the derivatives of solutions as arrays

---
 src/disc_solver/file_format/_loaders.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index 16546fd..be5af4d 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -138,6 +138,10 @@ def _solution_loader_2(group):
         y_roots = None
     else:
         y_roots = group["y_roots"]["data"]
+    if group["derivatives"] is None:
+        derivatives = None
+    else:
+        derivatives = group["derivatives"]["data"]
 
     return Solution(
         flag=group.attrs["flag"],
@@ -149,7 +153,7 @@ def _solution_loader_2(group):
         solution_input=group["solution_input"],
         t_roots=t_roots,
         y_roots=y_roots,
-        derivatives=group["derivatives"],
+        derivatives=derivatives,
         sonic_point=None,
         sonic_point_values=None,
     )
@@ -174,6 +178,10 @@ def _solution_loader_3(group):
         sonic_point_values = None
     else:
         sonic_point_values = group["sonic_point_values"]["data"]
+    if group["derivatives"] is None:
+        derivatives = None
+    else:
+        derivatives = group["derivatives"]["data"]
 
     return Solution(
         flag=group.attrs["flag"],
@@ -187,7 +195,7 @@ def _solution_loader_3(group):
         y_roots=y_roots,
         sonic_point=sonic_point,
         sonic_point_values=sonic_point_values,
-        derivatives=group["derivatives"],
+        derivatives=derivatives,
     )
 
 
@@ -210,6 +218,10 @@ def _solution_loader_4(group):
         sonic_point_values = None
     else:
         sonic_point_values = group["sonic_point_values"]["data"]
+    if group["derivatives"] is None:
+        derivatives = None
+    else:
+        derivatives = group["derivatives"]["data"]
 
     return Solution(
         flag=group.attrs["flag"],
@@ -223,7 +235,7 @@ def _solution_loader_4(group):
         y_roots=y_roots,
         sonic_point=sonic_point,
         sonic_point_values=sonic_point_values,
-        derivatives=group["derivatives"],
+        derivatives=derivatives,
         is_post_shock_only=group.attrs["is_post_shock_only"],
     )
 
-- 
2.43.0


From 41cf5efff72493a11c38f401674fcd086368e1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 28/41] fix: resolve solutions whose use_E_r is not that of
 their configuration

---
 src/disc_solver/solve/resolve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/resolve.py b/src/disc_solver/solve/resolve.py
index 9aebb55..b998101 100644
--- a/src/disc_solver/solve/resolve.py
+++ b/src/disc_solver/solve/resolve.py
@@ -46,7 +46,8 @@ def resolve(
         disc_solver_version=ds_version,
         float_type=str(float_type),
         sonic_method=sonic_method,
-        use_E_r=new_soln_input.use_E_r,
+        # values loaded from files can be numpy bools, which cannot be dumped
+        use_E_r=bool(new_soln_input.use_E_r),
         based_on_solution_filename=fspath(soln_filename),
         based_on_solution_solution_name=soln_range,
     )
-- 
2.43.0


From eff99007f9a401eb6f8726e350d4b5f1c439a2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:00 +0000
Subject: [PATCH 29/41] fix: allow empty lines before the header of batch files

---
 src/disc_solver/solve/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/utils.py b/src/disc_solver/solve/utils.py
index 3e16167..fe237ad 100644
--- a/src/disc_solver/solve/utils.py
+++ b/src/disc_solver/solve/utils.py
@@ -211,10 +211,14 @@ class CSVReaderHelper:
 
     def __iter__(self):
         self._comments = []
+        started = False
         for line in self.file:
             filted_line = self._filter(line)
             if filted_line is not None:
-                yield filted_line
+                # csv.DictReader only skips empty lines after the header
+                started = started or bool(filted_line.strip())
+                if started:
+                    yield filted_line
 
     def _filter(self, line):
         """
-- 
2.43.0


From dca6374dcc9128d1a0b8327af98b1030eea80abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:41 +0000
Subject: [PATCH 30/41] fix: scale solutions to vertical by the radius, not by
 scale heights

---
 src/disc_solver/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index f4b1f1c..2a0c556 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -231,7 +231,8 @@ def get_vertical_scaling(angles, *, c_s_on_v_k):
     """
     Get scaling from spherical to vertical_scale
     """
-    heights = get_heights(angles, c_s_on_v_k=c_s_on_v_k)
+    # heights are in units of scale heights, not of the radius
+    heights = get_heights(angles, c_s_on_v_k=c_s_on_v_k) * c_s_on_v_k
     return sqrt(1 + heights**2)
 
 
-- 
2.43.0


From 527ff3e9ffdfbeb91002469cf03a8ad70c4fca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 31/41] fix: correct the value of the astronomical unit

---
 src/disc_solver/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/constants.py b/src/disc_solver/constants.py
index 86ce217..d6d7a89 100644
--- a/src/disc_solver/constants.py
+++ b/src/disc_solver/constants.py
@@ -4,7 +4,7 @@ Physical constants used in code
 """
 from .float_handling import float_type
 G = float_type(6.6742e-8)  # (cm^3 ∕ (g*s^2))
-AU = float_type(1.4957871e13)  # cm
+AU = float_type(1.49597871e13)  # cm
 M_SUN = float_type(2e33)  # g
 KM = float_type(1e5)  # cm
 YEAR = float_type(31557600)  # s
-- 
2.43.0


From 275f59cea8a1e0a736c9a765566b0c2f6fc42bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 32/41] fix: signs of the Hall and ambipolar terms validating
 the polar induction

---
 src/disc_solver/analyse/validate_plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/disc_solver/analyse/validate_plot.py b/src/disc_solver/analyse/validate_plot.py
index e28b831..789592b 100644
--- a/src/disc_solver/analyse/validate_plot.py
+++ b/src/disc_solver/analyse/validate_plot.py
@@ -348,15 +348,15 @@ def validate_polar_induction(initial_conditions, values):
             values.B_θ * (1 - initial_conditions.β) - values.deriv.B_r
         ) * (
             values.η_O + values.η_A * (1 - values.norm_B_φ**2)
-        ) + values.deriv.B_φ * (
-            values.η_H * values.norm_B_θ -
+        ) - values.deriv.B_φ * (
+            values.η_H * values.norm_B_θ +
             values.η_A * values.norm_B_r * values.norm_B_φ
-        ) + values.B_φ * (
+        ) - values.B_φ * (
             values.η_H * (
                 values.norm_B_r * (1 - initial_conditions.β) -
                 values.norm_B_θ * tan(values.angles)
             ) - values.η_A * values.norm_B_φ * (
-                values.norm_B_θ * (1 - initial_conditions.β) -
+                values.norm_B_θ * (1 - initial_conditions.β) +
                 values.norm_B_r * tan(values.angles)
             )
         )
-- 
2.43.0


From f78df3f9c8e5bd852cfb78f95f40566251fcbf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 33/41] fix: do not stop collecting stats at a solution which
 cannot be analysed

---
 src/disc_solver/analyse/stats.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/disc_solver/analyse/stats.py b/src/disc_solver/analyse/stats.py
index 57e02f1..f5cc96f 100644
--- a/src/disc_solver/analyse/stats.py
+++ b/src/disc_solver/analyse/stats.py
@@ -240,14 +240,16 @@ def write_stats(solutions, *, output_file):
             if soln is not None:
                 soln_info.update(soln.solution_input.asdict())
                 try:
-                    csvwriter.writerow(compute_solution_stats(
+                    soln_stats = compute_solution_stats(
                         soln, metadata=soln_info
-                    ))
-                except ValueError:
+                    )
+                except Exception:  # pylint: disable=broad-except
                     log.exception(
                         "Failed to collect stats for {} {}",
                         filename, soln_name,
                     )
+                else:
+                    csvwriter.writerow(soln_stats)
                 out.flush()
                 del soln
 
-- 
2.43.0


From c70ebba83be071137f6d094e0c46c6bf07cbeb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 34/41] fix: write messages shown with --quiet or --verbose to
 the log file as well

---
 src/disc_solver/logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/logging.py b/src/disc_solver/logging.py
index 6cf685a..1b7d361 100644
--- a/src/disc_solver/logging.py
+++ b/src/disc_solver/logging.py
@@ -42,9 +42,9 @@ def log_handler(args, thread_wrapping=True):
     if not isinstance(args, dict):
         args = vars(args)
     if args.get("quiet"):
-        stderr_handler = ColorizedStderrHandler(level="ERROR")
+        stderr_handler = ColorizedStderrHandler(level="ERROR", bubble=True)
     elif args.get("verbose"):
-        stderr_handler = ColorizedStderrHandler(level="DEBUG")
+        stderr_handler = ColorizedStderrHandler(level="DEBUG", bubble=True)
     else:
         stderr_handler = ColorizedStderrHandler(
             level=args.get("stderr_level", "NOTICE").upper(), bubble=True
-- 
2.43.0


From 5fe54fe100f51f1990f1eb591451d07d1ddd7289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 35/41] fix: ignore the sign of the differences when collecting
 the largest

---
 src/disc_solver/analyse/stats.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/disc_solver/analyse/stats.py b/src/disc_solver/analyse/stats.py
index f5cc96f..318a5ad 100644
--- a/src/disc_solver/analyse/stats.py
+++ b/src/disc_solver/analyse/stats.py
@@ -9,7 +9,7 @@ from sys import stdin, exc_info
 import logbook
 from logbook.compat import redirected_warnings, redirected_logging
 
-from numpy import degrees, nanargmax, nanmax, sqrt, nan
+from numpy import absolute, degrees, nanargmax, nanmax, sqrt, nan
 
 from h5preserve import open as h5open
 
@@ -69,27 +69,27 @@ def compute_max_difference_in_equations(solution):
     """
     values = get_values(solution)
     return {
-        "max_diff_continuity": max(validate_continuity(
+        "max_diff_continuity": max(absolute(validate_continuity(
             values.initial_conditions, values
-        )),
-        "max_diff_solenoid": max(validate_solenoid(
+        ))),
+        "max_diff_solenoid": max(absolute(validate_solenoid(
             values.initial_conditions, values
-        )),
-        "max_diff_radial_momentum": max(validate_radial_momentum(
+        ))),
+        "max_diff_radial_momentum": max(absolute(validate_radial_momentum(
             values.initial_conditions, values
-        )),
-        "max_diff_azimuthal_momentum": max(validate_azimuthal_mometum(
+        ))),
+        "max_diff_azimuthal_momentum": max(absolute(validate_azimuthal_mometum(
             values.initial_conditions, values
-        )),
-        "max_diff_polar_momentum": max(validate_polar_momentum(
+        ))),
+        "max_diff_polar_momentum": max(absolute(validate_polar_momentum(
             values.initial_conditions, values
-        )),
-        "max_diff_polar_induction": max(validate_polar_induction(
+        ))),
+        "max_diff_polar_induction": max(absolute(validate_polar_induction(
             values.initial_conditions, values
-        )),
-        "max_diff_E_φ": max(validate_E_φ(
+        ))),
+        "max_diff_E_φ": max(absolute(validate_E_φ(
             values.initial_conditions, values
-        )),
+        ))),
     }
 
 
-- 
2.43.0


From 2a767dcc4cb3306d7b7bad6680e7ccc2ba240eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:21 +0000
Subject: [PATCH 36/41] fix: write out the messages still queued when the
 logging ends

---
 src/disc_solver/logging.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/logging.py b/src/disc_solver/logging.py
index 1b7d361..60ae23d 100644
--- a/src/disc_solver/logging.py
+++ b/src/disc_solver/logging.py
@@ -35,6 +35,16 @@ def logging_options(parser):
     )
 
 
+class LogSetup(NestedSetup):
+    """
+    Nested setup which writes out the messages still queued when it is left
+    """
+    def __exit__(self, exc_type, exc_value, tb):
+        super().__exit__(exc_type, exc_value, tb)
+        for handler in reversed(self.objects):
+            handler.close()
+
+
 def log_handler(args, thread_wrapping=True):
     """
     Return log handler with given config
@@ -68,7 +78,7 @@ def log_handler(args, thread_wrapping=True):
             file_handler = ThreadedWrapperHandler(file_handler)
             stderr_handler = ThreadedWrapperHandler(stderr_handler)
 
-    return NestedSetup([
+    return LogSetup([
         NullHandler(),  # catch everything else
         file_handler, stderr_handler
     ])
-- 
2.43.0


From 06f4953ff7c6031c9e113ad82dd57abd4936423c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:21 +0000
Subject: [PATCH 37/41] fix: convert the angles of the ratio plots to degrees
 once

---
 src/disc_solver/analyse/taylor_plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disc_solver/analyse/taylor_plot.py b/src/disc_solver/analyse/taylor_plot.py
index 3dea2c7..3e6b5f1 100644
--- a/src/disc_solver/analyse/taylor_plot.py
+++ b/src/disc_solver/analyse/taylor_plot.py
@@ -155,15 +155,15 @@ def generate_taylor_plot(
         )
     else:
         axes[0].plot(
-            degrees(deriv_angles),
+            deriv_angles,
             np.abs(v_r_normal / v_r_taylor), '.'
         )
         axes[1].plot(
-            degrees(deriv_angles),
+            deriv_angles,
             np.abs(v_φ_normal / v_φ_taylor), '.'
         )
         axes[2].plot(
-            degrees(deriv_angles),
+            deriv_angles,
             np.abs(ρ_normal / ρ_taylor), '.'
         )
 
-- 
2.43.0


From b6dd407014be7b79b034d1a041139bd566358fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:21 +0000
Subject: [PATCH 38/41] fix: half the square of v_r in the terms of the radial
 momentum

---
 src/disc_solver/analyse/component_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/analyse/component_plot.py b/src/disc_solver/analyse/component_plot.py
index a685195..a348277 100644
--- a/src/disc_solver/analyse/component_plot.py
+++ b/src/disc_solver/analyse/component_plot.py
@@ -161,7 +161,7 @@ def compute_components(soln, indexes, angles):
 
     components = {
         "radial momentum": {
-            "radial terms": v_r ** 2 + v_θ ** 2 + 5 / 2 - 2 * γ,
+            "radial terms": v_r ** 2 / 2 + v_θ ** 2 + 5 / 2 - 2 * γ,
             "keplerian terms": (v_φ - norm_kepler) * (v_φ + norm_kepler),
             "magnetic terms": (
                 a_0 / ρ * (B_θ * deriv_B_r + (1/4 - γ) * (B_θ ** 2 + B_φ ** 2))
-- 
2.43.0


From c4eab70bf99b172b19963cb180e6f0a9af1ad285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:21 +0000
Subject: [PATCH 39/41] fix: label the last panel of comparisons by what each
 solution stores

---
 src/disc_solver/analyse/compare_plot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/analyse/compare_plot.py b/src/disc_solver/analyse/compare_plot.py
index 2d0f5ad..69b1d37 100644
--- a/src/disc_solver/analyse/compare_plot.py
+++ b/src/disc_solver/analyse/compare_plot.py
@@ -71,7 +71,7 @@ def compare_plot(
 @multiple_solution_plotter
 def generate_plot(
     fig, solutions, *, linestyle='-', start=0, stop=90, v_θ_scale="linear",
-    use_E_r=False, num_solutions
+    num_solutions
 ):
     """
     Generate plot, with enough freedom to be able to format fig
@@ -93,7 +93,10 @@ def generate_plot(
 
         indexes = (start <= degrees(angles)) & (degrees(angles) <= stop)
 
-        ordering = PlotOrdering.E_r if use_E_r else PlotOrdering.B_φ_prime
+        ordering = (
+            PlotOrdering.E_r if soln.solution_input.use_E_r
+            else PlotOrdering.B_φ_prime
+        )
 
         param_names = get_common_arguments(
             ordering, v_θ_scale=v_θ_scale, initial_conditions=cons
-- 
2.43.0


From eaafe77018178cd4378c0f09231f128a1bda8d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:21 +0000
Subject: [PATCH 40/41] =?UTF-8?q?fix:=20sign=20of=20a=20term=20of=20the=20?=
 =?UTF-8?q?derivative=20of=20B=5F=CF=86=20of=20mod=5Fhydro=20with=20E=5Fr?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/disc_solver/solve/mod_hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/mod_hydro.py b/src/disc_solver/solve/mod_hydro.py
index df3bdf1..84d57c8 100644
--- a/src/disc_solver/solve/mod_hydro.py
+++ b/src/disc_solver/solve/mod_hydro.py
@@ -200,7 +200,7 @@ def Z_8_func(*, θ, b_r, b_θ, b_φ, B_φ, η_O, η_A, η_H, E_r, Z_5, C):
         - E_r + B_φ * (
             tan(θ) * (η_O + η_A * (1 - b_r ** 2)) + (
                 η_H * b_φ + η_A * b_r * b_θ
-            ) / 4 - C * (
+            ) / 4 + C * (
                 η_A * b_φ * (
                     b_r * tan(θ) - b_θ / 4
                 ) + η_H * (
-- 
2.43.0


From d163c69a2422310b511ffe9bb6b4bac9c93dc794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:13 +0000
Subject: [PATCH 41/41] fix: variables to sample may be separated with spaces

---
 src/disc_solver/file_format/_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index b89a755..6c3d808 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -26,7 +26,7 @@ def mcmc_vars_str_to_obj(mcmc_str):
         return None
     if isinstance(mcmc_str, MCMCVars):
         return mcmc_str
-    split_str = mcmc_str.strip().split(',')
+    split_str = [name.strip() for name in mcmc_str.split(',')]
     return MCMCVars(
         with_v_r="v_r" in split_str,
         with_v_a="v_a" in split_str,
-- 
2.43.0

