From 2841b01fbc0a2d47f9230e120e5086c5ce769e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 01/35] fix: hypervolume of points that tie in a coordinate (4
 or more objectives)

Ties were ordered by the lower dimension, so two tied points could each be
skipped as dominated by the other.
---
 algorithms/base/hv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/algorithms/base/hv.py b/algorithms/base/hv.py
index 26f2526..928aaa8 100644
--- a/algorithms/base/hv.py
+++ b/algorithms/base/hv.py
@@ -159,7 +159,9 @@ class HyperVolume:
         dimensions = len(self.referencePoint)
         nodeList = MultiList(dimensions)
         nodes = [MultiList.Node(dimensions, point) for point in front]
-        for i in range(dimensions):
+        # ties in one dimension keep the order of the next higher one, so that of two
+        # tied points only one is skipped as dominated by the other
+        for i in reversed(range(dimensions)):
             self.sortByDimension(nodes, i)
             nodeList.extend(nodes, i)
         self.list = nodeList
-- 
2.43.0


From 6351b23121bcdd92d9d9911e7ba6846371918534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 02/35] fix: count a repeated solution once in the pareto
 dominance indicator

---
 metrics/metrics_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metrics/metrics_utils.py b/metrics/metrics_utils.py
index ab62d15..0efe1e8 100644
--- a/metrics/metrics_utils.py
+++ b/metrics/metrics_utils.py
@@ -92,9 +92,9 @@ def distance(from_set, to_set):
 
 
 def pareto_dominance_indicator(solution, not_dominated_solution, all_solutions):
-    non_dominated_intersection = [
-        s for s in not_dominated_solution if tuple(s) in all_solutions
-    ]
+    non_dominated_intersection = {
+        tuple(s) for s in not_dominated_solution if tuple(s) in all_solutions
+    }
     return len(non_dominated_intersection) / len(all_solutions)
 
 
-- 
2.43.0


From 8344e2023be56b61ba6ad7666cb24f1c1ca16c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 03/35] fix: IBEA charges each individual's evaluation once

Every individual was charged again on each step and on each look at the
final population.
---
 algorithms/IBEA/IBEA.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/algorithms/IBEA/IBEA.py b/algorithms/IBEA/IBEA.py
index ff27292..3148781 100644
--- a/algorithms/IBEA/IBEA.py
+++ b/algorithms/IBEA/IBEA.py
@@ -43,12 +43,11 @@ class IBEA(Driver):
         self.k = kappa
         self.mating_size_c = mating_population_size
         self.trim_function = trim_function
+        self.fitness_archive = fitness_archive
         self.population = [self.trim_function(x) for x in population]
 
         self._scale_objectives()
 
-        self.fitness_archive = fitness_archive
-
     def finalized_population(self):
         return self.finish()
 
@@ -76,7 +75,7 @@ class IBEA(Driver):
     def _scale_objectives(self):
         min_max = lambda x: (min(x), max(x))
         for ind in self.individuals:
-            if not ind.known_objectives or not (
+            if not ind.known_objectives and not (
                 (self.fitness_archive is not None) and (ind.v in self.fitness_archive)
             ):
                 self.cost += 1
-- 
2.43.0


From 2b0ea34e3435b688bc8b58d03022c922f57090c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 04/35] fix: SPEA2, OMOPSO and SMSEMOA charge the evaluations
 they make

The cost of a batch was the population size or nothing, whichever fitted its
last individual: SMSEMOA charged a whole population per single child.
---
 algorithms/OMOPSO/OMOPSO.py   | 3 +--
 algorithms/SMSEMOA/SMSEMOA.py | 3 +--
 algorithms/SPEA2/SPEA2.py     | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index bcdbdba..7f4a593 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -117,10 +117,9 @@ class OMOPSO(Driver):
         for p in self.individuals:
             if (self.fitness_archive is not None) and (p.value in self.fitness_archive):
                 p.objectives = self.fitness_archive[p.value]
-                objectives_cost = 0
             else:
                 p.objectives = [o(p.value) for o in self.fitnesses]
-                objectives_cost = len(self.individuals)
+                objectives_cost += 1
         return objectives_cost
 
     def move(self):
diff --git a/algorithms/SMSEMOA/SMSEMOA.py b/algorithms/SMSEMOA/SMSEMOA.py
index 4e09ec3..b91a479 100644
--- a/algorithms/SMSEMOA/SMSEMOA.py
+++ b/algorithms/SMSEMOA/SMSEMOA.py
@@ -66,10 +66,9 @@ class SMSEMOA(Driver):
         for p in pop:
             if (self.fitness_archive is not None) and (p.value in self.fitness_archive):
                 p.objectives = self.fitness_archive[p.value]
-                objectives_cost = 0
             else:
                 p.objectives = [o(p.value) for o in self.fitnesses]
-                objectives_cost = len(self.population)
+                objectives_cost += 1
         return objectives_cost
 
     def generate(self, pop):
diff --git a/algorithms/SPEA2/SPEA2.py b/algorithms/SPEA2/SPEA2.py
index 5cb88c3..f90c7e5 100644
--- a/algorithms/SPEA2/SPEA2.py
+++ b/algorithms/SPEA2/SPEA2.py
@@ -117,10 +117,9 @@ class SPEA2(Driver):
                 p["value"] in self.fitness_archive
             ):
                 p["objectives"] = self.fitness_archive[p["value"]]
-                objectives_cost = 0
             else:
                 p["objectives"] = [o(p["value"]) for o in self.fitnesses]
-                objectives_cost = len(self.population)
+                objectives_cost += 1
         return objectives_cost
 
     def calculate_dominated(self, pop):
-- 
2.43.0


From 1fd17daf3179b4fa4c1c9e1dae26d4372fa9944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 05/35] fix: OMOPSO archive drops every member a new one
 dominates

It removed from the list it was iterating over and skipped the next member.
---
 algorithms/OMOPSO/OMOPSO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index 7f4a593..b9d0e27 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -276,7 +276,7 @@ class Archive(object):
 
     def add(self, p):
 
-        for l in self.archive:
+        for l in list(self.archive):
             if l.dominates(p, self.eta):
                 return False
             elif p.dominates(l, self.eta):
-- 
2.43.0


From 7cc3b33241b527584a3199296043ddfa7be4094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 06/35] fix: OMOPSO moves its own particles, not the caller's
 initial population

---
 algorithms/OMOPSO/OMOPSO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index b9d0e27..1f4054d 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -27,7 +27,7 @@ class OMOPSO(Driver):
         super().__init__(*args, **kwargs)
         self.fitnesses = fitnesses
         self.dims = dims
-        self.individuals = [Individual(trim_function(x)) for x in population]
+        self.individuals = [Individual(list(trim_function(x))) for x in population]
         self.mutation_probability = mutation_probability
 
         self.leaders_size = len(population)  # parameter?
-- 
2.43.0


From 8e7493b4e386d7ea5a21bf6eec98233a7d87c26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 07/35] fix: BOGO keeps the archive member that dominates a new
 individual

---
 algorithms/BOGO/BOGO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algorithms/BOGO/BOGO.py b/algorithms/BOGO/BOGO.py
index a46d123..17a553f 100644
--- a/algorithms/BOGO/BOGO.py
+++ b/algorithms/BOGO/BOGO.py
@@ -36,9 +36,9 @@ class BOGO(Driver):
         new_archive = []
         individual_dominated = False
         for archival in self.archive:
-            if not individual_dominated and dominates(archival.fit, individual.fit):
+            if dominates(archival.fit, individual.fit):
                 individual_dominated = True
-            elif not dominates(individual.fit, archival.fit):
+            if not dominates(individual.fit, archival.fit):
                 new_archive.append(archival)
         if not individual_dominated:
             new_archive.append(individual)
-- 
2.43.0


From dccad5cb86841ae7f9fa61738108f57d797e7911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 08/35] fix: IMGA returns its population as a list

The iterator was used up by computing the fitnesses, and an empty population
was stored.
---
 algorithms/IMGA/IMGA.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/algorithms/IMGA/IMGA.py b/algorithms/IMGA/IMGA.py
index 9dfb665..f03a2c3 100644
--- a/algorithms/IMGA/IMGA.py
+++ b/algorithms/IMGA/IMGA.py
@@ -60,8 +60,10 @@ class IMGA(ComplexDriver):
                 island.driver.max_budget = self.max_budget
 
     def finalized_population(self):
-        return itertools.chain(
-            *(island.driver.finalized_population() for island in self.islands)
+        return list(
+            itertools.chain(
+                *(island.driver.finalized_population() for island in self.islands)
+            )
         )
 
     def step(self):
-- 
2.43.0


From d6f477f344bf31988c7d4b8a46649bac9685aaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 09/35] fix: HGS halves its own progress ratios, not the shared
 configuration's

A resurrection changed run_config.algo_base for every later simulation of the
process.
---
 algorithms/HGS/classic/ClassicHGS.py         | 2 +-
 algorithms/HGS/distributed/DistributedHGS.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/algorithms/HGS/classic/ClassicHGS.py b/algorithms/HGS/classic/ClassicHGS.py
index 7541a7d..3a047e4 100644
--- a/algorithms/HGS/classic/ClassicHGS.py
+++ b/algorithms/HGS/classic/ClassicHGS.py
@@ -62,7 +62,7 @@ class ClassicHGS(ComplexDriver):
         self.max_level = max_level
         self.max_sprouts_no = max_sprouts_no
         self.sproutiveness = sproutiveness
-        self.min_progress_ratio = min_progress_ratio
+        self.min_progress_ratio = list(min_progress_ratio)
 
         self.mutation_etas = mutation_etas
         self.mutation_rates = mutation_rates
diff --git a/algorithms/HGS/distributed/DistributedHGS.py b/algorithms/HGS/distributed/DistributedHGS.py
index 425a2de..bea3984 100644
--- a/algorithms/HGS/distributed/DistributedHGS.py
+++ b/algorithms/HGS/distributed/DistributedHGS.py
@@ -64,7 +64,7 @@ class DistributedHGS(ComplexDriver):
         self.hgs_config.max_level = max_level
         self.hgs_config.max_sprouts_no = max_sprouts_no
         self.hgs_config.sproutiveness = sproutiveness
-        self.hgs_config.min_progress_ratio = min_progress_ratio
+        self.hgs_config.min_progress_ratio = list(min_progress_ratio)
 
         self.hgs_config.mutation_etas = mutation_etas
         self.hgs_config.mutation_rates = mutation_rates
-- 
2.43.0


From a48f1a772668e353decebe40de9954ab7fc14c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 10/35] fix: NSLS step ends when the local search accepts
 nothing

---
 algorithms/NSLS/NSLS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algorithms/NSLS/NSLS.py b/algorithms/NSLS/NSLS.py
index 3384929..83fbe39 100644
--- a/algorithms/NSLS/NSLS.py
+++ b/algorithms/NSLS/NSLS.py
@@ -164,7 +164,8 @@ class NSLS(Driver):
 
         front_no = 1
         while (
-            len(next_gen_individuals) + len(self.front[front_no])
+            len(next_gen_individuals) < self.population_size
+            and len(next_gen_individuals) + len(self.front[front_no])
             <= self.population_size
         ):
             next_gen_individuals.extend(self.front[front_no])
-- 
2.43.0


From d0c449e56c92a22f3d409c5b66bf144cc53b5140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:19 +0000
Subject: [PATCH 11/35] fix: run every algorithm when none is selected with
 --algo

---
 simulation/factory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simulation/factory.py b/simulation/factory.py
index 366dc6f..c2a896c 100644
--- a/simulation/factory.py
+++ b/simulation/factory.py
@@ -96,6 +96,8 @@ def parse_algorithms(args):
             algo for algo in run_config.algorithms if algo.lower() in algorithms_filter
         ]
         logger.debug("Selected: %s", algorithms)
+    else:
+        algorithms = run_config.algorithms
     return algorithms
 
 
-- 
2.43.0


From 702c6be8493efb4aefeb53084bf62138d3b99011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:19 +0000
Subject: [PATCH 12/35] fix: a failed simulation does not stop the rest of the
 batch

---
 simulation/run_parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/run_parallel.py b/simulation/run_parallel.py
index c756c82..5a0e43d 100644
--- a/simulation/run_parallel.py
+++ b/simulation/run_parallel.py
@@ -39,7 +39,7 @@ def run_parallel(args):
 
         def process_result(subres):
             results.append(subres)
-            log_simulation_stats(start_time, subres[-1], len(simulation_cases))
+            log_simulation_stats(start_time, len(results), len(simulation_cases))
 
         rx.from_iterable(range(len(simulation_cases))).pipe(
             ops.map(lambda i: worker_factory(simulation_cases[i], i)),
-- 
2.43.0


From f8943c2a264c7193cc65ce29ce19c8e330af421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:47 +0000
Subject: [PATCH 13/35] fix: time-bound run reports its slots when the first
 step outlasts them

---
 algorithms/base/driver.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/algorithms/base/driver.py b/algorithms/base/driver.py
index 0d9d58c..ad4f2fc 100644
--- a/algorithms/base/driver.py
+++ b/algorithms/base/driver.py
@@ -97,14 +97,16 @@ class TimeRun(DriverRun):
             result = driver.next_step()
             self.time_elapsed += time.time() - step_start_time
             time_elapsed_since_last_emission = self.time_elapsed - (self.step * self.step_no)
-            if previous_result:
-                for _ in range(0, int(time_elapsed_since_last_emission // self.step)):
-                    self.step_no += 1
-                    emission_time = self.step_no * self.step
-                    if emission_time <= self.timeout:
-                        observer.on_next(
-                            TimeProgressMessage(self.step_no * self.step, previous_result)
-                        )
+            if previous_result is None:
+                # nothing older to report: the first step may outlast every slot
+                previous_result = result
+            for _ in range(0, int(time_elapsed_since_last_emission // self.step)):
+                self.step_no += 1
+                emission_time = self.step_no * self.step
+                if emission_time <= self.timeout:
+                    observer.on_next(
+                        TimeProgressMessage(self.step_no * self.step, previous_result)
+                    )
             previous_result = result
 
         observer.on_completed()
-- 
2.43.0


From 2ecd3823415e9e2b467b992e8dc77ff7e2de761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:47 +0000
Subject: [PATCH 14/35] fix: results and cached metrics appear in the store
 completely or not at all

---
 simulation/metrics_processor.py | 19 +++++++++----------
 simulation/serializer.py        | 15 +++++++++++++--
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/simulation/metrics_processor.py b/simulation/metrics_processor.py
index ea342a0..ac4208a 100644
--- a/simulation/metrics_processor.py
+++ b/simulation/metrics_processor.py
@@ -104,16 +104,15 @@ def get_metric(
             result.fitnesses, result.non_dominated_fitnesses, **metric_params
         )
 
-        with metric_path.open(mode="wb") as fh:
-            pickle_store = {
-                "value": metric_val,
-                "metric": {
-                    "name": metric_name,
-                    "module": metric_mod_name,
-                    "params": metric_params,
-                },
-            }
-            pickle.dump(pickle_store, fh)
+        pickle_store = {
+            "value": metric_val,
+            "metric": {
+                "name": metric_name,
+                "module": metric_mod_name,
+                "params": metric_params,
+            },
+        }
+        serializer.save_file(metric_path, pickle_store)
 
         return metric_val
     except Exception as e:
diff --git a/simulation/serializer.py b/simulation/serializer.py
index 5942d40..5f5cabc 100644
--- a/simulation/serializer.py
+++ b/simulation/serializer.py
@@ -1,3 +1,4 @@
+import os
 import pickle
 from contextlib import suppress
 from pathlib import Path
@@ -30,8 +31,18 @@ def load_file(path: Path):
 
 
 def save_file(path: Path, obj: Any):
-    with path.open(mode="wb") as fh:
-        pickle.dump(obj, fh)
+    # a reader (or a run interrupted half way) never sees a partial file
+    tmp_path = path.with_name("{}.{}.tmp".format(path.name, os.getpid()))
+    try:
+        with tmp_path.open(mode="wb") as fh:
+            pickle.dump(obj, fh)
+            fh.flush()
+            os.fsync(fh.fileno())
+        os.replace(str(tmp_path), str(path))
+    except BaseException:
+        with suppress(OSError):
+            tmp_path.unlink()
+        raise
 
 
 class Serializer:
-- 
2.43.0


From 5e2776252983dcfa67e4d8e2ceba9d8ce3e100c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:28 +0000
Subject: [PATCH 15/35] fix: pareto dominance indicator compares runs of the
 same number

---
 simulation/metrics_processor.py | 9 +++++++--
 simulation/model.py             | 6 ++++++
 simulation/serialization.py     | 5 +----
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/simulation/metrics_processor.py b/simulation/metrics_processor.py
index ac4208a..2b307d7 100644
--- a/simulation/metrics_processor.py
+++ b/simulation/metrics_processor.py
@@ -11,7 +11,7 @@ from pathlib import Path
 from typing import List
 
 from metrics import metrics
-from simulation import serializer
+from simulation import model, serializer
 from simulation.serializer import ResultWithMetadata
 
 
@@ -190,7 +190,12 @@ def preload_results_for_problem(cache, problem_path: Path):
     logger.debug("Loading for problem : {}".format(problem_name))
     for algo_path in problem_path.iterdir():
         if algo_path.is_dir():
-            runs = [run for run in algo_path.iterdir() if run.is_dir()]
+            # the same runs, in the same order, as numbered by ResultsExtractor
+            runs = [
+                run
+                for run in sorted(algo_path.iterdir())
+                if run.is_dir() and model.RUN_DIR_PATTERN.fullmatch(run.name)
+            ]
             for run_no in range(len(runs)):
                 for result_file in runs[run_no].iterdir():
                     try:
diff --git a/simulation/model.py b/simulation/model.py
index 4edf626..b70f464 100644
--- a/simulation/model.py
+++ b/simulation/model.py
@@ -1,7 +1,13 @@
 import random
+import re
 from datetime import datetime
 from typing import List
 
+# name of the directory which holds results of one simulation, see get_simulation_id
+RUN_DIR_PATTERN = re.compile(
+    r"(?P<rundate>\d{4}-\d{2}-\d{2}\.\d{2}\d{2}\d{2}\.\d{6})__(?P<runid>\d{7})"
+)
+
 
 def get_simulation_id(run_id, run_date=None):
     run_date = run_date if run_date else datetime.today().strftime("%Y-%m-%d.%H%M%S.%f")
diff --git a/simulation/serialization.py b/simulation/serialization.py
index 3d0c2df..df30354 100644
--- a/simulation/serialization.py
+++ b/simulation/serialization.py
@@ -24,10 +24,7 @@ class ResultsExtractor:
         run_no = 0
         for candidate in sorted(rootpath.iterdir()):
             try:
-                match = re.fullmatch(
-                    "(?P<rundate>\d{4}-\d{2}-\d{2}\.\d{2}\d{2}\d{2}\.\d{6})__(?P<runid>\d{7})",
-                    candidate.name,
-                )
+                match = model.RUN_DIR_PATTERN.fullmatch(candidate.name)
                 matchdict = match.groupdict()
                 run_id = matchdict["runid"]
                 run_date = matchdict["rundate"]
-- 
2.43.0


From f34c67402003b65542f2210a6a45d48ed16ff532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:28 +0000
Subject: [PATCH 16/35] fix: stale non-dominated cache is recognised and only
 its own file is removed

---
 simulation/metrics_processor.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/simulation/metrics_processor.py b/simulation/metrics_processor.py
index 2b307d7..9e47738 100644
--- a/simulation/metrics_processor.py
+++ b/simulation/metrics_processor.py
@@ -233,7 +233,11 @@ def filter_non_dominated_in_cache(problem_path: Path, cache):
         problem_nondominated = {}
         solutions = None
 
-    if solutions and solutions == problem_solutions:
+    if (
+        solutions
+        and solutions == problem_solutions
+        and set(problem_nondominated) == set(problem_keys)
+    ):
         pass
         logger.debug(
             "Cache for problem {} does not changed, loading nondominated solutions from file..."
@@ -241,6 +245,7 @@ def filter_non_dominated_in_cache(problem_path: Path, cache):
     else:
         logger.debug("Cache for problem {} changed, calculating new nondominated... ")
         clear_old_pdi_metrics(problem_path)
+        problem_nondominated = {}
         for key in problem_keys:
             logger.debug("Filtering non dominated for: " + str(key))
             solutions = cache[key]
@@ -259,11 +264,10 @@ def filter_non_dominated_in_cache(problem_path: Path, cache):
 def clear_old_pdi_metrics(problem_path: Path):
     logger = logging.getLogger(__name__)
 
-    for filename in fnmatch.filter(
-        [str(p) for p in problem_path.iterdir()], "*{}_*".format(problem_path.name)
-    ):
-        os.remove(filename)
-        logger.debug("Removing file: " + filename)
+    for path in problem_path.glob("{}_*".format(problem_path.name)):
+        if path.is_file():
+            path.unlink()
+            logger.debug("Removing file: " + str(path))
 
     for root, dirnames, filenames in os.walk(str(problem_path)):
         for filename in fnmatch.filter(
-- 
2.43.0


From 3d79c237675dc329fc7f47c2f25962bf72d30df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:46 +0000
Subject: [PATCH 17/35] fix: torus topology of 4 to 7 islands links every
 island, and none to itself

---
 algorithms/IMGA/topology.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algorithms/IMGA/topology.py b/algorithms/IMGA/topology.py
index e9d7f18..58b1ba5 100644
--- a/algorithms/IMGA/topology.py
+++ b/algorithms/IMGA/topology.py
@@ -41,7 +41,7 @@ class TorusTopology(Topology):
 
                 neighbors = set()
 
-                if len(t) > self.width:
+                if len(t) >= self.width:
                     last = i - self.width
                     last_neighbors = t[last]
 
@@ -65,4 +65,5 @@ class TorusTopology(Topology):
             if last_width == 1:
                 t[N].remove(N)
 
-        return [set(neighbors) for neighbors in t]
+        # with a single full row every node is its own vertical neighbour
+        return [set(neighbors) - {i} for i, neighbors in enumerate(t)]
-- 
2.43.0


From 59621479135fac3ad7741efbfae299b975f7a933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:46 +0000
Subject: [PATCH 18/35] fix: stats reads the results directory given with --dir

---
 statistic/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/statistic/stats.py b/statistic/stats.py
index 62a450c..8fff6ee 100644
--- a/statistic/stats.py
+++ b/statistic/stats.py
@@ -83,7 +83,7 @@ def statistics(args):
 
     with close_and_join(multiprocessing.Pool(min(int(args["-j"]), 8))) as p:
         for problem_name, problem_mod, algorithms in serialization.each_result(
-            BudgetResultsExtractor()
+            BudgetResultsExtractor(), args["--dir"] or serialization.RESULTS_DIR
         ):
             for algo_name, budgets in algorithms:
                 header_just_printed = print_header()
-- 
2.43.0


From 3cfc0bab4284236cfe094b714be43a2c67c2f2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:46 +0000
Subject: [PATCH 19/35] fix: confidence interval of a single run is not
 infinite

---
 statistic/stats_bootstrap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/statistic/stats_bootstrap.py b/statistic/stats_bootstrap.py
index 5d81eaf..1c27593 100644
--- a/statistic/stats_bootstrap.py
+++ b/statistic/stats_bootstrap.py
@@ -93,7 +93,11 @@ def yield_analysis(data_process, boot_size):
         mean_nooutliers = float("inf")
 
     btstrpd = bootstrap(
-        data_process, average, boot_size, int(len(data_process) * 0.66), 0.025
+        data_process,
+        average,
+        boot_size,
+        max(1, int(len(data_process) * 0.66)),
+        0.025,
     )
 
     goodbench = "✓"
-- 
2.43.0


From 99ea0c6c33416d36c1b4ec2be0e3db04d8bba0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 20/35] fix: distributed HGS stops redundant nodes

---
 algorithms/HGS/distributed/actors.py     |  5 ++--
 algorithms/HGS/distributed/hgs_tasks.py  | 29 ++++++++++++++++++------
 algorithms/HGS/distributed/node_tasks.py | 12 ++++++++++
 3 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/algorithms/HGS/distributed/actors.py b/algorithms/HGS/distributed/actors.py
index 0e4168a..64091b2 100644
--- a/algorithms/HGS/distributed/actors.py
+++ b/algorithms/HGS/distributed/actors.py
@@ -18,7 +18,7 @@ from algorithms.HGS.distributed.node_tasks import (
     GetPopulationNodeTask,
     NewMetaepochNodeTask,
     TrimNotProgressingNodeTask,
-    ReleaseSproutsNodeTask, ReviveNodeTask)
+    ReleaseSproutsNodeTask, ReviveNodeTask, KillNodeTask)
 from algorithms.HGS.distributed.hgs_tasks import (
     HgsOperationTask,
     MetaepochHgsTask,
@@ -206,7 +206,8 @@ class Node(TaskActor):
             NodeOperation.NEW_METAEPOCH: NewMetaepochNodeTask,
             NodeOperation.TRIM_NOT_PROGRESSING: TrimNotProgressingNodeTask,
             NodeOperation.RELEASE_SPROUTS: ReleaseSproutsNodeTask,
-            NodeOperation.REVIVE: ReviveNodeTask
+            NodeOperation.REVIVE: ReviveNodeTask,
+            NodeOperation.KILL: KillNodeTask
         }
 
     def get_task_owner_name(self):
diff --git a/algorithms/HGS/distributed/hgs_tasks.py b/algorithms/HGS/distributed/hgs_tasks.py
index 292b7b6..985ec57 100644
--- a/algorithms/HGS/distributed/hgs_tasks.py
+++ b/algorithms/HGS/distributed/hgs_tasks.py
@@ -224,6 +224,7 @@ class TrimRedundantHgsTask(HgsOperationTask):
     def __init__(self, hgs):
         super().__init__(hgs)
         self.trim_infos = []
+        self.kills_pending = 0
         self.sender = None
         self.sender_task_id = None
         self.requests_count = None
@@ -231,6 +232,7 @@ class TrimRedundantHgsTask(HgsOperationTask):
     def configure_steps(self, steps: Dict[OperationType, Callable]):
         steps[HgsOperation.TRIM_REDUNDANT] = self.send_trim_request
         steps[NodeOperation.CHECK_STATUS] = self.receive_trim_confirmation
+        steps[NodeOperation.KILL] = self.receive_kill_confirmation
 
     def send_trim_request(self, msg: HgsMessage, sender: Actor):
         self.sender = sender
@@ -244,16 +246,28 @@ class TrimRedundantHgsTask(HgsOperationTask):
         trim_info.node = sender
         self.trim_infos.append(trim_info)
         if len(self.trim_infos) == self.requests_count:
+            # older nodes first, whatever the order of their answers
+            self.trim_infos.sort(key=lambda info: self.hgs.nodes.index(info.node))
             self.trim_infos.sort(reverse=True, key=lambda info: info.level)
             for level, lvl_infos in itertools.groupby(
                 self.trim_infos, key=lambda info: info.level
             ):
-                self.log(f"trim lvl infos: {list(lvl_infos)} for lvl={level}")
-                self.trim_redundant(list(lvl_infos))
-            self.hgs.send(
-                self.sender,
-                HgsMessage(HgsOperation.TRIM_REDUNDANT_END, self.sender_task_id, True),
-            )
+                lvl_infos = list(lvl_infos)
+                self.log(f"trim lvl infos: {lvl_infos} for lvl={level}")
+                self.trim_redundant(lvl_infos)
+            if self.kills_pending == 0:
+                self.finish()
+
+    def receive_kill_confirmation(self, msg: NodeMessage, sender: Actor):
+        self.kills_pending -= 1
+        if self.kills_pending == 0:
+            self.finish()
+
+    def finish(self):
+        self.hgs.send(
+            self.sender,
+            HgsMessage(HgsOperation.TRIM_REDUNDANT_END, self.sender_task_id, True),
+        )
 
     def trim_redundant(self, lvl_infos):
         alive = [x for x in lvl_infos if x.alive]
@@ -270,9 +284,10 @@ class TrimRedundantHgsTask(HgsOperationTask):
                 ) and tools.redundant(
                     [another_sprout.center],
                     [sprout.center],
-                    self.hgs.min_dists[sprout.level],
+                    self.hgs.config.min_dists[sprout.level],
                 ):
                     self.hgs.send(sprout.node, NodeMessage(NodeOperation.KILL, self.id))
+                    self.kills_pending += 1
                     sprout.alive = False
                     # TODO: logging killing redundant sprouts
                     self.log("   KILL REDUNDANT")
diff --git a/algorithms/HGS/distributed/node_tasks.py b/algorithms/HGS/distributed/node_tasks.py
index c8223de..08f0672 100644
--- a/algorithms/HGS/distributed/node_tasks.py
+++ b/algorithms/HGS/distributed/node_tasks.py
@@ -72,6 +72,18 @@ class ReviveNodeTask(NodeOperationTask):
         self.node.send(sender, NodeMessage(NodeOperation.REVIVE, msg.id))
 
 
+class KillNodeTask(NodeOperationTask):
+    def __init__(self, node):
+        super().__init__(node)
+
+    def configure_steps(self, steps: Dict[OperationType, Callable]):
+        steps[NodeOperation.KILL] = self.kill
+
+    def kill(self, msg: NodeMessage, sender: Actor):
+        self.node.alive = False
+        self.node.send(sender, NodeMessage(NodeOperation.KILL, msg.id))
+
+
 class GetPopulationNodeTask(NodeOperationTask):
     def __init__(self, node):
         super().__init__(node)
-- 
2.43.0


From 22dc8f54a1b4a7e25663830fc6b36360fc4421a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:01 +0000
Subject: [PATCH 21/35] fix: distributed HGS node counts the sprouts of this
 release against max_sprouts_no

---
 algorithms/HGS/distributed/node_tasks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algorithms/HGS/distributed/node_tasks.py b/algorithms/HGS/distributed/node_tasks.py
index 08f0672..d9ee776 100644
--- a/algorithms/HGS/distributed/node_tasks.py
+++ b/algorithms/HGS/distributed/node_tasks.py
@@ -336,5 +336,6 @@ class ReleaseSproutsNodeTask(NodeOperationTask):
         self.log("new sprout registered")
         self.node.sprouts.append(msg.data)
         self.released_sprouts += 1
+        self.alive_sprouts_count += 1
 
         self.try_relase_next_sprout()
-- 
2.43.0


From 76c4059c77bd2d8233dfe55d27e769a8d5628ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 22/35] fix: hierarchical search keeps the sign of negative
 objective values

---
 algorithms/HGS/classic/ClassicHGS.py | 4 +---
 algorithms/HGS/tools.py              | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/algorithms/HGS/classic/ClassicHGS.py b/algorithms/HGS/classic/ClassicHGS.py
index 3a047e4..3be06b9 100644
--- a/algorithms/HGS/classic/ClassicHGS.py
+++ b/algorithms/HGS/classic/ClassicHGS.py
@@ -213,9 +213,7 @@ class ClassicHGS(ComplexDriver):
         def blurred(f):
             def blurred_f(*args, **kwargs):
                 f_val = f(*args, **kwargs)
-                x = math.fabs(
-                    random.gauss(f_val, self.fitness_errors[level] * f_val / 3.0)
-                )
+                x = random.gauss(f_val, abs(self.fitness_errors[level] * f_val) / 3.0)
 
                 # print("level: {}, normal: {} blurred: {}, diff: {}".format(level, f_val, x, math.fabs(f_val - x)/f_val))
                 return x
diff --git a/algorithms/HGS/tools.py b/algorithms/HGS/tools.py
index 09be1de..0320e24 100644
--- a/algorithms/HGS/tools.py
+++ b/algorithms/HGS/tools.py
@@ -37,9 +37,7 @@ def blurred_fitnesses(level, fitnesses, fitness_errors):
     def blurred(f):
         def blurred_f(*args, **kwargs):
             f_val = f(*args, **kwargs)
-            x = np.math.fabs(
-                random.gauss(f_val, fitness_errors[level] * f_val / 3.0)
-            )
+            x = random.gauss(f_val, abs(fitness_errors[level] * f_val) / 3.0)
 
             # print("level: {}, normal: {} blurred: {}, diff: {}".format(level, f_val, x, math.fabs(f_val - x)/f_val))
             return x
-- 
2.43.0


From d0b3b6faf9d01e51e5a722a8b48a5650c74219b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 23/35] fix: UF8, UF9 and UF10 group the variables as CEC 2009
 defines

---
 problems/UF10/problem.py | 6 +++---
 problems/UF8/problem.py  | 6 +++---
 problems/UF9/problem.py  | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/problems/UF10/problem.py b/problems/UF10/problem.py
index 3c3e39a..301d125 100644
--- a/problems/UF10/problem.py
+++ b/problems/UF10/problem.py
@@ -17,9 +17,9 @@ pareto_front = [
 
 pareto_set = []
 
-J1 = [j for j in range(3, n + 1) if (j - 1) % 3]
-J2 = [j for j in range(3, n + 1) if (j - 2) % 3]
-J3 = [j for j in range(3, n + 1) if j % 3]
+J1 = [j for j in range(3, n + 1) if (j - 1) % 3 == 0]
+J2 = [j for j in range(3, n + 1) if (j - 2) % 3 == 0]
+J3 = [j for j in range(3, n + 1) if j % 3 == 0]
 
 
 def yj(x, j):
diff --git a/problems/UF8/problem.py b/problems/UF8/problem.py
index 830f97b..29bf761 100644
--- a/problems/UF8/problem.py
+++ b/problems/UF8/problem.py
@@ -15,9 +15,9 @@ pareto_front = [
 ]
 pareto_set = []
 
-J1 = [j for j in range(3, n + 1) if (j - 1) % 3]
-J2 = [j for j in range(3, n + 1) if (j - 2) % 3]
-J3 = [j for j in range(3, n + 1) if j % 3]
+J1 = [j for j in range(3, n + 1) if (j - 1) % 3 == 0]
+J2 = [j for j in range(3, n + 1) if (j - 2) % 3 == 0]
+J3 = [j for j in range(3, n + 1) if j % 3 == 0]
 
 
 def base_fit(x, J):
diff --git a/problems/UF9/problem.py b/problems/UF9/problem.py
index 044dbf0..c07b2c5 100644
--- a/problems/UF9/problem.py
+++ b/problems/UF9/problem.py
@@ -15,9 +15,9 @@ pareto_front = [
     if x <= 0.25 * (1 - z) or x >= 0.75 * (1 - z)
 ]
 
-J1 = [j for j in range(3, n + 1) if (j - 1) % 3]
-J2 = [j for j in range(3, n + 1) if (j - 2) % 3]
-J3 = [j for j in range(3, n + 1) if j % 3]
+J1 = [j for j in range(3, n + 1) if (j - 1) % 3 == 0]
+J2 = [j for j in range(3, n + 1) if (j - 2) % 3 == 0]
+J3 = [j for j in range(3, n + 1) if j % 3 == 0]
 
 
 def base_fit(x, J):
-- 
2.43.0


From c2261441f5140502d5a416173eae0cbc7a829bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 24/35] fix: reference fronts of UF8 and UF10 lie on the unit
 sphere

---
 problems/UF10/problem.py | 2 +-
 problems/UF8/problem.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/problems/UF10/problem.py b/problems/UF10/problem.py
index 301d125..9b21974 100644
--- a/problems/UF10/problem.py
+++ b/problems/UF10/problem.py
@@ -10,7 +10,7 @@ x_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 y_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 
 pareto_front = [
-    [x, y, math.pow(-x ** 2 - y ** 2 + 1, 1 / 3)]
+    [x, y, math.sqrt(-x ** 2 - y ** 2 + 1)]
     for x, y in itertools.product(x_points, y_points)
     if x ** 2 + y ** 2 <= 1
 ]
diff --git a/problems/UF8/problem.py b/problems/UF8/problem.py
index 29bf761..2aff804 100644
--- a/problems/UF8/problem.py
+++ b/problems/UF8/problem.py
@@ -9,7 +9,7 @@ x_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 y_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 
 pareto_front = [
-    [x, y, math.pow(-x ** 2 - y ** 2 + 1, 1 / 3)]
+    [x, y, math.sqrt(-x ** 2 - y ** 2 + 1)]
     for x, y in itertools.product(x_points, y_points)
     if x ** 2 + y ** 2 <= 1
 ]
-- 
2.43.0


From 1cb808996dd4a1eb38983ac881a956ad873e60f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 25/35] fix: reference front of UF9 has no negative objective
 values

---
 problems/UF9/problem.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/problems/UF9/problem.py b/problems/UF9/problem.py
index c07b2c5..2abc584 100644
--- a/problems/UF9/problem.py
+++ b/problems/UF9/problem.py
@@ -6,13 +6,12 @@ eps = 0.1
 p_no = 150
 
 xy_series_no = int(math.sqrt(p_no))
-x_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
-z_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
+xz_steps = xy_series_no - 1
 
 pareto_front = [
-    [x, 1 - x - z, z]
-    for x, z in itertools.product(x_points, z_points)
-    if x <= 0.25 * (1 - z) or x >= 0.75 * (1 - z)
+    [x / xz_steps, (xz_steps - x - z) / xz_steps, z / xz_steps]
+    for x, z in itertools.product(range(xy_series_no), repeat=2)
+    if 4 * x <= xz_steps - z or 3 * (xz_steps - z) <= 4 * x <= 4 * (xz_steps - z)
 ]
 
 J1 = [j for j in range(3, n + 1) if (j - 1) % 3 == 0]
-- 
2.43.0


From e46f9569c4d3c077ffec4f6650abac39f60216b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 26/35] fix: UF5 and UF6 have 30 variables and the front pieces
 of CEC 2009

---
 problems/UF5/problem.py | 7 ++++---
 problems/UF6/problem.py | 9 +++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/problems/UF5/problem.py b/problems/UF5/problem.py
index bedbef8..d05eb37 100644
--- a/problems/UF5/problem.py
+++ b/problems/UF5/problem.py
@@ -1,9 +1,10 @@
 import math
 
-n = 10
+n = 30
+N = 10
 eps = 0.1
 
-pareto_front = [[i / (2 * n), 1 - i / (2 * n)] for i in range(2 * n + 1)]
+pareto_front = [[i / (2 * N), 1 - i / (2 * N)] for i in range(2 * N + 1)]
 pareto_set = []
 
 J1 = [j for j in range(2, n + 1) if j % 2]
@@ -19,7 +20,7 @@ def h(t):
 
 
 def base_fit(x, J):
-    return (1 / (2 * n) + eps) * math.fabs(math.sin(2 * n * math.pi * x[0])) + (
+    return (1 / (2 * N) + eps) * math.fabs(math.sin(2 * N * math.pi * x[0])) + (
         2 * sum(h(yj(x, j)) for j in J)
     ) / len(J)
 
diff --git a/problems/UF6/problem.py b/problems/UF6/problem.py
index aa28d5d..2aa3a4e 100644
--- a/problems/UF6/problem.py
+++ b/problems/UF6/problem.py
@@ -4,13 +4,14 @@ import operator
 import numpy
 
 n = 30
+N = 2
 eps = 0.1
-p_step = (1 - 1 / (2 * n)) / 150
+p_step = (1 - 1 / (2 * N)) / 150
 
 emoa_points = [
     x
-    for i in range(1, n + 1)
-    for x in numpy.arange((2 * i - 1) / (2 * n), (2 * i) / (2 * n) + p_step, p_step)
+    for i in range(1, N + 1)
+    for x in numpy.arange((2 * i - 1) / (2 * N), (2 * i) / (2 * N) + p_step, p_step)
 ]
 pareto_front = [[0, 1]] + [[x, 1 - x] for x in emoa_points]
 pareto_set = []
@@ -45,7 +46,7 @@ def inner_base_fit(x, J):
 
 def base_fit(x, J):
     return max(
-        0, 2 * (1 / (2 * n) + eps) * math.sin(2 * n * math.pi * x[0])
+        0, 2 * (1 / (2 * N) + eps) * math.sin(2 * N * math.pi * x[0])
     ) + inner_base_fit(x, J)
 
 
-- 
2.43.0


From 827d0a5f9492b585d610cd74890518c4bae1fb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 27/35] fix: reference front of UF6 ends where its pieces end

---
 problems/UF6/problem.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/problems/UF6/problem.py b/problems/UF6/problem.py
index 2aa3a4e..959c670 100644
--- a/problems/UF6/problem.py
+++ b/problems/UF6/problem.py
@@ -6,12 +6,11 @@ import numpy
 n = 30
 N = 2
 eps = 0.1
-p_step = (1 - 1 / (2 * N)) / 150
 
 emoa_points = [
     x
     for i in range(1, N + 1)
-    for x in numpy.arange((2 * i - 1) / (2 * N), (2 * i) / (2 * N) + p_step, p_step)
+    for x in numpy.linspace((2 * i - 1) / (2 * N), (2 * i) / (2 * N), 150 // N)
 ]
 pareto_front = [[0, 1]] + [[x, 1 - x] for x in emoa_points]
 pareto_set = []
-- 
2.43.0


From 497f98d46d25adf20699599decaf70c3791d775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 28/35] fix: suspicious result report marks the values that are
 outside, not inside

---
 statistic/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/statistic/stats.py b/statistic/stats.py
index 8fff6ee..624dee0 100644
--- a/statistic/stats.py
+++ b/statistic/stats.py
@@ -143,7 +143,7 @@ def statistics(args):
                                     [
                                         x
                                         for x in data_process
-                                        if lower_process <= x <= upper_process
+                                        if not lower_process <= x <= upper_process
                                     ]
                                 )
                                 print(
@@ -185,7 +185,7 @@ def statistics(args):
                                         "{err_prefix}:: {0:>30.20}  = avg {1:<+30} = avg {3:+8.3f}% ⨉ σ | {2:17} {4:17} {5:17}\n".format(
                                             x,
                                             x - mean_process,
-                                            (lower_process <= x <= upper_process)
+                                            not (lower_process <= x <= upper_process)
                                             and "(out of mean±3σ)"
                                             or "",
                                             aux(x),
-- 
2.43.0


From 91bdb5328af8af27000752d97c7a1af58b705c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 29/35] fix: suspicious result report marks the mild outliers
 that are counted

---
 statistic/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/statistic/stats.py b/statistic/stats.py
index 624dee0..6821fd8 100644
--- a/statistic/stats.py
+++ b/statistic/stats.py
@@ -197,8 +197,8 @@ def statistics(args):
                                                 )
                                                 or (
                                                     analysis["upp_inn_fence"]
-                                                    <= x
-                                                    < upp_out_fence_process
+                                                    < x
+                                                    <= upp_out_fence_process
                                                 )
                                             )
                                             and " (mild outlier)"
-- 
2.43.0


From 660c70a64c21f969fad139a6f37c46adc72c0d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 30/35] fix: IBEA: the mating selection prefers the fitter
 individual

The IBEA fitness is the (negative) loss of quality, higher is better: the
environmental selection removes the individuals with the lowest fitness.
The binary tournaments picked the lower one.
---
 algorithms/IBEA/IBEA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algorithms/IBEA/IBEA.py b/algorithms/IBEA/IBEA.py
index 3148781..48bc146 100644
--- a/algorithms/IBEA/IBEA.py
+++ b/algorithms/IBEA/IBEA.py
@@ -138,9 +138,9 @@ class IBEA(Driver):
     def _mating_selection(self, p):
         coin = lambda: random.random() < p
         better = (
-            lambda x1, x2: self.fitness[x1] < self.fitness[x2] and x1 or x2
+            lambda x1, x2: self.fitness[x1] > self.fitness[x2] and x1 or x2
             if coin()
-            else self.fitness[x1] > self.fitness[x2] and x1 or x2
+            else self.fitness[x1] < self.fitness[x2] and x1 or x2
         )
         self.mating_individuals = [
             better(random.choice(self.individuals), random.choice(self.individuals))
-- 
2.43.0


From fafc6619a3015c3cb2895f3fdbf5a396d6504ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 31/35] fix: OMOPSO: apply the turbulence mutation

map() is lazy in Python 3, so none of the mutations was ever applied.
---
 algorithms/OMOPSO/OMOPSO.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index 1f4054d..c81c559 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -161,7 +161,8 @@ class OMOPSO(Driver):
         uniform_mutation = UniformMutation(
             self.mutation_probability, self.mutation_perturbation, self.dims
         )
-        map(uniform_mutation, self.individuals[0:pop_part])
+        for p in self.individuals[0:pop_part]:
+            uniform_mutation(p)
 
         if evolution_progress:
             non_uniform_mutation = NonUniformMutation(
@@ -170,7 +171,8 @@ class OMOPSO(Driver):
                 self.mutation_perturbation,
                 self.dims,
             )
-            map(non_uniform_mutation, self.individuals[pop_part : 2 * pop_part])
+            for p in self.individuals[pop_part : 2 * pop_part]:
+                non_uniform_mutation(p)
 
 
 class Mutation(object):
-- 
2.43.0


From dc1943bdb22d5b716584d8bb3eafa3465fda24ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 32/35] fix: pictures: leave out algorithms without a plot
 style

SPEA2 and SMSEMOA have no place in algos_order, so a store with their results
made the commands fail with a KeyError.
---
 plots/pictures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plots/pictures.py b/plots/pictures.py
index aaf71b1..393403b 100644
--- a/plots/pictures.py
+++ b/plots/pictures.py
@@ -512,7 +512,7 @@ def pictures_from_stats(args):
 
                             keys = [
                                 (problem_name, algo_name, metric_name, group)
-                                for group in algos_groups[algo_name]
+                                for group in algos_groups.get(algo_name, ())
                             ]
                             value = (budget, budget_err, score, score_err)
                             print("PLOT: " + str(value))
@@ -554,7 +554,7 @@ def pictures_time(args):
 
                             keys = [
                                 (problem_name, algo_name, metric_name, group)
-                                for group in algos_groups[algo_name]
+                                for group in algos_groups.get(algo_name, ())
                             ]
                             value = (time, 0, score, score_err)
                             for key in keys:
-- 
2.43.0


From ea13f8caaa0b8c9c8eed09dfbb07e9b0dd365384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 33/35] fix: pictures: the time axis covers all series

It ended with the last time of the first series, which cut off longer runs of
other algorithms, and an empty store made the command fail.
---
 plots/pictures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plots/pictures.py b/plots/pictures.py
index 393403b..a8894ba 100644
--- a/plots/pictures.py
+++ b/plots/pictures.py
@@ -559,7 +559,9 @@ def pictures_time(args):
                             value = (time, 0, score, score_err)
                             for key in keys:
                                 plot_data[key].append(value)
-    max_time = max(list(plot_data.values())[0])[0]
+    max_time = max(
+        (value[0] for values in plot_data.values() for value in values), default=0
+    )
     plot_results(plot_data, plots_dir, (0, max_time))
 
 
-- 
2.43.0


From cd7961d45376f49457f0cd5bcab864d28a455b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 34/35] fix: pictures_summary: problems without acceptable
 results

The maximum of no scores made the command fail when an earlier problem had some.
---
 plots/pictures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plots/pictures.py b/plots/pictures.py
index a8894ba..44eaf55 100644
--- a/plots/pictures.py
+++ b/plots/pictures.py
@@ -658,7 +658,7 @@ def pictures_summary(args):
                     print("{}, {}, NO BUDGET".format(problem_name, algo_name))
 
             for metric_name in scoring:
-                if metric_name != "pdi":
+                if metric_name != "pdi" and problem_score[metric_name]:
 
                     max_score = (
                         max(x for algo, x in problem_score[metric_name]) + 0.0001
-- 
2.43.0


From add319786d2dadefae9b19b09addcc64a8ba3a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:24 +0000
Subject: [PATCH 35/35] fix: SPEA2: truncation compares all nearest neighbours

Two nearest neighbours of each other always tie at their mutual distance; the
recursion ended by the number of tied candidates instead of the number of
distances, so the second nearest neighbour was never compared.
---
 algorithms/SPEA2/SPEA2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/SPEA2/SPEA2.py b/algorithms/SPEA2/SPEA2.py
index f90c7e5..424a8ef 100644
--- a/algorithms/SPEA2/SPEA2.py
+++ b/algorithms/SPEA2/SPEA2.py
@@ -185,7 +185,7 @@ class SPEA2(Driver):
         return self.get_min(distances, 0)[0]
 
     def get_min(self, distances, level):
-        if level >= len(distances):
+        if level >= len(distances[0][1]):
             return distances[0]
 
         sorted_distances = sorted(distances, key=lambda dist: dist[1][level][1])
-- 
2.43.0

