From 1725bf3b0e0d9379227660fac13d7f8604c72c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 01/28] fix: store results and metric caches atomically

A crash, a full disk or an I/O error in the middle of a write left truncated
pickles behind, which every later analysis failed on (or lost a complete
earlier version).
---
 simulation/metrics_processor.py | 19 +++++++++----------
 simulation/serializer.py        | 16 ++++++++++++++--
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/simulation/metrics_processor.py b/simulation/metrics_processor.py
index ea342a0..ac4208a 100644
--- a/simulation/metrics_processor.py
+++ b/simulation/metrics_processor.py
@@ -104,16 +104,15 @@ def get_metric(
             result.fitnesses, result.non_dominated_fitnesses, **metric_params
         )
 
-        with metric_path.open(mode="wb") as fh:
-            pickle_store = {
-                "value": metric_val,
-                "metric": {
-                    "name": metric_name,
-                    "module": metric_mod_name,
-                    "params": metric_params,
-                },
-            }
-            pickle.dump(pickle_store, fh)
+        pickle_store = {
+            "value": metric_val,
+            "metric": {
+                "name": metric_name,
+                "module": metric_mod_name,
+                "params": metric_params,
+            },
+        }
+        serializer.save_file(metric_path, pickle_store)
 
         return metric_val
     except Exception as e:
diff --git a/simulation/serializer.py b/simulation/serializer.py
index 5942d40..b32b75e 100644
--- a/simulation/serializer.py
+++ b/simulation/serializer.py
@@ -1,3 +1,4 @@
+import os
 import pickle
 from contextlib import suppress
 from pathlib import Path
@@ -30,8 +31,19 @@ def load_file(path: Path):
 
 
 def save_file(path: Path, obj: Any):
-    with path.open(mode="wb") as fh:
-        pickle.dump(obj, fh)
+    """
+    Store the object atomically: whoever reads the path (also after a crash or a failed write)
+    finds either its previous content or the complete new one.
+    """
+    tmp_path = path.with_name(f".{path.name}.{os.getpid()}.tmp")
+    try:
+        with tmp_path.open(mode="wb") as fh:
+            pickle.dump(obj, fh)
+        tmp_path.replace(path)
+    except BaseException:
+        with suppress(OSError):
+            tmp_path.unlink()
+        raise
 
 
 class Serializer:
-- 
2.43.0


From ca5a93f6cca0fcf185ab66799799daf369632cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 02/28] fix: pair runs for the pareto dominance indicator by
 their order

The runs of an algorithm were numbered in directory order, counting foreign
directories too, while the extraction numbers them sorted by date: the
indicator compared a run with the wrong ones, or divided by an empty set.
---
 simulation/metrics_processor.py | 8 +++++++-
 simulation/model.py             | 5 +++++
 simulation/serialization.py     | 5 +----
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/simulation/metrics_processor.py b/simulation/metrics_processor.py
index ac4208a..2362a06 100644
--- a/simulation/metrics_processor.py
+++ b/simulation/metrics_processor.py
@@ -12,6 +12,7 @@ from typing import List
 
 from metrics import metrics
 from simulation import serializer
+from simulation.model import SIMULATION_ID_PATTERN
 from simulation.serializer import ResultWithMetadata
 
 
@@ -190,7 +191,12 @@ def preload_results_for_problem(cache, problem_path: Path):
     logger.debug("Loading for problem : {}".format(problem_name))
     for algo_path in problem_path.iterdir():
         if algo_path.is_dir():
-            runs = [run for run in algo_path.iterdir() if run.is_dir()]
+            # has to number the runs in the same way as ResultsExtractor does
+            runs = sorted(
+                run
+                for run in algo_path.iterdir()
+                if run.is_dir() and re.fullmatch(SIMULATION_ID_PATTERN, run.name)
+            )
             for run_no in range(len(runs)):
                 for result_file in runs[run_no].iterdir():
                     try:
diff --git a/simulation/model.py b/simulation/model.py
index 4edf626..de6abe5 100644
--- a/simulation/model.py
+++ b/simulation/model.py
@@ -3,6 +3,11 @@ from datetime import datetime
 from typing import List
 
 
+SIMULATION_ID_PATTERN = (
+    r"(?P<rundate>\d{4}-\d{2}-\d{2}\.\d{2}\d{2}\d{2}\.\d{6})__(?P<runid>\d{7})"
+)
+
+
 def get_simulation_id(run_id, run_date=None):
     run_date = run_date if run_date else datetime.today().strftime("%Y-%m-%d.%H%M%S.%f")
     if not run_id:
diff --git a/simulation/serialization.py b/simulation/serialization.py
index 3d0c2df..c2257b4 100644
--- a/simulation/serialization.py
+++ b/simulation/serialization.py
@@ -24,10 +24,7 @@ class ResultsExtractor:
         run_no = 0
         for candidate in sorted(rootpath.iterdir()):
             try:
-                match = re.fullmatch(
-                    "(?P<rundate>\d{4}-\d{2}-\d{2}\.\d{2}\d{2}\d{2}\.\d{6})__(?P<runid>\d{7})",
-                    candidate.name,
-                )
+                match = re.fullmatch(model.SIMULATION_ID_PATTERN, candidate.name)
                 matchdict = match.groupdict()
                 run_id = matchdict["runid"]
                 run_date = matchdict["rundate"]
-- 
2.43.0


From 8db49562d519c8e15b2ab007b63e80582d728d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 03/28] fix: a failed simulation case no longer aborts the
 whole batch

Workers return None for a case that failed; the progress log subscripted it,
so the remaining cases were never run and no error summary was printed.
---
 simulation/run_parallel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simulation/run_parallel.py b/simulation/run_parallel.py
index c756c82..86e8355 100644
--- a/simulation/run_parallel.py
+++ b/simulation/run_parallel.py
@@ -39,7 +39,7 @@ def run_parallel(args):
 
         def process_result(subres):
             results.append(subres)
-            log_simulation_stats(start_time, subres[-1], len(simulation_cases))
+            log_simulation_stats(start_time, len(results), len(simulation_cases))
 
         rx.from_iterable(range(len(simulation_cases))).pipe(
             ops.map(lambda i: worker_factory(simulation_cases[i], i)),
@@ -52,10 +52,10 @@ def run_parallel(args):
     rxtools.shutdown_default_executor()
     sys.shutdown()
 
-def log_simulation_stats(start_time, simulation_id, simultations_count):
+def log_simulation_stats(start_time, finished_count, simultations_count):
     current_time = datetime.now()
     diff_time = current_time - start_time
-    ratio = simulation_id * 1.0 / simultations_count
+    ratio = finished_count * 1.0 / simultations_count
     try:
         est_delivery_time = start_time + diff_time / ratio
         time_to_delivery = est_delivery_time - current_time
-- 
2.43.0


From c074cf9df75f121b664d90bf186c269d2ef08b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 04/28] fix: IMGA returns its final population as a list

It returned an iterator, which the workers exhaust when computing the
fitnesses: the stored population was empty.
---
 algorithms/IMGA/IMGA.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/algorithms/IMGA/IMGA.py b/algorithms/IMGA/IMGA.py
index 9dfb665..f03a2c3 100644
--- a/algorithms/IMGA/IMGA.py
+++ b/algorithms/IMGA/IMGA.py
@@ -60,8 +60,10 @@ class IMGA(ComplexDriver):
                 island.driver.max_budget = self.max_budget
 
     def finalized_population(self):
-        return itertools.chain(
-            *(island.driver.finalized_population() for island in self.islands)
+        return list(
+            itertools.chain(
+                *(island.driver.finalized_population() for island in self.islands)
+            )
         )
 
     def step(self):
-- 
2.43.0


From 8b6b97a0b359b9a85a959322ea2ba3e241d04439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 05/28] fix: refreshing the pareto dominance caches removes
 nothing but those caches

The pattern was matched against whole paths, so a results directory whose path
contains '<problem>_' made it remove every entry (and fail on directories), other
people's '<problem>_*' files were deleted, and two analyses refreshing at once
failed on files the other one had just removed.
---
 simulation/metrics_processor.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/simulation/metrics_processor.py b/simulation/metrics_processor.py
index 2362a06..496cf10 100644
--- a/simulation/metrics_processor.py
+++ b/simulation/metrics_processor.py
@@ -260,11 +260,8 @@ def filter_non_dominated_in_cache(problem_path: Path, cache):
 def clear_old_pdi_metrics(problem_path: Path):
     logger = logging.getLogger(__name__)
 
-    for filename in fnmatch.filter(
-        [str(p) for p in problem_path.iterdir()], "*{}_*".format(problem_path.name)
-    ):
-        os.remove(filename)
-        logger.debug("Removing file: " + filename)
+    with suppress(FileNotFoundError):
+        os.remove(problem_path / f"{problem_path.name}_nondominated")
 
     for root, dirnames, filenames in os.walk(str(problem_path)):
         for filename in fnmatch.filter(
@@ -272,4 +269,5 @@ def clear_old_pdi_metrics(problem_path: Path):
         ):
             file_path = os.path.join(root, filename)
             logger.debug("Removing file: " + str(file_path))
-            os.remove(file_path)
+            with suppress(FileNotFoundError):
+                os.remove(file_path)
-- 
2.43.0


From 3d773d2e5f4a7a05f29a3990d99955ee9a188987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 06/28] fix: analysis skips plain files lying next to the
 problem directories

---
 simulation/serialization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simulation/serialization.py b/simulation/serialization.py
index c2257b4..4948759 100644
--- a/simulation/serialization.py
+++ b/simulation/serialization.py
@@ -108,6 +108,8 @@ def each_result(result_extractor: ResultsExtractor, results_path=RESULTS_DIR):
 
     with suppress(FileNotFoundError):
         for problem in Path(results_path).iterdir():
+            if not problem.is_dir():
+                continue
             problem_mod = ".".join(["problems", problem.name, "problem"])
             problem_mod = import_module(problem_mod)
             yield problem.name, problem_mod, f_problem(problem, problem_mod)
-- 
2.43.0


From 2d1b560bf782b2bfe54c6165a6612dbe0e2b0732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 07/28] fix: recalculate a cached metric when it belongs to
 another set of solutions

An analysis that began before a batch stored new results may write its values after
a later analysis cleared the cache; from then on every analysis failed with
'You have changed params of the metric'.
---
 simulation/metrics_processor.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/simulation/metrics_processor.py b/simulation/metrics_processor.py
index 496cf10..90a90c0 100644
--- a/simulation/metrics_processor.py
+++ b/simulation/metrics_processor.py
@@ -83,22 +83,11 @@ def get_metric(
         with suppress(FileNotFoundError):
             with metric_path.open(mode="rb") as fh:
                 res = pickle.load(fh)
-                metric_val = res["value"]
-                if res["metric"]["params"] != metric_params:
-                    e = Exception(
-                        "You have changed params of the metric. "
-                        "recalculating / per-param storage not implemented"
-                    )
-                    logger.exception(
-                        "Metric params do not match: %s != %s",
-                        res["metric"]["params"],
-                        metric_params,
-                        exc_info=e,
-                    )
-                    raise e
-            return metric_val
-
-        # noinspection PyUnreachableCode
+                if res["metric"]["params"] == metric_params:
+                    return res["value"]
+                # e.g. left behind by an analysis which started before new results arrived
+                logger.warning("Metric params do not match, recalculating: %s", metric_path)
+
         metric_mod = import_module(".".join(metric_mod_name))
         metric_fun = getattr(metric_mod, metric_name)
         metric_val = metric_fun(
-- 
2.43.0


From ae9e3b7d0656fc8dccc6d9146be9206818230175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 08/28] fix: a driver that fails to shut down does not abort
 the remaining cases

---
 simulation/worker.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simulation/worker.py b/simulation/worker.py
index 4905eba..b0b6a5c 100644
--- a/simulation/worker.py
+++ b/simulation/worker.py
@@ -76,7 +76,10 @@ class SimulationWorker:
 
         finally:
             if driver:
-                driver.shutdown()
+                try:
+                    driver.shutdown()
+                except Exception as e:
+                    logger.exception("Driver cannot be shut down", exc_info=e)
             logger.debug("Finished processing. simulation case:%s", self.simulation)
 
     def run_driver(
-- 
2.43.0


From 1dec00a3b1e175bafc7961c9cdb714c87b326d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 09/28] fix: a revival in HGS does not change the thresholds of
 the following cases

---
 algorithms/HGS/classic/ClassicHGS.py         | 3 ++-
 algorithms/HGS/distributed/DistributedHGS.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/algorithms/HGS/classic/ClassicHGS.py b/algorithms/HGS/classic/ClassicHGS.py
index 7541a7d..744f8c3 100644
--- a/algorithms/HGS/classic/ClassicHGS.py
+++ b/algorithms/HGS/classic/ClassicHGS.py
@@ -62,7 +62,8 @@ class ClassicHGS(ComplexDriver):
         self.max_level = max_level
         self.max_sprouts_no = max_sprouts_no
         self.sproutiveness = sproutiveness
-        self.min_progress_ratio = min_progress_ratio
+        # halved on each revival, the configuration shared by all the cases stays as it is
+        self.min_progress_ratio = list(min_progress_ratio)
 
         self.mutation_etas = mutation_etas
         self.mutation_rates = mutation_rates
diff --git a/algorithms/HGS/distributed/DistributedHGS.py b/algorithms/HGS/distributed/DistributedHGS.py
index 425a2de..29d0e68 100644
--- a/algorithms/HGS/distributed/DistributedHGS.py
+++ b/algorithms/HGS/distributed/DistributedHGS.py
@@ -64,7 +64,8 @@ class DistributedHGS(ComplexDriver):
         self.hgs_config.max_level = max_level
         self.hgs_config.max_sprouts_no = max_sprouts_no
         self.hgs_config.sproutiveness = sproutiveness
-        self.hgs_config.min_progress_ratio = min_progress_ratio
+        # halved on each revival, the configuration shared by all the cases stays as it is
+        self.hgs_config.min_progress_ratio = list(min_progress_ratio)
 
         self.hgs_config.mutation_etas = mutation_etas
         self.hgs_config.mutation_rates = mutation_rates
-- 
2.43.0


From bdc6fe7eff7ed060987f65a70f1c4525f4e080b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 10/28] fix: measure the time of a run with a clock that is
 never set back

---
 algorithms/base/driver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algorithms/base/driver.py b/algorithms/base/driver.py
index 0d9d58c..9b42d86 100644
--- a/algorithms/base/driver.py
+++ b/algorithms/base/driver.py
@@ -93,9 +93,9 @@ class TimeRun(DriverRun):
     def _start(self, driver: Driver, observer: Observer):
         previous_result = None
         while self.time_elapsed < self.timeout:
-            step_start_time = time.time()
+            step_start_time = time.monotonic()
             result = driver.next_step()
-            self.time_elapsed += time.time() - step_start_time
+            self.time_elapsed += time.monotonic() - step_start_time
             time_elapsed_since_last_emission = self.time_elapsed - (self.step * self.step_no)
             if previous_result:
                 for _ in range(0, int(time_elapsed_since_last_emission // self.step)):
-- 
2.43.0


From 5d4d76ae870a2a46a4898e7774ad51dffc3eee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 11/28] fix: a timed run whose first step takes longer than the
 timeout gives its results

---
 algorithms/base/driver.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/algorithms/base/driver.py b/algorithms/base/driver.py
index 9b42d86..854cffd 100644
--- a/algorithms/base/driver.py
+++ b/algorithms/base/driver.py
@@ -97,14 +97,15 @@ class TimeRun(DriverRun):
             result = driver.next_step()
             self.time_elapsed += time.monotonic() - step_start_time
             time_elapsed_since_last_emission = self.time_elapsed - (self.step * self.step_no)
-            if previous_result:
-                for _ in range(0, int(time_elapsed_since_last_emission // self.step)):
-                    self.step_no += 1
-                    emission_time = self.step_no * self.step
-                    if emission_time <= self.timeout:
-                        observer.on_next(
-                            TimeProgressMessage(self.step_no * self.step, previous_result)
+            for _ in range(0, int(time_elapsed_since_last_emission // self.step)):
+                self.step_no += 1
+                emission_time = self.step_no * self.step
+                if emission_time <= self.timeout:
+                    observer.on_next(
+                        TimeProgressMessage(
+                            self.step_no * self.step, previous_result or result
                         )
+                    )
             previous_result = result
 
         observer.on_completed()
-- 
2.43.0


From 8bb1108e53b7a1130aa07c1441cd52252e3677c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 12/28] fix: distributed HGS counts just released sprouts
 against the limit of alive ones

---
 algorithms/HGS/distributed/node_tasks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algorithms/HGS/distributed/node_tasks.py b/algorithms/HGS/distributed/node_tasks.py
index c8223de..c1362c5 100644
--- a/algorithms/HGS/distributed/node_tasks.py
+++ b/algorithms/HGS/distributed/node_tasks.py
@@ -324,5 +324,6 @@ class ReleaseSproutsNodeTask(NodeOperationTask):
         self.log("new sprout registered")
         self.node.sprouts.append(msg.data)
         self.released_sprouts += 1
+        self.alive_sprouts_count += 1
 
         self.try_relase_next_sprout()
-- 
2.43.0


From a25866128eb5e683b57c096d941c1496b63211bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 13/28] fix: distributed HGS removes redundant sprouts

The list of nodes was used up by the log line, so nothing was ever compared, and
nodes had no handler for the request that ends them.
---
 algorithms/HGS/distributed/actors.py     |  5 +++--
 algorithms/HGS/distributed/hgs_tasks.py  | 27 ++++++++++++++++++------
 algorithms/HGS/distributed/node_tasks.py | 12 +++++++++++
 3 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/algorithms/HGS/distributed/actors.py b/algorithms/HGS/distributed/actors.py
index 0e4168a..0f2c8c9 100644
--- a/algorithms/HGS/distributed/actors.py
+++ b/algorithms/HGS/distributed/actors.py
@@ -18,7 +18,7 @@ from algorithms.HGS.distributed.node_tasks import (
     GetPopulationNodeTask,
     NewMetaepochNodeTask,
     TrimNotProgressingNodeTask,
-    ReleaseSproutsNodeTask, ReviveNodeTask)
+    ReleaseSproutsNodeTask, ReviveNodeTask, KillNodeTask)
 from algorithms.HGS.distributed.hgs_tasks import (
     HgsOperationTask,
     MetaepochHgsTask,
@@ -206,7 +206,8 @@ class Node(TaskActor):
             NodeOperation.NEW_METAEPOCH: NewMetaepochNodeTask,
             NodeOperation.TRIM_NOT_PROGRESSING: TrimNotProgressingNodeTask,
             NodeOperation.RELEASE_SPROUTS: ReleaseSproutsNodeTask,
-            NodeOperation.REVIVE: ReviveNodeTask
+            NodeOperation.REVIVE: ReviveNodeTask,
+            NodeOperation.KILL: KillNodeTask,
         }
 
     def get_task_owner_name(self):
diff --git a/algorithms/HGS/distributed/hgs_tasks.py b/algorithms/HGS/distributed/hgs_tasks.py
index 292b7b6..4f00150 100644
--- a/algorithms/HGS/distributed/hgs_tasks.py
+++ b/algorithms/HGS/distributed/hgs_tasks.py
@@ -224,6 +224,7 @@ class TrimRedundantHgsTask(HgsOperationTask):
     def __init__(self, hgs):
         super().__init__(hgs)
         self.trim_infos = []
+        self.kills_pending = 0
         self.sender = None
         self.sender_task_id = None
         self.requests_count = None
@@ -231,6 +232,7 @@ class TrimRedundantHgsTask(HgsOperationTask):
     def configure_steps(self, steps: Dict[OperationType, Callable]):
         steps[HgsOperation.TRIM_REDUNDANT] = self.send_trim_request
         steps[NodeOperation.CHECK_STATUS] = self.receive_trim_confirmation
+        steps[NodeOperation.KILL] = self.receive_kill_confirmation
 
     def send_trim_request(self, msg: HgsMessage, sender: Actor):
         self.sender = sender
@@ -248,12 +250,22 @@ class TrimRedundantHgsTask(HgsOperationTask):
             for level, lvl_infos in itertools.groupby(
                 self.trim_infos, key=lambda info: info.level
             ):
-                self.log(f"trim lvl infos: {list(lvl_infos)} for lvl={level}")
-                self.trim_redundant(list(lvl_infos))
-            self.hgs.send(
-                self.sender,
-                HgsMessage(HgsOperation.TRIM_REDUNDANT_END, self.sender_task_id, True),
-            )
+                lvl_infos = list(lvl_infos)
+                self.log(f"trim lvl infos: {lvl_infos} for lvl={level}")
+                self.trim_redundant(lvl_infos)
+            if not self.kills_pending:
+                self.finish()
+
+    def receive_kill_confirmation(self, msg: NodeMessage, sender: Actor):
+        self.kills_pending -= 1
+        if not self.kills_pending:
+            self.finish()
+
+    def finish(self):
+        self.hgs.send(
+            self.sender,
+            HgsMessage(HgsOperation.TRIM_REDUNDANT_END, self.sender_task_id, True),
+        )
 
     def trim_redundant(self, lvl_infos):
         alive = [x for x in lvl_infos if x.alive]
@@ -270,8 +282,9 @@ class TrimRedundantHgsTask(HgsOperationTask):
                 ) and tools.redundant(
                     [another_sprout.center],
                     [sprout.center],
-                    self.hgs.min_dists[sprout.level],
+                    self.hgs.config.min_dists[sprout.level],
                 ):
+                    self.kills_pending += 1
                     self.hgs.send(sprout.node, NodeMessage(NodeOperation.KILL, self.id))
                     sprout.alive = False
                     # TODO: logging killing redundant sprouts
diff --git a/algorithms/HGS/distributed/node_tasks.py b/algorithms/HGS/distributed/node_tasks.py
index c1362c5..d9ee776 100644
--- a/algorithms/HGS/distributed/node_tasks.py
+++ b/algorithms/HGS/distributed/node_tasks.py
@@ -72,6 +72,18 @@ class ReviveNodeTask(NodeOperationTask):
         self.node.send(sender, NodeMessage(NodeOperation.REVIVE, msg.id))
 
 
+class KillNodeTask(NodeOperationTask):
+    def __init__(self, node):
+        super().__init__(node)
+
+    def configure_steps(self, steps: Dict[OperationType, Callable]):
+        steps[NodeOperation.KILL] = self.kill
+
+    def kill(self, msg: NodeMessage, sender: Actor):
+        self.node.alive = False
+        self.node.send(sender, NodeMessage(NodeOperation.KILL, msg.id))
+
+
 class GetPopulationNodeTask(NodeOperationTask):
     def __init__(self, node):
         super().__init__(node)
-- 
2.43.0


From 7169e5b838818bfc99dfc624d2f69843f3f88007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 14/28] fix: a failed node of distributed HGS fails the run
 instead of blocking it forever

A node which raised or died never answered, the supervisor waited for it and
the whole batch hung. The failure is now reported to whoever waits for the result.
---
 algorithms/HGS/distributed/DistributedHGS.py | 33 +++++++---------
 algorithms/HGS/distributed/actors.py         | 41 ++++++++++++++++++--
 algorithms/HGS/distributed/message.py        |  1 +
 3 files changed, 51 insertions(+), 24 deletions(-)

diff --git a/algorithms/HGS/distributed/DistributedHGS.py b/algorithms/HGS/distributed/DistributedHGS.py
index 29d0e68..618eb08 100644
--- a/algorithms/HGS/distributed/DistributedHGS.py
+++ b/algorithms/HGS/distributed/DistributedHGS.py
@@ -101,27 +101,20 @@ class DistributedHGS(ComplexDriver):
         self.hgs_system.tell(self.node_supervisor, ActorExitRequest())
 
     def finalized_population(self):
-        return (
-            ActorSystem()
-                .ask(self.node_supervisor, HgsMessage(HgsOperation.POPULATION))
-                .data
-        )
+        return self._ask(HgsOperation.POPULATION).data
 
     def step(self):
-        epoch_end_message = ActorSystem().ask(
-            self.node_supervisor, HgsMessage(HgsOperation.NEW_METAEPOCH)
-        )
-        self.cost = epoch_end_message.data
+        self.cost = self._ask(HgsOperation.NEW_METAEPOCH).data
 
-        ActorSystem().ask(
-            self.node_supervisor, HgsMessage(HgsOperation.TRIM_NOT_PROGRESSING)
-        )
-        ActorSystem().ask(self.node_supervisor, HgsMessage(HgsOperation.TRIM_REDUNDANT))
-        ActorSystem().ask(
-            self.node_supervisor, HgsMessage(HgsOperation.RELEASE_SPROUTS)
-        )
+        self._ask(HgsOperation.TRIM_NOT_PROGRESSING)
+        self._ask(HgsOperation.TRIM_REDUNDANT)
+        self._ask(HgsOperation.RELEASE_SPROUTS)
 
-        ActorSystem().ask(
-            self.node_supervisor, HgsMessage(HgsOperation.REVIVE)
-        )
-        logger.info(f"step finished, current cost = {self.cost}")
\ No newline at end of file
+        self._ask(HgsOperation.REVIVE)
+        logger.info(f"step finished, current cost = {self.cost}")
+
+    def _ask(self, operation):
+        answer = ActorSystem().ask(self.node_supervisor, HgsMessage(operation))
+        if not isinstance(answer, HgsMessage) or answer.operation == HgsOperation.FAILURE:
+            raise RuntimeError(f"{operation} failed: {getattr(answer, 'data', answer)}")
+        return answer
diff --git a/algorithms/HGS/distributed/actors.py b/algorithms/HGS/distributed/actors.py
index 0f2c8c9..179e604 100644
--- a/algorithms/HGS/distributed/actors.py
+++ b/algorithms/HGS/distributed/actors.py
@@ -3,7 +3,7 @@ import random
 import uuid
 from typing import Dict
 
-from thespian.actors import Actor
+from thespian.actors import Actor, ChildActorExited, PoisonMessage
 
 from algorithms.HGS import tools
 from algorithms.HGS.distributed.message import (
@@ -104,10 +104,17 @@ class HgsNodeSupervisor(TaskActor):
         self.cost = 0
         self.tasks: Dict[uuid, HgsOperationTask] = {}
         self.node_states = []
+        self.pending_request = None
+        self.failure = None
 
     def get_task_owner_name(self):
         return "SUPERVISOR"
 
+    def send(self, targetAddr, msg):
+        if self.pending_request and getattr(msg, "id", None) == self.pending_request[0]:
+            self.pending_request = None
+        super().send(targetAddr, msg)
+
     def configure_tasks(self):
         return {
             HgsOperation.NEW_METAEPOCH: MetaepochHgsTask,
@@ -126,6 +133,8 @@ class HgsNodeSupervisor(TaskActor):
                 self.start(msg.data)
                 self.parent_actor = sender
                 self.send(sender, "done")
+            elif msg.operation == HgsOperation.FAILURE:
+                self.fail(msg.data)
             elif msg.operation == HgsOperation.REGISTER_NODE:
                 level, population = msg.data
                 node = self.create_node(level, population)
@@ -135,12 +144,31 @@ class HgsNodeSupervisor(TaskActor):
                     sender, HgsMessage(HgsOperation.REGISTER_NODE_END, msg.id, node)
                 )
             else:
-                self.execute_new_task(msg, sender)
+                self.pending_request = (msg.id, sender)
+                if self.failure:
+                    self.report_failure()
+                else:
+                    self.execute_new_task(msg, sender)
 
-        elif isinstance(msg, NodeMessage):
+        elif isinstance(msg, (PoisonMessage, ChildActorExited)):
+            self.fail(getattr(msg, "details", None) or str(msg))
+
+        elif isinstance(msg, NodeMessage) and not self.failure:
             operation = self.tasks[msg.id]
             operation.execute(msg, sender)
 
+    def fail(self, reason):
+        """A node which failed never answers, so whoever waits for the result has to be told."""
+        self.failure = self.failure or reason
+        self.report_failure()
+
+    def report_failure(self):
+        if self.pending_request:
+            request_id, sender = self.pending_request
+            self.send(
+                sender, HgsMessage(HgsOperation.FAILURE, request_id, self.failure)
+            )
+
     def start(self, config: HgsConfig):
         self.log("STARTING HGS SUPERVISOR")
         self.config = config
@@ -215,7 +243,12 @@ class Node(TaskActor):
 
     def receiveMessage(self, msg, sender):
         self.log(f"({self.level}) {self} : MESSAGE RECEIVED {msg} from {sender}")
-        if msg.id in self.tasks:
+        if isinstance(msg, PoisonMessage):
+            self.send(
+                self.supervisor,
+                HgsMessage(HgsOperation.FAILURE, data=msg.details or str(msg)),
+            )
+        elif isinstance(msg, Message) and msg.id in self.tasks:
             self.tasks[msg.id].execute(msg, sender)
         elif isinstance(msg, NodeMessage):
             if msg.operation == NodeOperation.RESET:
diff --git a/algorithms/HGS/distributed/message.py b/algorithms/HGS/distributed/message.py
index 99428c2..17d14cb 100644
--- a/algorithms/HGS/distributed/message.py
+++ b/algorithms/HGS/distributed/message.py
@@ -27,6 +27,7 @@ class HgsOperation(OperationType):
     RELEASE_SPROUTS_END = auto()
     REVIVE = auto()
     REVIVE_END = auto()
+    FAILURE = auto()
 
 
 @unique
-- 
2.43.0


From e8a397c7ad2d419188b07895351917032a9f7584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 15/28] fix: merging observables of other processes passes
 every value and every error on

The value 'end' was taken for the end of a stream, and an observable which failed
made its reader wait forever.
---
 evotools/rxtools.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/evotools/rxtools.py b/evotools/rxtools.py
index 881f7ac..6ad59ac 100644
--- a/evotools/rxtools.py
+++ b/evotools/rxtools.py
@@ -32,7 +32,15 @@ def from_process(
 
 
 def observable_worker(obs_provider, queue: multiprocessing.Queue):
-    obs_provider().subscribe(on_next=queue.put, on_completed=lambda: queue.put("end"))
+    # messages are tagged, a value which looks like the end of the stream is still a value
+    try:
+        obs_provider().subscribe(
+            on_next=lambda value: queue.put(("next", value)),
+            on_error=lambda error: queue.put(("error", error)),
+            on_completed=lambda: queue.put(("end", None)),
+        )
+    except Exception as error:
+        queue.put(("error", error))
 
 
 def worker(fun, queue: multiprocessing.Queue):
@@ -53,11 +61,14 @@ def multiprocess_observable(obs_providers, executor: ProcessPoolExecutor = None)
 
         ended = 0
         while ended < len(obs_providers):
-            msg = queue.get()
-            if msg == "end":
+            kind, value = queue.get()
+            if kind == "end":
                 ended += 1
+            elif kind == "error":
+                observer.on_error(value)
+                return
             else:
-                observer.on_next(msg)
+                observer.on_next(value)
 
         observer.on_completed()
 
-- 
2.43.0


From 828d197b3e5e8fe63be5dd09feebdddf40f3b10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:39 +0000
Subject: [PATCH 16/28] fix: the dominance indicator finds the pool of a result
 by its path

While batches run, results read anew were added to sets already filtered, and
runs that appeared in between renumbered the others.
---
 simulation/metrics_processor.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/simulation/metrics_processor.py b/simulation/metrics_processor.py
index 90a90c0..c72de86 100644
--- a/simulation/metrics_processor.py
+++ b/simulation/metrics_processor.py
@@ -61,7 +61,7 @@ def yield_metrics(result_list: List[ResultWithMetadata], problem_mod):
         partial(hypervolume, result=result, pareto=problem_mod.pareto_front)
         for result in result_list
     ]
-    cache = defaultdict(list)
+    cache = {}
     yield "pdi", "pareto dominance indicator", [
         partial(pareto_dominance_indicator, result=result, cache=cache)
         for result in result_list
@@ -152,10 +152,10 @@ def pareto_dominance_indicator(result: ResultWithMetadata, cache):
     problem = result.simulation_case.problem_name
     algorithm = result.simulation_case.algorithm_name
     run_no = result.run_no
-    if (problem, result.name, run_no) not in cache:
+    if result.path not in cache:
         preload_results_for_problem(cache, result.path.parent.parent.parent)
     try:
-        all_solutions = cache[(problem, result.name, run_no)]
+        all_solutions = cache[result.path]
         print("cache: " +str(cache))
         return get_metric(
             result,
@@ -178,6 +178,9 @@ def preload_results_for_problem(cache, problem_path: Path):
     logger = logging.getLogger(__name__)
     problem_name = problem_path.name
     logger.debug("Loading for problem : {}".format(problem_name))
+    loaded = defaultdict(list)
+    # runs that appear meanwhile change the numbers of the others: results are found by their path
+    keys = {}
     for algo_path in problem_path.iterdir():
         if algo_path.is_dir():
             # has to number the runs in the same way as ResultsExtractor does
@@ -202,12 +205,13 @@ def preload_results_for_problem(cache, problem_path: Path):
                                 algo_path.name, (problem_name, result_name, run_no)
                             )
                         )
-                        cache[(problem_name, result_name, run_no)].append(
-                            result.fitnesses
-                        )
+                        key = (problem_name, result_name, run_no)
+                        loaded[key].append(result.fitnesses)
+                        keys[result_file] = key
                     except (AttributeError, IsADirectoryError):
                         pass
-    filter_non_dominated_in_cache(problem_path, cache)
+    filter_non_dominated_in_cache(problem_path, loaded)
+    cache.update((path, loaded[key]) for path, key in keys.items())
 
 
 def filter_non_dominated_in_cache(problem_path: Path, cache):
-- 
2.43.0


From d7701f5f2c83ad3d04869905bc85f370848fbff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:11 +0000
Subject: [PATCH 17/28] fix: asking NSGAII and IBEA for the population leaves
 the run as it was

---
 algorithms/IBEA/IBEA.py     | 8 +++++++-
 algorithms/NSGAII/NSGAII.py | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/algorithms/IBEA/IBEA.py b/algorithms/IBEA/IBEA.py
index ff27292..4e07e61 100644
--- a/algorithms/IBEA/IBEA.py
+++ b/algorithms/IBEA/IBEA.py
@@ -56,10 +56,16 @@ class IBEA(Driver):
         return rank(self.population, self.calculate_objectives)
 
     def finish(self):
+        # the selection is for the report only: neither paid for nor seen by the next step
+        individuals, cost = list(self.individuals), self.cost
+        scaled_objectives = self.scaled_objectives
         self._scale_objectives()
         self._calculate_fitness()
         self._environmental_selection()
-        return [x.v for x in self.individuals]
+        population = [x.v for x in self.individuals]
+        self.individuals, self.cost = individuals, cost
+        self.scaled_objectives = scaled_objectives
+        return population
 
     def step(self):
         self._calculate_fitness()
diff --git a/algorithms/NSGAII/NSGAII.py b/algorithms/NSGAII/NSGAII.py
index d00fbe9..7c895ee 100644
--- a/algorithms/NSGAII/NSGAII.py
+++ b/algorithms/NSGAII/NSGAII.py
@@ -79,11 +79,15 @@ class NSGAII(Driver):
         self.mating_size = int(self.mating_size_c * self.population_size)
 
     def finish(self):
+        # the selection is for the report only, the next step makes its own
+        individuals = self.individuals
         self._calculate_objectives()
         self._nd_sort()
         self._crowding()
         self._environmental_selection()
-        return [x.v for x in self.individuals]
+        population = [x.v for x in self.individuals]
+        self.individuals = individuals
+        return population
 
     def step(self):
         self._nd_sort()
-- 
2.43.0


From fca3718954b0b1727ed527e7e354f0b6130f4c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 18/28] fix: without --algo a batch covers all the algorithms
 instead of failing

---
 simulation/factory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simulation/factory.py b/simulation/factory.py
index 366dc6f..c2a896c 100644
--- a/simulation/factory.py
+++ b/simulation/factory.py
@@ -96,6 +96,8 @@ def parse_algorithms(args):
             algo for algo in run_config.algorithms if algo.lower() in algorithms_filter
         ]
         logger.debug("Selected: %s", algorithms)
+    else:
+        algorithms = run_config.algorithms
     return algorithms
 
 
-- 
2.43.0


From 7461d39e538fc38998e5d0453899c963e1e24bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 19/28] fix: a process that dies or sends what cannot be
 pickled ends the merged stream with an error

---
 evotools/rxtools.py | 55 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/evotools/rxtools.py b/evotools/rxtools.py
index 6ad59ac..4b103b3 100644
--- a/evotools/rxtools.py
+++ b/evotools/rxtools.py
@@ -2,6 +2,8 @@ import multiprocessing
 import os
 import time
 from concurrent.futures import ProcessPoolExecutor
+from multiprocessing.reduction import ForkingPickler
+from queue import Empty
 from typing import Callable
 
 import rx
@@ -31,16 +33,30 @@ def from_process(
     return rx.from_callable(run_as_process, NewThreadScheduler())
 
 
-def observable_worker(obs_provider, queue: multiprocessing.Queue):
+PROCESS_CHECK_INTERVAL = 1.0
+
+
+def observable_worker(obs_provider, queue: multiprocessing.Queue, source: int = 0):
     # messages are tagged, a value which looks like the end of the stream is still a value
+    def send(kind, value=None):
+        # the queue silently drops what it cannot pickle
+        ForkingPickler.dumps(value)
+        queue.put((source, kind, value))
+
+    def send_error(error):
+        try:
+            send("error", error)
+        except Exception:
+            send("error", RuntimeError(repr(error)))
+
     try:
         obs_provider().subscribe(
-            on_next=lambda value: queue.put(("next", value)),
-            on_error=lambda error: queue.put(("error", error)),
-            on_completed=lambda: queue.put(("end", None)),
+            on_next=lambda value: send("next", value),
+            on_error=send_error,
+            on_completed=lambda: send("end"),
         )
     except Exception as error:
-        queue.put(("error", error))
+        send_error(error)
 
 
 def worker(fun, queue: multiprocessing.Queue):
@@ -52,18 +68,33 @@ def worker(fun, queue: multiprocessing.Queue):
 def multiprocess_observable(obs_providers, executor: ProcessPoolExecutor = None):
     def workers(observer, scheduler):
         queue = multiprocessing.Queue()
+        running = {}
 
-        for obs_provider in obs_providers:
+        for source, obs_provider in enumerate(obs_providers):
             p = multiprocessing.Process(
-                target=observable_worker, args=[obs_provider, queue]
+                target=observable_worker, args=[obs_provider, queue, source]
             )
             p.start()
-
-        ended = 0
-        while ended < len(obs_providers):
-            kind, value = queue.get()
+            running[source] = p
+
+        while running:
+            dead = [source for source, p in running.items() if not p.is_alive()]
+            try:
+                source, kind, value = queue.get(timeout=PROCESS_CHECK_INTERVAL)
+            except Empty:
+                # a process flushes the queue before it exits, nothing more can come from a dead one
+                if dead:
+                    observer.on_error(
+                        RuntimeError(
+                            "process of source {} died with exit code {}".format(
+                                dead[0], running[dead[0]].exitcode
+                            )
+                        )
+                    )
+                    return
+                continue
             if kind == "end":
-                ended += 1
+                del running[source]
             elif kind == "error":
                 observer.on_error(value)
                 return
-- 
2.43.0


From cbc2b63fa6fa8b2d35308fd70146d731c838dec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:31 +0000
Subject: [PATCH 20/28] fix: SMSEMOA counts the evaluations it makes

---
 algorithms/SMSEMOA/SMSEMOA.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/algorithms/SMSEMOA/SMSEMOA.py b/algorithms/SMSEMOA/SMSEMOA.py
index 4e09ec3..b91a479 100644
--- a/algorithms/SMSEMOA/SMSEMOA.py
+++ b/algorithms/SMSEMOA/SMSEMOA.py
@@ -66,10 +66,9 @@ class SMSEMOA(Driver):
         for p in pop:
             if (self.fitness_archive is not None) and (p.value in self.fitness_archive):
                 p.objectives = self.fitness_archive[p.value]
-                objectives_cost = 0
             else:
                 p.objectives = [o(p.value) for o in self.fitnesses]
-                objectives_cost = len(self.population)
+                objectives_cost += 1
         return objectives_cost
 
     def generate(self, pop):
-- 
2.43.0


From 9da9e3a23acdc6f29620f3a3714677a8518ef734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:31 +0000
Subject: [PATCH 21/28] fix: runs of batches started in the same instant get
 directories of their own

---
 simulation/serializer.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/simulation/serializer.py b/simulation/serializer.py
index b32b75e..fde7915 100644
--- a/simulation/serializer.py
+++ b/simulation/serializer.py
@@ -4,7 +4,7 @@ from contextlib import suppress
 from pathlib import Path
 from typing import Any
 
-from simulation.model import SimulationCase
+from simulation.model import SimulationCase, get_simulation_id
 
 
 class Result:
@@ -54,8 +54,12 @@ class Serializer:
             simulation_case.algorithm_name,
             simulation_case.id,
         )
+        self.claimed = False
 
     def store(self, result: Result, file_name: str) -> Path:
+        if not self.claimed:
+            self._claim_directory()
+
         with suppress(FileExistsError):
             self.path.mkdir(parents=True)
 
@@ -63,6 +67,22 @@ class Serializer:
         save_file(store_path, result)
         return store_path
 
+    def _claim_directory(self):
+        """
+        No two runs share a directory: those of another batch that was started in the same instant
+        have the same identifiers.
+        """
+        self.path.parent.mkdir(parents=True, exist_ok=True)
+        while not self.claimed:
+            try:
+                self.path.mkdir()
+                self.claimed = True
+            except FileExistsError:
+                run_date, run_id = self.path.name.split("__")
+                self.path = self.path.with_name(
+                    get_simulation_id(int(run_id) % 9999999 + 1, run_date)
+                )
+
     def get_result_path(self, file_name) -> Path:
         return self.path / f"{file_name}.pickle"
 
-- 
2.43.0


From f492265d32b04de98853707ae12f4bbd47b54f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 22/28] fix: a batch that ends leaves the actors of other
 batches alone

---
 simulation/run_parallel.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/simulation/run_parallel.py b/simulation/run_parallel.py
index 86e8355..2630b86 100644
--- a/simulation/run_parallel.py
+++ b/simulation/run_parallel.py
@@ -2,6 +2,7 @@ import collections
 import logging
 import operator
 import random
+import socket
 from datetime import datetime
 
 import rx
@@ -33,7 +34,12 @@ def run_parallel(args):
     logger.debug("Simulation cases: %s", simulation_cases)
     logger.debug("Work will be divided into %d processes", processes_no)
 
-    sys = ActorSystem("multiprocTCPBase", logDefs=log_helper.EVOGIL_LOG_CONFIG)
+    # a system of its own: another batch on this machine that ends shuts down its own actors only
+    sys = ActorSystem(
+        "multiprocTCPBase",
+        capabilities={"Admin Port": find_free_port()},
+        logDefs=log_helper.EVOGIL_LOG_CONFIG,
+    )
 
     with log_time(system_time, logger, "Pool evaluated in {time_res}s", out=wall_time):
 
@@ -52,6 +58,12 @@ def run_parallel(args):
     rxtools.shutdown_default_executor()
     sys.shutdown()
 
+def find_free_port():
+    with socket.socket() as sock:
+        sock.bind(("", 0))
+        return sock.getsockname()[1]
+
+
 def log_simulation_stats(start_time, finished_count, simultations_count):
     current_time = datetime.now()
     diff_time = current_time - start_time
-- 
2.43.0


From 8eee486a2902d36a72d68fb28b132e5635d45706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:54 +0000
Subject: [PATCH 23/28] fix: rank passes over algorithms without results
 instead of failing

---
 statistic/stats_bootstrap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/statistic/stats_bootstrap.py b/statistic/stats_bootstrap.py
index 5d81eaf..2ad2287 100644
--- a/statistic/stats_bootstrap.py
+++ b/statistic/stats_bootstrap.py
@@ -15,6 +15,9 @@ def validate_cost(result, boot_size, delta=500):
 
 
 def find_acceptable_result_for_budget(results, boot_size):
+    if not results:
+        # e.g. the batch was killed before it stored its first result
+        return None
     delta = 500
     prev_budget = results[-1]["budget"]
     for result in reversed(results):
-- 
2.43.0


From ec3f91d2e4ea16b79e139de377d14f90df33712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:33 +0000
Subject: [PATCH 24/28] fix: pictures leaves out algorithms without a place in
 the plots instead of failing

---
 plots/pictures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plots/pictures.py b/plots/pictures.py
index aaf71b1..393403b 100644
--- a/plots/pictures.py
+++ b/plots/pictures.py
@@ -512,7 +512,7 @@ def pictures_from_stats(args):
 
                             keys = [
                                 (problem_name, algo_name, metric_name, group)
-                                for group in algos_groups[algo_name]
+                                for group in algos_groups.get(algo_name, ())
                             ]
                             value = (budget, budget_err, score, score_err)
                             print("PLOT: " + str(value))
@@ -554,7 +554,7 @@ def pictures_time(args):
 
                             keys = [
                                 (problem_name, algo_name, metric_name, group)
-                                for group in algos_groups[algo_name]
+                                for group in algos_groups.get(algo_name, ())
                             ]
                             value = (time, 0, score, score_err)
                             for key in keys:
-- 
2.43.0


From b6c1c7f626cfa3f23de0b6bca338885e45442f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:34 +0000
Subject: [PATCH 25/28] fix: time pictures span the times of all algorithms,
 and an empty store fails no more

---
 plots/pictures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plots/pictures.py b/plots/pictures.py
index 393403b..c5a9d8c 100644
--- a/plots/pictures.py
+++ b/plots/pictures.py
@@ -559,7 +559,9 @@ def pictures_time(args):
                             value = (time, 0, score, score_err)
                             for key in keys:
                                 plot_data[key].append(value)
-    max_time = max(list(plot_data.values())[0])[0]
+    max_time = max(
+        (time for values in plot_data.values() for time, _, _, _ in values), default=0
+    )
     plot_results(plot_data, plots_dir, (0, max_time))
 
 
-- 
2.43.0


From eb74a29772fc9111aea70debefa67d27f8e6f09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:34 +0000
Subject: [PATCH 26/28] fix: pictures_summary skips problems without an
 acceptable result instead of failing

---
 plots/pictures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plots/pictures.py b/plots/pictures.py
index c5a9d8c..7d1f496 100644
--- a/plots/pictures.py
+++ b/plots/pictures.py
@@ -658,7 +658,7 @@ def pictures_summary(args):
                     print("{}, {}, NO BUDGET".format(problem_name, algo_name))
 
             for metric_name in scoring:
-                if metric_name != "pdi":
+                if metric_name != "pdi" and problem_score[metric_name]:
 
                     max_score = (
                         max(x for algo, x in problem_score[metric_name]) + 0.0001
-- 
2.43.0


From e5717854c286fc6ffc2054bcb924f2964b512b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:40 +0000
Subject: [PATCH 27/28] fix: statistics read the results directory given with
 --dir

---
 statistic/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/statistic/stats.py b/statistic/stats.py
index 62a450c..8bb5c0b 100644
--- a/statistic/stats.py
+++ b/statistic/stats.py
@@ -83,7 +83,7 @@ def statistics(args):
 
     with close_and_join(multiprocessing.Pool(min(int(args["-j"]), 8))) as p:
         for problem_name, problem_mod, algorithms in serialization.each_result(
-            BudgetResultsExtractor()
+            BudgetResultsExtractor(), args.get("--dir") or serialization.RESULTS_DIR
         ):
             for algo_name, budgets in algorithms:
                 header_just_printed = print_header()
-- 
2.43.0


From cc2c9571fe0669c425b766b9c9e00e98f92f5412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:40 +0000
Subject: [PATCH 28/28] fix: a timed run whose sampling interval exceeds its
 timeout failed with SequenceContainsNoElementsError

---
 simulation/worker.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simulation/worker.py b/simulation/worker.py
index b0b6a5c..54da29b 100644
--- a/simulation/worker.py
+++ b/simulation/worker.py
@@ -173,6 +173,9 @@ class TimeWorker(SimulationWorker):
             slots_filled.add(time_slot)
 
 
-        time_run.create_job(driver).pipe(ops.do_action(on_next=process_results)).run()
+        # no slot at all fits into a timeout shorter than the sampling interval
+        time_run.create_job(driver).pipe(
+            ops.do_action(on_next=process_results), ops.default_if_empty()
+        ).run()
 
         return results
-- 
2.43.0

