From 133cf633d7e65f0584388d1c74f5b077ef9fbd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:42 +0000
Subject: [PATCH 01/23] fix: constrain every storage of a node, not only the
 first one

---
 hadar/optimizer/lp/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index e2eb4bd..406e01b 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -295,6 +295,7 @@ class StorageBuilder:
     def add_node(
         self, name_network: str, name_node: str, node: LPNode, t: int
     ) -> Constraint:
+        const = None
         for stor in node.storages:
             self.capacities[(t, name_network, name_node, stor.name)] = stor.var_capacity
             if t == 0:
@@ -302,7 +303,6 @@ class StorageBuilder:
                 const.SetCoefficient(stor.var_flow_in, -stor.eff)
                 const.SetCoefficient(stor.var_flow_out, 1)
                 const.SetCoefficient(stor.var_capacity, 1)
-                return const
             else:
                 const = self.solver.Constraint(0, 0)
                 const.SetCoefficient(stor.var_flow_in, -stor.eff)
@@ -311,7 +311,7 @@ class StorageBuilder:
                     self.capacities[(t - 1, name_network, name_node, stor.name)], -1
                 )
                 const.SetCoefficient(stor.var_capacity, 1)
-                return const
+        return const
 
     def build(self):
         pass  # Currently nothing are need at the end. But we keep builder pattern syntax
-- 
2.43.0


From 9d3b3e69eceb0659dfdf2feec2f5b6957b2b4c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:08 +0000
Subject: [PATCH 02/23] fix: a link looping on its own node must not create
 energy

---
 hadar/optimizer/lp/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index 406e01b..1f78f35 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -279,7 +279,8 @@ class AdequacyBuilder:
         """
         # Apply import link in adequacy
         for (t, net, src, dest), var in self.importations.items():
-            self.constraints[(t, net, dest)].SetCoefficient(var, 1)
+            # A link looping on its own node exports and imports the same flow: both cancel out
+            self.constraints[(t, net, dest)].SetCoefficient(var, 0 if src == dest else 1)
 
 
 class StorageBuilder:
-- 
2.43.0


From f39a8955c72c693d2bb6718beab1711c89006395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:14 +0000
Subject: [PATCH 03/23] fix: raise instead of returning a result when the
 solver found no optimum

---
 hadar/optimizer/lp/optimizer.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index 1f78f35..317a7b5 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -29,6 +29,16 @@ from hadar.optimizer.utils import JSON
 
 logger = logging.getLogger(__name__)
 
+# Solver status which mean variables don't hold an optimal solution
+SOLVER_FAILURES = {
+    Solver.FEASIBLE: "not proven optimal",
+    Solver.INFEASIBLE: "infeasible",
+    Solver.UNBOUNDED: "unbounded",
+    Solver.ABNORMAL: "abnormal",
+    Solver.MODEL_INVALID: "invalid model",
+    Solver.NOT_SOLVED: "not solved",
+}
+
 
 class ObjectiveBuilder:
     """
@@ -405,7 +415,12 @@ def _solve_batch(params) -> bytes:
 
     logger.info("Problem build. Start solver")
     solver.EnableOutput()
-    solver.Solve()
+    status = solver.Solve()
+    if status in SOLVER_FAILURES:
+        raise RuntimeError(
+            "Solver can't find optimal solution for scenario %d: %s"
+            % (i_scn, SOLVER_FAILURES[status])
+        )
 
     problem_solved = time.time()
     logger.info("Solver finish cost=%d", solver.Objective().Value())
-- 
2.43.0


From 68e2a82a16a190bb5b41c79294a5b3dc8f981505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:31 +0000
Subject: [PATCH 04/23] fix: serialize numpy numbers of any width, not only 64
 bits ones

---
 hadar/optimizer/lp/domain.py | 4 ++--
 hadar/optimizer/utils.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hadar/optimizer/lp/domain.py b/hadar/optimizer/lp/domain.py
index b82e168..8371f69 100644
--- a/hadar/optimizer/lp/domain.py
+++ b/hadar/optimizer/lp/domain.py
@@ -26,9 +26,9 @@ class JSONLP(JSON, ABC):
                     "::".join(k) if isinstance(k, tuple) else k: copy(v)
                     for k, v in v.items()
                 }
-            elif isinstance(v, np.int64):
+            elif isinstance(v, np.integer):
                 return int(v)
-            elif isinstance(v, np.float64):
+            elif isinstance(v, np.floating):
                 return float(v)
             else:
                 return v
diff --git a/hadar/optimizer/utils.py b/hadar/optimizer/utils.py
index eed3aca..8ef390e 100644
--- a/hadar/optimizer/utils.py
+++ b/hadar/optimizer/utils.py
@@ -47,9 +47,9 @@ class JSON(DTO, ABC):
             return {k: JSON.convert(v) for k, v in value.items()}
         elif isinstance(value, list) or isinstance(value, tuple):
             return [JSON.convert(v) for v in value]
-        elif isinstance(value, np.int64):
+        elif isinstance(value, np.integer):
             return int(value)
-        elif isinstance(value, np.float64):
+        elif isinstance(value, np.floating):
             return float(value)
         elif isinstance(value, np.ndarray):
             return value.tolist()
-- 
2.43.0


From e80afbfb4c90d5b1b9a1a8acbd040deca8762b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:23 +0000
Subject: [PATCH 05/23] fix: solve studies given as integer or single precision
 arrays

---
 hadar/optimizer/lp/mapper.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/hadar/optimizer/lp/mapper.py b/hadar/optimizer/lp/mapper.py
index 19db981..086bfbc 100644
--- a/hadar/optimizer/lp/mapper.py
+++ b/hadar/optimizer/lp/mapper.py
@@ -60,8 +60,8 @@ class InputMapper:
         consumptions = [
             LPConsumption(
                 name=c.name,
-                cost=c.cost[scn, t],
-                quantity=c.quantity[scn, t],
+                cost=float(c.cost[scn, t]),
+                quantity=float(c.quantity[scn, t]),
                 variable=self.solver.NumVar(
                     0, float(c.quantity[scn, t]), name="lol=%s %s" % (c.name, suffix)
                 ),
@@ -72,8 +72,8 @@ class InputMapper:
         productions = [
             LPProduction(
                 name=p.name,
-                cost=p.cost[scn, t],
-                quantity=p.quantity[scn, t],
+                cost=float(p.cost[scn, t]),
+                quantity=float(p.quantity[scn, t]),
                 variable=self.solver.NumVar(
                     0, float(p.quantity[scn, t]), "prod=%s %s" % (p.name, suffix)
                 ),
@@ -84,12 +84,12 @@ class InputMapper:
         storages = [
             LPStorage(
                 name=s.name,
-                flow_in=s.flow_in[scn, t],
-                flow_out=s.flow_out[scn, t],
-                eff=s.eff[scn, t],
-                capacity=s.capacity[scn, t],
-                init_capacity=s.init_capacity,
-                cost=s.cost[scn, t],
+                flow_in=float(s.flow_in[scn, t]),
+                flow_out=float(s.flow_out[scn, t]),
+                eff=float(s.eff[scn, t]),
+                capacity=float(s.capacity[scn, t]),
+                init_capacity=float(s.init_capacity),
+                cost=float(s.cost[scn, t]),
                 var_capacity=self.solver.NumVar(
                     0,
                     float(s.capacity[scn, t]),
@@ -112,9 +112,9 @@ class InputMapper:
         links = [
             LPLink(
                 dest=l.dest,
-                cost=l.cost[scn, t],
+                cost=float(l.cost[scn, t]),
                 src=node,
-                quantity=l.quantity[scn, t],
+                quantity=float(l.quantity[scn, t]),
                 variable=self.solver.NumVar(
                     0, float(l.quantity[scn, t]), "link=%s %s" % (l.dest, suffix)
                 ),
@@ -141,14 +141,14 @@ class InputMapper:
         suffix = "at t=%d for scn=%d" % (t, scn)
         v = self.study.converters[name]
 
-        src_ratios = {k: v[scn, t] for k, v in v.src_ratios.items()}
+        src_ratios = {k: float(v[scn, t]) for k, v in v.src_ratios.items()}
         return LPConverter(
             name=v.name,
             src_ratios=src_ratios,
             dest_network=v.dest_network,
             dest_node=v.dest_node,
-            cost=v.cost[scn, t],
-            max=v.max[scn, t],
+            cost=float(v.cost[scn, t]),
+            max=float(v.max[scn, t]),
             var_flow_src={
                 src: self.solver.NumVar(
                     0,
-- 
2.43.0


From 0eca7a6a86f948682ce842d3b2edc330109fed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:30 +0000
Subject: [PATCH 06/23] fix: a dead worker process must fail the solve or
 shuffle, not hang it

---
 hadar/optimizer/lp/optimizer.py | 11 ++++++-----
 hadar/workflow/shuffler.py      | 13 ++++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index 317a7b5..3f95583 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -6,8 +6,8 @@
 #  This file is part of hadar-simulator, a python adequacy library for everyone.
 import cProfile
 import logging
-import multiprocessing
 import time
+from concurrent.futures import ProcessPoolExecutor
 from typing import List
 
 import msgpack
@@ -463,10 +463,11 @@ def solve_lp(study: Study, out_mapper=None) -> Result:
 
     out_mapper = out_mapper or OutputMapper(study)
 
-    pool = multiprocessing.Pool()
-    serialized_out = pool.map(
-        _solve_batch, ((study, i_scn) for i_scn in range(study.nb_scn))
-    )
+    # Unlike multiprocessing.Pool, executor raises if a worker dies instead of waiting forever
+    with ProcessPoolExecutor() as pool:
+        serialized_out = list(
+            pool.map(_solve_batch, ((study, i_scn) for i_scn in range(study.nb_scn)))
+        )
 
     compute_finished = time.time()
     for scn in range(0, study.nb_scn):
diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 76ee6f8..88bf0cf 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -4,7 +4,7 @@
 #  If a copy of the Apache License, version 2.0 was not distributed with this file, you can obtain one at http://www.apache.org/licenses/LICENSE-2.0.
 #  SPDX-License-Identifier: Apache-2.0
 #  This file is part of hadar-simulator, a python adequacy library for everyone.
-import multiprocessing
+from concurrent.futures import ProcessPoolExecutor
 
 import numpy as np
 import pandas as pd
@@ -143,8 +143,11 @@ class Shuffler:
         :return:
         """
         # Compute pipelines
-        pool = multiprocessing.Pool()
-        res = pool.map(
-            compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())
-        )
+        # Unlike multiprocessing.Pool, executor raises if a worker dies instead of waiting forever
+        with ProcessPoolExecutor() as pool:
+            res = list(
+                pool.map(
+                    compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())
+                )
+            )
         return dict(res)
-- 
2.43.0


From d83378d813d45d3783972a9130ca58ae76e20c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:00 +0000
Subject: [PATCH 07/23] fix: sample each timeline independently instead of with
 the same indexes

---
 hadar/workflow/shuffler.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 88bf0cf..81b1210 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -8,13 +8,20 @@ from concurrent.futures import ProcessPoolExecutor
 
 import numpy as np
 import pandas as pd
-from numpy.random import randint
 
 from hadar.workflow.pipeline import Pipeline, TO_SHUFFLER, Stage
 
 __all__ = ["Shuffler", "Timeline"]
 
 
+def randint(low, high, size):
+    """
+    Default sampler. numpy.random.randint itself can't be sent to worker processes:
+    it's pickled with a copy of random state, so every timeline would be sampled with same indexes.
+    """
+    return np.random.randint(low, high, size)
+
+
 class Timeline:
     """
     Manage data used to generate timeline. Perform sampling too.
@@ -87,10 +94,11 @@ def compute(params):
     """
     Wrapper method to call Timeline.sample used by multiprocessing.Pool.
 
-    :param params: (timeline, number of scenarios, timeline name)
+    :param params: (timeline, number of scenarios, timeline name, random seed)
     :return: (name, sampling)
     """
-    tl, nb, name = params
+    tl, nb, name, seed = params
+    np.random.seed(seed)
     return name, tl.sample(nb)
 
 
@@ -142,12 +150,19 @@ class Shuffler:
         :param nb_scn: number of scenarios to sample
         :return:
         """
+        # Workers start with same random state, give a different seed to each timeline
+        seeds = np.random.randint(2 ** 32, size=len(self.timelines), dtype=np.uint32)
+
         # Compute pipelines
         # Unlike multiprocessing.Pool, executor raises if a worker dies instead of waiting forever
         with ProcessPoolExecutor() as pool:
             res = list(
                 pool.map(
-                    compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())
+                    compute,
+                    (
+                        (tl, nb_scn, name, seed)
+                        for (name, tl), seed in zip(self.timelines.items(), seeds)
+                    ),
                 )
             )
         return dict(res)
-- 
2.43.0


From 6c5c28f71c49c6e7455ee92f79488826a81dfd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:18 +0000
Subject: [PATCH 08/23] fix: seeded faults are reproducible whatever the seed
 and other threads

---
 hadar/workflow/pipeline.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index bdc32e6..243af23 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -512,16 +512,16 @@ class Fault(FocusStage):
         self.seed = seed
 
     def _process_scenarios(self, n_scn: int, scenario: pd.DataFrame) -> pd.DataFrame:
-        if self.seed:
-            np.random.seed(self.seed)
+        # Global random state can be used by others threads, so seeded faults own their generator
+        random = np.random if self.seed is None else np.random.RandomState(self.seed)
 
         horizon = scenario.shape[0]
-        nb_faults = np.random.choice(
+        nb_faults = random.choice(
             [0, 1], size=horizon, p=[1 - self.occur_freq, self.occur_freq]
         ).sum()
         loss_qt = np.zeros(horizon)
-        faults_begin = np.random.randint(low=0, high=horizon, size=nb_faults)
-        faults_duration = np.random.randint(
+        faults_begin = random.randint(low=0, high=horizon, size=nb_faults)
+        faults_duration = random.randint(
             low=self.downtime_min, high=self.downtime_max, size=nb_faults
         )
         for begin, duration in zip(faults_begin, faults_duration):
-- 
2.43.0


From 01e9028add92261bc3bbc4b99299117758d4c266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:55 +0000
Subject: [PATCH 09/23] fix: don't rename columns of the DataFrame owned by
 caller

---
 hadar/workflow/pipeline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index 243af23..f9f8fb7 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -309,6 +309,7 @@ class Stage(ABC):
         # Add 0th scenarios column if not present.
         if not isinstance(timeline.columns, MultiIndex):
             columns = timeline.columns.values
+            timeline = timeline.copy()  # Don't change data owned by caller
             timeline.columns = MultiIndex.from_arrays([np.zeros_like(columns), columns])
 
         return timeline
-- 
2.43.0


From 5d3e5430ecfa0c775a4094fefbbc561b16f9b875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:38 +0000
Subject: [PATCH 10/23] fix: linking stages must not change their plugs, nor
 lose the time index or unused columns

---
 hadar/workflow/pipeline.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index f9f8fb7..63bcd49 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -149,8 +149,8 @@ class RestrictedPlug(Plug):
             return self
 
         # keep output not used by next pipeline and add next outputs
-        next.outputs += [e for e in self.outputs if e not in next.inputs]
-        return RestrictedPlug(inputs=self.inputs, outputs=next.outputs)
+        outputs = next.outputs + [e for e in self.outputs if e not in next.inputs]
+        return RestrictedPlug(inputs=self.inputs, outputs=outputs)
 
 
 class Pipeline:
@@ -171,7 +171,9 @@ class Pipeline:
         # Verify stage linkable capacity
         for i in range(0, len(stages) - 1):
             curr, next = stages[i], stages[i + 1]
-            if not curr.plug.linkable_to(next.plug):
+            if not (
+                curr.plug.linkable_to(next.plug) or self.plug.linkable_to(next.plug)
+            ):
                 raise ValueError(
                     "Pipeline can't be added current outputs are %s and %s has input %s"
                     % (self.plug.outputs, curr.__class__.__name__, next.plug.inputs)
@@ -382,16 +384,20 @@ class FocusStage(Stage, ABC):
         :return:
         """
         scenarios = timeline.columns.get_level_values(0).unique()
-
-        n_scn = len(scenarios)
-        n_time = timeline.shape[0]
-        n_type = len(self.plug.outputs)
-
-        index = FocusStage.build_multi_index(scenarios, names=self.plug.outputs)
-
-        output = pd.DataFrame(data=np.zeros((n_time, n_type * n_scn)), columns=index)
-        for scn in timeline.columns.get_level_values(0).unique():
-            output[scn] = self._process_scenarios(scn, timeline[scn].copy())
+        processed = {
+            scn: self._process_scenarios(scn, timeline[scn].copy()) for scn in scenarios
+        }
+        first = processed[scenarios[0]]
+
+        # Stage outputs, then columns not used by stage
+        names = list(self.plug.outputs)
+        names += [name for name in first.columns if name not in names]
+
+        index = FocusStage.build_multi_index(scenarios, names=names)
+        data = np.zeros((first.shape[0], len(index)))
+        output = pd.DataFrame(data=data, index=first.index, columns=index)
+        for scn in scenarios:
+            output[scn] = processed[scn]
         return output
 
 
-- 
2.43.0


From c557ea2aaccb4d73da24ddeec6bef98ee6e22761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:43 +0000
Subject: [PATCH 11/23] fix: adding a stage returns a new pipeline and leaves
 the first one unchanged

---
 hadar/workflow/pipeline.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index 63bcd49..d31ea8f 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -197,9 +197,7 @@ class Pipeline:
                 % (self.plug.outputs, other.__class__.__name__, other.plug.inputs)
             )
 
-        self.plug += other.plug
-        self.stages.append(other)
-        return self
+        return Pipeline(stages=self.stages + [other])
 
     def __call__(self, timeline):
         """
-- 
2.43.0


From 11484f25c6dfa8b5a2289f7e43686236e062cd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:25 +0000
Subject: [PATCH 12/23] fix: a rejected converter call must leave the study
 unchanged

---
 hadar/optimizer/domain/input.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 035fc2b..1417118 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -418,12 +418,15 @@ class Study(JSON):
     def _add_converter_src(
         self, name: str, network: str, node: str, ratio: NumericalValueType
     ):
-        if (network, node) in self.converters[name].src_ratios:
+        converter = self.converters.get(name)
+        if converter and (network, node) in converter.src_ratios:
             raise ValueError(
                 "converter input already has node %s on network %s" % (node, network)
             )
 
         ratio = self.factory.create(ratio)
+
+        self._add_converter(name)
         self.converters[name].src_ratios[(network, node)] = ratio
 
     def _set_converter_dest(
@@ -434,7 +437,8 @@ class Study(JSON):
         cost: NumericalValueType,
         max: NumericalValueType,
     ):
-        if self.converters[name].dest_network and self.converters[name].dest_node:
+        converter = self.converters.get(name)
+        if converter and converter.dest_network and converter.dest_node:
             raise ValueError("converter has already output set")
         if (
             network not in self.networks
@@ -442,10 +446,15 @@ class Study(JSON):
         ):
             raise ValueError("Node %s is not present in network %s" % (node, network))
 
+        # Create values before changing anything, to keep study unchanged if they are rejected
+        cost = self.factory.create(cost)
+        max = self.factory.create(max)
+
+        self._add_converter(name)
         self.converters[name].dest_network = network
         self.converters[name].dest_node = node
-        self.converters[name].cost = self.factory.create(cost)
-        self.converters[name].max = self.factory.create(max)
+        self.converters[name].cost = cost
+        self.converters[name].max = max
 
 
 class NetworkFluentAPISelector:
@@ -522,7 +531,6 @@ class NetworkFluentAPISelector:
         :param cost: cost for each quantity produce by converter
         :return:
         """
-        self.study._add_converter(name=name)
         self.study._set_converter_dest(
             name=name, network=to_network, node=to_node, cost=cost, max=max
         )
@@ -680,7 +688,6 @@ class NodeFluentAPISelector:
         :param ratio: ratio for output
         :return:
         """
-        self.study._add_converter(name=name)
         self.study._add_converter_src(
             name=name,
             network=self.selector["network"],
-- 
2.43.0


From 054f0bcc2f4a81bd168179a77e01e2250c98cea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:32 +0000
Subject: [PATCH 13/23] fix: selecting another node must not retarget node
 selectors already returned

---
 hadar/optimizer/domain/input.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 1417118..cdfd8d4 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -473,9 +473,8 @@ class NetworkFluentAPISelector:
         :param name: node to select when changing level
         :return: NodeFluentAPISelector initialized
         """
-        self.selector["node"] = name
         self.study.add_node(network=self.selector["network"], node=name)
-        return NodeFluentAPISelector(self.study, self.selector)
+        return NodeFluentAPISelector(self.study, {**self.selector, "node": name})
 
     def link(
         self,
-- 
2.43.0


From f246a3be8751e4a2591a075f5cd4bd581d20ca90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:25 +0000
Subject: [PATCH 14/23] fix: analyze every storage, not only the last one

---
 hadar/analyzer/result.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 01c33e8..adb5653 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -331,6 +331,8 @@ class ResultAnalyzer:
                     stor.loc[slices, "t"] = np.tile(np.arange(h), scn)
                     stor.loc[slices, "scn"] = np.repeat(np.arange(scn), h)
 
+                    n_stor += 1
+
         return stor
 
     @staticmethod
-- 
2.43.0


From 2db72ce886161fcd481a17785c9fb9093528d9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:31 +0000
Subject: [PATCH 15/23] fix: analyze converters with many sources

---
 hadar/analyzer/result.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index adb5653..8839a61 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -386,7 +386,7 @@ class ResultAnalyzer:
     def _build_dest_converter(study: Study, result: Result):
         h = study.horizon
         scn = study.nb_scn
-        elements = sum([len(v.src_ratios) for v in study.converters.values()])
+        elements = len(study.converters)
         size = h * scn * elements
 
         dest_conv = {
@@ -431,16 +431,12 @@ class ResultAnalyzer:
 
         s = 0
         for name, v in study.converters.items():
-            src_size = len(v.src_ratios)
-            e = s + h * scn * src_size
-            slices = src_conv.index[s:e]
-            src_conv.loc[slices, "name"] = v.name
-            src_conv.loc[slices, "t"] = np.tile(np.arange(h), scn * src_size)
-            src_conv.loc[slices, "scn"] = np.repeat(np.arange(scn), h * src_size)
-
-            for i_src, (net, node) in enumerate(v.src_ratios.keys()):
-                e = s + h * scn * (i_src + 1)
+            for net, node in v.src_ratios.keys():
+                e = s + h * scn
                 slices = src_conv.index[s:e]
+                src_conv.loc[slices, "name"] = v.name
+                src_conv.loc[slices, "t"] = np.tile(np.arange(h), scn)
+                src_conv.loc[slices, "scn"] = np.repeat(np.arange(scn), h)
                 src_conv.loc[slices, "network"] = net
                 src_conv.loc[slices, "node"] = node
                 src_conv.loc[slices, "max"] = v.max.flatten()
@@ -449,7 +445,6 @@ class ResultAnalyzer:
                     result.converters[name].flow_src[(net, node)].flatten()
                 )
                 s = e
-            s = e
 
         src_conv.loc[:, "max"] /= src_conv[
             "ratio"
-- 
2.43.0


From e5ee963e9d2c69cda411e16bbfdc7bb7d83fb12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:37 +0000
Subject: [PATCH 16/23] fix: a query must not change the selector it starts
 from

---
 hadar/analyzer/result.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 8839a61..0efeb87 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -798,8 +798,8 @@ class NetworkFluentAPISelector:
         :param index:
         :return:
         """
-        self.indexes.append(index)
-        if len(self.indexes) == NetworkFluentAPISelector.FULL_DESCRIPTION:
-            return self.analyzer.filter(self.indexes)
+        indexes = self.indexes + [index]
+        if len(indexes) == NetworkFluentAPISelector.FULL_DESCRIPTION:
+            return self.analyzer.filter(indexes)
         else:
-            return NetworkFluentAPISelector(deepcopy(self.indexes), self.analyzer)
+            return NetworkFluentAPISelector(deepcopy(indexes), self.analyzer)
-- 
2.43.0


From 96229e2d17d9dd23a20fc2e0cc9a996331f17675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:43 +0000
Subject: [PATCH 17/23] fix: select time or scenario with slices without start
 or stop

---
 hadar/analyzer/result.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 0efeb87..b8b7687 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -131,13 +131,23 @@ class IntIndex(Index[int]):
         :param start: start datetime to filter (to use instead of index)
         :param end: end datetime to filter (to use instead of index)
         """
+        self.start, self.step = 0, 1
         if isinstance(index, slice):
-            start = 0 if index.start is None else index.start
-            stop = -1 if index.start is None else index.stop
-            step = 1 if index.step is None else index.step
-            index = tuple(range(start, stop, step))
+            self.start = 0 if index.start is None else index.start
+            self.step = 1 if index.step is None else index.step
+            if index.stop is None:
+                index = None
+            else:
+                index = tuple(range(self.start, index.stop, self.step))
         Index.__init__(self, column=column, index=index)
 
+    def filter(self, df: pd.DataFrame) -> pd.Series:
+        mask = Index.filter(self, df)
+        if self.all:  # slice without stop
+            mask &= df[self.column] >= self.start
+            mask &= (df[self.column] - self.start) % self.step == 0
+        return mask
+
 
 class TimeIndex(IntIndex):
     """Index implementation to filter by time step"""
-- 
2.43.0


From 0657cc0289afb8777b2b2ff06e225dc4eafa20c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:19 +0000
Subject: [PATCH 18/23] fix: answer analysis queries which select a single row

A query whose five selections are all single values raised IndexError while removing the last index level.
---
 hadar/analyzer/result.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index b8b7687..175b2c9 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -474,7 +474,12 @@ class ResultAnalyzer:
         :return: dataframe trimed with useless index(es) level
         """
         # TODO refactor without the help of indexes
-        if indexes[0].is_alone() and indexes[0].index[0] in df.index:
+        # Last level is always kept, otherwise there is no more dataframe to return
+        if (
+            len(indexes) > 1
+            and indexes[0].is_alone()
+            and indexes[0].index[0] in df.index
+        ):
             df = df.loc[indexes[0].index[0]].copy()
             return ResultAnalyzer._remove_useless_index_level(df, indexes[1:])
         else:
-- 
2.43.0


From 40c3cc47f6567d1d122c5e019d15761b43d89b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:38 +0000
Subject: [PATCH 19/23] fix: answer converter queries when study has no
 converter

Without converter the converter tables had no time and scenario columns, so
every query on them raised KeyError instead of an empty answer.
---
 hadar/analyzer/result.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 175b2c9..f8e7332 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -417,8 +417,10 @@ class ResultAnalyzer:
             dest_conv.loc[slices, "network"] = v.dest_network
             dest_conv.loc[slices, "node"] = v.dest_node
             dest_conv.loc[slices, "flow"] = result.converters[name].flow_dest.flatten()
-            dest_conv.loc[slices, "t"] = np.tile(np.arange(h), scn)
-            dest_conv.loc[slices, "scn"] = np.repeat(np.arange(scn), h)
+
+        # Columns are set even if there is no converter, because they are used to filter
+        dest_conv["t"] = np.tile(np.arange(h, dtype=float), scn * elements)
+        dest_conv["scn"] = np.tile(np.repeat(np.arange(scn, dtype=float), h), elements)
 
         return dest_conv
 
@@ -445,8 +447,6 @@ class ResultAnalyzer:
                 e = s + h * scn
                 slices = src_conv.index[s:e]
                 src_conv.loc[slices, "name"] = v.name
-                src_conv.loc[slices, "t"] = np.tile(np.arange(h), scn)
-                src_conv.loc[slices, "scn"] = np.repeat(np.arange(scn), h)
                 src_conv.loc[slices, "network"] = net
                 src_conv.loc[slices, "node"] = node
                 src_conv.loc[slices, "max"] = v.max.flatten()
@@ -456,6 +456,10 @@ class ResultAnalyzer:
                 )
                 s = e
 
+        # Columns are set even if there is no converter, because they are used to filter
+        src_conv["t"] = np.tile(np.arange(h, dtype=float), scn * elements)
+        src_conv["scn"] = np.tile(np.repeat(np.arange(scn, dtype=float), h), elements)
+
         src_conv.loc[:, "max"] /= src_conv[
             "ratio"
         ]  # max value is for output. Need to divide by ratio to find max for src
-- 
2.43.0


From 24f19f0b36731d9c66fea564e5ddb4eb05aee618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:33 +0000
Subject: [PATCH 20/23] fix: a column named 0 must not be sampled as a scenario
 by shuffler

---
 hadar/workflow/shuffler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 81b1210..ac855ab 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -85,7 +85,7 @@ class TimelinePipeline(Timeline):
         """
         res = self.pipeline(self.df)
         drop_columns = res.columns.get_level_values(1).unique().drop(TO_SHUFFLER)
-        if drop_columns.any():
+        if drop_columns.size > 0:  # any() ignores columns named 0
             res = res.drop(drop_columns, axis=1, level=1)
         return res.values.T
 
-- 
2.43.0


From 0fafd8421fc27a72ea55fab5deca50bcf1b0c700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:41 +0000
Subject: [PATCH 21/23] fix: faults must not erase columns named by a number

---
 hadar/workflow/pipeline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index d31ea8f..cc9f150 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -333,7 +333,8 @@ class Stage(ABC):
 
         # Create an index for type like
         # [a, b, c, d, e, f, a, b, c, d, e, f, ..... x n_scn]
-        index_name = np.tile(names, n_scn)
+        # numpy converts mixed names, like ['quantity', 0], to strings if type isn't set
+        index_name = np.tile(np.array(names, dtype=object), n_scn)
 
         # Merge index for MultiIndex
         # [[0, a], [0, b], [0, c], ..., [1, a], [1, b], [1, c], ... ]
-- 
2.43.0


From 35bb5ea6019cb8b4f1e593cb9464eff4e2acbcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:24 +0000
Subject: [PATCH 22/23] fix: repeating scenarios must not mix columns which
 aren't grouped by scenario

---
 hadar/workflow/pipeline.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index cc9f150..e367214 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -553,10 +553,14 @@ class RepeatScenario(Stage):
         self.n = n
 
     def _process_timeline(self, timeline: pd.DataFrame) -> pd.DataFrame:
-        data = np.tile(timeline.values, self.n)
-
-        n_scn = Stage.get_scenarios(timeline).size
+        scenarios = Stage.get_scenarios(timeline)
+        n_scn = scenarios.size
         names = Stage.get_names(timeline)
+
+        # Columns aren't always grouped by scenario, whereas new ones are
+        columns = Stage.build_multi_index(scenarios=scenarios, names=names)
+        data = np.tile(timeline[columns].values, self.n)
+
         index = Stage.build_multi_index(
             scenarios=np.arange(0, n_scn * self.n), names=names
         )
-- 
2.43.0


From ae964a451d04e6a8c2566a95966a4f8c2ded6819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:08 +0000
Subject: [PATCH 23/23] fix: node names containing "::" break converters

Keys of converter sources are "network::node"; reading them back split the
node name too, so that a local solve raised KeyError and a study or result
read from JSON had unusable source keys.
---
 hadar/optimizer/domain/input.py  | 2 +-
 hadar/optimizer/domain/output.py | 2 +-
 hadar/optimizer/lp/domain.py     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index cdfd8d4..828b73d 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -198,7 +198,7 @@ class Converter(JSON):
         dict["cost"] = factory.create(dict["cost"])
         dict["max"] = factory.create(dict["max"])
         dict["src_ratios"] = {
-            tuple(k.split("::")): factory.create(v)
+            tuple(k.split("::", 1)): factory.create(v)
             for k, v in dict["src_ratios"].items()
         }
         return Converter(**dict)
diff --git a/hadar/optimizer/domain/output.py b/hadar/optimizer/domain/output.py
index be26482..897d5b8 100644
--- a/hadar/optimizer/domain/output.py
+++ b/hadar/optimizer/domain/output.py
@@ -150,7 +150,7 @@ class OutputConverter(JSON):
         # JSON doesn't accept tuple as key, so two string was joined for serialization
         # Ex: 'elec::a' -> ('elec', 'a')
         dict["flow_src"] = {
-            tuple(k.split("::")): v for k, v in dict["flow_src"].items()
+            tuple(k.split("::", 1)): v for k, v in dict["flow_src"].items()
         }
         return OutputConverter(**dict)
 
diff --git a/hadar/optimizer/lp/domain.py b/hadar/optimizer/lp/domain.py
index 8371f69..f26fac7 100644
--- a/hadar/optimizer/lp/domain.py
+++ b/hadar/optimizer/lp/domain.py
@@ -223,10 +223,10 @@ class LPConverter(JSONLP):
     def from_json(dict, factory=None):
         # Json can't serialize tuple as key. tuple is concatained before serialized, we need to extract it now
         dict["src_ratios"] = {
-            tuple(k.split("::")): v for k, v in dict["src_ratios"].items()
+            tuple(k.split("::", 1)): v for k, v in dict["src_ratios"].items()
         }
         dict["var_flow_src"] = {
-            tuple(k.split("::")): v for k, v in dict["var_flow_src"].items()
+            tuple(k.split("::", 1)): v for k, v in dict["var_flow_src"].items()
         }
         return LPConverter(**dict)
 
-- 
2.43.0

