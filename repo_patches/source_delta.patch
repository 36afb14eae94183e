From ddf48cf4dfe4bb205cdbdad58ff38458b7d7b7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:37 +0000
Subject: [PATCH 01/68] fix: allocate the full row buffers for aggregated node
 min/max constraints

malloc(1+length * sizeof(x)) reserves one byte, not one element, for the
unused first entry, so the last element was written past the end of the
allocation.
---
 pywr/solvers/cython_glpk.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index baa5f4a..810e70c 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -689,8 +689,8 @@ cdef class CythonGLPKSolver(GLPKSolver):
                     if some_node in route:
                         matrix[n] = w
             length = len(matrix)
-            ind = <int*>malloc(1+length * sizeof(int))
-            val = <double*>malloc(1+length * sizeof(double))
+            ind = <int*>malloc((1+length) * sizeof(int))
+            val = <double*>malloc((1+length) * sizeof(double))
             for i, col in enumerate(sorted(matrix)):
                 ind[1+i] = 1+col
                 val[1+i] = matrix[col]
@@ -1520,8 +1520,8 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                     matrix[n] = w
 
             length = len(matrix)
-            ind = <int*>malloc(1+length * sizeof(int))
-            val = <double*>malloc(1+length * sizeof(double))
+            ind = <int*>malloc((1+length) * sizeof(int))
+            val = <double*>malloc((1+length) * sizeof(double))
             for i, col in enumerate(sorted(matrix)):
                 ind[1+i] = 1+col
                 val[1+i] = matrix[col]
-- 
2.43.0


From 2c882868fb2d4226cfdb45132390a6c6390d9b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:19 +0000
Subject: [PATCH 02/68] fix: accumulate aggregated node weights when members
 share a route or edge

---
 pywr/solvers/cython_glpk.pyx    | 14 +++++++++++---
 pywr/solvers/cython_lpsolve.pyx | 12 ++++++++++--
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index 810e70c..5e8ef7f 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -686,8 +686,16 @@ cdef class CythonGLPKSolver(GLPKSolver):
             matrix = {}
             for some_node, w in zip(nodes, weights):
                 for n, route in enumerate(routes):
-                    if some_node in route:
-                        matrix[n] = w
+                    # As with their own constraints, Inputs and Outputs only count the
+                    # routes that they are the start or the end of respectively.
+                    if isinstance(some_node, BaseInput):
+                        count = route[0] is some_node
+                    elif isinstance(some_node, BaseOutput):
+                        count = route[-1] is some_node
+                    else:
+                        count = some_node in route
+                    if count:
+                        matrix[n] = matrix.get(n, 0.0) + w
             length = len(matrix)
             ind = <int*>malloc((1+length) * sizeof(int))
             val = <double*>malloc((1+length) * sizeof(double))
@@ -1517,7 +1525,7 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                     node_cols = some_node._AbstractNode__data.out_edges
 
                 for n in node_cols:
-                    matrix[n] = w
+                    matrix[n] = matrix.get(n, 0.0) + w
 
             length = len(matrix)
             ind = <int*>malloc((1+length) * sizeof(int))
diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index 2eb1e72..4b00ebd 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -428,8 +428,16 @@ cdef class CythonLPSolveSolver:
             matrix = {}
             for node, w in zip(nodes, weights):
                 for n, route in enumerate(routes):
-                    if node in route:
-                        matrix[n] = w
+                    # As with their own constraints, Inputs and Outputs only count the
+                    # routes that they are the start or the end of respectively.
+                    if isinstance(node, BaseInput):
+                        count = route[0] is node
+                    elif isinstance(node, BaseOutput):
+                        count = route[-1] is node
+                    else:
+                        count = node in route
+                    if count:
+                        matrix[n] = matrix.get(n, 0.0) + w
 
             length = len(matrix)
             ind = <int*>malloc(length * sizeof(int))
-- 
2.43.0


From da8f4172979ecc2b7ae8740ccaa0a333f9c099d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:55 +0000
Subject: [PATCH 03/68] fix: Polynomial1DParameter uses the node's previous
 flow

---
 pywr/parameters/_polynomial.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_polynomial.pyx b/pywr/parameters/_polynomial.pyx
index 6d1e631..f612c55 100644
--- a/pywr/parameters/_polynomial.pyx
+++ b/pywr/parameters/_polynomial.pyx
@@ -71,9 +71,9 @@ cdef class Polynomial1DParameter(Parameter):
             else:
                 x = self._storage_node._volume[scenario_index.global_id]
         elif self._other_node is not None:
-            x = self._other_node._flow[scenario_index.global_id]
+            x = self._other_node._prev_flow[scenario_index.global_id]
         else:
-            x = self._node._flow[scenario_index.global_id]
+            x = self._node._prev_flow[scenario_index.global_id]
 
         # Apply scaling and offset
         x = x*self.scale + self.offset
-- 
2.43.0


From 7ec545fefc6d01904c881c157b9964c0f3d80cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:55 +0000
Subject: [PATCH 04/68] fix: pass keyword arguments of DataFrameParameter on by
 name

---
 pywr/parameters/_parameters.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 39084ba..6bb4a39 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -204,7 +204,7 @@ cdef class DataFrameParameter(Parameter):
         value available.
     """
     def __init__(self, model, dataframe, scenario=None, timestep_offset=0, **kwargs):
-        super(DataFrameParameter, self).__init__(model, *kwargs)
+        super(DataFrameParameter, self).__init__(model, **kwargs)
         self.dataframe = dataframe
         self.scenario = scenario
         self.timestep_offset = timestep_offset
-- 
2.43.0


From 158c20e8b1e9ad646f6527796d76644b8b53d46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 05/68] fix: resolve scenario slices against the scenario's
 size when loading part of a data set

---
 pywr/parameters/_parameters.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 6bb4a39..5884d6c 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -241,7 +241,7 @@ cdef class DataFrameParameter(Parameter):
                     scenario_indices.add(user_combination[self._scenario_index])
                 scenario_indices = sorted(list(scenario_indices))
             elif self.scenario.slice:
-                scenario_indices = range(*self.scenario.slice.indices(self.scenario.slice.stop))
+                scenario_indices = range(*self.scenario.slice.indices(self.scenario.size))
             else:
                 # scenario is defined, but all data required
                 self._scenario_ids = None
@@ -429,7 +429,7 @@ cdef class TablesArrayParameter(IndexParameter):
                     scenario_indices.add(user_combination[self._scenario_index])
                 scenario_indices = sorted(list(scenario_indices))
             elif self.scenario.slice:
-                scenario_indices = range(*self.scenario.slice.indices(self.scenario.slice.stop))
+                scenario_indices = range(*self.scenario.slice.indices(self.scenario.size))
             else:
                 # scenario is defined, but all data required
                 self._scenario_ids = None
-- 
2.43.0


From da4099ef770b73a06a5db1ac0df93a565ffb4f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 06/68] fix: evaluate the thresholds of multiple threshold
 parameters before the parameters themselves

---
 pywr/parameters/_thresholds.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_thresholds.pyx b/pywr/parameters/_thresholds.pyx
index 5a98a9f..cfec7a9 100644
--- a/pywr/parameters/_thresholds.pyx
+++ b/pywr/parameters/_thresholds.pyx
@@ -207,7 +207,7 @@ cdef class MultipleThresholdIndexParameter(IndexParameter):
             self.thresholds.append(threshold)
 
         for threshold in self.thresholds:
-            self.children.add(thresholds)
+            self.children.add(threshold)
 
     cpdef int index(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         """Returns the index of the first threshold the node flow is above.
@@ -260,7 +260,7 @@ cdef class MultipleThresholdParameterIndexParameter(IndexParameter):
             self.thresholds.append(threshold)
 
         for threshold in self.thresholds:
-            self.children.add(thresholds)
+            self.children.add(threshold)
 
     cpdef int index(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         """Returns the index of the first threshold the parameter value is above.
-- 
2.43.0


From 98bb2a776d11cc88452beea8a0bd6791f67b2806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:58 +0000
Subject: [PATCH 07/68] fix: keep DivisionParameter linked to a parameter still
 used as its other operand

---
 pywr/parameters/_parameters.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 5884d6c..7e88765 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -1707,7 +1707,7 @@ cdef class DivisionParameter(Parameter):
             return self._numerator
         def __set__(self, parameter):
             # remove any existing parameter
-            if self._numerator is not None:
+            if self._numerator is not None and self._numerator is not self._denominator:
                 self._numerator.parents.remove(self)
 
             self._numerator = parameter
@@ -1718,7 +1718,7 @@ cdef class DivisionParameter(Parameter):
             return self._denominator
         def __set__(self, parameter):
             # remove any existing parameter
-            if self._denominator is not None:
+            if self._denominator is not None and self._denominator is not self._numerator:
                 self._denominator.parents.remove(self)
 
             self._denominator = parameter
-- 
2.43.0


From 2ae9427be8f2aea87cd3c15054b4cb48cbcc6742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:58 +0000
Subject: [PATCH 08/68] fix: keep an aggregated parameter linked to a member
 that is listed more than once

---
 pywr/parameters/_parameters.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 7e88765..28417d5 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -1491,7 +1491,8 @@ cdef class AggregatedParameter(Parameter):
 
     cpdef remove(self, Parameter parameter):
         self.parameters.remove(parameter)
-        parameter.parents.remove(self)
+        if parameter not in self.parameters:
+            parameter.parents.remove(self)
 
     def __len__(self):
         return len(self.parameters)
@@ -1611,7 +1612,8 @@ cdef class AggregatedIndexParameter(IndexParameter):
 
     cpdef remove(self, Parameter parameter):
         self.parameters.remove(parameter)
-        parameter.parents.remove(self)
+        if parameter not in self.parameters:
+            parameter.parents.remove(self)
 
     def __len__(self):
         return len(self.parameters)
-- 
2.43.0


From ca70b3a48527126257e2cb57a920d63076ac85f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:24 +0000
Subject: [PATCH 09/68] fix: WeightedAverageProfileParameter accepts storages
 whose maximum volume is a constant parameter

---
 pywr/parameters/_control_curves.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_control_curves.pyx b/pywr/parameters/_control_curves.pyx
index 2b659e9..4126199 100644
--- a/pywr/parameters/_control_curves.pyx
+++ b/pywr/parameters/_control_curves.pyx
@@ -588,7 +588,7 @@ cdef class WeightedAverageProfileParameter(Parameter):
         for (storage, profile) in zip(self.storages, self.profiles):
             max_volume = storage.max_volume
             if isinstance(max_volume, Parameter):
-                if max_volume.is_constant():
+                if max_volume.is_constant:
                     max_volume = max_volume.get_constant_value()
                 else:
                     raise ValueError("Storages with max_volume set to non-constant parameters cannot be used in WeightedAverageProfileParameter")
-- 
2.43.0


From 9b09365bd4ed9739e31ced7c76b6349468eacafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 10/68] fix: reset the sub-nodes of compound nodes with the
 model

---
 pywr/_model.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 2389d23..5c2e8f5 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -767,7 +767,8 @@ class Model(object):
         if profile:
             profiler = Profiler()
 
-        for node in self.nodes:
+        # The sub-nodes of compound nodes have state to reset as well (they are not profiled).
+        for node in self.graph.nodes():
             if length_changed:
                 try:
                     node.setup(self)
@@ -777,7 +778,7 @@ class Model(object):
                     raise
             try:
                 node.reset()
-                if profiler is not None:
+                if profiler is not None and node.parent is None:
                     profiler.checkpoint('reset', node.__class__.__name__, node.name)
             except Exception as err:
                 # reraise the exception after logging some info about source of error
-- 
2.43.0


From 195a9ac972f8c547e0064c440601f3c540ee2788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 11/68] fix: reset annual virtual storages on the first step
 after the date in every year, and activate seasonal ones by date

---
 pywr/nodes.py | 81 +++++++++++++++++++++------------------------------
 1 file changed, 33 insertions(+), 48 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 6f32f0e..abafa52 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -630,30 +630,30 @@ class AnnualVirtualStorage(VirtualStorage):
     def before(self, ts):
         super(AnnualVirtualStorage, self).before(ts)
 
-        if ts.index == 0:
-            if ts.month > self.reset_month or (
-                ts.month == self.reset_month and ts.day > self.reset_day
-            ):
-                # Assume we reset before the model started
-                self._last_reset_year = ts.year
-
-        # Reset the storage volume if necessary
-        if ts.year != self._last_reset_year:
-            # I.e. we're in a new year and ...
-            # ... we're at or past the reset month/day
-            if ts.month > self.reset_month or (
-                ts.month == self.reset_month and ts.day >= self.reset_day
-            ):
-                # Reset maximum volume depending on user preference ...
-                use_initial_volume = self.reset_to_initial_volume
-                if ts.index == 0 and isinstance(self.max_volume, Parameter):
-                    # ... if it is the first timestep and max volume is a parameter, then we can only reset to
-                    # initial volume because the max volume would not be evaluated
-                    use_initial_volume = True
-
-                self._reset_storage_only(use_initial_volume=use_initial_volume)
-                self._last_reset_year = ts.year
-                self.active = True
+        # The year in which the current period began, i.e. that of the latest reset date on or before this time-step.
+        reset_year = ts.year
+        if (ts.month, ts.day) < (self.reset_month, self.reset_day):
+            reset_year -= 1
+
+        if self._last_reset_year is None and (ts.month, ts.day) != (
+            self.reset_month,
+            self.reset_day,
+        ):
+            # Assume we reset before the model started
+            self._last_reset_year = reset_year
+
+        # Reset the storage volume if a reset date has been reached or passed since the last reset
+        if reset_year != self._last_reset_year:
+            # Reset maximum volume depending on user preference ...
+            use_initial_volume = self.reset_to_initial_volume
+            if ts.index == 0 and isinstance(self.max_volume, Parameter):
+                # ... if it is the first timestep and max volume is a parameter, then we can only reset to
+                # initial volume because the max volume would not be evaluated
+                use_initial_volume = True
+
+            self._reset_storage_only(use_initial_volume=use_initial_volume)
+            self._last_reset_year = reset_year
+            self.active = True
 
 
 class SeasonalVirtualStorage(AnnualVirtualStorage):
@@ -687,36 +687,21 @@ class SeasonalVirtualStorage(AnnualVirtualStorage):
     def __init__(self, *args, **kwargs):
         self.end_day = kwargs.pop("end_day", 31)
         self.end_month = kwargs.pop("end_month", 12)
-        self._last_active_year = None
 
         super().__init__(*args, **kwargs)
 
     def before(self, ts):
         super().before(ts)
 
-        if ts.year != self._last_active_year:
-            if ts.index == 0:
-                if self._last_reset_year == ts.year:
-                    # First timestep is later in year than reset date
-                    if self.end_month < self.reset_month or (
-                        self.end_month == self.reset_month
-                        and self.end_day <= self.reset_day
-                    ):
-                        # end date is earlier in year than reset date so do not deactivate node in first year
-                        self._last_active_year = ts.year
-                else:
-                    # First timestep is earlier in year than reset date
-                    if self.end_month > self.reset_month or (
-                        self.end_month == self.reset_month
-                        and self.end_day >= self.reset_day
-                    ):
-                        # end date is later in year than reset date so node needs to be deactivated
-                        self.active = False
-            elif ts.month > self.end_month or (
-                ts.month == self.end_month and ts.day >= self.end_day
-            ):
-                self._last_active_year = ts.year
-                self.active = False
+        # The node operates from the reset date up to (but not including) the end date
+        today = (ts.month, ts.day)
+        start = (self.reset_month, self.reset_day)
+        end = (self.end_month, self.end_day)
+        if start < end:
+            self.active = start <= today < end
+        else:
+            # The operating period crosses the year boundary
+            self.active = today >= start or today < end
 
 
 class MonthlyVirtualStorage(VirtualStorage):
-- 
2.43.0


From 382b25dfe5826a665d3d0845672f59ec2807159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 12/68] fix: count every month that passes in
 MonthlyVirtualStorage, also when time-steps are longer than a month

---
 pywr/nodes.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index abafa52..75b9c52 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -732,11 +732,13 @@ class MonthlyVirtualStorage(VirtualStorage):
 
     def before(self, ts):
         super().before(ts)
-        if ts.month != self._last_month:
-            self._last_month = ts.month
-            self._count += 1
-            if self._count == self.months:
-                self._count = 0
+        month = 12 * ts.year + ts.month
+        if month != self._last_month:
+            # Time-steps may be longer than a month
+            self._count += 1 if self._last_month is None else month - self._last_month
+            self._last_month = month
+            if self._count >= self.months:
+                self._count %= self.months
                 self._reset_storage_only(
                     use_initial_volume=self.reset_to_initial_volume
                 )
-- 
2.43.0


From 55223aed0cb12a041e0a28ce95d56101011ee5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 13/68] fix: update prev_flow of aggregated and compound nodes
 after their flow is known

---
 pywr/_core.pyx | 4 ++--
 pywr/nodes.py  | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 3b1780c..706dc67 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -760,7 +760,6 @@ cdef class AggregatedNode(AbstractNode):
             self.model.dirty = True
 
     cpdef after(self, Timestep ts):
-        AbstractNode.after(self, ts)
         cdef int i, j
         cdef Node n
 
@@ -774,6 +773,7 @@ cdef class AggregatedNode(AbstractNode):
             self._flow[i] = 0.0
             for j, n in enumerate(self._nodes):
                 self._flow[i] += n._flow[i]*weights[j]
+        AbstractNode.after(self, ts)
 
     property factors:
         def __get__(self):
@@ -1399,7 +1399,6 @@ cdef class AggregatedStorage(AbstractStorage):
                 self._current_pc[i] = np.nan
 
     cpdef after(self, Timestep ts):
-        AbstractStorage.after(self, ts)
         cdef int i
         cdef Storage s
         cdef double mxv
@@ -1425,6 +1424,7 @@ cdef class AggregatedStorage(AbstractStorage):
                 self._current_pc[i] = self._volume[i] / mxv
             except ZeroDivisionError:
                 self._current_pc[i] = np.nan
+        AbstractStorage.after(self, ts)
 
     cpdef double[:] get_all_min_volume(self, double[:] out=None):
         cdef int i
diff --git a/pywr/nodes.py b/pywr/nodes.py
index 75b9c52..fae6355 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1153,9 +1153,9 @@ class BreakLink(Node):
             yield self.storage.outputs[0]
 
     def after(self, timestep):
-        super(BreakLink, self).after(timestep)
         # update flow on transfer node to flow via link node
         self.commit_all(self.link.flow)
+        super(BreakLink, self).after(timestep)
 
 
 class DelayNode(Node):
@@ -1221,9 +1221,9 @@ class DelayNode(Node):
             yield self.output
 
     def after(self, timestep):
-        super().after(timestep)
         # delayed flow is saved to the DelayNode
         self.commit_all(self.input.flow)
+        super().after(timestep)
 
 
 class LossLink(Node):
@@ -1346,9 +1346,9 @@ class LossLink(Node):
             yield self.gross
 
     def after(self, timestep):
-        super().after(timestep)
         # Net flow is saved to the node.
         self.commit_all(self.net.flow)
+        super().after(timestep)
 
 
 class ShadowStorage(Loadable, Drawable, _core.ShadowStorage, metaclass=NodeMeta):
-- 
2.43.0


From 6afb57eb4eaa5e941f5f5254bd4dd6d3ffeda266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 14/68] fix: reset aggregated storages to the initial state of
 their members

---
 pywr/_core.pyx | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 706dc67..ca939ac 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -1382,16 +1382,23 @@ cdef class AggregatedStorage(AbstractStorage):
             return np.sum([s.get_initial_volume() for s in self._storage_nodes])
 
     cpdef reset(self):
+        AbstractStorage.reset(self)
         cdef int i
         cdef double mxv = 0.0
-        cdef ScenarioIndex si
-
-        for i, si in enumerate(self.model.scenarios.combinations):
-            mxv = 0.0
-            for s in self._storage_nodes:
-                mxv += s.get_max_volume(si)
+        cdef double initial_volume = self.initial_volume
+        cdef Storage s
 
-            self._volume[i] = self.initial_volume
+        for s in self._storage_nodes:
+            if s._max_volume_param is None:
+                mxv += s._max_volume
+            elif s._max_volume_param.is_constant:
+                mxv += s._max_volume_param.get_constant_value()
+            elif s.get_initial_pc() > 0.0:
+                # The parameter is not evaluated yet; use the maximum volume implied by the initial conditions
+                mxv += s.get_initial_volume() / s.get_initial_pc()
+
+        for i in range(self._volume.shape[0]):
+            self._volume[i] = initial_volume
             # Ensure variable maximum volume is taken in to account
             try:
                 self._current_pc[i] = self._volume[i] / mxv
-- 
2.43.0


From e9b459236b5b0060643a182cb61324e4a48f511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 15/68] fix: AnnualLicense allowed more than the next year's
 amount in a timestep that crosses the year end

---
 pywr/parameters/licenses.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pywr/parameters/licenses.py b/pywr/parameters/licenses.py
index c375cc4..5cae9c1 100644
--- a/pywr/parameters/licenses.py
+++ b/pywr/parameters/licenses.py
@@ -126,11 +126,13 @@ class AnnualLicense(StorageLicense):
         i = scenario_index.global_id
         day_of_year = timestep.dayofyear
         days_in_year = 365 + int(calendar.isleap(timestep.year))
-        if day_of_year == days_in_year:
-            return self._remaining[i]
-        else:
-            days_remaining = days_in_year - (day_of_year - 1)
-            return self._remaining[i] / days_remaining
+        days_remaining = days_in_year - (day_of_year - 1)
+        value = self._remaining[i] / days_remaining
+        # The part of a timestep that falls in the next year is taken from that year's licence.
+        days_in_next_year = timestep.days - days_remaining
+        if days_in_next_year > 0:
+            value = min(value, self._amount / days_in_next_year)
+        return value
 
     def before(self):
         # Reset licence if year changes.
-- 
2.43.0


From 40ff1ae75c798e39ce74dee0417765baf5467cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 16/68] fix: AnnualLicense measured the rest of the year from
 the end of month-long timesteps

---
 pywr/parameters/licenses.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pywr/parameters/licenses.py b/pywr/parameters/licenses.py
index 5cae9c1..2badbd0 100644
--- a/pywr/parameters/licenses.py
+++ b/pywr/parameters/licenses.py
@@ -124,9 +124,10 @@ class AnnualLicense(StorageLicense):
 
     def value(self, timestep, scenario_index):
         i = scenario_index.global_id
-        day_of_year = timestep.dayofyear
-        days_in_year = 365 + int(calendar.isleap(timestep.year))
-        days_remaining = days_in_year - (day_of_year - 1)
+        # Use the start of the timestep: the date of a (e.g.) monthly period is its last day.
+        start = timestep.period.start_time
+        days_in_year = 365 + int(calendar.isleap(start.year))
+        days_remaining = days_in_year - (start.dayofyear - 1)
         value = self._remaining[i] / days_remaining
         # The part of a timestep that falls in the next year is taken from that year's licence.
         days_in_next_year = timestep.days - days_remaining
@@ -137,16 +138,17 @@ class AnnualLicense(StorageLicense):
     def before(self):
         # Reset licence if year changes.
         timestep = self.model.timestepper.current
-        if self._prev_year != timestep.year:
+        start = timestep.period.start_time
+        if self._prev_year != start.year:
             self.reset()
 
             # The number of days in the year before the first timestep of that year
-            days_before_reset = timestep.dayofyear - 1
+            days_before_reset = start.dayofyear - 1
             # Adjust the license by the rate in previous timestep. This is needed for timesteps greater
             # than 1 day where the license reset is not exactly on the anniversary
             self._remaining[...] -= days_before_reset * self._node.prev_flow
 
-            self._prev_year = timestep.year
+            self._prev_year = start.year
 
 
 AnnualLicense.register()
-- 
2.43.0


From 79ce0321a2f177db373a4dc7660cb3a0f3deee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:07 +0000
Subject: [PATCH 17/68] fix: LossLink failed when its loss factor parameter is
 zero in a time-step

---
 pywr/_core.pyx | 4 +++-
 pywr/nodes.py  | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index ca939ac..02ac902 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -934,7 +934,9 @@ cdef class AggregatedNode(AbstractNode):
         f0 = factors[0]
         factors_norm = np.empty(len(factors), np.float64)
 
-        for i in range(len(factors)):
+        # The first node's factor may be zero
+        factors_norm[0] = 1.0
+        for i in range(1, len(factors)):
             factors_norm[i] = f0/factors[i]
         return factors_norm
 
diff --git a/pywr/nodes.py b/pywr/nodes.py
index fae6355..b2b6a8f 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1273,7 +1273,7 @@ class LossLink(Node):
         self.gross.connect(self.output)
         self.gross.connect(self.net)
 
-        self.agg = AggregatedNode(model, name=agg_name, nodes=[self.net, self.output])
+        self.agg = AggregatedNode(model, name=agg_name, nodes=[self.output, self.net])
         self.loss_factor_type = kwargs.pop("loss_factor_type", "net")
         self.loss_factor = kwargs.pop("loss_factor", 0.0)
 
@@ -1295,11 +1295,11 @@ class LossLink(Node):
         else:
             self.output.max_flow = float("inf")
             if self.loss_factor_type == "net":
-                self.agg.factors = [1.0, value]
+                self.agg.factors = [value, 1.0]
 
             elif self.loss_factor_type == "gross":
                 # TODO this will error in the case of a `value` being a parameter
-                self.agg.factors = [1.0 - float(value), float(value)]
+                self.agg.factors = [float(value), 1.0 - float(value)]
             else:
                 raise ValueError(
                     f'Unrecognised `loss_factor_type` "{self.loss_factor_type}".'
-- 
2.43.0


From 08f4d07e29a146c38b91d4d6d7f704529ce12e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 18/68] fix: costs and max_flows of a MultiSplitLink in a
 document follow its constructor

---
 pywr/nodes.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index b2b6a8f..77cc9bd 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -942,6 +942,7 @@ class MultiSplitLink(PiecewiseLink):
             )
 
         factors = kwargs.pop("factors", None)
+        self._extra_slots = extra_slots
         # Finally initialise the parent.
         super(MultiSplitLink, self).__init__(
             model, nsteps + extra_slots, *args, **kwargs
@@ -970,11 +971,10 @@ class MultiSplitLink(PiecewiseLink):
             self._extra_outputs.append(otpt)
 
         if costs is not None:
-            # No cost or maximum flow on the additional links
-            self.costs = costs + [0.0] * extra_slots
+            self.costs = costs
         if max_flows is not None:
             # The max_flows could be problematic with the aggregated node.
-            self.max_flows = max_flows + [None] * extra_slots
+            self.max_flows = max_flows
 
         # Now create an aggregated node for addition constraints if required.
         if factors is not None:
@@ -991,6 +991,26 @@ class MultiSplitLink(PiecewiseLink):
             agg = AggregatedNode(self.model, "{} Agg".format(self.name), nodes)
             agg.factors = valid_factors
 
+    def _pad(self, values, default):
+        """Add `default` for the additional sublinks if `values` are given for the other sublinks only."""
+        values = list(values)
+        if len(values) == len(self.sublinks) - self._extra_slots:
+            values += [default] * self._extra_slots
+        return values
+
+    # No cost or maximum flow on the additional links
+    costs = property(
+        PiecewiseLink.costs.fget,
+        lambda self, values: PiecewiseLink.costs.fset(self, self._pad(values, 0.0)),
+    )
+
+    max_flows = property(
+        PiecewiseLink.max_flows.fget,
+        lambda self, values: PiecewiseLink.max_flows.fset(
+            self, self._pad(values, None)
+        ),
+    )
+
     def iter_slots(self, slot_name=None, is_connector=True):
         if is_connector:
             i = self.slot_names.index(slot_name)
-- 
2.43.0


From 58409b506019abcda0524bf8f8e08f213d6e2fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:35 +0000
Subject: [PATCH 19/68] fix: normalised storage recorder divided by zero for a
 full storage with its control curve at full

---
 pywr/recorders/_recorders.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 62b529e..f5d8a90 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1223,9 +1223,12 @@ cdef class NumpyArrayNormalisedStorageRecorder(NumpyArrayAbstractStorageRecorder
             if vol < cc:
                 # Lower than control curve; value between -1.0 and 0.0
                 norm_vol = vol / cc - 1.0
-            else:
+            elif cc < 1.0:
                 # At or above control curve; value between 0.0 and 1.0
                 norm_vol = (vol - cc) / (1.0 - cc)
+            else:
+                # Full, with the control curve at full
+                norm_vol = 1.0
 
             self._data[ts.index, i] = norm_vol
 
-- 
2.43.0


From 9cfc19c0d5490d4a3afbade36bc6c97ba1478371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:35 +0000
Subject: [PATCH 20/68] fix: mean and frequency recorders divided by the
 time-step index rather than the steps recorded

---
 pywr/recorders/_recorders.pxd |  4 +++-
 pywr/recorders/_recorders.pyx | 30 ++++++++++++++++++++++++------
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/pywr/recorders/_recorders.pxd b/pywr/recorders/_recorders.pxd
index c456d2c..ef33a1f 100644
--- a/pywr/recorders/_recorders.pxd
+++ b/pywr/recorders/_recorders.pxd
@@ -123,9 +123,10 @@ cdef class TotalFlowNodeRecorder(BaseConstantNodeRecorder):
 
 cdef class MeanFlowNodeRecorder(BaseConstantNodeRecorder):
     cdef public double factor
+    cdef int _num_steps
 
 cdef class DeficitFrequencyNodeRecorder(BaseConstantNodeRecorder):
-    pass
+    cdef int _num_steps
 
 cdef class BaseConstantStorageRecorder(StorageRecorder):
     cdef double[:] _values
@@ -185,3 +186,4 @@ cdef class TotalParameterRecorder(BaseConstantParameterRecorder):
 
 cdef class MeanParameterRecorder(BaseConstantParameterRecorder):
     cdef public double factor
+    cdef int _num_steps
diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index f5d8a90..4b7b245 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1789,9 +1789,14 @@ cdef class MeanFlowNodeRecorder(BaseConstantNodeRecorder):
         self.factor = kwargs.pop('factor', 1.0)
         super(MeanFlowNodeRecorder, self).__init__(*args, **kwargs)
 
+    cpdef reset(self):
+        BaseConstantNodeRecorder.reset(self)
+        self._num_steps = 0
+
     cpdef after(self):
         cdef ScenarioIndex scenario_index
         cdef int i
+        self._num_steps += 1
         for scenario_index in self.model.scenarios.combinations:
             i = scenario_index.global_id
             self._values[i] += self._node._flow[i]*self.factor
@@ -1799,20 +1804,26 @@ cdef class MeanFlowNodeRecorder(BaseConstantNodeRecorder):
 
     cpdef finish(self):
         cdef int i
-        cdef int nt = self.model.timestepper.current.index
+        if self._num_steps == 0:
+            return
         for i in range(self._values.shape[0]):
-            self._values[i] /= nt
+            self._values[i] /= self._num_steps
 MeanFlowNodeRecorder.register()
 
 
 cdef class DeficitFrequencyNodeRecorder(BaseConstantNodeRecorder):
     """Recorder to return the frequency of timesteps with a failure to meet max_flow.
     """
+    cpdef reset(self):
+        BaseConstantNodeRecorder.reset(self)
+        self._num_steps = 0
+
     cpdef after(self):
         cdef double max_flow
         cdef ScenarioIndex scenario_index
         cdef Timestep ts = self.model.timestepper.current
         cdef AbstractNode node = self._node
+        self._num_steps += 1
         for scenario_index in self.model.scenarios.combinations:
             max_flow = node.get_max_flow(scenario_index)
             if abs(node._flow[scenario_index.global_id] - max_flow) > 1e-6:
@@ -1820,9 +1831,10 @@ cdef class DeficitFrequencyNodeRecorder(BaseConstantNodeRecorder):
 
     cpdef finish(self):
         cdef int i
-        cdef int nt = self.model.timestepper.current.index
+        if self._num_steps == 0:
+            return
         for i in range(self._values.shape[0]):
-            self._values[i] /= nt
+            self._values[i] /= self._num_steps
 DeficitFrequencyNodeRecorder.register()
 
 cdef class BaseConstantStorageRecorder(StorageRecorder):
@@ -2338,12 +2350,17 @@ cdef class MeanParameterRecorder(BaseConstantParameterRecorder):
         self.factor = kwargs.pop('factor', 1.0)
         super(MeanParameterRecorder, self).__init__(*args, **kwargs)
 
+    cpdef reset(self):
+        BaseConstantParameterRecorder.reset(self)
+        self._num_steps = 0
+
     cpdef after(self):
         cdef ScenarioIndex scenario_index
         cdef int i
         cdef double[:] values
         cdef factor = self.factor
 
+        self._num_steps += 1
         values = self._param.get_all_values()
         for scenario_index in self.model.scenarios.combinations:
             i = scenario_index.global_id
@@ -2352,7 +2369,8 @@ cdef class MeanParameterRecorder(BaseConstantParameterRecorder):
 
     cpdef finish(self):
         cdef int i
-        cdef int nt = self.model.timestepper.current.index
+        if self._num_steps == 0:
+            return
         for i in range(self._values.shape[0]):
-            self._values[i] /= nt
+            self._values[i] /= self._num_steps
 MeanParameterRecorder.register()
-- 
2.43.0


From 756220b3e2bc0c71fffdcf7b4c85f9da572d40ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 21/68] fix: rolling means counted time-steps before a restart
 at a later date

---
 pywr/parameters/_parameters.pxd |  1 +
 pywr/parameters/_parameters.pyx | 11 +++++------
 pywr/recorders/_recorders.pxd   |  2 ++
 pywr/recorders/_recorders.pyx   | 16 ++++++++--------
 4 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/pywr/parameters/_parameters.pxd b/pywr/parameters/_parameters.pxd
index 6050684..02c2564 100644
--- a/pywr/parameters/_parameters.pxd
+++ b/pywr/parameters/_parameters.pxd
@@ -231,6 +231,7 @@ cdef class DiscountFactorParameter(Parameter):
 
 cdef class RollingMeanFlowNodeParameter(Parameter):
     cdef int position
+    cdef int _num_steps
     cdef public int timesteps
     cdef public int days
     cdef public double initial_flow
diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 28417d5..c8d2c9f 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -2240,20 +2240,18 @@ cdef class RollingMeanFlowNodeParameter(Parameter):
     cpdef reset(self):
         super(RollingMeanFlowNodeParameter, self).reset()
         self.position = 0
+        self._num_steps = 0
         self._memory[:] = 0.0
 
     cpdef double value(self, Timestep ts, ScenarioIndex scenario_index) except? -1:
 
         cdef int n
-        # No data in memory yet
-        if ts.index == 0:
+        # No data in memory yet (a run does not necessarily begin with the first time-step)
+        if self._num_steps == 0:
             return self.initial_flow
 
         # Calculate the mean flow from the memory
-        if ts.index <= self.timesteps:
-            n = ts.index
-        else:
-            n = self.timesteps
+        n = min(self._num_steps, self.timesteps)
         return np.mean(self._memory[scenario_index.global_id, :n])
 
     cpdef after(self):
@@ -2263,6 +2261,7 @@ cdef class RollingMeanFlowNodeParameter(Parameter):
             self._memory[i, self.position] = self.node._flow[i]
 
         # prepare for the next timestep
+        self._num_steps += 1
         self.position += 1
         if self.position >= self.timesteps:
             self.position = 0
diff --git a/pywr/recorders/_recorders.pxd b/pywr/recorders/_recorders.pxd
index ef33a1f..1d08a7b 100644
--- a/pywr/recorders/_recorders.pxd
+++ b/pywr/recorders/_recorders.pxd
@@ -102,11 +102,13 @@ cdef class RollingWindowParameterRecorder(ParameterRecorder):
     cdef public Aggregator _temporal_aggregator
     cdef public int window
     cdef int position
+    cdef int _num_steps
     cdef double[:, :] _memory
     cdef double[:, :] _data
 
 cdef class RollingMeanFlowNodeRecorder(NodeRecorder):
     cdef int position
+    cdef int _num_steps
     cdef public int timesteps
     cdef public int days
     cdef double[:, :] _memory
diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 4b7b245..9974245 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1587,6 +1587,7 @@ cdef class RollingWindowParameterRecorder(ParameterRecorder):
     cpdef reset(self):
         self._data[...] = 0
         self.position = 0
+        self._num_steps = 0
 
     cpdef after(self):
         cdef int i, n
@@ -1597,10 +1598,9 @@ cdef class RollingWindowParameterRecorder(ParameterRecorder):
         for i, scenario_index in enumerate(self.model.scenarios.combinations):
             self._memory[self.position, i] = self._param.get_value(scenario_index)
 
-        if timestep.index < self.window:
-            n = timestep.index + 1
-        else:
-            n = self.window
+        # a run does not necessarily begin with the first time-step
+        self._num_steps += 1
+        n = min(self._num_steps, self.window)
 
         value = self._temporal_aggregator.aggregate_2d(self._memory[0:n, :], axis=0)
         self._data[timestep.index, :] = value
@@ -1680,6 +1680,7 @@ cdef class RollingMeanFlowNodeRecorder(NodeRecorder):
     cpdef reset(self):
         super(RollingMeanFlowNodeRecorder, self).reset()
         self.position = 0
+        self._num_steps = 0
 
     cpdef after(self):
         cdef Timestep timestep
@@ -1689,11 +1690,10 @@ cdef class RollingMeanFlowNodeRecorder(NodeRecorder):
         for i in range(0, self._memory.shape[0]):
             self._memory[i, self.position] = self._node._flow[i]
         # calculate the mean flow
+        # (a run does not necessarily begin with the first time-step)
         timestep = self.model.timestepper.current
-        if timestep.index < self.timesteps:
-            n = timestep.index + 1
-        else:
-            n = self.timesteps
+        self._num_steps += 1
+        n = min(self._num_steps, self.timesteps)
         # save the mean flow
         mean_flow = np.mean(self._memory[:, 0:n], axis=1)
         self._data[<int>(timestep.index), :] = mean_flow
-- 
2.43.0


From 6faf8ffe7cf8b98d303112bea9e322767352ccb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 22/68] fix: AnnualCountIndexParameterRecorder counted years in
 which a negative index stayed below its threshold

---
 pywr/recorders/_recorders.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 9974245..f47346e 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -2177,7 +2177,7 @@ cdef class AnnualCountIndexParameterRecorder(IndexParameterRecorder):
 
     cpdef reset(self):
         self._count[...] = 0
-        self._current_max[...] = 0
+        self._current_max[...] = np.iinfo(np.int32).min
         self._current_year = -1
 
     cpdef after(self):
@@ -2197,7 +2197,7 @@ cdef class AnnualCountIndexParameterRecorder(IndexParameterRecorder):
                         self._count[i] += 1
 
             # Finally reset current maximum and update current year
-            self._current_max[...] = 0
+            self._current_max[...] = np.iinfo(np.int32).min
             self._current_year = ts.year
 
         for scenario_index in self.model.scenarios.combinations:
-- 
2.43.0


From 210ec20a8d24ccb182675b53113e709c61ebaba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 23/68] fix: AnnualCountIndexThresholdRecorder failed in
 non-leap years when its range starts or ends on 29th February

---
 pywr/recorders/_recorders.pyx | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index f47346e..af9a5ab 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1995,8 +1995,6 @@ cdef class AnnualCountIndexThresholdRecorder(Recorder):
         cdef Timestep ts = self.model.timestepper.current
         cdef int idx = self._current_year - self._start_year
         cdef int p
-        cdef int include_from
-        cdef int include_to
         cdef Py_ssize_t i
         cdef int value
         cdef ScenarioIndex scenario_index
@@ -2016,17 +2014,13 @@ cdef class AnnualCountIndexThresholdRecorder(Recorder):
         if self.exclude_months is not None and ts.month in self.exclude_months:
             return
 
-        # include a range of dates within a year
-        if self.include_from_month is None or self.include_from_day is None:
-            include_from = 1
-        else:
-            include_from = pd.Timestamp(self._current_year, self.include_from_month, self.include_from_day).dayofyear
-        if self.include_to_month is None or self.include_to_day is None:
-            include_to = 366
-        else:
-            include_to = pd.Timestamp(self._current_year, self.include_to_month, self.include_to_day).dayofyear
-        if not (include_from <= ts.dayofyear <= include_to):
-            return
+        # include a range of dates within a year (months and days are compared as either of them may be 29th February)
+        if self.include_from_month is not None and self.include_from_day is not None:
+            if (ts.month, ts.day) < (self.include_from_month, self.include_from_day):
+                return
+        if self.include_to_month is not None and self.include_to_day is not None:
+            if (ts.month, ts.day) > (self.include_to_month, self.include_to_day):
+                return
 
         for scenario_index in self.model.scenarios.combinations:
             for p, parameter in enumerate(self.parameters):
-- 
2.43.0


From e6986a7fac43f1e7ecc399bcb23df413a35d47f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:48 +0000
Subject: [PATCH 24/68] fix: temporal aggregation failed when missing values
 are ignored

---
 pywr/recorders/_recorders.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index af9a5ab..01867df 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -146,7 +146,9 @@ cdef class Aggregator:
         cdef Py_ssize_t i
 
         if ignore_nan:
-            values = np.array(values)[~np.isnan(values)]
+            # The number of values left can be different in each row or column.
+            slices = np.moveaxis(np.array(values), axis, -1)
+            return np.array([self.aggregate_1d(v, ignore_nan=True) for v in slices], dtype=np.float64)
 
         if self._func == AggFuncs.PRODUCT:
             return np.prod(values, axis=axis)
-- 
2.43.0


From 6afa35d96b5b606a195316d36580f09b599283c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:54 +0000
Subject: [PATCH 25/68] fix: AggregatedRecorder failed for its default, median
 and other named aggregation functions

---
 pywr/recorders/_recorders.pxd |  2 +-
 pywr/recorders/_recorders.pyx | 15 +++++----------
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/pywr/recorders/_recorders.pxd b/pywr/recorders/_recorders.pxd
index 1d08a7b..7ae52a3 100644
--- a/pywr/recorders/_recorders.pxd
+++ b/pywr/recorders/_recorders.pxd
@@ -22,7 +22,7 @@ cdef class Recorder(Component):
     cpdef double[:] values(self) except *
 
 cdef class AggregatedRecorder(Recorder):
-    cdef object recorder_agg_func
+    cdef Aggregator _recorder_aggregator
     cdef int _recorder_agg_func
     cdef public list recorders
 
diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 01867df..b23aa32 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -383,16 +383,10 @@ cdef class AggregatedRecorder(Recorder):
     """
     def __init__(self, model, recorders, **kwargs):
         # Optional different method for aggregating across self.recorders scenarios
-        agg_func = kwargs.pop('recorder_agg_func', kwargs.get('agg_func'))
+        agg_func = kwargs.pop('recorder_agg_func', kwargs.get('agg_func', 'mean'))
 
-        if isinstance(agg_func, str):
-            agg_func = _agg_func_lookup[agg_func.lower()]
-        elif callable(agg_func):
-            self.recorder_agg_func = agg_func
-            agg_func = AggFuncs.CUSTOM
-        else:
-            raise ValueError("Unrecognised recorder aggregation function: \"{}\".".format(agg_func))
-        self._recorder_agg_func = agg_func
+        self._recorder_aggregator = Aggregator(agg_func)
+        self._recorder_agg_func = self._recorder_aggregator._func
 
         super(AggregatedRecorder, self).__init__(model, **kwargs)
         self.recorders = list(recorders)
@@ -444,7 +438,8 @@ cdef class AggregatedRecorder(Recorder):
             for i in range(n):
                 value[i] /= len(self.recorders)
         else:
-            value = self.recorder_agg_func([recorder.values() for recorder in self.recorders], axis=0)
+            all_values = np.array([rec.values() for rec in self.recorders])
+            value = self._recorder_aggregator.aggregate_2d(all_values, axis=0)
         return value
 
     @classmethod
-- 
2.43.0


From 3ca398eec05a0e6d090226137f45eed8a649d5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:35 +0000
Subject: [PATCH 26/68] fix: EventRecorder ignored thresholds with an absolute
 value below one

---
 pywr/recorders/events.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/recorders/events.py b/pywr/recorders/events.py
index b591a29..99943e5 100644
--- a/pywr/recorders/events.py
+++ b/pywr/recorders/events.py
@@ -87,11 +87,11 @@ class EventRecorder(Recorder):
         from pywr.parameters import Parameter, IndexParameter
 
         if isinstance(self.threshold, Recorder):
-            all_triggered = np.array(self.threshold.values(), dtype=int)
+            all_triggered = np.array(self.threshold.values()) != 0
         elif isinstance(self.threshold, IndexParameter):
             all_triggered = self.threshold.get_all_indices()
         elif isinstance(self.threshold, Parameter):
-            all_triggered = np.array(self.threshold.get_all_values(), dtype=int)
+            all_triggered = np.array(self.threshold.get_all_values()) != 0
         else:
             raise TypeError(
                 "Threshold must be either a Recorder or Parameter instance."
-- 
2.43.0


From f1b4bb80075a11ff1abadaa40e1ac91950a235af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 27/68] fix: events still active at the end of a run ended too
 early outside Model.run and ignored the minimum length

---
 pywr/recorders/events.py | 10 +++++++++-
 pywr/timestepper.py      |  5 +++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pywr/recorders/events.py b/pywr/recorders/events.py
index 99943e5..83c4c1c 100644
--- a/pywr/recorders/events.py
+++ b/pywr/recorders/events.py
@@ -67,6 +67,7 @@ class EventRecorder(Recorder):
         self.minimum_event_length = minimum_event_length
         self.events = None
         self._current_events = None
+        self._last_index = None
         # TODO make this more generic to track components or  nodes (e.g. storage volume)
         self.tracked_parameter = tracked_parameter
         if self.tracked_parameter is not None:
@@ -77,12 +78,14 @@ class EventRecorder(Recorder):
 
     def reset(self):
         self.events = []
+        self._last_index = None
         # This list stores if an event is current active in each scenario.
         self._current_events = [None for si in self.model.scenarios.combinations]
 
     def after(self):
         # Current timestep
         ts = self.model.timestepper.current
+        self._last_index = ts.index
 
         from pywr.parameters import Parameter, IndexParameter
 
@@ -148,6 +151,9 @@ class EventRecorder(Recorder):
 
     def finish(self):
         ts = self.model.timestepper.current
+        if ts is not None and ts.index == self._last_index:
+            # The time-stepper has not been advanced past the last recorded time-step.
+            ts = self.model.timestepper.following
         # Complete any unfinished events
         for si in self.model.scenarios.combinations:
             # Get the current event
@@ -155,7 +161,9 @@ class EventRecorder(Recorder):
             if current_event is not None:
                 # Unfinished event
                 current_event.end = ts
-                self.events.append(current_event)
+                current_length = ts.index - current_event.start.index
+                if current_length >= self.minimum_event_length:
+                    self.events.append(current_event)
                 self._current_events[si.global_id] = None
 
     def to_dataframe(self):
diff --git a/pywr/timestepper.py b/pywr/timestepper.py
index e7282ce..ff83fd8 100644
--- a/pywr/timestepper.py
+++ b/pywr/timestepper.py
@@ -173,6 +173,11 @@ class Timestepper(object):
         """
         return self._current
 
+    @property
+    def following(self):
+        """The timestep that follows the current one"""
+        return self._next
+
     @property
     def datetime_index(self):
         """Return a `pandas.DatetimeIndex` using the start, end and delta of this object
-- 
2.43.0


From fe1da33e52fffdc8b9368e212dc0fae60f6da76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:01 +0000
Subject: [PATCH 28/68] fix: pygmo wrapper equality constraints and integer
 variables

---
 pywr/optimisation/pygmo.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pywr/optimisation/pygmo.py b/pywr/optimisation/pygmo.py
index 4214ff9..fc40c72 100644
--- a/pywr/optimisation/pygmo.py
+++ b/pywr/optimisation/pygmo.py
@@ -12,7 +12,13 @@ class PygmoWrapper(BaseOptimisationWrapper):
 
         for ivar, var in enumerate(self.model_variables):
             j = slice(self.model_variable_map[ivar], self.model_variable_map[ivar + 1])
-            var.set_double_variables(np.array(solution[j]).copy())
+            x = np.array(solution[j])
+            if var.double_size > 0:
+                var.set_double_variables(np.array(x[: var.double_size]))
+
+            if var.integer_size > 0:
+                ints = np.round(np.array(x[-var.integer_size :])).astype(np.int32)
+                var.set_integer_variables(ints)
 
         self.model.reset()
         self.run_stats = self.model.run()
@@ -35,7 +41,8 @@ class PygmoWrapper(BaseOptimisationWrapper):
                 ineq_constraints.append(r.constraint_lower_bounds - x)
                 ineq_constraints.append(x - r.constraint_upper_bounds)
             elif r.is_equality_constraint:
-                eq_constraints.append(x)
+                # pygmo requires equality constraints to be of the form g(x) = 0
+                eq_constraints.append(x - r.constraint_lower_bounds)
             elif r.is_lower_bounded_constraint:
                 ineq_constraints.append(r.constraint_lower_bounds - x)
             elif r.is_upper_bounded_constraint:
-- 
2.43.0


From f57a06cc5c4151e2321c3af551996b5184a455ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:01 +0000
Subject: [PATCH 29/68] fix: keep objective, constraint and aggregation options
 of a loaded RollingMeanFlowNodeRecorder

---
 pywr/recorders/_recorders.pyx | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index b23aa32..2946e3b 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1705,17 +1705,14 @@ cdef class RollingMeanFlowNodeRecorder(NodeRecorder):
 
     @classmethod
     def load(cls, model, data):
-        name = data.get("name")
-        node = model.nodes[data["node"]]
-        if "timesteps" in data:
-            timesteps = int(data["timesteps"])
-        else:
-            timesteps = None
-        if "days" in data:
-            days = int(data["days"])
-        else:
-            days = None
-        return cls(model, node, timesteps=timesteps, days=days, name=name)
+        node = model.nodes[data.pop("node")]
+        timesteps = data.pop("timesteps", None)
+        if timesteps is not None:
+            timesteps = int(timesteps)
+        days = data.pop("days", None)
+        if days is not None:
+            days = int(days)
+        return cls(model, node, timesteps=timesteps, days=days, **data)
 
 RollingMeanFlowNodeRecorder.register()
 
-- 
2.43.0


From d1d6e635b3b839ba7b70c6314b831688064947be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 30/68] fix: RbfProfileParameter day of year bounds beyond the
 end of the year

---
 pywr/parameters/_parameters.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index c8d2c9f..ae4a4d4 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -1086,7 +1086,8 @@ cdef class RbfProfileParameter(Parameter):
             self.integer_size = len(values) - 1
             self._doy_lower_bounds = np.array([d - self.variable_days_of_year_range
                                                for d in self.days_of_year[1:]], dtype=np.int32)
-            self._doy_upper_bounds = np.array([d + self.variable_days_of_year_range
+            # Days of the year after 365 are not valid
+            self._doy_upper_bounds = np.array([min(d + self.variable_days_of_year_range, 365)
                                                for d in self.days_of_year[1:]], dtype=np.int32)
         else:
             self.integer_size = 0
-- 
2.43.0


From a94490fa60dbbfa68b765ae0cb4f0555c4392b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 31/68] fix: reject RbfProfileParameter day bounds of the wrong
 length

---
 pywr/parameters/_parameters.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index ae4a4d4..09e3c4d 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -1061,6 +1061,10 @@ cdef class RbfProfileParameter(Parameter):
         self._upper_bounds = ub
 
         if variable_days_lower_bounds is not None and variable_days_upper_bounds is not None:
+            if len(variable_days_lower_bounds) != len(values) - 1 or len(variable_days_upper_bounds) != len(values) - 1:
+                raise ValueError("Lower and upper bounds of the variable days must have one value for each of the "
+                                 "`days_of_year` except the first.")
+
             if np.any(np.array(variable_days_lower_bounds, dtype=np.int32) <=1 ):
                 raise ValueError("Lower bound cannot be <= 1.")
 
-- 
2.43.0


From e5c9ad218243ba7b0d23fd697786854a5bf30e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:43 +0000
Subject: [PATCH 32/68] fix: ControlCurveParameter variables modified the array
 of values given by the user

---
 pywr/parameters/_control_curves.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr/parameters/_control_curves.pyx b/pywr/parameters/_control_curves.pyx
index 4126199..fa66876 100644
--- a/pywr/parameters/_control_curves.pyx
+++ b/pywr/parameters/_control_curves.pyx
@@ -472,7 +472,8 @@ cdef class ControlCurveParameter(BaseControlCurveParameter):
         def __get__(self):
             return np.asarray(self._values)
         def __set__(self, values):
-            self._values = np.asarray(values, dtype=np.float64)
+            # Take a copy; the values are modified by `set_double_variables`
+            self._values = np.array(values, dtype=np.float64)
 
     property variable_indices:
         def __get__(self):
-- 
2.43.0


From 049d56dfe7475e9eb3674508cb71eb0cf90f008c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:25 +0000
Subject: [PATCH 33/68] fix: calibration recorders give an aggregated value,
 and accept one observed series

values() returned a pandas Series, which Recorder.aggregated_value() cannot
aggregate, and a single observed series could not be compared with several
scenarios.
---
 pywr/recorders/calibration.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pywr/recorders/calibration.py b/pywr/recorders/calibration.py
index d249cc6..47643de 100644
--- a/pywr/recorders/calibration.py
+++ b/pywr/recorders/calibration.py
@@ -30,9 +30,20 @@ class AbstractComparisonNodeRecorder(NumpyArrayNodeRecorder):
         # Align the observed data to the model
         from pywr.parameters import align_and_resample_dataframe
 
-        self._aligned_observed = align_and_resample_dataframe(
+        aligned = align_and_resample_dataframe(
             self.observed, self.model.timestepper.datetime_index
         )
+        # One column per scenario, or a single column compared with every scenario
+        self._aligned_observed = np.asarray(aligned, dtype=np.float64).reshape(
+            len(aligned), -1
+        )
+        if self._aligned_observed.shape[1] not in (
+            1,
+            len(self.model.scenarios.combinations),
+        ):
+            raise ValueError(
+                "The number of observed series does not match the number of scenarios"
+            )
 
 
 class RootMeanSquaredErrorNodeRecorder(AbstractComparisonNodeRecorder):
-- 
2.43.0


From 036399a16a08d2be38467226d8b2181efd354b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:25 +0000
Subject: [PATCH 34/68] fix: FlowDurationCurveDeviationRecorder.load passes the
 scenario on

The scenario named in the document was looked up and dropped, so targets given
per scenario were compared by scenario combination, or rejected. A single
target still applies to every scenario.
---
 pywr/recorders/_recorders.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 2946e3b..1ede920 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -978,10 +978,12 @@ cdef class FlowDurationCurveDeviationRecorder(FlowDurationCurveRecorder):
         # because the scenarios might change after the Recorder is created.
         if self.scenario is not None:
             if self._lower_target_fdc is not None:
-                if self._lower_target_fdc.shape[1] != self.scenario.size:
+                if self._lower_target_fdc.shape[1] > 1 and \
+                        self._lower_target_fdc.shape[1] != self.scenario.size:
                     raise ValueError('The number of lower target FDCs does not match the size ({}) of scenario "{}"'.format(self.scenario.size, self.scenario.name))
             if self._upper_target_fdc is not None:
-                if self._upper_target_fdc.shape[1] != self.scenario.size:
+                if self._upper_target_fdc.shape[1] > 1 and \
+                        self._upper_target_fdc.shape[1] != self.scenario.size:
                     raise ValueError('The number of upper target FDCs does not match the size ({}) of scenario "{}"'.format(self.scenario.size, self.scenario.name))
         else:
             if self._lower_target_fdc is not None:
@@ -1095,7 +1097,7 @@ cdef class FlowDurationCurveDeviationRecorder(FlowDurationCurveRecorder):
             lower_target_fdc.update({"indexes": percentiles})
             lower_target_fdc = load_parameter_values(model, lower_target_fdc)
         return cls(model, node, percentiles, lower_target_fdc=lower_target_fdc, upper_target_fdc=upper_target_fdc,
-                   **data)
+                   scenario=scenario, **data)
 
 FlowDurationCurveDeviationRecorder.register()
 
-- 
2.43.0


From 162ec7935d803284425208ce8dbb48e7cb42e865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:05 +0000
Subject: [PATCH 35/68] fix: merge each included document once

Model.loads merged the included documents and Model.load_from_dict merged them
again, so a scenario defined in an included document was added twice.
---
 pywr/_model.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 5c2e8f5..000c36f 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -209,7 +209,6 @@ class Model(object):
             if path:
                 e.args = ("{} [{}]".format(e.args[0], os.path.basename(path)),)
             raise(e)
-        cls._load_includes(data, path)
         return cls.load(data, model, path, **kwargs)
 
     @classmethod
@@ -227,7 +226,12 @@ class Model(object):
         Note that the data dictionary is modified in-place.
         """
         if "includes" in data:
+            included = set()
+            # Included documents can add to the list while it is iterated over
             for filename in data["includes"]:
+                if filename in included:
+                    continue  # each document is included once
+                included.add(filename)
                 _, ext = os.path.splitext(filename)
                 if path is not None:
                     filename = os.path.join(os.path.dirname(path), filename)
-- 
2.43.0


From d3603d0b73064921f82cfab61ef8a342e6b005f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:17 +0000
Subject: [PATCH 36/68] fix: reject documents that define a name twice

The first of two nodes of the same name, and definitions repeated in an
included document, were dropped without notice; scenarios were doubled.
---
 pywr/_model.pyx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 000c36f..b3e6e65 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -265,6 +265,10 @@ class Model(object):
                 except KeyError:
                     data[key] = value
             elif isinstance(value, dict):
+                if key in ("parameters", "recorders", "tables"):
+                    for name in value:
+                        if name in data.get(key, {}):
+                            raise ValueError('"{}" in the {} of include "{}" is already defined.'.format(name, key, filename))
                 try:
                     data[key].update(value)
                 except KeyError:
@@ -384,6 +388,8 @@ class Model(object):
         else:
             for scen_data in scenarios_data:
                 scen_name = scen_data["name"]
+                if scen_name in [s.name for s in model.scenarios.scenarios]:
+                    raise ValueError('A scenario with the name "{}" is defined more than once.'.format(scen_name))
                 size = scen_data["size"]
                 ensemble_names = scen_data.pop("ensemble_names", None)
                 s_slice = scen_data.pop("slice", None)
@@ -412,6 +418,8 @@ class Model(object):
         nodes_to_load = {}
         for node_data in data["nodes"]:
             node_name = node_data["name"]
+            if node_name in nodes_to_load:
+                raise ValueError('A node with the name "{}" is defined more than once.'.format(node_name))
             nodes_to_load[node_name] = node_data
         model._nodes_to_load = nodes_to_load
 
-- 
2.43.0


From b6d51d900eb8f6afc740897ca1e06fef87fd844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:17 +0000
Subject: [PATCH 37/68] fix: keep the comment of parameters loaded by
 Parameter.load

---
 pywr/parameters/_parameters.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 09e3c4d..433b419 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -137,9 +137,9 @@ cdef class Parameter(Component):
             scenario = model.scenarios[scenario]
             # Only pass scenario object if one provided; most Parameter subclasses
             # do not accept a scenario argument.
-            return cls(model, scenario=scenario, values=values, name=name, comment=None, **data)
+            return cls(model, scenario=scenario, values=values, name=name, comment=comment, **data)
         else:
-            return cls(model, values=values, name=name, comment=None, **data)
+            return cls(model, values=values, name=name, comment=comment, **data)
 Parameter.register()
 
 
-- 
2.43.0


From 67914e5dd6ebdb4a47aaf0497a80bf5c516ec653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:31 +0000
Subject: [PATCH 38/68] fix: parameter types may be given with the suffix
 "parameter" when registered without it

---
 pywr/parameters/_parameters.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 433b419..4bc24d5 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -2286,7 +2286,7 @@ def get_parameter_from_registry(parameter_type):
     except KeyError:
         pass
     if key.endswith("parameter"):
-        key.replace("parameter", "")
+        key = key.replace("parameter", "")
     else:
         key = key + "parameter"
     try:
-- 
2.43.0


From d86e1691f17814522dbcdc755e52350978936649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:50 +0000
Subject: [PATCH 39/68] fix: load timestep licences as the other licences

---
 pywr/parameters/licenses.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pywr/parameters/licenses.py b/pywr/parameters/licenses.py
index 2badbd0..252e011 100644
--- a/pywr/parameters/licenses.py
+++ b/pywr/parameters/licenses.py
@@ -27,6 +27,12 @@ class License(BaseParameter):
     def resource_state(self, timestep):
         raise NotImplementedError()
 
+    @classmethod
+    def load(cls, model, data):
+        node = model.nodes[data.pop("node")]
+        amount = data.pop("amount")
+        return cls(model, node, amount=amount, **data)
+
 
 class TimestepLicense(License):
     """License limiting volume for a single timestep
@@ -94,12 +100,6 @@ class StorageLicense(License):
     def reset(self):
         self._remaining[...] = self._amount
 
-    @classmethod
-    def load(cls, model, data):
-        node = model.nodes[data.pop("node")]
-        amount = data.pop("amount")
-        return cls(model, node, amount=amount, **data)
-
 
 StorageLicense.register()
 
-- 
2.43.0


From 328d2987a84b65709054f2439658de7154bb94db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:32 +0000
Subject: [PATCH 40/68] fix: MultiModel.load uses the solver it is given

---
 pywr/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/model.py b/pywr/model.py
index 71d92e7..e3e66d3 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -84,7 +84,7 @@ class MultiModel:
             data = data.read()
             return cls.loads(data, model, path, solver)
 
-        return cls.load_from_dict(data, model=model, path=path, solver=None)
+        return cls.load_from_dict(data, model=model, path=path, solver=solver)
 
     @classmethod
     def _load_from_dict(cls, *args, **kwargs) -> "MultiModel":
-- 
2.43.0


From 5eef62a85ad2a5699d060950b7172cb4b4cd3847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 41/68] fix: MultiModel documents set the time-step of their
 sub-models

---
 pywr/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/model.py b/pywr/model.py
index e3e66d3..0a69fc3 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -159,7 +159,7 @@ class MultiModel:
 
             sub_model.timestepper.start = timestepper_data["start"]
             sub_model.timestepper.end = timestepper_data["end"]
-            sub_model.timestepper.timestep = timestepper_data["timestep"]
+            sub_model.timestepper.delta = timestepper_data["timestep"]
             model.add_model(sub_model_name, sub_model)
 
         return model
-- 
2.43.0


From 2897191484e2870719b0618437fb999b91c7f2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 42/68] fix: MultiModel.run reports sub-models of different
 length instead of stopping at the shortest

---
 pywr/model.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pywr/model.py b/pywr/model.py
index 0a69fc3..25a6cab 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -252,11 +252,20 @@ class MultiModel:
                 self.reset()
             t1 = time.time()
 
+            # Check that all sub-models have the same number of timesteps
+            if len(set(len(timestepper) for timestepper in timesteppers)) > 1:
+                raise RuntimeError(
+                    "Timesteps are not synchronised across all sub-models."
+                )
+
             # Begin time-stepping
             for timesteps in zip(*timesteppers):
                 for model, timestep in zip(self.models.values(), timesteps):
                     # Check all timesteps are the same
-                    if timestep.datetime != timesteps[0].datetime:
+                    if (
+                        timestep.datetime != timesteps[0].datetime
+                        or timestep.days != timesteps[0].days
+                    ):
                         raise RuntimeError(
                             "Timesteps are not synchronised across all sub-models."
                         )
-- 
2.43.0


From c8cf8f19ebbae74b8a99203b1f20b1d5ec3dcf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 43/68] fix: parameters read by another sub-model start each
 multi-model run at zero

---
 pywr/model.py                   | 7 +++++++
 pywr/parameters/_parameters.pyx | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pywr/model.py b/pywr/model.py
index 25a6cab..8999370 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -4,6 +4,7 @@ from pathlib import Path
 from typing import Dict, Any
 
 from ._model import *  # noqa
+from .parameters import IndexParameter
 
 import logging
 
@@ -224,6 +225,12 @@ class MultiModel:
     def reset(self):
         for model in self.models.values():
             model.reset()
+            # A parameter can be read by a sub-model that runs earlier in the first
+            # time-step, when it must not have its value of a previous run.
+            for parameter in model.parameters:
+                parameter.get_all_values()[:] = 0.0
+                if isinstance(parameter, IndexParameter):
+                    parameter.get_all_indices()[:] = 0
 
     def _step(self):
         rets = []
diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 4bc24d5..043e694 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -62,7 +62,7 @@ cdef class Parameter(Component):
             num_comb = len(self.model.scenarios.combinations)
         else:
             num_comb = 1
-        self._Parameter__values = np.empty([num_comb], np.float64)
+        self._Parameter__values = np.zeros([num_comb], np.float64)
 
     cpdef double value(self, Timestep ts, ScenarioIndex scenario_index) except? -1:
         raise NotImplementedError("Parameter must be subclassed")
@@ -1213,7 +1213,7 @@ cdef class IndexParameter(Parameter):
             num_comb = len(self.model.scenarios.combinations)
         else:
             num_comb = 1
-        self._IndexParameter__indices = np.empty([num_comb], np.int32)
+        self._IndexParameter__indices = np.zeros([num_comb], np.int32)
 
     cdef calc_values(self, Timestep timestep):
         cdef ScenarioIndex scenario_index
-- 
2.43.0


From 367c628fe1570d8ad0dd117299d94c6ea67c2b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:44 +0000
Subject: [PATCH 44/68] fix: MultiModel rejects sub-models of the same name

---
 pywr/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywr/model.py b/pywr/model.py
index 8999370..c4e999a 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -24,6 +24,8 @@ class MultiModel:
 
     def add_model(self, name: str, model: Model):
         """Add a model."""
+        if name in self.models:
+            raise ValueError(f'A sub-model with the name "{name}" already exists.')
         self.models[name] = model
         model.parent = self
 
-- 
2.43.0


From 25d309b99b2e5d39d51c56b7e21e24ec20c6139f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:51 +0000
Subject: [PATCH 45/68] fix: bisection over a parameter without finite bounds
 is an error instead of an endless search

---
 pywr/utils/bisect.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywr/utils/bisect.py b/pywr/utils/bisect.py
index 52df52c..1d88538 100644
--- a/pywr/utils/bisect.py
+++ b/pywr/utils/bisect.py
@@ -69,6 +69,10 @@ class BisectionSearchModel(Model):
         # Use the bounds of the parameter for the bisection search space
         min_value = param.get_double_lower_bounds()[0]
         max_value = param.get_double_upper_bounds()[0]
+        if not (np.isfinite(min_value) and np.isfinite(max_value)):
+            raise ValueError(
+                "Bisection is only supported using a parameter with finite lower and upper bounds."
+            )
         if min_value >= max_value:
             raise ValueError(
                 "Minimum bounds of the bisection parameter must be strictly greater than its "
-- 
2.43.0


From 87966501250e49046d67eac8de46f375cd6ec7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:11 +0000
Subject: [PATCH 46/68] fix: bisection tries the lower bound before it reports
 that nothing is feasible

---
 pywr/utils/bisect.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pywr/utils/bisect.py b/pywr/utils/bisect.py
index 1d88538..5f5c922 100644
--- a/pywr/utils/bisect.py
+++ b/pywr/utils/bisect.py
@@ -107,21 +107,22 @@ class BisectionSearchModel(Model):
                 # Failed; tighten upper bounds
                 max_value = current_value
 
-        # Ensure a feasible solution is found.
-        if np.isneginf(best_feasible):
-            if self.error_on_infeasible:
-                raise ValueError(
-                    "No feasible solutions found during bisection. Trying lowering the bounds on the "
-                    "bisection parameter."
-                )
-            else:
-                # If no feasible the "best" value is the lower bounds.
-                best_feasible = min_value
+        # If no feasible solution is found so far the "best" value is the lower bound, which
+        # has not been tried by the bisection.
+        found = not np.isneginf(best_feasible)
+        if not found:
+            best_feasible = min_value
         # Finally, rerun at the best found feasible value
         # This is slightly inefficient, but ensures the model's recorders are at the best_feasible
         # value's results at the end of the simulation.
         param.set_double_variables(np.array([best_feasible]))
         ret = super().run()
+        # Ensure a feasible solution is found.
+        if not found and self.error_on_infeasible and not self.is_feasible():
+            raise ValueError(
+                "No feasible solutions found during bisection. Trying lowering the bounds on the "
+                "bisection parameter."
+            )
         logger.info(
             f'Bisection complete! Highest feasible value of "{self.bisect_parameter}" '
             f"found: {best_feasible:.4f}"
-- 
2.43.0


From 5db729d85b17c8a5270c6183c9cf55c4ce0dcfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:15 +0000
Subject: [PATCH 47/68] fix: load the area of a KeatingAquifer before it is
 created

---
 pywr/domains/groundwater.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pywr/domains/groundwater.py b/pywr/domains/groundwater.py
index 4175f5e..ba28d03 100644
--- a/pywr/domains/groundwater.py
+++ b/pywr/domains/groundwater.py
@@ -112,6 +112,14 @@ class KeatingAquifer(Storage):
             node.max_flow = parameter
             node.min_flow = parameter
 
+    @classmethod
+    def _pre_load_parameter(cls, key, value, param_data, non_param_data):
+        if key == "area":
+            # The area is a number that is needed to create the node
+            non_param_data[key] = value
+        else:
+            super()._pre_load_parameter(key, value, param_data, non_param_data)
+
     def initial_level():
         def fget(self):
             # get the initial level from the volume
-- 
2.43.0


From cd8e0ab638774eb13b2f9cc037556f42d3de892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:30 +0000
Subject: [PATCH 48/68] fix: the control curve of a Reservoir document is
 loaded, and its cost above the curve is kept

---
 pywr/domains/river.py | 65 ++++++++++++++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 20 deletions(-)

diff --git a/pywr/domains/river.py b/pywr/domains/river.py
index 6027a9b..500dd5c 100644
--- a/pywr/domains/river.py
+++ b/pywr/domains/river.py
@@ -75,28 +75,53 @@ class Reservoir(RiverDomainMixin, Storage):
         above_curve_cost = kwargs.pop("above_curve_cost", None)
         cost = kwargs.pop("cost", 0.0)
         if above_curve_cost is not None:
-            if control_curve is None:
-                # Make a default control curve at 100% capacity
-                control_curve = ConstantParameter(model, 1.0)
-            elif not isinstance(control_curve, Parameter):
-                # Assume parameter is some kind of constant and coerce to ConstantParameter
-                control_curve = ConstantParameter(model, control_curve)
-
-            if not isinstance(cost, Parameter):
-                # In the case where an above_curve_cost is given and cost is not a Parameter
-                # a default cost Parameter is created.
-                kwargs["cost"] = ControlCurveParameter(
-                    model, self, control_curve, [above_curve_cost, cost]
-                )
-            else:
-                raise ValueError(
-                    "If an above_curve_cost is given cost must not be a Parameter."
-                )
-        else:
-            # reinstate the given cost parameter to pass to the parent constructors
-            kwargs["cost"] = cost
+            cost = self._above_curve_cost_parameter(
+                model, control_curve, above_curve_cost, cost
+            )
+        # reinstate the cost parameter to pass to the parent constructors
+        kwargs["cost"] = cost
         super(Reservoir, self).__init__(model, *args, **kwargs)
 
+    def _above_curve_cost_parameter(self, model, control_curve, above_curve_cost, cost):
+        if control_curve is None:
+            # Make a default control curve at 100% capacity
+            control_curve = ConstantParameter(model, 1.0)
+        elif not isinstance(control_curve, Parameter):
+            # Assume parameter is some kind of constant and coerce to ConstantParameter
+            control_curve = ConstantParameter(model, control_curve)
+
+        if isinstance(cost, Parameter):
+            raise ValueError(
+                "If an above_curve_cost is given cost must not be a Parameter."
+            )
+        # In the case where an above_curve_cost is given and cost is not a Parameter
+        # a default cost Parameter is created.
+        return ControlCurveParameter(
+            model, self, control_curve, [above_curve_cost, cost]
+        )
+
+    @classmethod
+    def pre_load(cls, model, data):
+        # The cost above the curve is applied once the parameters are loaded, because the control
+        # curve can be a reference and the cost is set then.
+        data = dict(data)
+        control_curve = data.pop("control_curve", None)
+        above_curve_cost = data.pop("above_curve_cost", None)
+        node = super().pre_load(model, data)
+        node._above_curve_data = (control_curve, above_curve_cost)
+        return node
+
+    def finalise_load(self):
+        super().finalise_load()
+        control_curve, above_curve_cost = self._above_curve_data
+        del self._above_curve_data
+        if above_curve_cost is not None:
+            if control_curve is not None:
+                control_curve = load_parameter(self.model, control_curve)
+            self.cost = self._above_curve_cost_parameter(
+                self.model, control_curve, above_curve_cost, self.cost
+            )
+
 
 class River(RiverDomainMixin, Link):
     """A node in the river network
-- 
2.43.0


From edc16f3c6cbefda544a45d6c6dea02ab2c60eafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 49/68] fix: the initial level of a KeatingAquifer can be read
 before the model is set up

---
 pywr/domains/groundwater.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr/domains/groundwater.py b/pywr/domains/groundwater.py
index ba28d03..ca450c8 100644
--- a/pywr/domains/groundwater.py
+++ b/pywr/domains/groundwater.py
@@ -98,6 +98,7 @@ class KeatingAquifer(Storage):
         self._volumes = volumes
         self._levels = levels
         self._level_to_volume = interp1d(levels, volumes)
+        self._volume_to_level = interp1d(volumes, levels)
 
         self.max_volume = max(volumes)
         self.min_volume = min(volumes)
@@ -123,7 +124,7 @@ class KeatingAquifer(Storage):
     def initial_level():
         def fget(self):
             # get the initial level from the volume
-            return self.level.interp(self.initial_volume)
+            return self._volume_to_level(self.initial_volume)
 
         def fset(self, value):
             # actually sets the initial volume
-- 
2.43.0


From 8da5910532264a5280b9a60427920d82325481f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 50/68] fix: tables recorders accept node objects and names of
 two characters

---
 pywr/recorders/_tables_recorders.pyx | 17 +++++++++--------
 pywr/recorders/recorders.py          | 17 +++++++++--------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 5812459..3be58bb 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -140,11 +140,10 @@ class TablesRecorder2(Recorder):
         self._routes_flow_array = None
 
     def _add_parameter(self, parameter):
-        try:
+        if isinstance(parameter, (tuple, list)):
             where, param = parameter
-        except (TypeError, ValueError):
-            where = None
-            param = parameter
+        else:
+            where, param = None, parameter
         if isinstance(param, str):
             from ..parameters import load_parameter
 
@@ -239,17 +238,19 @@ class TablesRecorder2(Recorder):
         else:
             items = []
             for n in self.nodes:
-                try:
+                if isinstance(n, (tuple, list)):
                     where, node = n
-                except (TypeError, ValueError):
-                    node = n
-                    where = self.where + "/" + node
+                else:
+                    where, node = None, n
 
                 # Accept a str, and lookup node by name instead.
                 if isinstance(node, str):
                     node = self.model.nodes[node]
                 # Otherwise assume it is a node object anyway
 
+                if where is None:
+                    where = self.where + "/" + node.name
+
                 where = where.replace("//", "/")
                 items.append((where, node))
 
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 3b4d3e5..1b9f12f 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -342,11 +342,10 @@ class TablesRecorder(Recorder):
         self._routes_flow_array = None
 
     def _add_parameter(self, parameter):
-        try:
+        if isinstance(parameter, (tuple, list)):
             where, param = parameter
-        except (TypeError, ValueError):
-            where = None
-            param = parameter
+        else:
+            where, param = None, parameter
         if isinstance(param, str):
             from ..parameters import load_parameter
 
@@ -439,17 +438,19 @@ class TablesRecorder(Recorder):
         else:
             nodes = []
             for n in self.nodes:
-                try:
+                if isinstance(n, (tuple, list)):
                     where, node = n
-                except (TypeError, ValueError):
-                    node = n
-                    where = self.where + "/" + node
+                else:
+                    where, node = None, n
 
                 # Accept a str, and lookup node by name instead.
                 if isinstance(node, str):
                     node = self.model.nodes[node]
                 # Otherwise assume it is a node object anyway
 
+                if where is None:
+                    where = self.where + "/" + node.name
+
                 where = where.replace("//", "/")
                 nodes.append((where, node))
 
-- 
2.43.0


From c748aa73b8a967b722160f10f885c4ea8ac83aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 51/68] fix: the buffered time-steps of a tables recorder are
 written wherever a run starts and ends

---
 pywr/recorders/_tables_recorders.pyx | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 3be58bb..9aea553 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -99,6 +99,8 @@ class TablesRecorder2(Recorder):
         self.buffer_size = kwargs.pop("buffer_size", 100)
         self.buffer_timesteps = kwargs.pop("buffer_timesteps", None)
         self._buffer_num_timesteps = 1
+        self._buffer_write_position = 0
+        self._buffer_last_index = 0
 
         title = kwargs.pop("title", None)
         if title is None:
@@ -531,7 +533,8 @@ class TablesRecorder2(Recorder):
             entry["index"] = idx
             entry.append()
 
-        buffer_idx = idx % self._buffer_num_timesteps
+        # The buffer holds the time-steps since it was last written to the tables
+        buffer_idx = self._buffer_write_position
 
         for node, (arrays, buffer) in self._node_arrays.items():
             if buffer is None:
@@ -580,8 +583,12 @@ class TablesRecorder2(Recorder):
                 buffer[0, buffer_idx, ...] = np.reshape(index_parameter.get_all_indices(), scenario_shape)
 
         # Flush before we overwrite the data if this is the last entry in the buffer
-        if self._buffer_num_timesteps > 1 and (idx + 1) % self._buffer_num_timesteps == 0:
-            self.flush_buffer(idx, self._buffer_num_timesteps)
+        if self._buffer_num_timesteps > 1:
+            self._buffer_last_index = idx
+            self._buffer_write_position += 1
+            if self._buffer_write_position == self._buffer_num_timesteps:
+                self.flush_buffer(idx, self._buffer_num_timesteps)
+                self._buffer_write_position = 0
 
         if self._routes_flow_array is not None:
             routes_shape = [
@@ -616,17 +623,10 @@ class TablesRecorder2(Recorder):
 
     def finish(self):
 
-        if self._buffer_num_timesteps > 1:
-            ts = self.model.timestepper.current
-            # The final time-step is one past the end of the data
-            idx = ts.index
-            residual_timesteps = idx % self._buffer_num_timesteps
-
-            # Flush the buffer if there are residual time-steps, or our buffer covered the entire simulation
-            if residual_timesteps > 0:
-                self.flush_buffer(idx - 1, residual_timesteps)
-            elif self._buffer_num_timesteps == len(self.model.timestepper):
-                self.flush_buffer(idx - 1, self._buffer_num_timesteps)
+        # Flush the buffer if there are residual time-steps
+        if self._buffer_write_position > 0:
+            self.flush_buffer(self._buffer_last_index, self._buffer_write_position)
+            self._buffer_write_position = 0
 
         if self._time_table is not None:
             self._time_table.flush()
-- 
2.43.0


From 075b637387bd7864db8da3478682999886ad7a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 52/68] fix: dataframes are generated from tables with any
 scenario combinations and with routes

---
 pywr/h5tools.py                      | 69 ++++++++++++++++++++++++++++
 pywr/recorders/_tables_recorders.pyx | 15 ++----
 pywr/recorders/recorders.py          | 15 ++----
 3 files changed, 75 insertions(+), 24 deletions(-)

diff --git a/pywr/h5tools.py b/pywr/h5tools.py
index 8187436..a5e9cee 100644
--- a/pywr/h5tools.py
+++ b/pywr/h5tools.py
@@ -1,3 +1,4 @@
+import pandas
 import tables
 import os
 
@@ -61,3 +62,71 @@ class H5Store(object):
     def __del__(self):
         if self._opened and self.file.isopen:
             self.file.close()
+
+
+def read_scenario_columns(h5file, scenarios):
+    """Returns the index of the scenario combinations that are saved in a file
+
+    Parameters
+    ----------
+    h5file : tables.File
+        A file created by `TablesRecorder`.
+    scenarios : str
+        The internal table that contains the scenario information.
+    """
+    table = h5file.get_node(scenarios)
+    names = [name.decode() for name in table.col("name")]
+    if len(names) == 0:
+        # A model with no scenarios implicitly has 1 scenario of size 1
+        return pandas.MultiIndex.from_product([range(1)], names=[""])
+
+    group_name = scenarios.rsplit("/", 1)[0]
+    for where in (group_name, ""):
+        path = where + "/scenario_combinations"
+        if path in h5file:
+            node = h5file.get_node(path)
+            if isinstance(node, tables.Table):
+                combinations = zip(*[node.col(name) for name in names])
+            else:
+                combinations = node.read()
+            return pandas.MultiIndex.from_tuples(
+                [tuple(int(i) for i in c) for c in combinations], names=names
+            )
+
+    ensembles = {name: range(size) for name, size in zip(names, table.col("size"))}
+    path = group_name + "/scenario_slices"
+    if path in h5file:
+        slices = h5file.get_node(path)
+        for name, start, stop, step in zip(
+            *[slices.col(c) for c in ("name", "start", "stop", "step")]
+        ):
+            ensembles[name.decode()] = range(start, stop, step)
+    return pandas.MultiIndex.from_product(
+        [ensembles[name] for name in names], names=names
+    )
+
+
+def read_dataframe(carray, index, columns):
+    """Returns the data of an array as a dataframe with a row per time-step
+
+    Parameters
+    ----------
+    carray : tables.CArray
+        An array created by `TablesRecorder`.
+    index : pandas.DatetimeIndex or None
+        The time-steps.
+    columns : pandas.MultiIndex or None
+        The scenario combinations. The flows of the routes have a column for each route and combination.
+    """
+    data = carray.read()
+    data = data.reshape((data.shape[0], -1))
+    if columns is not None and data.shape[1] != len(columns):
+        columns = pandas.MultiIndex.from_tuples(
+            [
+                (route,) + tuple(column)
+                for route in range(data.shape[1] // len(columns))
+                for column in columns
+            ],
+            names=["route"] + list(columns.names),
+        )
+    return pandas.DataFrame(data, index=index, columns=columns)
diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 9aea553..2b77362 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -2,7 +2,7 @@ from typing import Tuple
 import pandas
 cimport numpy as np
 import numpy as np
-from pywr.h5tools import H5Store
+from pywr.h5tools import H5Store, read_dataframe, read_scenario_columns
 import warnings
 from pywr.parameters._parameters cimport IndexParameter, Parameter
 from pywr.recorders._recorders cimport Recorder
@@ -662,23 +662,14 @@ class TablesRecorder2(Recorder):
 
         # Get the scenario information
         if scenarios:
-            scenarios_table = store.file.get_node(scenarios)
-            scenarios = pandas.DataFrame(
-                {k: scenarios_table.col(k) for k in ("name", "size")}
-            )
-            columns = pandas.MultiIndex.from_product(
-                [range(row["size"]) for _, row in scenarios.iterrows()],
-                names=[row["name"].decode() for _, row in scenarios.iterrows()],
-            )
+            columns = read_scenario_columns(store.file, scenarios)
         else:
             columns = None
 
         for node in store.file.walk_nodes("/", "CArray"):
             if node.name in ("scenario_combinations", "scenario_ensemble_names"):
                 continue
-            data = node.read()
-            data = data.reshape((data.shape[0], -1))
-            df = pandas.DataFrame(data, index=index, columns=columns)
+            df = read_dataframe(node, index, columns)
             yield f"{node._v_parent._v_name}.{node._v_name}", df
 
 
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 1b9f12f..13d4470 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -10,7 +10,7 @@ from ._tables_recorders import TablesRecorder2, ParameterNameWarning
 from .events import *
 from .calibration import *
 from .kde import *
-from pywr.h5tools import H5Store
+from pywr.h5tools import H5Store, read_dataframe, read_scenario_columns
 from ..parameter_property import parameter_property
 import warnings
 
@@ -710,21 +710,12 @@ class TablesRecorder(Recorder):
 
         # Get the scenario information
         if scenarios:
-            scenarios_table = store.file.get_node(scenarios)
-            scenarios = pandas.DataFrame(
-                {k: scenarios_table.col(k) for k in ("name", "size")}
-            )
-            columns = pandas.MultiIndex.from_product(
-                [range(row["size"]) for _, row in scenarios.iterrows()],
-                names=[row["name"].decode() for _, row in scenarios.iterrows()],
-            )
+            columns = read_scenario_columns(store.file, scenarios)
         else:
             columns = None
 
         for node in store.file.walk_nodes("/", "CArray"):
-            data = node.read()
-            data = data.reshape((data.shape[0], -1))
-            df = pandas.DataFrame(data, index=index, columns=columns)
+            df = read_dataframe(node, index, columns)
             yield node._v_name, df
 
 
-- 
2.43.0


From 9a4a418bff0e64a97f90b37203d5b24be5d96b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 53/68] fix: scenario slices without a start or stop can be
 saved in tables

---
 pywr/recorders/_tables_recorders.pyx | 11 +++++------
 pywr/recorders/recorders.py          | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 2b77362..83e8548 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -370,12 +370,11 @@ class TablesRecorder2(Recorder):
                 for scenario in self.model.scenarios.scenarios:
                     if scenario.slice is not None:
                         entry["name"] = scenario.name.encode("utf-8")
-                        entry["start"] = scenario.slice.start
-                        entry["stop"] = scenario.slice.stop
-                        if scenario.slice.step:
-                            entry["step"] = scenario.slice.step
-                        else:
-                            entry["step"] = 1
+                        # The parts of a slice that are not given are those of the ensembles
+                        start, stop, step = scenario.slice.indices(scenario.size)
+                        entry["start"] = start
+                        entry["stop"] = stop
+                        entry["step"] = step
                         entry.append()
                 tbl.flush()
 
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 13d4470..6930822 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -534,12 +534,11 @@ class TablesRecorder(Recorder):
                 for scenario in self.model.scenarios.scenarios:
                     if scenario.slice is not None:
                         entry["name"] = scenario.name.encode("utf-8")
-                        entry["start"] = scenario.slice.start
-                        entry["stop"] = scenario.slice.stop
-                        if scenario.slice.step:
-                            entry["step"] = scenario.slice.step
-                        else:
-                            entry["step"] = 1
+                        # The parts of a slice that are not given are those of the ensembles
+                        start, stop, step = scenario.slice.indices(scenario.size)
+                        entry["start"] = start
+                        entry["stop"] = stop
+                        entry["step"] = step
                         entry.append()
                 tbl.flush()
 
-- 
2.43.0


From a7b9cfaa13566fc290b15dfd7873cfe3d27187ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 54/68] fix: the csv_kwargs of a CSVRecorder are passed to the
 writer

---
 pywr/recorders/recorders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 6930822..fb348ac 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -141,11 +141,12 @@ class CSVRecorder(Recorder):
         complevel=9,
         **kwargs,
     ):
+        csv_kwargs = kwargs.pop("csv_kwargs", {})
         super(CSVRecorder, self).__init__(model, **kwargs)
         self.csvfile = csvfile
         self.scenario_index = scenario_index
         self.nodes = nodes
-        self.csv_kwargs = kwargs.pop("csv_kwargs", {})
+        self.csv_kwargs = csv_kwargs
         self._node_names = None
         self._fh = None
         self._writer = None
-- 
2.43.0


From 84905e16f431bb0bc7e31cb49127046ed8cdb9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 55/68] fix: the limits of a piecewise link are the sum over
 its sub-links for all scenarios too

---
 pywr/nodes.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 77cc9bd..0edb8a8 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -824,6 +824,20 @@ class PiecewiseLink(Node):
     def get_max_flow(self, si):
         return sum([sl.get_max_flow(si) for sl in self.sublinks])
 
+    def get_all_min_flow(self, out=None):
+        if out is None:
+            out = np.empty(len(self.model.scenarios.combinations))
+        for si in self.model.scenarios.combinations:
+            out[si.global_id] = self.get_min_flow(si)
+        return out
+
+    def get_all_max_flow(self, out=None):
+        if out is None:
+            out = np.empty(len(self.model.scenarios.combinations))
+        for si in self.model.scenarios.combinations:
+            out[si.global_id] = self.get_max_flow(si)
+        return out
+
     def costs():
         def fget(self):
             return [sl.cost for sl in self.sublinks]
-- 
2.43.0


From 70327276da50b4bdfbe1155c99ce2707935909f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 56/68] fix: the scenario_agg_func argument of
 routes_to_sankey_links is used

---
 pywr/notebook/sankey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/notebook/sankey.py b/pywr/notebook/sankey.py
index 808039a..af88afd 100644
--- a/pywr/notebook/sankey.py
+++ b/pywr/notebook/sankey.py
@@ -19,7 +19,7 @@ def routes_to_sankey_links(
     time_agg_func = kwargs.pop("time_agg_func", np.mean)
 
     scenario_slice = kwargs.pop("scenario_slice", None)
-    scenario_agg_func = kwargs.pop("scenario_slice", np.mean)
+    scenario_agg_func = kwargs.pop("scenario_agg_func", np.mean)
 
     sources = defaultdict(lambda: defaultdict(lambda: 0.0))
 
-- 
2.43.0


From 7f206df72ab3cfa4bd3b6de886308988c782a56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:00 +0000
Subject: [PATCH 57/68] fix: an inactive virtual storage whose minimum and
 maximum volume are equal places no restriction on flows

---
 pywr/solvers/cython_glpk.pyx | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index 5e8ef7f..257733b 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -1000,16 +1000,16 @@ cdef class CythonGLPKSolver(GLPKSolver):
             max_volume = storage.get_max_volume(scenario_index)
             min_volume = storage.get_min_volume(scenario_index)
 
-            if max_volume == min_volume:
-                if self.use_unsafe_api:
-                    set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
-                else:
-                    set_row_bnds_safe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
-            elif not storage.active:
+            if not storage.active:
                 if self.use_unsafe_api:
                     set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages+row, GLP_FR, -DBL_MAX, DBL_MAX)
                 else:
                     set_row_bnds_safe(self.prob, self.idx_row_virtual_storages+row, GLP_FR, -DBL_MAX, DBL_MAX)
+            elif max_volume == min_volume:
+                if self.use_unsafe_api:
+                    set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
+                else:
+                    set_row_bnds_safe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
             else:
                 avail_volume = max(storage._volume[scenario_index.global_id] - min_volume, 0.0)
                 # change in storage cannot be more than the current volume or
@@ -1824,16 +1824,16 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
             max_volume = storage.get_max_volume(scenario_index)
             min_volume = storage.get_min_volume(scenario_index)
 
-            if max_volume == min_volume:
-                if self.use_unsafe_api:
-                    set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
-                else:
-                    set_row_bnds_safe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
-            elif not storage.active:
+            if not storage.active:
                 if self.use_unsafe_api:
                     set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages+row, GLP_FR, -DBL_MAX, DBL_MAX)
                 else:
                     set_row_bnds_safe(self.prob, self.idx_row_virtual_storages+row, GLP_FR, -DBL_MAX, DBL_MAX)
+            elif max_volume == min_volume:
+                if self.use_unsafe_api:
+                    set_row_bnds_unsafe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
+                else:
+                    set_row_bnds_safe(self.prob, self.idx_row_virtual_storages+row, GLP_FX, 0.0, 0.0)
             else:
                 avail_volume = max(storage._volume[scenario_index.global_id] - min_volume, 0.0)
                 # change in storage cannot be more than the current volume or
-- 
2.43.0


From 8fd27824f2d1e491eae55a333ea16143c923a79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:45 +0000
Subject: [PATCH 58/68] fix: fixed costs are updated when the model is reset,
 as fixed flows and factors are (set_fixed_costs_once)

---
 pywr/solvers/cython_glpk.pyx | 69 ++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 19 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index 257733b..55aa023 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -350,6 +350,7 @@ cdef class CythonGLPKSolver(GLPKSolver):
     cdef list non_storages_with_dynamic_bounds
     cdef list non_storages_with_constant_bounds
     cdef list nodes_with_dynamic_cost
+    cdef list nodes_with_fixed_cost
     cdef list storages
     cdef list virtual_storages
     cdef list aggregated
@@ -426,6 +427,7 @@ cdef class CythonGLPKSolver(GLPKSolver):
         cross_domain_routes = model.find_all_routes(BaseOutput, BaseInput, max_length=2, domain_match='different')
 
         nodes_with_dynamic_cost = []  # Only these nodes' costs are updated each timestep
+        nodes_with_fixed_cost = []  # These nodes' costs are updated once per reset
         non_storages = []
         non_storages_with_dynamic_bounds = []  # These nodes' constraints are updated each timestep
         non_storages_with_constant_bounds = []  # These nodes' constraints are updated only at reset
@@ -504,10 +506,7 @@ cdef class CythonGLPKSolver(GLPKSolver):
                 fixed_cost = False
 
             if self.set_fixed_costs_once and fixed_cost:
-                # With a fixed cost this should work with no scenario index
-                cost = some_node.get_cost(None)
-                data = some_node._AbstractNode__data
-                self.node_costs_arr[data.id] = cost
+                nodes_with_fixed_cost.append(some_node)
             else:
                 nodes_with_dynamic_cost.append(some_node)
 
@@ -736,6 +735,7 @@ cdef class CythonGLPKSolver(GLPKSolver):
         self.non_storages_with_constant_bounds = non_storages_with_constant_bounds
         self.non_storages_with_dynamic_bounds = non_storages_with_dynamic_bounds
         self.nodes_with_dynamic_cost = nodes_with_dynamic_cost
+        self.nodes_with_fixed_cost = nodes_with_fixed_cost
         self.storages = storages
         self.virtual_storages = virtual_storages
         self.aggregated = aggregated
@@ -767,6 +767,20 @@ cdef class CythonGLPKSolver(GLPKSolver):
         self.is_first_solve = True
         self._update_nonstorage_constant_bounds()
         self._update_constant_agg_factors()
+        self._update_fixed_costs()
+
+    cdef int _update_fixed_costs(self) except -1:
+        """Update the costs of nodes that have a fixed cost.
+
+        These costs do not need updating every time-step.
+        """
+        cdef AbstractNodeData data
+        if self.nodes_with_fixed_cost is None:
+            return 0
+        for some_node in self.nodes_with_fixed_cost:
+            data = some_node._AbstractNode__data
+            # With a fixed cost this should work with no scenario index
+            self.node_costs_arr[data.id] = some_node.get_cost(None)
 
     cdef int _update_nonstorage_constant_bounds(self) except -1:
         """Update the bounds of non-storage where they are constants.
@@ -1118,6 +1132,7 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
     cdef list non_storages_with_dynamic_bounds
     cdef list non_storages_with_constant_bounds
     cdef list nodes_with_dynamic_cost
+    cdef list nodes_with_fixed_cost
     cdef list storages
     cdef list virtual_storages
     cdef list aggregated
@@ -1200,6 +1215,7 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
         cross_domain_routes = model.find_all_routes(BaseOutput, BaseInput, max_length=2, domain_match='different')
 
         nodes_with_dynamic_cost = []
+        nodes_with_fixed_cost = []
         link_nodes = []
         non_storages = []
         non_storages_with_dynamic_bounds = []  # These nodes' constraints are updated each timestep
@@ -1272,7 +1288,6 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
         if len(cross_domain_cols) > 0:
             self.idx_row_cross_domain = glp_add_rows(self.prob, len(cross_domain_cols))
 
-        self.edge_fixed_cost_arr[...] = 0.0
         # Calculate fixed costs
         for some_node in self.all_nodes:
             try:
@@ -1281,20 +1296,7 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                 fixed_cost = False
 
             if self.set_fixed_costs_once and fixed_cost:
-                # With a fixed cost this should work with no scenario index
-                cost = some_node.get_cost(None)
-                data = some_node._AbstractNode__data
-
-                # Link nodes have edges connected upstream & downstream. We apply
-                # half the cost assigned to the node to all the connected edges.
-                # The edge costs are then the mean of the node costs at either end.
-                if data.is_link:
-                    cost /= 2
-
-                for col in data.in_edges:
-                    self.edge_fixed_cost_arr[col] += cost
-                for col in data.out_edges:
-                    self.edge_fixed_cost_arr[col] += cost
+                nodes_with_fixed_cost.append(some_node)
             else:
                 nodes_with_dynamic_cost.append(some_node)
 
@@ -1548,6 +1550,7 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
         self.non_storages_with_dynamic_bounds = non_storages_with_dynamic_bounds
         self.non_storages_with_constant_bounds = non_storages_with_constant_bounds
         self.nodes_with_dynamic_cost = nodes_with_dynamic_cost
+        self.nodes_with_fixed_cost = nodes_with_fixed_cost
         self.storages = storages
         self.virtual_storages = virtual_storages
         self.aggregated = aggregated
@@ -1579,6 +1582,34 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
         self.is_first_solve = True
         self._update_nonstorage_constant_bounds()
         self._update_constant_agg_factors()
+        self._update_fixed_costs()
+
+    cdef int _update_fixed_costs(self) except -1:
+        """Update the costs of nodes that have a fixed cost.
+
+        These costs do not need updating every time-step.
+        """
+        cdef AbstractNodeData data
+        cdef double cost
+        cdef int col
+        if self.nodes_with_fixed_cost is None:
+            return 0
+        self.edge_fixed_cost_arr[...] = 0.0
+        for some_node in self.nodes_with_fixed_cost:
+            # With a fixed cost this should work with no scenario index
+            cost = some_node.get_cost(None)
+            data = some_node._AbstractNode__data
+
+            # Link nodes have edges connected upstream & downstream. We apply
+            # half the cost assigned to the node to all the connected edges.
+            # The edge costs are then the mean of the node costs at either end.
+            if data.is_link:
+                cost /= 2
+
+            for col in data.in_edges:
+                self.edge_fixed_cost_arr[col] += cost
+            for col in data.out_edges:
+                self.edge_fixed_cost_arr[col] += cost
 
     cdef int _update_nonstorage_constant_bounds(self) except -1:
         """Update the bounds of non-storage where they are constants.
-- 
2.43.0


From d1c0a51e1e46a3201047978731487f389fd63297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:18 +0000
Subject: [PATCH 59/68] fix: the factors of a virtual storage that are set anew
 are those of the next run's problems

---
 pywr/_core.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 02ac902..b7f301c 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -1488,6 +1488,7 @@ cdef class VirtualStorage(Storage):
 
         def __set__(self, value):
             self._factors = np.array(value, dtype=np.float64)
+            self.model.dirty = True
 
     cpdef after(self, Timestep ts, double[:] adjustment=None):
         cdef int i
-- 
2.43.0


From d3346d8c8a1e4689fbcc30b5677c85c2c1fd36eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:11 +0000
Subject: [PATCH 60/68] fix: a multi-split link with fewer than two factors is
 not given a ratio (GLPK aborted the process)

---
 pywr/nodes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 0edb8a8..6d029e0 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1002,8 +1002,10 @@ class MultiSplitLink(PiecewiseLink):
                     nodes.append(nd)
                     valid_factors.append(r)
 
-            agg = AggregatedNode(self.model, "{} Agg".format(self.name), nodes)
-            agg.factors = valid_factors
+            # A single factor is not in proportion to anything.
+            if len(nodes) > 1:
+                agg = AggregatedNode(self.model, "{} Agg".format(self.name), nodes)
+                agg.factors = valid_factors
 
     def _pad(self, values, default):
         """Add `default` for the additional sublinks if `values` are given for the other sublinks only."""
-- 
2.43.0


From c48c67dc4dc1d3e604b18a646c01dbcf0338035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:11 +0000
Subject: [PATCH 61/68] fix: the nodes of an annual or seasonal virtual storage
 can be given by position, as for other virtual storages

---
 pywr/nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 6d029e0..6fc9f7b 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -609,19 +609,19 @@ class AnnualVirtualStorage(VirtualStorage):
 
     """
 
-    def __init__(self, *args, **kwargs):
+    def __init__(self, model, name, nodes, **kwargs):
         self.reset_day = kwargs.pop("reset_day", 1)
         self.reset_month = kwargs.pop("reset_month", 1)
         self.reset_to_initial_volume = kwargs.pop("reset_to_initial_volume", False)
         self._last_reset_year = None
 
-        for node in kwargs["nodes"]:
+        for node in nodes:
             if isinstance(node, LossLink):
                 raise TypeError(
                     f"You cannot use the node '{node.name}' as it is a compound node"
                 )
 
-        super(AnnualVirtualStorage, self).__init__(*args, **kwargs)
+        super(AnnualVirtualStorage, self).__init__(model, name, nodes, **kwargs)
 
     def reset(self):
         super(AnnualVirtualStorage, self).reset()
-- 
2.43.0


From 2e13c3a4a528597502b8ded957f6bee72fab1e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:11 +0000
Subject: [PATCH 62/68] fix: a model is set up anew after a node is deleted
 from it

---
 pywr/_model.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index b3e6e65..7e2336c 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -984,6 +984,7 @@ class NodeIterator(object):
         for node2 in nodes_to_delete:
             del(self[node2])
         self.model.graph.remove_node(node)
+        self.model.dirty = True
 
     def keys(self):
         for node in self._nodes():
-- 
2.43.0


From b1d03366ca1b805d33dbdca2063fa11fdba3a192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:11 +0000
Subject: [PATCH 63/68] fix: deleting a break link, loss link or multi-split
 link removes all of its parts

---
 pywr/nodes.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 6fc9f7b..14bbdea 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1004,7 +1004,9 @@ class MultiSplitLink(PiecewiseLink):
 
             # A single factor is not in proportion to anything.
             if len(nodes) > 1:
-                agg = AggregatedNode(self.model, "{} Agg".format(self.name), nodes)
+                agg = AggregatedNode(
+                    self.model, "{} Agg".format(self.name), nodes, parent=self
+                )
                 agg.factors = valid_factors
 
     def _pad(self, values, default):
@@ -1140,8 +1142,9 @@ class BreakLink(Node):
             max_volume=0,
             initial_volume=0,
             cost=0,
+            parent=self,
         )
-        self.link = Link(model, name=link_name)
+        self.link = Link(model, name=link_name, parent=self)
 
         self.storage.connect(self.link)
 
@@ -1309,7 +1312,9 @@ class LossLink(Node):
         self.gross.connect(self.output)
         self.gross.connect(self.net)
 
-        self.agg = AggregatedNode(model, name=agg_name, nodes=[self.output, self.net])
+        self.agg = AggregatedNode(
+            model, name=agg_name, nodes=[self.output, self.net], parent=self
+        )
         self.loss_factor_type = kwargs.pop("loss_factor_type", "net")
         self.loss_factor = kwargs.pop("loss_factor", 0.0)
 
-- 
2.43.0


From ea440c4200cf7eef89862a91c6f7d7f543895849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:11 +0000
Subject: [PATCH 64/68] fix: parameters used as factors or loss factors are not
 reported as orphaned

---
 pywr/_core.pyx | 6 ++++--
 pywr/nodes.py  | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index b7f301c..fae4160 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -371,8 +371,10 @@ cdef class AbstractNode:
                 except AttributeError:
                     pass
                 else:
-                    if isinstance(component, Component):
-                        yield component
+                    # an attribute can be a list of components (e.g. factors)
+                    for c in component if isinstance(component, (list, tuple)) else [component]:
+                        if isinstance(c, Component):
+                            yield c
 
     property allow_isolated:
         """ A property to flag whether this Node can be unconnected in a network. """
diff --git a/pywr/nodes.py b/pywr/nodes.py
index 14bbdea..2152165 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1292,6 +1292,7 @@ class LossLink(Node):
     """
 
     __parameter_attributes__ = ("loss_factor", "max_flow", "min_flow", "cost")
+    component_attrs = Node.component_attrs + ["loss_factor"]
 
     def __init__(self, model, name, **kwargs):
         self.allow_isolated = True
-- 
2.43.0


From 0f66617606821ce8fcae54c726eda902dfc4b8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:04 +0000
Subject: [PATCH 65/68] fix: changing the scenario slices or user combinations
 between runs sets up the model again

---
 pywr/_core.pxd |  3 ++-
 pywr/_core.pyx | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/pywr/_core.pxd b/pywr/_core.pxd
index 0ccb43a..61993d8 100644
--- a/pywr/_core.pxd
+++ b/pywr/_core.pxd
@@ -4,7 +4,8 @@ from .parameters._parameters cimport Parameter
 cdef class Scenario:
     cdef basestring _name
     cdef int _size
-    cdef public slice slice
+    cdef slice _slice
+    cdef object _model
     cdef object _ensemble_names
 
 cdef class ScenarioCollection:
diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index fae4160..b82d5ed 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -44,7 +44,8 @@ cdef class Scenario:
         if size < 1:
             raise ValueError("Size must be greater than or equal to 1.")
         self._size = size
-        self.slice = slice
+        self._model = model
+        self._slice = slice
         self.ensemble_names = ensemble_names
         # Do this last so only set on the model if no error is raised.
         model.scenarios.add_scenario(self)
@@ -57,6 +58,15 @@ cdef class Scenario:
         def __get__(self):
             return self._name
 
+    property slice:
+        def __get__(self):
+            return self._slice
+
+        def __set__(self, value):
+            self._slice = value
+            # The combinations are only generated during setup
+            self._model.dirty = True
+
     property ensemble_names:
         def __get__(self):
             if self._ensemble_names is None:
@@ -137,6 +147,7 @@ cdef class ScenarioCollection:
         def __set__(self, values):
             if values is None:
                 self._user_combinations = None
+                self.model.dirty = True
                 return
             cdef Scenario sc
             values = np.asarray(values, dtype=np.int32)
@@ -152,6 +163,8 @@ cdef class ScenarioCollection:
                 raise ValueError('Ensemble index less than zero is invalid.')
 
             self._user_combinations = values
+            # The combinations are only generated during setup
+            self.model.dirty = True
 
     cpdef int get_scenario_index(self, Scenario sc) except? -1:
         """Return the index of Scenario in this controller."""
-- 
2.43.0


From 25553a34bf0f84e1b1aadca1f2b06bd419f8dcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:22 +0000
Subject: [PATCH 66/68] fix: schematics of models with break links

---
 pywr/notebook/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/notebook/__init__.py b/pywr/notebook/__init__.py
index a0b8721..1597264 100644
--- a/pywr/notebook/__init__.py
+++ b/pywr/notebook/__init__.py
@@ -190,9 +190,9 @@ def pywr_model_to_d3_json(model, attributes=False):
         node_source, node_target = edge
 
         # where a link is to/from a subnode, display a link to the parent instead
-        if node_source.parent is not None:
+        while node_source.parent is not None:
             node_source = node_source.parent
-        if node_target.parent is not None:
+        while node_target.parent is not None:
             node_target = node_target.parent
 
         if node_source is node_target:
-- 
2.43.0


From 188506085454f9f7ee558f9ac53d26115f0872c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:22 +0000
Subject: [PATCH 67/68] fix: monthly and rolling virtual storages are not drawn
 in schematics of documents

---
 pywr/notebook/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywr/notebook/__init__.py b/pywr/notebook/__init__.py
index 1597264..465cf66 100644
--- a/pywr/notebook/__init__.py
+++ b/pywr/notebook/__init__.py
@@ -314,6 +314,8 @@ def pywr_json_to_d3_json(model, attributes=False):
             "aggregatednode",
             "aggregatedstorage",
             "seasonalvirtualstorage",
+            "monthlyvirtualstorage",
+            "rollingvirtualstorage",
         ]:
             # Do not add virtual nodes to the graph
             continue
-- 
2.43.0


From ea63dc37913f20390756e929b4129c373e32d3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:22 +0000
Subject: [PATCH 68/68] fix: attributes in schematics of documents without
 parameters or with lists

---
 pywr/notebook/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/notebook/__init__.py b/pywr/notebook/__init__.py
index 465cf66..700eebe 100644
--- a/pywr/notebook/__init__.py
+++ b/pywr/notebook/__init__.py
@@ -339,7 +339,7 @@ def pywr_json_to_d3_json(model, attributes=False):
                         attr_val = get_parameter_from_registry(val["type"]).__name__
                     except KeyError:
                         pass
-                elif val in model["parameters"].keys():
+                elif isinstance(val, str) and val in model.get("parameters", {}):
                     param = model["parameters"][val]
                     attr_type = get_parameter_from_registry(param["type"]).__name__
                     attr_val = attr_val + " - " + attr_type
-- 
2.43.0

