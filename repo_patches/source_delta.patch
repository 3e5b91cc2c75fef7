From 8937aaf4feab5ca33ee9b5559d70c5d50a0e3935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 01/95] fix: allocate enough memory for aggregated node rows in
 the GLPK solvers

`malloc(1+length * sizeof(...))` reserves one byte, not one element, for the
unused zeroth entry that GLPK's 1-based arrays need, so the last index and
value were written past the end of the buffer.
---
 pywr/solvers/cython_glpk.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index baa5f4a..810e70c 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -689,8 +689,8 @@ cdef class CythonGLPKSolver(GLPKSolver):
                     if some_node in route:
                         matrix[n] = w
             length = len(matrix)
-            ind = <int*>malloc(1+length * sizeof(int))
-            val = <double*>malloc(1+length * sizeof(double))
+            ind = <int*>malloc((1+length) * sizeof(int))
+            val = <double*>malloc((1+length) * sizeof(double))
             for i, col in enumerate(sorted(matrix)):
                 ind[1+i] = 1+col
                 val[1+i] = matrix[col]
@@ -1520,8 +1520,8 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                     matrix[n] = w
 
             length = len(matrix)
-            ind = <int*>malloc(1+length * sizeof(int))
-            val = <double*>malloc(1+length * sizeof(double))
+            ind = <int*>malloc((1+length) * sizeof(int))
+            val = <double*>malloc((1+length) * sizeof(double))
             for i, col in enumerate(sorted(matrix)):
                 ind[1+i] = 1+col
                 val[1+i] = matrix[col]
-- 
2.43.0


From 08cba7c9d4bb7f833fcde0133ff79a668037703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 02/95] fix: count shared routes and edges once per member in
 aggregated node limits

When two members of an AggregatedNode shared a route (or an edge) the
coefficient of the second overwrote that of the first, so min_flow/max_flow
was applied to only part of the weighted sum of the members' flows.
---
 pywr/solvers/cython_glpk.pyx    | 17 +++++++++++++----
 pywr/solvers/cython_lpsolve.pyx | 12 ++++++++++--
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index 810e70c..03660e4 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -686,8 +686,16 @@ cdef class CythonGLPKSolver(GLPKSolver):
             matrix = {}
             for some_node, w in zip(nodes, weights):
                 for n, route in enumerate(routes):
-                    if some_node in route:
-                        matrix[n] = w
+                    # Inputs and outputs only carry the flow of routes that start and end with them; a route
+                    # through several of the nodes contributes to the flow of each.
+                    if isinstance(some_node, BaseInput):
+                        in_route = route[0] is some_node
+                    elif isinstance(some_node, BaseOutput):
+                        in_route = route[-1] is some_node
+                    else:
+                        in_route = some_node in route
+                    if in_route:
+                        matrix[n] = matrix.get(n, 0.0) + w
             length = len(matrix)
             ind = <int*>malloc((1+length) * sizeof(int))
             val = <double*>malloc((1+length) * sizeof(double))
@@ -1516,8 +1524,9 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                 else:
                     node_cols = some_node._AbstractNode__data.out_edges
 
+                # The same edge may carry the flow of two of the nodes (e.g. a link and the output it supplies)
                 for n in node_cols:
-                    matrix[n] = w
+                    matrix[n] = matrix.get(n, 0.0) + w
 
             length = len(matrix)
             ind = <int*>malloc((1+length) * sizeof(int))
@@ -1530,7 +1539,7 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                 set_mat_row_safe(self.prob, row, length, ind, val)
                 set_row_bnds_safe(self.prob, row, GLP_FX, 0.0, 0.0)
             except GLPKError, GLPKInternalError:
-                logger.error(f"A GLPK error occurred during creation of aggregated node constraints for node: {storage}")
+                logger.error(f"A GLPK error occurred during creation of aggregated node constraints for node: {agg_node}")
                 raise
             finally:
                 free(ind)
diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index 2eb1e72..eb0bb54 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -428,8 +428,16 @@ cdef class CythonLPSolveSolver:
             matrix = {}
             for node, w in zip(nodes, weights):
                 for n, route in enumerate(routes):
-                    if node in route:
-                        matrix[n] = w
+                    # Inputs and outputs only carry the flow of routes that start and end with them; a route
+                    # through several of the nodes contributes to the flow of each.
+                    if isinstance(node, BaseInput):
+                        in_route = route[0] is node
+                    elif isinstance(node, BaseOutput):
+                        in_route = route[-1] is node
+                    else:
+                        in_route = node in route
+                    if in_route:
+                        matrix[n] = matrix.get(n, 0.0) + w
 
             length = len(matrix)
             ind = <int*>malloc(length * sizeof(int))
-- 
2.43.0


From 5f35799acfdbf18dec99b80352b572844b41b0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 03/95] fix: save the flow of aggregated and compound nodes
 before it becomes prev_flow

AggregatedNode, AggregatedStorage, BreakLink, DelayNode and LossLink saved
their (still zero) flow as the previous flow before calculating it, so
prev_flow was always zero; an inactive VirtualStorage kept the previous flow
of its last active timestep.
---
 pywr/_core.pyx | 8 ++++++--
 pywr/nodes.py  | 9 ++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 3b1780c..2296b68 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -760,7 +760,6 @@ cdef class AggregatedNode(AbstractNode):
             self.model.dirty = True
 
     cpdef after(self, Timestep ts):
-        AbstractNode.after(self, ts)
         cdef int i, j
         cdef Node n
 
@@ -774,6 +773,8 @@ cdef class AggregatedNode(AbstractNode):
             self._flow[i] = 0.0
             for j, n in enumerate(self._nodes):
                 self._flow[i] += n._flow[i]*weights[j]
+        # Make sure the previous flow is saved after the aggregated flow is calculated
+        AbstractNode.after(self, ts)
 
     property factors:
         def __get__(self):
@@ -1399,7 +1400,6 @@ cdef class AggregatedStorage(AbstractStorage):
                 self._current_pc[i] = np.nan
 
     cpdef after(self, Timestep ts):
-        AbstractStorage.after(self, ts)
         cdef int i
         cdef Storage s
         cdef double mxv
@@ -1425,6 +1425,8 @@ cdef class AggregatedStorage(AbstractStorage):
                 self._current_pc[i] = self._volume[i] / mxv
             except ZeroDivisionError:
                 self._current_pc[i] = np.nan
+        # Make sure the previous flow is saved after the aggregated flow is calculated
+        AbstractStorage.after(self, ts)
 
     cpdef double[:] get_all_min_volume(self, double[:] out=None):
         cdef int i
@@ -1491,6 +1493,8 @@ cdef class VirtualStorage(Storage):
                 for n, f in zip(self._nodes, self._factors):
                     self._flow[i] -= f*n._flow[i]
             Storage.after(self, ts, adjustment=adjustment)
+        else:
+            AbstractStorage.after(self, ts)
 
 
 cdef class RollingVirtualStorage(VirtualStorage):
diff --git a/pywr/nodes.py b/pywr/nodes.py
index 6f32f0e..2efd035 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1166,9 +1166,10 @@ class BreakLink(Node):
             yield self.storage.outputs[0]
 
     def after(self, timestep):
-        super(BreakLink, self).after(timestep)
         # update flow on transfer node to flow via link node
         self.commit_all(self.link.flow)
+        # Make sure save is done after setting the flow
+        super(BreakLink, self).after(timestep)
 
 
 class DelayNode(Node):
@@ -1234,9 +1235,10 @@ class DelayNode(Node):
             yield self.output
 
     def after(self, timestep):
-        super().after(timestep)
         # delayed flow is saved to the DelayNode
         self.commit_all(self.input.flow)
+        # Make sure save is done after setting the flow
+        super().after(timestep)
 
 
 class LossLink(Node):
@@ -1359,9 +1361,10 @@ class LossLink(Node):
             yield self.gross
 
     def after(self, timestep):
-        super().after(timestep)
         # Net flow is saved to the node.
         self.commit_all(self.net.flow)
+        # Make sure save is done after setting the flow
+        super().after(timestep)
 
 
 class ShadowStorage(Loadable, Drawable, _core.ShadowStorage, metaclass=NodeMeta):
-- 
2.43.0


From 1028b4c39607b12e4b9ce36e4b6d85f20f1cb6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:42 +0000
Subject: [PATCH 04/95] fix: report the total of the members' volumes from
 AggregatedStorage

The volume was accumulated from the members' flows, which misses volume that
changes in other ways (e.g. a virtual storage that is reset or rolls), and
reset() left the last flow of the previous run in place and divided by
max_volume parameters that had not been evaluated yet.
---
 pywr/_core.pyx | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 2296b68..e5df090 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -1383,17 +1383,26 @@ cdef class AggregatedStorage(AbstractStorage):
             return np.sum([s.get_initial_volume() for s in self._storage_nodes])
 
     cpdef reset(self):
+        AbstractStorage.reset(self)
         cdef int i
-        cdef double mxv = 0.0
-        cdef ScenarioIndex si
+        cdef double mxv, pc
+        cdef Storage s
 
-        for i, si in enumerate(self.model.scenarios.combinations):
-            mxv = 0.0
-            for s in self._storage_nodes:
-                mxv += s.get_max_volume(si)
+        mxv = 0.0
+        for s in self._storage_nodes:
+            if s._max_volume_param is None:
+                mxv += s._max_volume
+            elif s._max_volume_param.is_constant:
+                mxv += s._max_volume_param.get_constant_value()
+            else:
+                # Max volume is a parameter that is not yet evaluated at the beginning of a model run; its
+                # initial value follows from the initial volume and proportion (which are both required).
+                pc = s.get_initial_pc()
+                if pc != 0.0:
+                    mxv += s.get_initial_volume() / pc
 
+        for i in range(self._volume.shape[0]):
             self._volume[i] = self.initial_volume
-            # Ensure variable maximum volume is taken in to account
             try:
                 self._current_pc[i] = self._volume[i] / mxv
             except ZeroDivisionError:
@@ -1403,22 +1412,17 @@ cdef class AggregatedStorage(AbstractStorage):
         cdef int i
         cdef Storage s
         cdef double mxv
-        cdef double mnv
+        cdef ScenarioIndex si
 
         for i, si in enumerate(self.model.scenarios.combinations):
             self._flow[i] = 0.0
+            self._volume[i] = 0.0
             mxv = 0.0
-            mnv = 0.0
             for s in self._storage_nodes:
                 self._flow[i] += s._flow[i]
+                # Members may change volume other than by their flow (e.g. when a virtual storage is reset)
+                self._volume[i] += s._volume[i]
                 mxv += s.get_max_volume(si)
-                mnv += s.get_min_volume(si)
-            self._volume[i] += self._flow[i]*ts.days
-
-            if abs(self._volume[i] - mxv) < 1e-6:
-                self._volume[i] = mxv
-            if abs(self._volume[i] - mnv) < 1e-6:
-                self._volume[i] = mnv
 
             # Ensure variable maximum volume is taken in to account
             try:
-- 
2.43.0


From 3d27c3ed26a3f3591501cb4494ed47c8e97b8e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 05/95] fix: reset the sub-nodes of compound nodes at the start
 of each run

Model.reset iterated over `model.nodes`, which hides nodes with a parent, so
flows of the previous run (e.g. prev_flow) remained in sub-nodes.
---
 pywr/_model.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 2389d23..1ea4e9a 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -767,7 +767,8 @@ class Model(object):
         if profile:
             profiler = Profiler()
 
-        for node in self.nodes:
+        # Include the sub-nodes of compound nodes, which `self.nodes` does not iterate over
+        for node in self.graph.nodes():
             if length_changed:
                 try:
                     node.setup(self)
@@ -777,7 +778,7 @@ class Model(object):
                     raise
             try:
                 node.reset()
-                if profiler is not None:
+                if profiler is not None and node.parent is None:
                     profiler.checkpoint('reset', node.__class__.__name__, node.name)
             except Exception as err:
                 # reraise the exception after logging some info about source of error
-- 
2.43.0


From cc1f82dc13c1728fd5b741e59d5608fd60755b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 06/95] fix: accept costs and max_flows of MultiSplitLink from
 a model document

The lists have one item per step, as documented, but when loaded from JSON they
were assigned by the setters of PiecewiseLink, which insist on an item for the
additional sub-links as well, so that such documents failed to load.
---
 pywr/nodes.py | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 2efd035..4b087ba 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -983,11 +983,10 @@ class MultiSplitLink(PiecewiseLink):
             self._extra_outputs.append(otpt)
 
         if costs is not None:
-            # No cost or maximum flow on the additional links
-            self.costs = costs + [0.0] * extra_slots
+            self.costs = costs
         if max_flows is not None:
             # The max_flows could be problematic with the aggregated node.
-            self.max_flows = max_flows + [None] * extra_slots
+            self.max_flows = max_flows
 
         # Now create an aggregated node for addition constraints if required.
         if factors is not None:
@@ -1004,6 +1003,38 @@ class MultiSplitLink(PiecewiseLink):
             agg = AggregatedNode(self.model, "{} Agg".format(self.name), nodes)
             agg.factors = valid_factors
 
+    def _pad_values(self, values, fill_value):
+        """Extend values given for the `nsteps` sub-links with a value for the additional links"""
+        values = list(values)
+        extra_slots = len(self._extra_inputs)
+        if len(values) == len(self.sublinks) - extra_slots:
+            values += [fill_value] * extra_slots
+        return values
+
+    def costs():
+        def fget(self):
+            return PiecewiseLink.costs.fget(self)
+
+        def fset(self, values):
+            # No cost on the additional links by default
+            PiecewiseLink.costs.fset(self, self._pad_values(values, 0.0))
+
+        return locals()
+
+    costs = property(**costs())
+
+    def max_flows():
+        def fget(self):
+            return PiecewiseLink.max_flows.fget(self)
+
+        def fset(self, values):
+            # No maximum flow on the additional links by default
+            PiecewiseLink.max_flows.fset(self, self._pad_values(values, None))
+
+        return locals()
+
+    max_flows = property(**max_flows())
+
     def iter_slots(self, slot_name=None, is_connector=True):
         if is_connector:
             i = self.slot_names.index(slot_name)
-- 
2.43.0


From e10cfe88a0198a65132957322d26eae27b8286fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 07/95] fix: keep the above_curve_cost of a Reservoir loaded
 from a model document

---
 pywr/domains/river.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pywr/domains/river.py b/pywr/domains/river.py
index 6027a9b..9474c42 100644
--- a/pywr/domains/river.py
+++ b/pywr/domains/river.py
@@ -97,6 +97,14 @@ class Reservoir(RiverDomainMixin, Storage):
             kwargs["cost"] = cost
         super(Reservoir, self).__init__(model, *args, **kwargs)
 
+    @classmethod
+    def _pre_load_parameter(cls, key, value, param_data, non_param_data):
+        if key == "cost" and isinstance(value, (float, int)):
+            # Given to `__init__` because an above_curve_cost turns it into a control curve
+            non_param_data[key] = value
+        else:
+            super()._pre_load_parameter(key, value, param_data, non_param_data)
+
 
 class River(RiverDomainMixin, Link):
     """A node in the river network
-- 
2.43.0


From f36655b1257f58f1b5e62f6c41088bbfc55d96bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:09 +0000
Subject: [PATCH 08/95] fix: do not force a release in the lpsolve solver when
 a storage is above its maximum volume

---
 pywr/solvers/cython_lpsolve.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index eb0bb54..7d37494 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -546,7 +546,7 @@ cdef class CythonLPSolveSolver:
             # change in storage cannot be more than the current volume or
             # result in maximum volume being exceeded
             lb = -avail_volume/timestep.days
-            ub = (max_volume - storage._volume[scenario_index.global_id]) / timestep.days
+            ub = max(max_volume - storage._volume[scenario_index.global_id], 0.0) / timestep.days
             set_row_bnds(self.prob, self.idx_row_storages+col, lb, ub)
 
         # update virtual storage node constraint
@@ -559,7 +559,7 @@ cdef class CythonLPSolveSolver:
                 # change in storage cannot be more than the current volume or
                 # result in maximum volume being exceeded
                 lb = -avail_volume/timestep.days
-                ub = (max_volume - storage._volume[scenario_index.global_id]) / timestep.days
+                ub = max(max_volume - storage._volume[scenario_index.global_id], 0.0) / timestep.days
                 set_row_bnds(self.prob, self.idx_row_virtual_storages+col, lb, ub)
 
         self.stats['bounds_update_storage'] += time.perf_counter() - t0
-- 
2.43.0


From 072ef04421d9c2d1370f4347239c70e73ecc9cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:48 +0000
Subject: [PATCH 09/95] fix: report contradictory limits as infeasible in the
 lpsolve solver

---
 pywr/solvers/cython_lpsolve.pyx | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index 7d37494..f6b0cb0 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -65,8 +65,15 @@ cdef extern from "lpsolve/lp_lib.h":
     int get_presolve(lprec *lp)
     int get_presolveloops(lprec *lp)
 
-cdef inline int set_row_bnds(lprec *prob, int row, double a, double b):
-    if a == b:
+cdef int check_bnds(double a, double b) except -1:
+    # lp_solve ignores contradictory bounds instead of reporting the problem to be infeasible
+    if a - b > 1e-8:
+        raise RuntimeError("Model is primal INFEASIBLE: minimum {} exceeds maximum {}".format(a, b))
+    return 0
+
+cdef int set_row_bnds(lprec *prob, int row, double a, double b) except -1:
+    check_bnds(a, b)
+    if a >= b:
         set_constr_type(prob, row, EQ)
         set_rh(prob, row, a)
         # set_rh_range(prob, row, 0.0)
@@ -87,6 +94,7 @@ cdef inline int set_row_bnds(lprec *prob, int row, double a, double b):
         set_constr_type(prob, row, LE)
         set_rh(prob, row, b)
         set_rh_range(prob, row, b-a)
+    return 0
 
 cdef double inf = float('inf')
 
@@ -533,7 +541,8 @@ cdef class CythonLPSolveSolver:
             min_flow = inf_to_dbl_max(demand.get_min_flow(scenario_index))
             max_flow = inf_to_dbl_max(demand.get_max_flow(scenario_index))
             cost = demand.get_cost(scenario_index)
-            set_bounds(self.prob, self.idx_col_demands+col, min_flow, max_flow)
+            check_bnds(min_flow, max_flow)
+            set_bounds(self.prob, self.idx_col_demands+col, min(min_flow, max_flow), max_flow)
             set_obj(self.prob, self.idx_col_demands+col, cost)
 
         self.stats['bounds_update_nonstorage'] += time.perf_counter() - t0
-- 
2.43.0


From 715a38e7ab7650906cd579318cdb34d3026b4ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 10/95] fix: reset an AnnualVirtualStorage when the timestep
 after its reset date is in the next year

---
 pywr/nodes.py | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 4b087ba..2c89f6c 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -630,30 +630,30 @@ class AnnualVirtualStorage(VirtualStorage):
     def before(self, ts):
         super(AnnualVirtualStorage, self).before(ts)
 
-        if ts.index == 0:
-            if ts.month > self.reset_month or (
-                ts.month == self.reset_month and ts.day > self.reset_day
-            ):
-                # Assume we reset before the model started
-                self._last_reset_year = ts.year
-
-        # Reset the storage volume if necessary
-        if ts.year != self._last_reset_year:
-            # I.e. we're in a new year and ...
-            # ... we're at or past the reset month/day
-            if ts.month > self.reset_month or (
-                ts.month == self.reset_month and ts.day >= self.reset_day
-            ):
-                # Reset maximum volume depending on user preference ...
-                use_initial_volume = self.reset_to_initial_volume
-                if ts.index == 0 and isinstance(self.max_volume, Parameter):
-                    # ... if it is the first timestep and max volume is a parameter, then we can only reset to
-                    # initial volume because the max volume would not be evaluated
-                    use_initial_volume = True
-
-                self._reset_storage_only(use_initial_volume=use_initial_volume)
-                self._last_reset_year = ts.year
-                self.active = True
+        # Year of the most recent reset date, which may be in the previous year.
+        reset_year = ts.year
+        if (ts.month, ts.day) < (self.reset_month, self.reset_day):
+            reset_year -= 1
+
+        if self._last_reset_year is None and (ts.month, ts.day) != (
+            self.reset_month,
+            self.reset_day,
+        ):
+            # Assume we reset before the model started
+            self._last_reset_year = reset_year
+
+        # Reset the storage volume if there was a reset date since the last reset
+        if reset_year != self._last_reset_year:
+            # Reset maximum volume depending on user preference ...
+            use_initial_volume = self.reset_to_initial_volume
+            if ts.index == 0 and isinstance(self.max_volume, Parameter):
+                # ... if it is the first timestep and max volume is a parameter, then we can only reset to
+                # initial volume because the max volume would not be evaluated
+                use_initial_volume = True
+
+            self._reset_storage_only(use_initial_volume=use_initial_volume)
+            self._last_reset_year = reset_year
+            self.active = True
 
 
 class SeasonalVirtualStorage(AnnualVirtualStorage):
-- 
2.43.0


From ad38fadc9d3f1b095462fffa698a8e9786abc8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 11/95] fix: operate a SeasonalVirtualStorage only within its
 season

---
 pywr/nodes.py | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 2c89f6c..3575adb 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -687,36 +687,20 @@ class SeasonalVirtualStorage(AnnualVirtualStorage):
     def __init__(self, *args, **kwargs):
         self.end_day = kwargs.pop("end_day", 31)
         self.end_month = kwargs.pop("end_month", 12)
-        self._last_active_year = None
 
         super().__init__(*args, **kwargs)
 
     def before(self, ts):
         super().before(ts)
 
-        if ts.year != self._last_active_year:
-            if ts.index == 0:
-                if self._last_reset_year == ts.year:
-                    # First timestep is later in year than reset date
-                    if self.end_month < self.reset_month or (
-                        self.end_month == self.reset_month
-                        and self.end_day <= self.reset_day
-                    ):
-                        # end date is earlier in year than reset date so do not deactivate node in first year
-                        self._last_active_year = ts.year
-                else:
-                    # First timestep is earlier in year than reset date
-                    if self.end_month > self.reset_month or (
-                        self.end_month == self.reset_month
-                        and self.end_day >= self.reset_day
-                    ):
-                        # end date is later in year than reset date so node needs to be deactivated
-                        self.active = False
-            elif ts.month > self.end_month or (
-                ts.month == self.end_month and ts.day >= self.end_day
-            ):
-                self._last_active_year = ts.year
-                self.active = False
+        # Operates from the reset date up to (excluding) the end date, which may be earlier in the year
+        today = (ts.month, ts.day)
+        start = (self.reset_month, self.reset_day)
+        end = (self.end_month, self.end_day)
+        if start < end:
+            self.active = start <= today < end
+        else:
+            self.active = today >= start or today < end
 
 
 class MonthlyVirtualStorage(VirtualStorage):
-- 
2.43.0


From 8c1235ec6f2a4d36c75f4d4cdfef2122f600c628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:48 +0000
Subject: [PATCH 12/95] fix: count skipped months in MonthlyVirtualStorage and
 do not refill it to an unevaluated volume

---
 pywr/nodes.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 3575adb..66e14b6 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -731,13 +731,17 @@ class MonthlyVirtualStorage(VirtualStorage):
 
     def before(self, ts):
         super().before(ts)
-        if ts.month != self._last_month:
-            self._last_month = ts.month
-            self._count += 1
-            if self._count == self.months:
-                self._count = 0
+        month = ts.year * 12 + ts.month
+        if month != self._last_month:
+            # A timestep longer than a month may skip months
+            self._count += 1 if self._last_month is None else month - self._last_month
+            self._last_month = month
+            if self._count >= self.months:
+                self._count %= self.months
+                # In the first timestep a max volume parameter has not been evaluated
                 self._reset_storage_only(
                     use_initial_volume=self.reset_to_initial_volume
+                    or (ts.index == 0 and isinstance(self.max_volume, Parameter))
                 )
 
 
-- 
2.43.0


From c7c23f8a2716678210147622b6d5570c839fa950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:34 +0000
Subject: [PATCH 13/95] fix: register the thresholds of multiple threshold
 parameters as their children

---
 pywr/parameters/_thresholds.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_thresholds.pyx b/pywr/parameters/_thresholds.pyx
index 5a98a9f..cfec7a9 100644
--- a/pywr/parameters/_thresholds.pyx
+++ b/pywr/parameters/_thresholds.pyx
@@ -207,7 +207,7 @@ cdef class MultipleThresholdIndexParameter(IndexParameter):
             self.thresholds.append(threshold)
 
         for threshold in self.thresholds:
-            self.children.add(thresholds)
+            self.children.add(threshold)
 
     cpdef int index(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         """Returns the index of the first threshold the node flow is above.
@@ -260,7 +260,7 @@ cdef class MultipleThresholdParameterIndexParameter(IndexParameter):
             self.thresholds.append(threshold)
 
         for threshold in self.thresholds:
-            self.children.add(thresholds)
+            self.children.add(threshold)
 
     cpdef int index(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         """Returns the index of the first threshold the parameter value is above.
-- 
2.43.0


From 3f390e59ec2d83a847f323f5d766c0b5d7a56923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 14/95] fix: do not mask the error of a run that fails in its
 first timestep when finishing recorders

---
 pywr/recorders/_recorders.pyx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 62b529e..d0c598e 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1797,6 +1797,8 @@ cdef class MeanFlowNodeRecorder(BaseConstantNodeRecorder):
     cpdef finish(self):
         cdef int i
         cdef int nt = self.model.timestepper.current.index
+        if nt == 0:
+            return  # the run did not complete a timestep
         for i in range(self._values.shape[0]):
             self._values[i] /= nt
 MeanFlowNodeRecorder.register()
@@ -1818,6 +1820,8 @@ cdef class DeficitFrequencyNodeRecorder(BaseConstantNodeRecorder):
     cpdef finish(self):
         cdef int i
         cdef int nt = self.model.timestepper.current.index
+        if nt == 0:
+            return  # the run did not complete a timestep
         for i in range(self._values.shape[0]):
             self._values[i] /= nt
 DeficitFrequencyNodeRecorder.register()
@@ -2023,6 +2027,8 @@ cdef class AnnualCountIndexThresholdRecorder(Recorder):
     cpdef finish(self):
         cdef int idx = self._current_year - self._start_year
         cdef Py_ssize_t i
+        if self._current_year == -1:
+            return  # the run did not complete a timestep
         for i in range(self._ncomb):
             self._data[idx, i] = np.sum(self._data_this_year[:, i])
 
@@ -2350,6 +2356,8 @@ cdef class MeanParameterRecorder(BaseConstantParameterRecorder):
     cpdef finish(self):
         cdef int i
         cdef int nt = self.model.timestepper.current.index
+        if nt == 0:
+            return  # the run did not complete a timestep
         for i in range(self._values.shape[0]):
             self._values[i] /= nt
 MeanParameterRecorder.register()
-- 
2.43.0


From 9d1978b722c8940e6a2a2dae4da151b78bc2cfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:50 +0000
Subject: [PATCH 15/95] fix: load the scenarios selected by open-ended and
 negative slices from data frames and tables

---
 pywr/parameters/_parameters.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 39084ba..bd4f64a 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -241,7 +241,7 @@ cdef class DataFrameParameter(Parameter):
                     scenario_indices.add(user_combination[self._scenario_index])
                 scenario_indices = sorted(list(scenario_indices))
             elif self.scenario.slice:
-                scenario_indices = range(*self.scenario.slice.indices(self.scenario.slice.stop))
+                scenario_indices = range(self.scenario.size)[self.scenario.slice]
             else:
                 # scenario is defined, but all data required
                 self._scenario_ids = None
@@ -429,7 +429,7 @@ cdef class TablesArrayParameter(IndexParameter):
                     scenario_indices.add(user_combination[self._scenario_index])
                 scenario_indices = sorted(list(scenario_indices))
             elif self.scenario.slice:
-                scenario_indices = range(*self.scenario.slice.indices(self.scenario.slice.stop))
+                scenario_indices = range(self.scenario.size)[self.scenario.slice]
             else:
                 # scenario is defined, but all data required
                 self._scenario_ids = None
-- 
2.43.0


From c9f36dc74b2d6b87521a1b5d95f105c53b1e8983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:50 +0000
Subject: [PATCH 16/95] fix: pass keyword arguments of DataFrameParameter to
 Parameter by keyword

---
 pywr/parameters/_parameters.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index bd4f64a..0c280d5 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -204,7 +204,7 @@ cdef class DataFrameParameter(Parameter):
         value available.
     """
     def __init__(self, model, dataframe, scenario=None, timestep_offset=0, **kwargs):
-        super(DataFrameParameter, self).__init__(model, *kwargs)
+        super(DataFrameParameter, self).__init__(model, **kwargs)
         self.dataframe = dataframe
         self.scenario = scenario
         self.timestep_offset = timestep_offset
-- 
2.43.0


From 2979d338528fbe669f9ce4ffce0b5ca08c6279fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 17/95] fix: keep the comment of parameters loaded from a model
 document

---
 pywr/parameters/_parameters.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 0c280d5..ca8b192 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -137,9 +137,9 @@ cdef class Parameter(Component):
             scenario = model.scenarios[scenario]
             # Only pass scenario object if one provided; most Parameter subclasses
             # do not accept a scenario argument.
-            return cls(model, scenario=scenario, values=values, name=name, comment=None, **data)
+            return cls(model, scenario=scenario, values=values, name=name, comment=comment, **data)
         else:
-            return cls(model, values=values, name=name, comment=None, **data)
+            return cls(model, values=values, name=name, comment=comment, **data)
 Parameter.register()
 
 
-- 
2.43.0


From 5c4e5d0f54963b00081ade45e8c5437c95d5dda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 18/95] fix: set up the model again when scenario slices or
 user combinations change

---
 pywr/_core.pxd |  3 ++-
 pywr/_core.pyx | 12 +++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pywr/_core.pxd b/pywr/_core.pxd
index 0ccb43a..51553e3 100644
--- a/pywr/_core.pxd
+++ b/pywr/_core.pxd
@@ -4,7 +4,8 @@ from .parameters._parameters cimport Parameter
 cdef class Scenario:
     cdef basestring _name
     cdef int _size
-    cdef public slice slice
+    cdef object _model
+    cdef slice _slice
     cdef object _ensemble_names
 
 cdef class ScenarioCollection:
diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index e5df090..d21379a 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -44,7 +44,8 @@ cdef class Scenario:
         if size < 1:
             raise ValueError("Size must be greater than or equal to 1.")
         self._size = size
-        self.slice = slice
+        self._model = model
+        self._slice = slice
         self.ensemble_names = ensemble_names
         # Do this last so only set on the model if no error is raised.
         model.scenarios.add_scenario(self)
@@ -57,6 +58,14 @@ cdef class Scenario:
         def __get__(self):
             return self._name
 
+    property slice:
+        def __get__(self):
+            return self._slice
+
+        def __set__(self, value):
+            self._slice = value
+            self._model.dirty = True
+
     property ensemble_names:
         def __get__(self):
             if self._ensemble_names is None:
@@ -135,6 +144,7 @@ cdef class ScenarioCollection:
             return self._user_combinations
 
         def __set__(self, values):
+            self.model.dirty = True
             if values is None:
                 self._user_combinations = None
                 return
-- 
2.43.0


From 67cb9e26652857ed101f4830c2b6fd5eb25d27d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:44 +0000
Subject: [PATCH 19/95] fix: accept integer values in profiles and control
 curves

Whole-number values, bounds, amplitudes or phases (for example 1 rather than
1.0 in a JSON document) became integer arrays that the typed attributes reject.
---
 pywr/parameters/_control_curves.pyx |  8 ++++----
 pywr/parameters/_parameters.pyx     | 24 ++++++++++++------------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/pywr/parameters/_control_curves.pyx b/pywr/parameters/_control_curves.pyx
index 2b659e9..68d8330 100644
--- a/pywr/parameters/_control_curves.pyx
+++ b/pywr/parameters/_control_curves.pyx
@@ -166,7 +166,7 @@ cdef class ControlCurveInterpolatedParameter(BaseControlCurveParameter):
         def __get__(self):
             return np.array(self._values)
         def __set__(self, values):
-            self._values = np.array(values)
+            self._values = np.array(values, dtype=np.float64)
 
     cpdef double value(self, Timestep ts, ScenarioIndex scenario_index) except? -1:
         cdef int j
@@ -271,7 +271,7 @@ cdef class ControlCurvePiecewiseInterpolatedParameter(BaseControlCurveParameter)
                                  'control curves ({}).'.format(nvalues))
             elif len(values[0]) != 2:
                 raise ValueError('The second dimension of values should be of length 2.')
-            self._values = np.array(values)
+            self._values = np.array(values, dtype=np.float64)
 
     cpdef double value(self, Timestep ts, ScenarioIndex scenario_index) except? -1:
         cdef int j, ncc
@@ -457,7 +457,7 @@ cdef class ControlCurveParameter(BaseControlCurveParameter):
             if len(upper_bounds) != self.double_size:
                 raise ValueError('Length of upper_bounds should be equal to the length of `variable_indices` '
                                  '({}).'.format(self.double_size))
-            self._upper_bounds = np.array(upper_bounds)
+            self._upper_bounds = np.array(upper_bounds, dtype=np.float64)
 
         if lower_bounds is not None:
             if self.values is None or variable_indices is None:
@@ -466,7 +466,7 @@ cdef class ControlCurveParameter(BaseControlCurveParameter):
             if len(lower_bounds) != self.double_size:
                 raise ValueError('Length of lower_bounds should be equal to the length of `variable_indices` '
                                  '({}).'.format(self.double_size))
-            self._lower_bounds = np.array(lower_bounds)
+            self._lower_bounds = np.array(lower_bounds, dtype=np.float64)
 
     property values:
         def __get__(self):
diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index ca8b192..12458d5 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -626,7 +626,7 @@ cdef class DailyProfileParameter(Parameter):
     """
     def __init__(self, model, values, *args, **kwargs):
         super(DailyProfileParameter, self).__init__(model, *args, **kwargs)
-        v = np.squeeze(np.array(values))
+        v = np.squeeze(np.array(values, dtype=np.float64))
         if v.ndim != 1:
             raise ValueError("values must be 1-dimensional.")
         if len(values) != 366:
@@ -647,7 +647,7 @@ cdef class WeeklyProfileParameter(Parameter):
     """
     def __init__(self, model, values, *args, **kwargs):
         super(WeeklyProfileParameter, self).__init__(model, *args, **kwargs)
-        v = np.squeeze(np.array(values))
+        v = np.squeeze(np.array(values, dtype=np.float64))
         if v.ndim != 1:
             raise ValueError("values must be 1-dimensional.")
         if len(values) == 53:
@@ -700,13 +700,13 @@ cdef class MonthlyProfileParameter(Parameter):
         self.integer_size = 0
         if len(values) != self.double_size:
             raise ValueError("12 values must be given for a monthly profile.")
-        self._values = np.array(values)
+        self._values = np.array(values, dtype=np.float64)
         self.interp_day = interp_day
 
         if np.isscalar(lower_bounds):
             lb = np.ones(self.double_size) * lower_bounds
         else:
-            lb = np.array(lower_bounds)
+            lb = np.array(lower_bounds, dtype=np.float64)
             if len(lb) != self.double_size:
                 raise ValueError("Lower bounds must be a scalar or array like of 12 values.")
         self._lower_bounds = lb
@@ -714,7 +714,7 @@ cdef class MonthlyProfileParameter(Parameter):
         if np.isscalar(upper_bounds):
             ub = np.ones(self.double_size) * upper_bounds
         else:
-            ub = np.array(upper_bounds)
+            ub = np.array(upper_bounds, dtype=np.float64)
             if len(ub) != self.double_size:
                 raise ValueError("Upper bounds must be a scalar or array like of 12 values.")
         self._upper_bounds = ub
@@ -818,7 +818,7 @@ cdef class ScenarioMonthlyProfileParameter(Parameter):
         if values.shape[1] != 12:
             raise ValueError("Second dimension of factors must be 12.")
         self._scenario = scenario
-        self._values = np.array(values)
+        self._values = np.array(values, dtype=np.float64)
 
     cpdef setup(self):
         super(ScenarioMonthlyProfileParameter, self).setup()
@@ -848,7 +848,7 @@ cdef class ScenarioWeeklyProfileParameter(Parameter):
     """
     def __init__(self, model, Scenario scenario, values, *args, **kwargs):
         super().__init__(model, *args, **kwargs)
-        values = np.array(values)
+        values = np.array(values, dtype=np.float64)
         if values.ndim != 2:
             raise ValueError("Factors must be two dimensional.")
         if scenario._size != values.shape[0]:
@@ -886,7 +886,7 @@ cdef class ScenarioDailyProfileParameter(Parameter):
     """
     def __init__(self, model, Scenario scenario, values, *args, **kwargs):
         super().__init__(model, *args, **kwargs)
-        values = np.array(values)
+        values = np.array(values, dtype=np.float64)
         if values.ndim != 2:
             raise ValueError("Factors must be two dimensional.")
         if scenario._size != values.shape[0]:
@@ -1047,7 +1047,7 @@ cdef class RbfProfileParameter(Parameter):
         if np.isscalar(lower_bounds):
             lb = np.ones(self.double_size) * lower_bounds
         else:
-            lb = np.array(lower_bounds)
+            lb = np.array(lower_bounds, dtype=np.float64)
             if len(lb) != self.double_size:
                 raise ValueError("Lower bounds must be a scalar or array like with length equivalent to rbf values")
         self._lower_bounds = lb
@@ -1055,7 +1055,7 @@ cdef class RbfProfileParameter(Parameter):
         if np.isscalar(upper_bounds):
             ub = np.ones(self.double_size) * upper_bounds
         else:
-            ub = np.array(upper_bounds)
+            ub = np.array(upper_bounds, dtype=np.float64)
             if len(ub) != self.double_size:
                raise ValueError("Upper bounds must be a scalar or array like with length equivalent to rbf values")
         self._upper_bounds = ub
@@ -1339,8 +1339,8 @@ cdef class AnnualHarmonicSeriesParameter(Parameter):
             raise ValueError("The number  of amplitudes and phases must be the same.")
         n = len(amplitudes)
         self.mean = mean
-        self._amplitudes = np.array(amplitudes)
-        self._phases = np.array(phases)
+        self._amplitudes = np.array(amplitudes, dtype=np.float64)
+        self._phases = np.array(phases, dtype=np.float64)
 
         self._mean_lower_bounds = kwargs.pop('mean_lower_bounds', 0.0)
         self._mean_upper_bounds = kwargs.pop('mean_upper_bounds', np.inf)
-- 
2.43.0


From d72060a1cdda9554e96e95f6971906070b480cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:32 +0000
Subject: [PATCH 20/95] fix: give TablesArrayParameter the same data with and
 without scenario slices

With a positive timestep_offset the rows beyond the last timestep were read
only if the scenario had no slice and there were no user combinations.
---
 pywr/parameters/_parameters.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 12458d5..3fb0cfc 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -439,10 +439,12 @@ cdef class TablesArrayParameter(IndexParameter):
                 for n, i in enumerate(scenario_indices):
                     self._scenario_ids[i] = n
 
+                # A positive offset looks beyond the last timestep if there is data
+                nrows = min(node.shape[0], len(self.model.timestepper) + max(self.timestep_offset, 0))
                 if node.dtype in (np.float32, np.float64):
-                    self._values_dbl = node[:len(self.model.timestepper), scenario_indices].astype(np.float64)
+                    self._values_dbl = node[:nrows, scenario_indices].astype(np.float64)
                 else:
-                    self._values_int = node[:len(self.model.timestepper), scenario_indices].astype(np.int32)
+                    self._values_int = node[:nrows, scenario_indices].astype(np.int32)
 
         if node.dtype in (np.float32, np.float64):
             if self._values_dbl is None:
-- 
2.43.0


From 3a0d2e1d9839164c1dfb77918dfa00fd50db4df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:32 +0000
Subject: [PATCH 21/95] fix: let TablesArrayParameter read one dimensional
 arrays

The values are kept in two dimensional memoryviews, which refused them
although one dimensional data is supported when no scenario is given.
---
 pywr/parameters/_parameters.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 3fb0cfc..f8940af 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -448,7 +448,8 @@ cdef class TablesArrayParameter(IndexParameter):
 
         if node.dtype in (np.float32, np.float64):
             if self._values_dbl is None:
-                self._values_dbl = node.read().astype(np.float64)
+                # One dimensional data is treated as a single column
+                self._values_dbl = node.read().astype(np.float64).reshape(node.shape[0], -1)
             # negative values are often erroneous
             if np.min(self._values_dbl) < 0.0:
                 warnings.warn('Negative values in input file "{}" from node: {}'.format(self.h5file, self.node))
@@ -456,7 +457,7 @@ cdef class TablesArrayParameter(IndexParameter):
                 raise ValueError('Non-finite values in input file "{}" from node: {}'.format(self.h5file, self.node))
         else:
             if self._values_int is None:
-                self._values_int = node.read().astype(np.int32)
+                self._values_int = node.read().astype(np.int32).reshape(node.shape[0], -1)
 
     cpdef double value(self, Timestep ts, ScenarioIndex scenario_index) except? -1:
         cdef Py_ssize_t i
-- 
2.43.0


From 8114453e0ff31290ed5444409f502da22e769231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:18 +0000
Subject: [PATCH 22/95] fix: evaluate Polynomial1DParameter on a node's
 previous flow

Parameters are evaluated before the allocation, when the node's flow of the
current timestep is still zero; the documented input is the previous flow.
---
 pywr/parameters/_polynomial.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_polynomial.pyx b/pywr/parameters/_polynomial.pyx
index 6d1e631..d06b41e 100644
--- a/pywr/parameters/_polynomial.pyx
+++ b/pywr/parameters/_polynomial.pyx
@@ -71,7 +71,7 @@ cdef class Polynomial1DParameter(Parameter):
             else:
                 x = self._storage_node._volume[scenario_index.global_id]
         elif self._other_node is not None:
-            x = self._other_node._flow[scenario_index.global_id]
+            x = self._other_node._prev_flow[scenario_index.global_id]
         else:
             x = self._node._flow[scenario_index.global_id]
 
-- 
2.43.0


From 13870f78ec0eb6b82f3acf171c2ce3c713b0502b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:18 +0000
Subject: [PATCH 23/95] fix: refuse a Polynomial1DParameter without an input

It read its value from the memory of None as if that were a node.
---
 pywr/parameters/_polynomial.pyx | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pywr/parameters/_polynomial.pyx b/pywr/parameters/_polynomial.pyx
index d06b41e..8b47076 100644
--- a/pywr/parameters/_polynomial.pyx
+++ b/pywr/parameters/_polynomial.pyx
@@ -8,8 +8,7 @@ cdef class Polynomial1DParameter(Parameter):
     """ Parameter that returns the result of 1D polynomial evaluation
 
     The input to the polynomial can be either:
-     - The previous flow of the attached node (default)
-     - The previous flow of another `AbstractNode`
+     - The previous flow of an `AbstractNode`
      - The current storage of an `AbstractStorage` node
      - The current value of another `Parameter`
 
@@ -50,6 +49,8 @@ cdef class Polynomial1DParameter(Parameter):
         # Check we haven't been given an ambiguous number of objects
         if arg_check.count(True) > 1:
             raise ValueError('Only one of "node", "storage_node" or "parameter" keywords should be given.')
+        if arg_check.count(True) == 0:
+            raise ValueError('One of "node", "storage_node" or "parameter" keywords should be given.')
 
         super(Polynomial1DParameter, self).__init__(model, *args, **kwargs)
 
@@ -70,10 +71,8 @@ cdef class Polynomial1DParameter(Parameter):
                 x = self._storage_node.get_current_pc(scenario_index)
             else:
                 x = self._storage_node._volume[scenario_index.global_id]
-        elif self._other_node is not None:
-            x = self._other_node._prev_flow[scenario_index.global_id]
         else:
-            x = self._node._flow[scenario_index.global_id]
+            x = self._other_node._prev_flow[scenario_index.global_id]
 
         # Apply scaling and offset
         x = x*self.scale + self.offset
-- 
2.43.0


From b0ec2284df25cbe2b9c774edcc866aad11de80b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:48 +0000
Subject: [PATCH 24/95] fix: allow constant parameter max volumes in
 WeightedAverageProfileParameter

---
 pywr/parameters/_control_curves.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_control_curves.pyx b/pywr/parameters/_control_curves.pyx
index 68d8330..294f7f0 100644
--- a/pywr/parameters/_control_curves.pyx
+++ b/pywr/parameters/_control_curves.pyx
@@ -588,7 +588,7 @@ cdef class WeightedAverageProfileParameter(Parameter):
         for (storage, profile) in zip(self.storages, self.profiles):
             max_volume = storage.max_volume
             if isinstance(max_volume, Parameter):
-                if max_volume.is_constant():
+                if max_volume.is_constant:
                     max_volume = max_volume.get_constant_value()
                 else:
                     raise ValueError("Storages with max_volume set to non-constant parameters cannot be used in WeightedAverageProfileParameter")
-- 
2.43.0


From dba7f162b5f422a697e40f7cd01732283e6b9d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:08 +0000
Subject: [PATCH 25/95] fix: keep annual licences within their amount in
 monthly timesteps and over year ends

---
 pywr/parameters/licenses.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pywr/parameters/licenses.py b/pywr/parameters/licenses.py
index c375cc4..3e0c043 100644
--- a/pywr/parameters/licenses.py
+++ b/pywr/parameters/licenses.py
@@ -124,13 +124,16 @@ class AnnualLicense(StorageLicense):
 
     def value(self, timestep, scenario_index):
         i = scenario_index.global_id
-        day_of_year = timestep.dayofyear
+        # NB the attributes of a monthly timestep are those of its last day
+        day_of_year = timestep.period.start_time.dayofyear
         days_in_year = 365 + int(calendar.isleap(timestep.year))
-        if day_of_year == days_in_year:
-            return self._remaining[i]
-        else:
-            days_remaining = days_in_year - (day_of_year - 1)
-            return self._remaining[i] / days_remaining
+        days_remaining = days_in_year - (day_of_year - 1)
+        value = self._remaining[i] / days_remaining
+        # A timestep that extends into the next year must not exceed that year's amount
+        days_in_next_year = timestep.days - days_remaining
+        if days_in_next_year > 0:
+            value = min(value, self._amount / days_in_next_year)
+        return value
 
     def before(self):
         # Reset licence if year changes.
@@ -139,10 +142,11 @@ class AnnualLicense(StorageLicense):
             self.reset()
 
             # The number of days in the year before the first timestep of that year
-            days_before_reset = timestep.dayofyear - 1
+            days_before_reset = timestep.period.start_time.dayofyear - 1
             # Adjust the license by the rate in previous timestep. This is needed for timesteps greater
             # than 1 day where the license reset is not exactly on the anniversary
             self._remaining[...] -= days_before_reset * self._node.prev_flow
+            self._remaining[self._remaining < 0] = 0.0
 
             self._prev_year = timestep.year
 
-- 
2.43.0


From 9d63721a86b7f3d5abee92c95ddd1881c54c7bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:08 +0000
Subject: [PATCH 26/95] fix: convert a StorageLicense's remaining volume to a
 flow rate

---
 pywr/parameters/licenses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/licenses.py b/pywr/parameters/licenses.py
index 3e0c043..10cd0e2 100644
--- a/pywr/parameters/licenses.py
+++ b/pywr/parameters/licenses.py
@@ -84,7 +84,7 @@ class StorageLicense(License):
         self._remaining = np.ones(len(self.model.scenarios.combinations)) * self._amount
 
     def value(self, timestep, scenario_index):
-        return self._remaining[scenario_index.global_id]
+        return self._remaining[scenario_index.global_id] / timestep.days
 
     def after(self):
         timestep = self.model.timestepper.current
-- 
2.43.0


From 07a941c5fd0d5d69fed49740cb0dd5178ca8b43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:38 +0000
Subject: [PATCH 27/95] fix: give pygmo equality constraints relative to their
 bound

---
 pywr/optimisation/pygmo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/optimisation/pygmo.py b/pywr/optimisation/pygmo.py
index 4214ff9..ccfcdb8 100644
--- a/pywr/optimisation/pygmo.py
+++ b/pywr/optimisation/pygmo.py
@@ -35,7 +35,7 @@ class PygmoWrapper(BaseOptimisationWrapper):
                 ineq_constraints.append(r.constraint_lower_bounds - x)
                 ineq_constraints.append(x - r.constraint_upper_bounds)
             elif r.is_equality_constraint:
-                eq_constraints.append(x)
+                eq_constraints.append(x - r.constraint_lower_bounds)
             elif r.is_lower_bounded_constraint:
                 ineq_constraints.append(r.constraint_lower_bounds - x)
             elif r.is_upper_bounded_constraint:
-- 
2.43.0


From 8a22e976a7d2dfaad1830c6b4bf4468979ad1b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:38 +0000
Subject: [PATCH 28/95] fix: set integer variables in the pygmo wrapper

---
 pywr/optimisation/pygmo.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pywr/optimisation/pygmo.py b/pywr/optimisation/pygmo.py
index ccfcdb8..7af0ceb 100644
--- a/pywr/optimisation/pygmo.py
+++ b/pywr/optimisation/pygmo.py
@@ -12,7 +12,14 @@ class PygmoWrapper(BaseOptimisationWrapper):
 
         for ivar, var in enumerate(self.model_variables):
             j = slice(self.model_variable_map[ivar], self.model_variable_map[ivar + 1])
-            var.set_double_variables(np.array(solution[j]).copy())
+            x = np.array(solution[j])
+            assert len(x) == var.double_size + var.integer_size
+            if var.double_size > 0:
+                var.set_double_variables(np.array(x[: var.double_size]))
+
+            if var.integer_size > 0:
+                ints = np.round(np.array(x[-var.integer_size :])).astype(np.int32)
+                var.set_integer_variables(ints)
 
         self.model.reset()
         self.run_stats = self.model.run()
-- 
2.43.0


From da88a395d7059765f2fd4f6d511e517614cb4fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 29/95] fix: keep the upper bounds of an RbfProfileParameter's
 days within the year

---
 pywr/parameters/_parameters.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index f8940af..e684a4f 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -1089,7 +1089,7 @@ cdef class RbfProfileParameter(Parameter):
             self.integer_size = len(values) - 1
             self._doy_lower_bounds = np.array([d - self.variable_days_of_year_range
                                                for d in self.days_of_year[1:]], dtype=np.int32)
-            self._doy_upper_bounds = np.array([d + self.variable_days_of_year_range
+            self._doy_upper_bounds = np.array([min(d + self.variable_days_of_year_range, 365)
                                                for d in self.days_of_year[1:]], dtype=np.int32)
         else:
             self.integer_size = 0
-- 
2.43.0


From dc3d21aa7b088ec6f711eb2f3a5f9ca3c2ab734a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 30/95] fix: loss link accepts a varying loss factor that is
 zero in some steps

---
 pywr/_core.pyx | 3 ++-
 pywr/nodes.py  | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index d21379a..bd5310b 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -945,7 +945,8 @@ cdef class AggregatedNode(AbstractNode):
         f0 = factors[0]
         factors_norm = np.empty(len(factors), np.float64)
 
-        for i in range(len(factors)):
+        factors_norm[0] = 1.0
+        for i in range(1, len(factors)):
             factors_norm[i] = f0/factors[i]
         return factors_norm
 
diff --git a/pywr/nodes.py b/pywr/nodes.py
index 66e14b6..912e7e8 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1307,7 +1307,8 @@ class LossLink(Node):
         self.gross.connect(self.output)
         self.gross.connect(self.net)
 
-        self.agg = AggregatedNode(model, name=agg_name, nodes=[self.net, self.output])
+        # The loss is first such that its factor may be zero: the others are divided by their own factor.
+        self.agg = AggregatedNode(model, name=agg_name, nodes=[self.output, self.net])
         self.loss_factor_type = kwargs.pop("loss_factor_type", "net")
         self.loss_factor = kwargs.pop("loss_factor", 0.0)
 
@@ -1329,11 +1330,11 @@ class LossLink(Node):
         else:
             self.output.max_flow = float("inf")
             if self.loss_factor_type == "net":
-                self.agg.factors = [1.0, value]
+                self.agg.factors = [value, 1.0]
 
             elif self.loss_factor_type == "gross":
                 # TODO this will error in the case of a `value` being a parameter
-                self.agg.factors = [1.0 - float(value), float(value)]
+                self.agg.factors = [float(value), 1.0 - float(value)]
             else:
                 raise ValueError(
                     f'Unrecognised `loss_factor_type` "{self.loss_factor_type}".'
-- 
2.43.0


From 5aa543f56bfcf6bd158c9173c637d762f9d5e94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 31/95] fix: aggregation over time works with ignore_nan

---
 pywr/recorders/_recorders.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index d0c598e..0d5f2c6 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -146,7 +146,12 @@ cdef class Aggregator:
         cdef Py_ssize_t i
 
         if ignore_nan:
-            values = np.array(values)[~np.isnan(values)]
+            # each series has its own number of values
+            values = np.moveaxis(np.array(data), axis, -1)
+            out = np.empty(values.shape[0])
+            for i in range(values.shape[0]):
+                out[i] = self.aggregate_1d(values[i, :], ignore_nan=True)
+            return out
 
         if self._func == AggFuncs.PRODUCT:
             return np.prod(values, axis=axis)
-- 
2.43.0


From 0eb304c6fc2411a28079951b31ad3e80a09418de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 32/95] fix: aggregated recorder defaults to the mean and
 accepts every aggregation function

---
 pywr/recorders/_recorders.pyx | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 0d5f2c6..18554a4 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -386,16 +386,13 @@ cdef class AggregatedRecorder(Recorder):
     """
     def __init__(self, model, recorders, **kwargs):
         # Optional different method for aggregating across self.recorders scenarios
-        agg_func = kwargs.pop('recorder_agg_func', kwargs.get('agg_func'))
+        agg_func = kwargs.pop('recorder_agg_func', kwargs.get('agg_func', 'mean'))
 
         if isinstance(agg_func, str):
-            agg_func = _agg_func_lookup[agg_func.lower()]
-        elif callable(agg_func):
-            self.recorder_agg_func = agg_func
-            agg_func = AggFuncs.CUSTOM
+            self._recorder_agg_func = _agg_func_lookup[agg_func.lower()]
         else:
-            raise ValueError("Unrecognised recorder aggregation function: \"{}\".".format(agg_func))
-        self._recorder_agg_func = agg_func
+            self._recorder_agg_func = AggFuncs.CUSTOM
+        self.recorder_agg_func = Aggregator(agg_func)
 
         super(AggregatedRecorder, self).__init__(model, **kwargs)
         self.recorders = list(recorders)
@@ -447,7 +444,7 @@ cdef class AggregatedRecorder(Recorder):
             for i in range(n):
                 value[i] /= len(self.recorders)
         else:
-            value = self.recorder_agg_func([recorder.values() for recorder in self.recorders], axis=0)
+            value = self.recorder_agg_func.aggregate_2d(np.array([recorder.values() for recorder in self.recorders]), axis=0)
         return value
 
     @classmethod
-- 
2.43.0


From 435a8bdf3e65a5eae4cc514a6a9203b94e405c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 33/95] fix: flow duration curve deviation loaded from a
 document uses its scenario

---
 pywr/recorders/_recorders.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 18554a4..f39e63d 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -983,10 +983,10 @@ cdef class FlowDurationCurveDeviationRecorder(FlowDurationCurveRecorder):
         # because the scenarios might change after the Recorder is created.
         if self.scenario is not None:
             if self._lower_target_fdc is not None:
-                if self._lower_target_fdc.shape[1] != self.scenario.size:
+                if self._lower_target_fdc.shape[1] > 1 and self._lower_target_fdc.shape[1] != self.scenario.size:
                     raise ValueError('The number of lower target FDCs does not match the size ({}) of scenario "{}"'.format(self.scenario.size, self.scenario.name))
             if self._upper_target_fdc is not None:
-                if self._upper_target_fdc.shape[1] != self.scenario.size:
+                if self._upper_target_fdc.shape[1] > 1 and self._upper_target_fdc.shape[1] != self.scenario.size:
                     raise ValueError('The number of upper target FDCs does not match the size ({}) of scenario "{}"'.format(self.scenario.size, self.scenario.name))
         else:
             if self._lower_target_fdc is not None:
@@ -1100,7 +1100,7 @@ cdef class FlowDurationCurveDeviationRecorder(FlowDurationCurveRecorder):
             lower_target_fdc.update({"indexes": percentiles})
             lower_target_fdc = load_parameter_values(model, lower_target_fdc)
         return cls(model, node, percentiles, lower_target_fdc=lower_target_fdc, upper_target_fdc=upper_target_fdc,
-                   **data)
+                   scenario=scenario, **data)
 
 FlowDurationCurveDeviationRecorder.register()
 
-- 
2.43.0


From 7d85d02179f065a3b4c1732c734556dd7192291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 34/95] fix: calibration scores can be aggregated across
 scenarios

---
 pywr/recorders/calibration.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pywr/recorders/calibration.py b/pywr/recorders/calibration.py
index d249cc6..0df00b5 100644
--- a/pywr/recorders/calibration.py
+++ b/pywr/recorders/calibration.py
@@ -41,7 +41,7 @@ class RootMeanSquaredErrorNodeRecorder(AbstractComparisonNodeRecorder):
     def values(self):
         mod = self.data
         obs = self._aligned_observed
-        return np.sqrt(np.mean((obs - mod) ** 2, axis=0))
+        return np.asarray(np.sqrt(np.mean((obs - mod) ** 2, axis=0)))
 
 
 class MeanAbsoluteErrorNodeRecorder(AbstractComparisonNodeRecorder):
@@ -50,7 +50,7 @@ class MeanAbsoluteErrorNodeRecorder(AbstractComparisonNodeRecorder):
     def values(self):
         mod = self.data
         obs = self._aligned_observed
-        return np.mean(np.abs(obs - mod), axis=0)
+        return np.asarray(np.mean(np.abs(obs - mod), axis=0))
 
 
 class MeanSquareErrorNodeRecorder(AbstractComparisonNodeRecorder):
@@ -59,7 +59,7 @@ class MeanSquareErrorNodeRecorder(AbstractComparisonNodeRecorder):
     def values(self):
         mod = self.data
         obs = self._aligned_observed
-        return np.mean((obs - mod) ** 2, axis=0)
+        return np.asarray(np.mean((obs - mod) ** 2, axis=0))
 
 
 class PercentBiasNodeRecorder(AbstractComparisonNodeRecorder):
@@ -68,7 +68,7 @@ class PercentBiasNodeRecorder(AbstractComparisonNodeRecorder):
     def values(self):
         mod = self.data
         obs = self._aligned_observed
-        return np.sum(obs - mod, axis=0) * 100 / np.sum(obs, axis=0)
+        return np.asarray(np.sum(obs - mod, axis=0) * 100 / np.sum(obs, axis=0))
 
 
 class RMSEStandardDeviationRatioNodeRecorder(AbstractComparisonNodeRecorder):
@@ -77,7 +77,9 @@ class RMSEStandardDeviationRatioNodeRecorder(AbstractComparisonNodeRecorder):
     def values(self):
         mod = self.data
         obs = self._aligned_observed
-        return np.sqrt(np.mean((obs - mod) ** 2, axis=0)) / np.std(obs, axis=0)
+        return np.asarray(
+            np.sqrt(np.mean((obs - mod) ** 2, axis=0)) / np.std(obs, axis=0)
+        )
 
 
 class NashSutcliffeEfficiencyNodeRecorder(AbstractComparisonNodeRecorder):
@@ -87,6 +89,8 @@ class NashSutcliffeEfficiencyNodeRecorder(AbstractComparisonNodeRecorder):
         mod = self.data
         obs = self._aligned_observed
         obs_mean = np.mean(obs, axis=0)
-        return 1.0 - np.sum((obs - mod) ** 2, axis=0) / np.sum(
-            (obs - obs_mean) ** 2, axis=0
+        return np.asarray(
+            1.0
+            - np.sum((obs - mod) ** 2, axis=0)
+            / np.sum((obs - obs_mean) ** 2, axis=0)
         )
-- 
2.43.0


From 79d7f433cbaf7207cfac9744f4314f01de29267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 35/95] fix: limits and cost of break and loss links are those
 of their link

---
 pywr/nodes.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 912e7e8..ca548cd 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1176,6 +1176,24 @@ class BreakLink(Node):
 
     cost = property(**cost())
 
+    def get_min_flow(self, scenario_index):
+        return self.link.get_min_flow(scenario_index)
+
+    def get_all_min_flow(self, out=None):
+        return self.link.get_all_min_flow(out)
+
+    def get_max_flow(self, scenario_index):
+        return self.link.get_max_flow(scenario_index)
+
+    def get_all_max_flow(self, out=None):
+        return self.link.get_all_max_flow(out)
+
+    def get_cost(self, scenario_index):
+        return self.link.get_cost(scenario_index)
+
+    def get_all_cost(self, out=None):
+        return self.link.get_all_cost(out)
+
     def iter_slots(self, slot_name=None, is_connector=True):
         if is_connector:
             # connecting FROM the transfer TO something else
@@ -1374,6 +1392,24 @@ class LossLink(Node):
 
     cost = property(**cost())
 
+    def get_min_flow(self, scenario_index):
+        return self.net.get_min_flow(scenario_index)
+
+    def get_all_min_flow(self, out=None):
+        return self.net.get_all_min_flow(out)
+
+    def get_max_flow(self, scenario_index):
+        return self.net.get_max_flow(scenario_index)
+
+    def get_all_max_flow(self, out=None):
+        return self.net.get_all_max_flow(out)
+
+    def get_cost(self, scenario_index):
+        return self.net.get_cost(scenario_index)
+
+    def get_all_cost(self, out=None):
+        return self.net.get_all_cost(out)
+
     def iter_slots(self, slot_name=None, is_connector=True):
         if is_connector:
             yield self.net
-- 
2.43.0


From e23405c0760649c281269c75399b53aca55647a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 36/95] fix: events are active while the threshold is non-zero,
 also below one

---
 pywr/recorders/events.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/recorders/events.py b/pywr/recorders/events.py
index b591a29..99943e5 100644
--- a/pywr/recorders/events.py
+++ b/pywr/recorders/events.py
@@ -87,11 +87,11 @@ class EventRecorder(Recorder):
         from pywr.parameters import Parameter, IndexParameter
 
         if isinstance(self.threshold, Recorder):
-            all_triggered = np.array(self.threshold.values(), dtype=int)
+            all_triggered = np.array(self.threshold.values()) != 0
         elif isinstance(self.threshold, IndexParameter):
             all_triggered = self.threshold.get_all_indices()
         elif isinstance(self.threshold, Parameter):
-            all_triggered = np.array(self.threshold.get_all_values(), dtype=int)
+            all_triggered = np.array(self.threshold.get_all_values()) != 0
         else:
             raise TypeError(
                 "Threshold must be either a Recorder or Parameter instance."
-- 
2.43.0


From ee56f7169913471abd95ec6fa2d55fa7d70c9c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 37/95] fix: minimum event length applies to an event that
 lasts until the end of the run

---
 pywr/recorders/events.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr/recorders/events.py b/pywr/recorders/events.py
index 99943e5..46a3b83 100644
--- a/pywr/recorders/events.py
+++ b/pywr/recorders/events.py
@@ -155,7 +155,8 @@ class EventRecorder(Recorder):
             if current_event is not None:
                 # Unfinished event
                 current_event.end = ts
-                self.events.append(current_event)
+                if ts.index - current_event.start.index >= self.minimum_event_length:
+                    self.events.append(current_event)
                 self._current_events[si.global_id] = None
 
     def to_dataframe(self):
-- 
2.43.0


From 45865f66e09d82e299f1403869e7c25a614a8c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 38/95] fix: normalised storage recorder works with a control
 curve at the full volume

---
 pywr/recorders/_recorders.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index f39e63d..e144db1 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1225,6 +1225,9 @@ cdef class NumpyArrayNormalisedStorageRecorder(NumpyArrayAbstractStorageRecorder
             if vol < cc:
                 # Lower than control curve; value between -1.0 and 0.0
                 norm_vol = vol / cc - 1.0
+            elif cc == 1.0:
+                # The control curve is at the full volume
+                norm_vol = 1.0
             else:
                 # At or above control curve; value between 0.0 and 1.0
                 norm_vol = (vol - cc) / (1.0 - cc)
-- 
2.43.0


From 1d0bf859b962448c82ed2584a9e52cca596ea3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 39/95] fix: index parameter recorder returns the values its
 temporal aggregation promises

---
 pywr/recorders/_recorders.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index e144db1..197e114 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1544,6 +1544,11 @@ cdef class NumpyArrayIndexParameterRecorder(IndexParameterRecorder):
         def __get__(self, ):
             return np.array(self._data)
 
+    cpdef double[:] values(self) except *:
+        """Compute a value for each scenario using `temporal_agg_func`.
+        """
+        return self._temporal_aggregator.aggregate_2d(np.array(self._data, dtype=np.float64), axis=0, ignore_nan=self.ignore_nan)
+
     def to_dataframe(self):
         """ Return a `pandas.DataFrame` of the recorder data
         This DataFrame contains a MultiIndex for the columns with the recorder name
-- 
2.43.0


From 1530e19577bae845f002ba26a90a64541f347f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 40/95] fix: CSVRecorder accepts csv_kwargs

---
 pywr/recorders/recorders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 3b4d3e5..548f6e7 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -141,11 +141,11 @@ class CSVRecorder(Recorder):
         complevel=9,
         **kwargs,
     ):
+        self.csv_kwargs = kwargs.pop("csv_kwargs", {})
         super(CSVRecorder, self).__init__(model, **kwargs)
         self.csvfile = csvfile
         self.scenario_index = scenario_index
         self.nodes = nodes
-        self.csv_kwargs = kwargs.pop("csv_kwargs", {})
         self._node_names = None
         self._fh = None
         self._writer = None
-- 
2.43.0


From 271c26a4f188d277ca28e5eff7660e8d4cd0686f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 41/95] fix: CSVRecorder closes the file of an unfinished run
 before it writes a new one

---
 pywr/recorders/recorders.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 548f6e7..867156a 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -182,6 +182,10 @@ class CSVRecorder(Recorder):
     def reset(self):
         import csv
 
+        if self._fh:
+            # close the file of a run that was not finished
+            self._fh.close()
+
         kwargs = {"newline": "", "encoding": "utf-8"}
         mode = "wt"
 
-- 
2.43.0


From f93a0bafbb5f9d98049a39bd78162b169ed4584f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 42/95] fix: tables recorders accept node objects and
 two-character names

---
 pywr/recorders/_tables_recorders.pyx | 11 ++++++-----
 pywr/recorders/recorders.py          | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 5812459..9fba271 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -140,9 +140,9 @@ class TablesRecorder2(Recorder):
         self._routes_flow_array = None
 
     def _add_parameter(self, parameter):
-        try:
+        if isinstance(parameter, (tuple, list)):
             where, param = parameter
-        except (TypeError, ValueError):
+        else:
             where = None
             param = parameter
         if isinstance(param, str):
@@ -239,11 +239,12 @@ class TablesRecorder2(Recorder):
         else:
             items = []
             for n in self.nodes:
-                try:
+                if isinstance(n, (tuple, list)):
                     where, node = n
-                except (TypeError, ValueError):
+                else:
                     node = n
-                    where = self.where + "/" + node
+                    name = node if isinstance(node, str) else node.name
+                    where = self.where + "/" + name
 
                 # Accept a str, and lookup node by name instead.
                 if isinstance(node, str):
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 867156a..e17f1ef 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -346,9 +346,9 @@ class TablesRecorder(Recorder):
         self._routes_flow_array = None
 
     def _add_parameter(self, parameter):
-        try:
+        if isinstance(parameter, (tuple, list)):
             where, param = parameter
-        except (TypeError, ValueError):
+        else:
             where = None
             param = parameter
         if isinstance(param, str):
@@ -443,11 +443,12 @@ class TablesRecorder(Recorder):
         else:
             nodes = []
             for n in self.nodes:
-                try:
+                if isinstance(n, (tuple, list)):
                     where, node = n
-                except (TypeError, ValueError):
+                else:
                     node = n
-                    where = self.where + "/" + node
+                    name = node if isinstance(node, str) else node.name
+                    where = self.where + "/" + name
 
                 # Accept a str, and lookup node by name instead.
                 if isinstance(node, str):
-- 
2.43.0


From 04213a5afaea1e284c75c3fb3a6860f3793c79bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 43/95] fix: TablesRecorder2 accepts ensemble names that are
 not ASCII

---
 pywr/recorders/_tables_recorders.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 9fba271..4010c06 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -339,8 +339,9 @@ class TablesRecorder2(Recorder):
                     ]
                     for scenario_index in self.model.scenarios.get_combinations()
                 ]
+                # PyTables stores bytes, not unicode strings
                 _ = self.h5store.file.create_carray(
-                    "/", "scenario_ensemble_names", obj=indices
+                    "/", "scenario_ensemble_names", obj=np.char.encode(indices, "utf-8")
                 )
 
             if self.model.scenarios.user_combinations is not None:
-- 
2.43.0


From a7151ec1aa6f2a0387769e71892415707ed4074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 44/95] fix: TablesRecorder2 writes all buffered timesteps at
 the end of an incomplete run

---
 pywr/recorders/_tables_recorders.pyx | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 4010c06..84ae35a 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -99,6 +99,8 @@ class TablesRecorder2(Recorder):
         self.buffer_size = kwargs.pop("buffer_size", 100)
         self.buffer_timesteps = kwargs.pop("buffer_timesteps", None)
         self._buffer_num_timesteps = 1
+        self._buffer_write_position = 0
+        self._buffer_last_index = 0
 
         title = kwargs.pop("title", None)
         if title is None:
@@ -533,6 +535,9 @@ class TablesRecorder2(Recorder):
             entry.append()
 
         buffer_idx = idx % self._buffer_num_timesteps
+        # Number of timesteps in the buffer once this timestep is added, and the last of them.
+        self._buffer_write_position = buffer_idx + 1
+        self._buffer_last_index = idx
 
         for node, (arrays, buffer) in self._node_arrays.items():
             if buffer is None:
@@ -595,6 +600,7 @@ class TablesRecorder2(Recorder):
     def flush_buffer(self, int idx, int num_timesteps):
         """Flush the buffer arrays to PyTables"""
         cdef int idx_start = idx + 1 - num_timesteps
+        self._buffer_write_position = 0
 
         for _, (arrays, buffer) in self._node_arrays.items():
             arrays.max_flow[idx_start:idx + 1, ...] = buffer[0, :num_timesteps, ...]
@@ -617,17 +623,9 @@ class TablesRecorder2(Recorder):
 
     def finish(self):
 
-        if self._buffer_num_timesteps > 1:
-            ts = self.model.timestepper.current
-            # The final time-step is one past the end of the data
-            idx = ts.index
-            residual_timesteps = idx % self._buffer_num_timesteps
-
-            # Flush the buffer if there are residual time-steps, or our buffer covered the entire simulation
-            if residual_timesteps > 0:
-                self.flush_buffer(idx - 1, residual_timesteps)
-            elif self._buffer_num_timesteps == len(self.model.timestepper):
-                self.flush_buffer(idx - 1, self._buffer_num_timesteps)
+        # Flush the time-steps that are still in the buffer
+        if self._buffer_num_timesteps > 1 and self._buffer_write_position > 0:
+            self.flush_buffer(self._buffer_last_index, self._buffer_write_position)
 
         if self._time_table is not None:
             self._time_table.flush()
-- 
2.43.0


From c40693fdfaed351ec907a8c83ed184324fd2eb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 45/95] fix: tables recorders save a node or parameter in every
 place it is requested for

---
 pywr/recorders/_tables_recorders.pyx | 16 ++++++++--------
 pywr/recorders/recorders.py          |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 84ae35a..baf4e2d 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -403,7 +403,7 @@ class TablesRecorder2(Recorder):
             else:
                 buffer = None
 
-            self._node_arrays[node] = (self.h5store.file.get_node(where), buffer)
+            self._node_arrays[where, node] = (self.h5store.file.get_node(where), buffer)
 
         self._storage_node_arrays = {}
         for where, node in self._storage_nodes:
@@ -411,7 +411,7 @@ class TablesRecorder2(Recorder):
                 buffer = np.empty([3, ] + buffer_shape, dtype=np.float64)
             else:
                 buffer = None
-            self._storage_node_arrays[node] = (self.h5store.file.get_node(where), buffer)
+            self._storage_node_arrays[where, node] = (self.h5store.file.get_node(where), buffer)
 
         self._index_parameter_arrays = {}
         for where, node in self._index_parameters:
@@ -419,7 +419,7 @@ class TablesRecorder2(Recorder):
                 buffer = np.empty([1, ] + buffer_shape, dtype=np.int32)
             else:
                 buffer = None
-            self._index_parameter_arrays[node] = (self.h5store.file.get_node(where), buffer)
+            self._index_parameter_arrays[where, node] = (self.h5store.file.get_node(where), buffer)
 
         self._parameter_arrays = {}
         for where, node in self._parameters:
@@ -427,7 +427,7 @@ class TablesRecorder2(Recorder):
                 buffer = np.empty([1, ] + buffer_shape, dtype=np.float64)
             else:
                 buffer = None
-            self._parameter_arrays[node] = (self.h5store.file.get_node(where), buffer)
+            self._parameter_arrays[where, node] = (self.h5store.file.get_node(where), buffer)
 
         self._time_table = None
         # Create time table
@@ -539,7 +539,7 @@ class TablesRecorder2(Recorder):
         self._buffer_write_position = buffer_idx + 1
         self._buffer_last_index = idx
 
-        for node, (arrays, buffer) in self._node_arrays.items():
+        for (_, node), (arrays, buffer) in self._node_arrays.items():
             if buffer is None:
                 node.get_all_max_flow(out)
                 arrays.max_flow[idx, :] = np.reshape(out, scenario_shape)
@@ -555,7 +555,7 @@ class TablesRecorder2(Recorder):
                 buffer[1, buffer_idx, ...] = np.reshape(out, scenario_shape)
                 buffer[2, buffer_idx, ...] = np.reshape(node._flow, scenario_shape)
 
-        for storage_node, (arrays, buffer) in self._storage_node_arrays.items():
+        for (_, storage_node), (arrays, buffer) in self._storage_node_arrays.items():
             if buffer is None:
                 storage_node.get_all_max_volume(out)
                 arrays.max_volume[idx, :] = np.reshape(out, scenario_shape)
@@ -571,14 +571,14 @@ class TablesRecorder2(Recorder):
                 buffer[1, buffer_idx, ...] = np.reshape(out, scenario_shape)
                 buffer[2, buffer_idx, ...] = np.reshape(storage_node._volume, scenario_shape)
 
-        for parameter, (arrays, buffer) in self._parameter_arrays.items():
+        for (_, parameter), (arrays, buffer) in self._parameter_arrays.items():
             if buffer is None:
                 v = parameter.get_all_values()
                 arrays.parameter[idx, :] = np.reshape(v, scenario_shape)
             else:
                 buffer[0, buffer_idx, ...] = np.reshape(parameter.get_all_values(), scenario_shape)
 
-        for index_parameter, (arrays, buffer) in self._index_parameter_arrays.items():
+        for (_, index_parameter), (arrays, buffer) in self._index_parameter_arrays.items():
             if buffer is None:
                 i = index_parameter.get_all_indices()
                 arrays.parameter_index[idx, :] = np.reshape(i, scenario_shape)
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index e17f1ef..a0343eb 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -556,7 +556,7 @@ class TablesRecorder(Recorder):
         self.h5store = H5Store(self.h5file, self.filter_kwds, mode)
         self._arrays = {}
         for where, node in self._nodes:
-            self._arrays[node] = self.h5store.file.get_node(where)
+            self._arrays[where, node] = self.h5store.file.get_node(where)
 
         self._time_table = None
         # Create time table
@@ -658,7 +658,7 @@ class TablesRecorder(Recorder):
             entry["index"] = idx
             entry.append()
 
-        for node, ca in self._arrays.items():
+        for (_, node), ca in self._arrays.items():
             if isinstance(node, AbstractStorage):
                 ca[idx, :] = np.reshape(node.volume, scenario_shape)
             elif isinstance(node, AbstractNode):
-- 
2.43.0


From 2f004a0bec938b6e8782c10f75596dd85aeed8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 46/95] fix: generate_dataframes labels the columns of
 combinations, slices and models without scenarios

---
 pywr/h5tools.py                      | 36 ++++++++++++++++++++++++++++
 pywr/recorders/_tables_recorders.pyx | 11 ++-------
 pywr/recorders/recorders.py          | 11 ++-------
 3 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/pywr/h5tools.py b/pywr/h5tools.py
index 8187436..9502d19 100644
--- a/pywr/h5tools.py
+++ b/pywr/h5tools.py
@@ -1,3 +1,5 @@
+import numpy as np
+import pandas
 import tables
 import os
 
@@ -61,3 +63,37 @@ class H5Store(object):
     def __del__(self):
         if self._opened and self.file.isopen:
             self.file.close()
+
+
+def read_scenario_columns(file, scenarios):
+    """Returns the columns (one per scenario combination) of the arrays in a file.
+
+    Parameters
+    ----------
+    file : tables.File
+        A file written by `TablesRecorder` or `TablesRecorder2`.
+    scenarios : str
+        The internal table that contains the scenario information.
+    """
+    table = file.get_node(scenarios)
+    names = [name.decode("utf-8") for name in table.col("name")]
+    if not names:
+        # a model without scenarios has a single combination
+        return pandas.MultiIndex.from_product([range(1)], names=[""])
+    group = scenarios.rsplit("/", 1)[0]
+
+    for path in (group + "/scenario_combinations", "/scenario_combinations"):
+        if path in file:
+            combinations = file.get_node(path)
+            if isinstance(combinations, tables.Table):
+                arrays = [combinations.col(name) for name in names]
+            else:
+                arrays = list(np.transpose(combinations.read()))
+            return pandas.MultiIndex.from_arrays(arrays, names=names)
+
+    levels = {name: range(size) for name, size in zip(names, table.col("size"))}
+    if group + "/scenario_slices" in file:
+        for row in file.get_node(group + "/scenario_slices"):
+            name = row["name"].decode("utf-8")
+            levels[name] = levels[name][row["start"] : row["stop"] : row["step"]]
+    return pandas.MultiIndex.from_product([levels[name] for name in names], names=names)
diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index baf4e2d..2fe46da 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -2,7 +2,7 @@ from typing import Tuple
 import pandas
 cimport numpy as np
 import numpy as np
-from pywr.h5tools import H5Store
+from pywr.h5tools import H5Store, read_scenario_columns
 import warnings
 from pywr.parameters._parameters cimport IndexParameter, Parameter
 from pywr.recorders._recorders cimport Recorder
@@ -661,14 +661,7 @@ class TablesRecorder2(Recorder):
 
         # Get the scenario information
         if scenarios:
-            scenarios_table = store.file.get_node(scenarios)
-            scenarios = pandas.DataFrame(
-                {k: scenarios_table.col(k) for k in ("name", "size")}
-            )
-            columns = pandas.MultiIndex.from_product(
-                [range(row["size"]) for _, row in scenarios.iterrows()],
-                names=[row["name"].decode() for _, row in scenarios.iterrows()],
-            )
+            columns = read_scenario_columns(store.file, scenarios)
         else:
             columns = None
 
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index a0343eb..114e1c5 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -10,7 +10,7 @@ from ._tables_recorders import TablesRecorder2, ParameterNameWarning
 from .events import *
 from .calibration import *
 from .kde import *
-from pywr.h5tools import H5Store
+from pywr.h5tools import H5Store, read_scenario_columns
 from ..parameter_property import parameter_property
 import warnings
 
@@ -714,14 +714,7 @@ class TablesRecorder(Recorder):
 
         # Get the scenario information
         if scenarios:
-            scenarios_table = store.file.get_node(scenarios)
-            scenarios = pandas.DataFrame(
-                {k: scenarios_table.col(k) for k in ("name", "size")}
-            )
-            columns = pandas.MultiIndex.from_product(
-                [range(row["size"]) for _, row in scenarios.iterrows()],
-                names=[row["name"].decode() for _, row in scenarios.iterrows()],
-            )
+            columns = read_scenario_columns(store.file, scenarios)
         else:
             columns = None
 
-- 
2.43.0


From 80693de33654479fbeef0ebc12fb0ffa1f365cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 47/95] fix: tables recorders accept scenario slices with open
 ends

---
 pywr/recorders/_tables_recorders.pyx | 10 ++++------
 pywr/recorders/recorders.py          | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 2fe46da..90f8a8e 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -371,12 +371,10 @@ class TablesRecorder2(Recorder):
                 for scenario in self.model.scenarios.scenarios:
                     if scenario.slice is not None:
                         entry["name"] = scenario.name.encode("utf-8")
-                        entry["start"] = scenario.slice.start
-                        entry["stop"] = scenario.slice.stop
-                        if scenario.slice.step:
-                            entry["step"] = scenario.slice.step
-                        else:
-                            entry["step"] = 1
+                        start, stop, step = scenario.slice.indices(scenario.size)
+                        entry["start"] = start
+                        entry["stop"] = stop
+                        entry["step"] = step
                         entry.append()
                 tbl.flush()
 
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 114e1c5..819853d 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -538,12 +538,10 @@ class TablesRecorder(Recorder):
                 for scenario in self.model.scenarios.scenarios:
                     if scenario.slice is not None:
                         entry["name"] = scenario.name.encode("utf-8")
-                        entry["start"] = scenario.slice.start
-                        entry["stop"] = scenario.slice.stop
-                        if scenario.slice.step:
-                            entry["step"] = scenario.slice.step
-                        else:
-                            entry["step"] = 1
+                        start, stop, step = scenario.slice.indices(scenario.size)
+                        entry["start"] = start
+                        entry["stop"] = stop
+                        entry["step"] = step
                         entry.append()
                 tbl.flush()
 
-- 
2.43.0


From 48485c0d5c76b2c04f0079b5c799696e3757cb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 48/95] fix: tables recorders close the file of an unfinished
 run before they write a new one

---
 pywr/recorders/_tables_recorders.pyx | 13 ++++++++++---
 pywr/recorders/recorders.py          | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 90f8a8e..86d0bb1 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -216,6 +216,7 @@ class TablesRecorder2(Recorder):
         # The following dimensions are sized per scenario
         scenario_shape = list(self.model.scenarios.shape)
         shape = [len(self.model.timestepper)] + scenario_shape
+        self._close()
         self.h5store = H5Store(
             self.h5file,
             self.filter_kwds,
@@ -380,10 +381,18 @@ class TablesRecorder2(Recorder):
 
         self.h5store = None
 
+    def _close(self):
+        """Close the file, also that of a run that was not finished"""
+        if self._time_table is not None:
+            self._time_table.close()
+            self._time_table = None
+        self.h5store = None
+
     def reset(self):
         import tables
 
         mode = "r+"  # always need to append, as file already created in setup
+        self._close()
         self.h5store = H5Store(self.h5file, self.filter_kwds, mode)
 
         if self._buffer_num_timesteps > 1:
@@ -625,9 +634,7 @@ class TablesRecorder2(Recorder):
         if self._buffer_num_timesteps > 1 and self._buffer_write_position > 0:
             self.flush_buffer(self._buffer_last_index, self._buffer_write_position)
 
-        if self._time_table is not None:
-            self._time_table.flush()
-        self.h5store = None
+        self._close()
         self._node_arrays = {}
         self._storage_node_arrays = {}
         self._parameter_arrays = {}
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 819853d..0afb030 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -422,6 +422,7 @@ class TablesRecorder(Recorder):
         scenario_shape = list(self.model.scenarios.shape)
         shape = [len(self.model.timestepper)] + scenario_shape
 
+        self._close()
         self.h5store = H5Store(
             self.h5file,
             self.filter_kwds,
@@ -547,10 +548,18 @@ class TablesRecorder(Recorder):
 
         self.h5store = None
 
+    def _close(self):
+        """Close the file, also that of a run that was not finished"""
+        if self._time_table is not None:
+            self._time_table.close()
+            self._time_table = None
+        self.h5store = None
+
     def reset(self):
         import tables
 
         mode = "r+"  # always need to append, as file already created in setup
+        self._close()
         self.h5store = H5Store(self.h5file, self.filter_kwds, mode)
         self._arrays = {}
         for where, node in self._nodes:
@@ -681,9 +690,7 @@ class TablesRecorder(Recorder):
             )
 
     def finish(self):
-        if self._time_table is not None:
-            self._time_table.flush()
-        self.h5store = None
+        self._close()
         self._arrays = {}
         self._routes_flow_array = None
 
-- 
2.43.0


From b3c2e85f06246d72815305a58c12545f5f712631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 49/95] fix: do not load the included files of a document twice

---
 pywr/_model.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 1ea4e9a..7b96aad 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -209,7 +209,6 @@ class Model(object):
             if path:
                 e.args = ("{} [{}]".format(e.args[0], os.path.basename(path)),)
             raise(e)
-        cls._load_includes(data, path)
         return cls.load(data, model, path, **kwargs)
 
     @classmethod
-- 
2.43.0


From 8126b30a4f5920e8eaf1ee80636c82a0f71860e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 50/95] fix: find included files when the path given is the
 document's folder

---
 pywr/_model.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 7b96aad..89f1e7f 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -229,7 +229,8 @@ class Model(object):
             for filename in data["includes"]:
                 _, ext = os.path.splitext(filename)
                 if path is not None:
-                    filename = os.path.join(os.path.dirname(path), filename)
+                    folder = path if os.path.isdir(path) else os.path.dirname(path)
+                    filename = os.path.join(folder, filename)
 
                 ext = ext.lower()
                 if ext == '.json':
-- 
2.43.0


From d8e7f195d8631b10ad9ebc2c7116a48cba82766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 51/95] fix: resolve files relative to a model document whose
 path is given as bytes

---
 pywr/_model.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 89f1e7f..511cabe 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -287,7 +287,7 @@ class Model(object):
         """
         if isinstance(data, (str, bytes, os.PathLike)):
             # argument is a filename
-            path = data
+            path = os.fsdecode(data)
             logger.info('Loading model from file: "{}"'.format(path))
             with open(path, "r") as f:
                 data = f.read()
-- 
2.43.0


From 1aeeedefba24738d49408dcb33ca535555c70ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 52/95] fix: a reservoir's cost from a table or a parameter no
 longer replaces its above_curve_cost

---
 pywr/domains/river.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pywr/domains/river.py b/pywr/domains/river.py
index 9474c42..bd7a3f6 100644
--- a/pywr/domains/river.py
+++ b/pywr/domains/river.py
@@ -97,6 +97,18 @@ class Reservoir(RiverDomainMixin, Storage):
             kwargs["cost"] = cost
         super(Reservoir, self).__init__(model, *args, **kwargs)
 
+    @classmethod
+    def pre_load(cls, model, data):
+        cost = data.get("cost")
+        if isinstance(cost, dict) and "type" not in cost:
+            # A single value from a table or an external file
+            cost = data["cost"] = load_parameter(model, cost)
+        if data.get("above_curve_cost") is not None and isinstance(cost, (str, dict)):
+            raise ValueError(
+                "If an above_curve_cost is given cost must not be a Parameter."
+            )
+        return super().pre_load(model, data)
+
     @classmethod
     def _pre_load_parameter(cls, key, value, param_data, non_param_data):
         if key == "cost" and isinstance(value, (float, int)):
-- 
2.43.0


From 9a2af14672ed4612a3d4da3fe75c1868259d8f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 53/95] fix: a document with two nodes of the same name is
 rejected instead of losing one of them

---
 pywr/_model.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 511cabe..4d27a3a 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -408,6 +408,8 @@ class Model(object):
         nodes_to_load = {}
         for node_data in data["nodes"]:
             node_name = node_data["name"]
+            if node_name in nodes_to_load:
+                raise ValueError('A node with the name "{}" already exists.'.format(node_name))
             nodes_to_load[node_name] = node_data
         model._nodes_to_load = nodes_to_load
 
-- 
2.43.0


From 3d4438b051652ce0f17874d78d6016b0c13ad3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 54/95] fix: connecting to a slot that a compound node does not
 have is an error

---
 pywr/nodes.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index ca548cd..65bfece 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -91,6 +91,11 @@ class Loadable:
 class Connectable(object):
     """A mixin class providing methods for connecting nodes in the model graph"""
 
+    def _check_no_slot(self, slot_name):
+        """Raise an error if a slot is given for a node that has none"""
+        if slot_name is not None:
+            raise ValueError("{} does not have slot: {}".format(self, slot_name))
+
     def iter_slots(self, slot_name=None, is_connector=True):
         """Returns the object(s) wich should be connected to given slot_name
 
@@ -102,8 +107,7 @@ class Connectable(object):
         appropriate response object in circumstances where a subnode should make
         the actual connection rather than self.
         """
-        if slot_name is not None:
-            raise ValueError("{} does not have slot: {}".format(self, slot_name))
+        self._check_no_slot(slot_name)
         yield self
 
     def connect(self, node, from_slot=None, to_slot=None):
@@ -860,6 +864,7 @@ class PiecewiseLink(Node):
     max_flows = property(**max_flows())
 
     def iter_slots(self, slot_name=None, is_connector=True):
+        self._check_no_slot(slot_name)
         if is_connector:
             yield self.input
         else:
@@ -1031,6 +1036,7 @@ class MultiSplitLink(PiecewiseLink):
             else:
                 yield self._extra_inputs[i - 1]
         else:
+            self._check_no_slot(slot_name)
             yield self.output
 
 
@@ -1195,6 +1201,7 @@ class BreakLink(Node):
         return self.link.get_all_cost(out)
 
     def iter_slots(self, slot_name=None, is_connector=True):
+        self._check_no_slot(slot_name)
         if is_connector:
             # connecting FROM the transfer TO something else
             yield self.link
@@ -1266,6 +1273,7 @@ class DelayNode(Node):
         super().__init__(model, name, **kwargs)
 
     def iter_slots(self, slot_name=None, is_connector=True):
+        self._check_no_slot(slot_name)
         if is_connector:
             yield self.input
         else:
@@ -1411,6 +1419,7 @@ class LossLink(Node):
         return self.net.get_all_cost(out)
 
     def iter_slots(self, slot_name=None, is_connector=True):
+        self._check_no_slot(slot_name)
         if is_connector:
             yield self.net
         else:
-- 
2.43.0


From ecc47e067151ff50fa6c93475efcb5303884c82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 55/95] fix: RollingMeanFlowNodeRecorder no longer drops its
 other options when loaded from a document

---
 pywr/recorders/_recorders.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 197e114..f2ac558 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1715,17 +1715,17 @@ cdef class RollingMeanFlowNodeRecorder(NodeRecorder):
 
     @classmethod
     def load(cls, model, data):
-        name = data.get("name")
-        node = model.nodes[data["node"]]
+        name = data.pop("name", None)
+        node = model.nodes[data.pop("node")]
         if "timesteps" in data:
-            timesteps = int(data["timesteps"])
+            timesteps = int(data.pop("timesteps"))
         else:
             timesteps = None
         if "days" in data:
-            days = int(data["days"])
+            days = int(data.pop("days"))
         else:
             days = None
-        return cls(model, node, timesteps=timesteps, days=days, name=name)
+        return cls(model, node, timesteps=timesteps, days=days, name=name, **data)
 
 RollingMeanFlowNodeRecorder.register()
 
-- 
2.43.0


From 3ee1d315886235bae2dfd27b172f94fc5156ad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 56/95] fix: groups of nodes with too few or too many factors
 are rejected

---
 pywr/_core.pyx | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index bd5310b..bf873aa 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -769,6 +769,13 @@ cdef class AggregatedNode(AbstractNode):
             self._nodes = list(value)
             self.model.dirty = True
 
+    cpdef setup(self, model):
+        AbstractNode.setup(self, model)
+        for name, values in (("factors", self._factors), ("flow_weights", self._flow_weights)):
+            if values is not None and len(values) != len(self._nodes):
+                raise ValueError('Length of {} of "{}" should be the same as the number of nodes ({}).'.format(
+                    name, self.name, len(self._nodes)))
+
     cpdef after(self, Timestep ts):
         cdef int i, j
         cdef Node n
@@ -1478,6 +1485,12 @@ cdef class VirtualStorage(Storage):
         self.virtual = True
         self.active = True
 
+    cpdef setup(self, model):
+        Storage.setup(self, model)
+        if self._factors is not None and len(self._factors) != len(self._nodes):
+            raise ValueError('Length of factors of "{}" should be the same as the number of nodes ({}).'.format(
+                self.name, len(self._nodes)))
+
     cpdef reset(self):
         self.active = True
         Storage.reset(self)
-- 
2.43.0


From 0329718abf574b31eaf33374214e158055652b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 57/95] fix: undefined limits and costs are reported by the
 lpsolve solver

---
 pywr/solvers/cython_lpsolve.pyx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index f6b0cb0..2b6cbf2 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -1,5 +1,6 @@
 from libc.float cimport DBL_MAX
 from libc.stdlib cimport malloc, free
+from libc.math cimport isnan
 from cython.view cimport array as cvarray
 from pywr._core import BaseInput, BaseOutput, BaseLink
 from pywr._core cimport *
@@ -67,10 +68,18 @@ cdef extern from "lpsolve/lp_lib.h":
 
 cdef int check_bnds(double a, double b) except -1:
     # lp_solve ignores contradictory bounds instead of reporting the problem to be infeasible
+    if isnan(a) or isnan(b):
+        raise RuntimeError("NaN detected in bounds")
     if a - b > 1e-8:
         raise RuntimeError("Model is primal INFEASIBLE: minimum {} exceeds maximum {}".format(a, b))
     return 0
 
+cdef int check_cost(double cost) except -1:
+    # lp_solve silently solves a problem with undefined costs
+    if isnan(cost):
+        raise RuntimeError("NaN detected in objective coefficient")
+    return 0
+
 cdef int set_row_bnds(lprec *prob, int row, double a, double b) except -1:
     check_bnds(a, b)
     if a >= b:
@@ -525,6 +534,7 @@ cdef class CythonLPSolveSolver:
             for node in route[1:-1]:
                 if isinstance(node, BaseLink):
                     cost += node.get_cost(scenario_index)
+            check_cost(cost)
             set_obj(self.prob, self.idx_col_routes+col, cost)
 
         self.stats['bounds_update_routes'] += time.perf_counter() - t0
@@ -543,6 +553,7 @@ cdef class CythonLPSolveSolver:
             cost = demand.get_cost(scenario_index)
             check_bnds(min_flow, max_flow)
             set_bounds(self.prob, self.idx_col_demands+col, min(min_flow, max_flow), max_flow)
+            check_cost(cost)
             set_obj(self.prob, self.idx_col_demands+col, cost)
 
         self.stats['bounds_update_nonstorage'] += time.perf_counter() - t0
-- 
2.43.0


From 1f77ab9d5b71b35006f5eb37391b3be7cc724a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:04 +0000
Subject: [PATCH 58/95] fix: a document with two scenarios of the same name is
 rejected

---
 pywr/_model.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 4d27a3a..82f4ff4 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -380,6 +380,8 @@ class Model(object):
         else:
             for scen_data in scenarios_data:
                 scen_name = scen_data["name"]
+                if scen_name in [s.name for s in model.scenarios.scenarios]:
+                    raise ValueError('A scenario with the name "{}" already exists.'.format(scen_name))
                 size = scen_data["size"]
                 ensemble_names = scen_data.pop("ensemble_names", None)
                 s_slice = scen_data.pop("slice", None)
-- 
2.43.0


From 563d4a84dd8fadea504885230042b854bb3b1eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 59/95] fix: the evaluation order of components follows changes
 of their dependencies, which are kept as long as one use remains

---
 pywr/_component.pyx | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/pywr/_component.pyx b/pywr/_component.pyx
index 1b00d6b..b1d1b7c 100644
--- a/pywr/_component.pyx
+++ b/pywr/_component.pyx
@@ -15,28 +15,41 @@ class GraphInterface:
     def graph(self):
         return self.obj.model.component_graph
 
+    def _edge(self, item):
+        if self is self.obj.children:
+            return item, self.obj
+        return self.obj, item
+
+    def _changed(self):
+        # The order in which the components are evaluated has to be determined again
+        model = self.obj.model
+        if model.component_tree_flat is not None and self.obj in model.component_tree_flat:
+            model.component_tree_flat = None
+
     def add(self, item):
         if not isinstance(item, Component):
             return
-        if self is self.obj.children:
-            self.graph.add_edge(item, self.obj)
-        else:
-            self.graph.add_edge(self.obj, item)
+        u, v = self._edge(item)
+        # An item may be used more than once (e.g. in a list of parameters)
+        count = self.graph.edges[u, v]["count"] if self.graph.has_edge(u, v) else 0
+        self.graph.add_edge(u, v, count=count + 1)
+        self._changed()
 
     def remove(self, item):
         if not isinstance(item, Component):
             return
-        if self is self.obj.children:
-            self.graph.remove_edge(item, self.obj)
+        u, v = self._edge(item)
+        if self.graph.has_edge(u, v) and self.graph.edges[u, v]["count"] > 1:
+            # There are other uses of the item
+            self.graph.edges[u, v]["count"] -= 1
         else:
-            self.graph.remove_edge(self.obj, item)
+            self.graph.remove_edge(u, v)
+        self._changed()
 
     def clear(self):
         for n in self._members:
-            if self is self.obj.children:
-                self.graph.remove_edge(n, self.obj)
-            else:
-                self.graph.remove_edge(self.obj, n)
+            self.graph.remove_edge(*self._edge(n))
+        self._changed()
 
     @property
     def _members(self):
-- 
2.43.0


From a0ffdf2fbe11b7881a10d2885d94c4e2343d585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 60/95] fix: a parameter added after a run is set up before the
 next one

---
 pywr/parameters/_parameters.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index e684a4f..f3a1e4f 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -42,6 +42,7 @@ class TypeNotFoundError(KeyError):
 cdef class Parameter(Component):
     def __init__(self, *args, is_variable=False, **kwargs):
         super(Parameter, self).__init__(*args, **kwargs)
+        self.model.dirty = True
         self.is_variable = is_variable
         self.double_size = 0
         self.integer_size = 0
-- 
2.43.0


From 8ea249e7cf852880e1163f0ed957574d300db043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 61/95] fix: a component can be given the name that it has
 already

---
 pywr/_component.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/_component.pyx b/pywr/_component.pyx
index b1d1b7c..08d15cc 100644
--- a/pywr/_component.pyx
+++ b/pywr/_component.pyx
@@ -109,7 +109,7 @@ cdef class Component:
 
         def __set__(self, name):
             # check for name collision
-            if name is not None and name in self.model.components.keys():
+            if name is not None and any(c.name == name and c is not self for c in self.model.components):
                 raise ValueError('A component with the name "{}" already exists.'.format(name))
             # apply new name
             self._name = name
-- 
2.43.0


From 406f7cf1a14a28d6da8fbd55a35d8edb48d3b560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 62/95] fix: a node can be given the name that it has already

---
 pywr/_core.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index bf873aa..50e8c62 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -399,7 +399,7 @@ cdef class AbstractNode:
 
         def __set__(self, name):
             # check for name collision
-            if name in self.model.nodes.keys():
+            if any(node.name == name and node is not self for node in self.model.nodes):
                 raise ValueError('A node with the name "{}" already exists.'.format(name))
             # apply new name
             self._name = name
-- 
2.43.0


From b8556f3435f6d3a5785b6c5e7a9df7a30a7187f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:22 +0000
Subject: [PATCH 63/95] fix: a parameter or recorder that is deleted from the
 model is removed from it

---
 pywr/_model.pyx | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 82f4ff4..5b755de 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -126,27 +126,27 @@ class Model(object):
 
     @property
     def components(self):
-        return NamedIterator(n for n in self.component_graph.nodes() if n != ROOT_NODE)
+        return ComponentIterator(self, (n for n in self.component_graph.nodes() if n != ROOT_NODE))
 
     @property
     def recorders(self):
-        return NamedIterator(n for n in self.components if isinstance(n, Recorder))
+        return ComponentIterator(self, (n for n in self.components if isinstance(n, Recorder)))
 
     @property
     def parameters(self):
-        return NamedIterator(n for n in self.components if isinstance(n, BaseParameter))
+        return ComponentIterator(self, (n for n in self.components if isinstance(n, BaseParameter)))
 
     @property
     def variables(self):
-        return NamedIterator(n for n in self.parameters if n.is_variable)
+        return ComponentIterator(self, (n for n in self.parameters if n.is_variable))
 
     @property
     def constraints(self):
-        return NamedIterator(n for n in self.recorders if n.is_constraint)
+        return ComponentIterator(self, (n for n in self.recorders if n.is_constraint))
 
     @property
     def objectives(self):
-        return NamedIterator(n for n in self.recorders if n.is_objective)
+        return ComponentIterator(self, (n for n in self.recorders if n.is_objective))
 
     def is_feasible(self):
         """Returns True if none of the constraints are violated.
@@ -1069,6 +1069,20 @@ class NamedIterator(object):
         self._objects.append(obj)
 
 
+class ComponentIterator(NamedIterator):
+    """Iterator for the components of a Model"""
+    def __init__(self, model, objects=None):
+        super().__init__(objects)
+        self.model = model
+
+    def __delitem__(self, key):
+        """Remove a component from the model by its name"""
+        obj = self[key]
+        super().__delitem__(key)
+        self.model.component_graph.remove_node(obj)
+        self.model.dirty = True
+
+
 class ModelResult(object):
     def __init__(self, num_scenarios, timestep, time_taken, time_taken_before, time_taken_after,
                  time_taken_with_overhead, speed, solver_name, solver_settings, solver_stats, version):
-- 
2.43.0


From 8d0fd7809199ce097997862b47950c2c1b8bc182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:22 +0000
Subject: [PATCH 64/95] fix: a node's name resolves to that node rather than to
 a sub-node of the same name

---
 pywr/_model.pyx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 5b755de..36660a0 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -956,9 +956,15 @@ class NodeIterator(object):
 
     def __getitem__(self, key):
         """Get a node from the graph by it's name"""
+        child = None
         for node in self._nodes(hide_children=False):
             if node.name == key:
-                return node
+                if node.parent is None:
+                    return node
+                if child is None:
+                    child = node
+        if child is not None:
+            return child
         raise KeyError("'{}'".format(key))
 
     def __delitem__(self, key):
-- 
2.43.0


From c759791dd817cc70a9d60b89d0f7e761b27818b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:22 +0000
Subject: [PATCH 65/95] fix: a node removed after a run takes no part in the
 next one

---
 pywr/_model.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 36660a0..8617714 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -982,6 +982,7 @@ class NodeIterator(object):
         for node2 in nodes_to_delete:
             del(self[node2])
         self.model.graph.remove_node(node)
+        self.model.dirty = True
 
     def keys(self):
         for node in self._nodes():
-- 
2.43.0


From 8cfe0616fa8fed57d78c03609c986a231f409c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:22 +0000
Subject: [PATCH 66/95] fix: changed factors of a virtual storage, conversion
 factors and members of an aggregated storage apply to the next run

---
 pywr/_core.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 50e8c62..c03fd9c 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -710,6 +710,7 @@ cdef class Node(AbstractNode):
                 raise ValueError("Conversion factor can not be a Parameter.")
             else:
                 self._conversion_factor = value
+                self.model.dirty = True
 
     cpdef double get_conversion_factor(self) except? -1:
         """Get the conversion factor
@@ -1394,6 +1395,7 @@ cdef class AggregatedStorage(AbstractStorage):
 
         def __set__(self, value):
             self._storage_nodes = list(value)
+            self.model.dirty = True
 
     property initial_volume:
         def __get__(self, ):
@@ -1509,6 +1511,7 @@ cdef class VirtualStorage(Storage):
 
         def __set__(self, value):
             self._factors = np.array(value, dtype=np.float64)
+            self.model.dirty = True
 
     cpdef after(self, Timestep ts, double[:] adjustment=None):
         cdef int i
-- 
2.43.0


From 09df2aa4f0929a7a48e0b8dab9800de8718ad693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 67/95] fix: removing a compound node removes all of its
 sub-nodes

---
 pywr/nodes.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 65bfece..e038f1b 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -993,7 +993,9 @@ class MultiSplitLink(PiecewiseLink):
                     nodes.append(nd)
                     valid_factors.append(r)
 
-            agg = AggregatedNode(self.model, "{} Agg".format(self.name), nodes)
+            agg = AggregatedNode(
+                self.model, "{} Agg".format(self.name), nodes, parent=self
+            )
             agg.factors = valid_factors
 
     def _pad_values(self, values, fill_value):
@@ -1142,8 +1144,9 @@ class BreakLink(Node):
             max_volume=0,
             initial_volume=0,
             cost=0,
+            parent=self,
         )
-        self.link = Link(model, name=link_name)
+        self.link = Link(model, name=link_name, parent=self)
 
         self.storage.connect(self.link)
 
@@ -1334,7 +1337,9 @@ class LossLink(Node):
         self.gross.connect(self.net)
 
         # The loss is first such that its factor may be zero: the others are divided by their own factor.
-        self.agg = AggregatedNode(model, name=agg_name, nodes=[self.output, self.net])
+        self.agg = AggregatedNode(
+            model, name=agg_name, nodes=[self.output, self.net], parent=self
+        )
         self.loss_factor_type = kwargs.pop("loss_factor_type", "net")
         self.loss_factor = kwargs.pop("loss_factor", 0.0)
 
-- 
2.43.0


From 9f805423896832edb0fc103ee8db783911d5e3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 68/95] fix: connections from and to storages and compound
 nodes can be removed

---
 pywr/nodes.py | 46 +++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index e038f1b..94398cd 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -88,6 +88,15 @@ class Loadable:
         del self.__parameters_to_load
 
 
+def _is_part_of(item, node):
+    """Whether item is the node itself or one of its sub-nodes"""
+    while item is not None:
+        if item is node:
+            return True
+        item = item.parent
+    return False
+
+
 class Connectable(object):
     """A mixin class providing methods for connecting nodes in the model graph"""
 
@@ -149,28 +158,27 @@ class Connectable(object):
         if node is not None:
             self._disconnect(node, slot_name=slot_name, all_slots=all_slots)
         else:
-            neighbors = self.model.graph.neighbors(self)
-            for neighbor in [neighbor for neighbor in neighbors]:
-                self._disconnect(neighbor, slot_name=slot_name, all_slots=all_slots)
+            neighbors = {v: None for u, v in self._edges() if not _is_part_of(v, self)}
+            for neighbor in neighbors:
+                self._disconnect(neighbor)
+
+    def _edges(self, node=None):
+        """Edges from this node or its sub-nodes (to another node or its sub-nodes)"""
+        return [
+            (u, v)
+            for u, v in self.model.graph.edges()
+            if _is_part_of(u, self) and (node is None or _is_part_of(v, node))
+        ]
 
     def _disconnect(self, node, slot_name=None, all_slots=True):
         """As disconnect, except node argument is required"""
-        disconnected = False
-        try:
-            self.model.graph.remove_edge(self, node)
-        except nx.exception.NetworkXError:
-            for node_slot in node.iter_slots(
-                slot_name=slot_name, is_connector=False, all_slots=all_slots
-            ):
-                try:
-                    self.model.graph.remove_edge(self, node_slot)
-                except nx.exception.NetworkXError:
-                    pass
-                else:
-                    disconnected = True
-        else:
-            disconnected = True
-        if not disconnected:
+        edges = self._edges(node)
+        if slot_name is not None or not all_slots:
+            slots = list(node.iter_slots(slot_name=slot_name, is_connector=False))
+            edges = [(u, v) for u, v in edges if v in slots]
+        for u, v in edges:
+            self.model.graph.remove_edge(u, v)
+        if not edges:
             raise nx.exception.NetworkXError(
                 "{} is not connected to {}".format(self, node)
             )
-- 
2.43.0


From 73a2f2d2bda18d5939cb7c6d8d3e81f05aef0c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:17 +0000
Subject: [PATCH 69/95] fix: a compound node that can not be created leaves no
 sub-nodes in the model

---
 pywr/nodes.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 94398cd..ba9d330 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -200,7 +200,22 @@ class NodeMeta(type):
 
     def __call__(cls, *args, **kwargs):
         # Create new instance of Node (or subclass thereof)
-        node = type.__call__(cls, *args, **kwargs)
+        model = kwargs["model"] if "model" in kwargs else args[0] if args else None
+        graphs = [
+            (graph, len(graph))
+            for graph in (
+                getattr(model, "graph", None),
+                getattr(model, "component_graph", None),
+            )
+            if graph is not None
+        ]
+        try:
+            node = type.__call__(cls, *args, **kwargs)
+        except Exception:
+            # Remove the sub-nodes and components that were already created
+            for graph, length in graphs:
+                graph.remove_nodes_from(list(graph.nodes())[length:])
+            raise
         # Add node to Model graph. This needs to be done here, so that if the
         # __init__ method of Node raises an exception it is not added.
         node.model.graph.add_node(node)
-- 
2.43.0


From a7cabb2993377080085b39b50f6131c0c13befb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 70/95] fix: lpsolve applies the current flow limits of
 aggregated nodes

---
 pywr/solvers/cython_lpsolve.pyx | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index 2b6cbf2..053b3ad 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -139,6 +139,7 @@ cdef class CythonLPSolveSolver:
     cdef list storages
     cdef list virtual_storages
     cdef list aggregated
+    cdef list aggregated_min_max
     cdef public object stats
     cdef int num_routes
     cdef int num_scenarios
@@ -213,9 +214,7 @@ cdef class CythonLPSolveSolver:
                                         when using the lpsolve solver. Please use the glpk or glpk-edge solver \
                                         instead".format(some_node.name))
                     aggregated.append(some_node)
-                if some_node.min_flow > -inf or \
-                   some_node.max_flow < inf:
-                    aggregated_min_max.append(some_node)
+                aggregated_min_max.append(some_node)
 
         if len(routes) == 0:
             raise ModelStructureError("Model has no valid routes")
@@ -427,16 +426,7 @@ cdef class CythonLPSolveSolver:
             ret = resize_lp(self.prob, get_Norig_rows(self.prob)+len(aggregated_min_max), get_Norig_columns(self.prob))
 
         for row, agg_node in enumerate(aggregated_min_max):
-            row = self.idx_row_aggregated_min_max + row
             nodes = agg_node.nodes
-            min_flow = agg_node.min_flow
-            max_flow = agg_node.max_flow
-            if min_flow is None:
-                min_flow = -inf
-            if max_flow is None:
-                max_flow = inf
-            min_flow = inf_to_dbl_max(min_flow)
-            max_flow = inf_to_dbl_max(max_flow)
 
             weights = agg_node.flow_weights
             if weights is None:
@@ -463,7 +453,6 @@ cdef class CythonLPSolveSolver:
                 ind[i] = 1+col
                 val[i] = matrix[col]
             add_constraintex(self.prob, length, val, ind, EQ, 0.0)
-            set_row_bnds(self.prob, row, min_flow, max_flow)
             free(ind)
             free(val)
 
@@ -489,6 +478,7 @@ cdef class CythonLPSolveSolver:
         self.storages = storages
         self.virtual_storages = virtual_storages
         self.aggregated = aggregated
+        self.aggregated_min_max = aggregated_min_max
 
     cpdef object solve(self, model):
         cdef int[:] scenario_combination
@@ -502,6 +492,7 @@ cdef class CythonLPSolveSolver:
         cdef Node supply
         cdef Node demand
         cdef Node node
+        cdef AggregatedNode agg_node
         cdef double min_flow
         cdef double max_flow
         cdef double cost
@@ -556,6 +547,12 @@ cdef class CythonLPSolveSolver:
             check_cost(cost)
             set_obj(self.prob, self.idx_col_demands+col, cost)
 
+        # update aggregated node min/max flow constraints
+        for col, agg_node in enumerate(self.aggregated_min_max):
+            min_flow = inf_to_dbl_max(agg_node.get_min_flow(scenario_index))
+            max_flow = inf_to_dbl_max(agg_node.get_max_flow(scenario_index))
+            set_row_bnds(self.prob, self.idx_row_aggregated_min_max+col, min_flow, max_flow)
+
         self.stats['bounds_update_nonstorage'] += time.perf_counter() - t0
         t0 = time.perf_counter()
 
-- 
2.43.0


From 441acbdecced7611fe46a43f28be9dd0f02172c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:18 +0000
Subject: [PATCH 71/95] fix: lpsolve applies the current values of the factors
 of aggregated nodes

---
 pywr/solvers/__init__.py        |  2 +-
 pywr/solvers/cython_lpsolve.pyx | 39 +++++++++++++++++++++------------
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/pywr/solvers/__init__.py b/pywr/solvers/__init__.py
index 318b532..3941cc7 100644
--- a/pywr/solvers/__init__.py
+++ b/pywr/solvers/__init__.py
@@ -327,7 +327,7 @@ else:
             return self._cy_solver.solve(model)
 
         def reset(self):
-            pass
+            self._cy_solver.reset()
 
         @property
         def save_routes_flows(self):
diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index 053b3ad..a4a4a63 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -50,6 +50,7 @@ cdef extern from "lpsolve/lp_lib.h":
     MYBOOL set_bounds(lprec *lp, int colnr, REAL lower, REAL upper)
     MYBOOL set_lowbo(lprec *lp, int colnr, REAL value)
     MYBOOL set_row(lprec *lp, int rownr, REAL *row)
+    MYBOOL set_mat(lprec *lp, int rownr, int colnr, REAL value)
     MYBOOL set_rowex(lprec *lp, int rownr, int count, REAL *row, int *colno)
     MYBOOL set_rh(lprec *lp, int rownr, REAL value)
     MYBOOL set_rh_range(lprec *lp, int rownr, REAL deltavalue)
@@ -139,6 +140,7 @@ cdef class CythonLPSolveSolver:
     cdef list storages
     cdef list virtual_storages
     cdef list aggregated
+    cdef list aggregated_rows
     cdef list aggregated_min_max
     cdef public object stats
     cdef int num_routes
@@ -195,6 +197,7 @@ cdef class CythonLPSolveSolver:
         storages = []
         virtual_storages = []
         aggregated = []
+        aggregated_rows = []  # Row, node, position of the member and the columns of the first node and of the member
         aggregated_min_max = []
         for some_node in model.graph.nodes():
             if isinstance(some_node, (BaseInput, BaseLink)):
@@ -388,10 +391,6 @@ cdef class CythonLPSolveSolver:
 
         for agg_node in aggregated:
             nodes = agg_node.nodes
-            # NB this only works because the solver supports only fixed (i.e. ConstantParameter) factors
-            factors = [f.get_double_variables()[0] for f in agg_node.factors]
-            assert(len(nodes) == len(factors))
-
             ret = resize_lp(self.prob, get_Norig_rows(self.prob)+len(agg_node.nodes)-1, get_Norig_columns(self.prob))
             row = get_Norig_rows(self.prob)+1
 
@@ -399,23 +398,22 @@ cdef class CythonLPSolveSolver:
             for node in nodes:
                 cols.append([n for n, route in enumerate(routes) if node in route])
 
-            # normalise factors
-            f0 = factors[0]
-            factors_norm = [f0/f for f in factors]
-
             # update matrix
+            # NB the factors, which are the coefficients of the other nodes, are set by `reset`
             for n in range(len(nodes)-1):
-                length = len(cols[0])+len(cols[n+1])
+                # A route may pass through both nodes
+                matrix = {c: 1.0 for c in cols[0]}
+                for c in cols[n+1]:
+                    matrix[c] = matrix.get(c, 0.0) - 1.0
+                length = len(matrix)
                 ind = <int*>malloc(length * sizeof(int))
                 val = <double*>malloc(length * sizeof(double))
-                for i, c in enumerate(cols[0]):
+                for i, c in enumerate(matrix):
                     ind[i] = 1+c
-                    val[i] = 1.0
-                for i, c in enumerate(cols[n+1]):
-                    ind[len(cols[0])+i] = 1+c
-                    val[len(cols[0])+i] = -factors_norm[n+1]
+                    val[i] = matrix[c]
 
                 add_constraintex(self.prob, length, val, ind, EQ, 0.0)
+                aggregated_rows.append((get_Norig_rows(self.prob), agg_node, n+1, cols[0], cols[n+1]))
 
                 free(ind)
                 free(val)
@@ -478,8 +476,21 @@ cdef class CythonLPSolveSolver:
         self.storages = storages
         self.virtual_storages = virtual_storages
         self.aggregated = aggregated
+        self.aggregated_rows = aggregated_rows
         self.aggregated_min_max = aggregated_min_max
 
+    cpdef object reset(self):
+        cdef AggregatedNode agg_node
+        cdef int row, n, c
+        if self.aggregated_rows is None:
+            return
+        # The values of the (constant) factors may have changed since the last run
+        for row, agg_node, n, first_cols, cols in self.aggregated_rows:
+            # NB this only works because the solver supports only fixed (i.e. ConstantParameter) factors
+            factors_norm = agg_node.get_factors_norm(None)
+            for c in cols:
+                set_mat(self.prob, row, 1+c, (1.0 if c in first_cols else 0.0) - factors_norm[n])
+
     cpdef object solve(self, model):
         cdef int[:] scenario_combination
         cdef int scenario_id
-- 
2.43.0


From f9dab7be42cd1d7090fa5ffede3d2ceb41538ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:47 +0000
Subject: [PATCH 72/95] fix: GLPK relates the flow that starts at an inline
 input

---
 pywr/solvers/cython_glpk.pyx | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index 03660e4..dfba03e 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -646,10 +646,19 @@ cdef class CythonGLPKSolver(GLPKSolver):
 
             cols = []
             ind_ptr = [0,]
-            first_node_cols = [0] + [n+1 for n, route in enumerate(routes) if nodes[0] in route]
+            node_cols = []
+            for some_node in nodes:
+                # Inputs and outputs only carry the flow of routes that start and end with them
+                if isinstance(some_node, BaseInput):
+                    node_cols.append([n+1 for n, route in enumerate(routes) if route[0] is some_node])
+                elif isinstance(some_node, BaseOutput):
+                    node_cols.append([n+1 for n, route in enumerate(routes) if route[-1] is some_node])
+                else:
+                    node_cols.append([n+1 for n, route in enumerate(routes) if some_node in route])
+            first_node_cols = [0] + node_cols[0]
             agg_node._AggregatedNode__agg_factor_data.node_ind = len(first_node_cols)
-            for i, node in enumerate(nodes[1:]):
-                cols.extend(first_node_cols + [n+1 for n, route in enumerate(routes) if node in route])
+            for i in range(1, len(nodes)):
+                cols.extend(first_node_cols + node_cols[i])
                 ind_ptr.append(len(cols))
 
             agg_node._AggregatedNode__agg_factor_data.ind_ptr = cvarray(shape=(len(ind_ptr),), itemsize=sizeof(int), format="i")
-- 
2.43.0


From 5f3339763c9e9c3939bdfa4bfe3703879fb220e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:58 +0000
Subject: [PATCH 73/95] fix: lpsolve relates the flow of an inline input

---
 pywr/solvers/cython_lpsolve.pyx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index a4a4a63..cf0d657 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -396,7 +396,13 @@ cdef class CythonLPSolveSolver:
 
             cols = []
             for node in nodes:
-                cols.append([n for n, route in enumerate(routes) if node in route])
+                # Inputs and outputs only carry the flow of routes that start and end with them
+                if isinstance(node, BaseInput):
+                    cols.append([n for n, route in enumerate(routes) if route[0] is node])
+                elif isinstance(node, BaseOutput):
+                    cols.append([n for n, route in enumerate(routes) if route[-1] is node])
+                else:
+                    cols.append([n for n, route in enumerate(routes) if node in route])
 
             # update matrix
             # NB the factors, which are the coefficients of the other nodes, are set by `reset`
-- 
2.43.0


From 220a6e4444ab1a018e883e4b05557abbbd01b7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:33 +0000
Subject: [PATCH 74/95] fix: a virtual storage only limits the flow that starts
 at an inline input

---
 pywr/solvers/cython_glpk.pyx    | 18 +++++++++---------
 pywr/solvers/cython_lpsolve.pyx | 18 +++++++++---------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index dfba03e..001784e 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -607,16 +607,16 @@ cdef class CythonGLPKSolver(GLPKSolver):
             # We need to handle the same route appearing twice here.
             cols = {}
             for n, route in enumerate(routes):
-                for some_node in route:
-                    try:
-                        i = storage.nodes.index(some_node)
-                    except ValueError:
-                        pass
+                for some_node, factor in zip(storage.nodes, storage.factors):
+                    # Inputs and outputs only carry the flow of routes that start and end with them
+                    if isinstance(some_node, BaseInput):
+                        in_route = route[0] is some_node
+                    elif isinstance(some_node, BaseOutput):
+                        in_route = route[-1] is some_node
                     else:
-                        try:
-                            cols[n] += storage.factors[i]
-                        except KeyError:
-                            cols[n] = storage.factors[i]
+                        in_route = some_node in route
+                    if in_route:
+                        cols[n] = cols.get(n, 0.0) + factor
 
             ind = <int*>malloc((1+len(cols)) * sizeof(int))
             val = <double*>malloc((1+len(cols)) * sizeof(double))
diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index cf0d657..c03f43a 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -363,16 +363,16 @@ cdef class CythonLPSolveSolver:
             # We need to handle the same route appearing twice here.
             cols = {}
             for n, route in enumerate(routes):
-                for some_node in route:
-                    try:
-                        i = storage.nodes.index(some_node)
-                    except ValueError:
-                        pass
+                for some_node, factor in zip(storage.nodes, storage.factors):
+                    # Inputs and outputs only carry the flow of routes that start and end with them
+                    if isinstance(some_node, BaseInput):
+                        in_route = route[0] is some_node
+                    elif isinstance(some_node, BaseOutput):
+                        in_route = route[-1] is some_node
                     else:
-                        try:
-                            cols[n] += storage.factors[i]
-                        except KeyError:
-                            cols[n] = storage.factors[i]
+                        in_route = some_node in route
+                    if in_route:
+                        cols[n] = cols.get(n, 0.0) + factor
 
             ind = <int*>malloc((len(cols)) * sizeof(int))
             val = <double*>malloc((len(cols)) * sizeof(double))
-- 
2.43.0


From d91229467ba960c88380ecfc45adb96e8d37ca7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:26 +0000
Subject: [PATCH 75/95] fix: costs, limits and factors that the GLPK solvers
 set once are those of the current run

---
 pywr/solvers/cython_glpk.pyx | 174 ++++++++++++++++++-----------------
 1 file changed, 89 insertions(+), 85 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index 001784e..2afe813 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -425,15 +425,10 @@ cdef class CythonGLPKSolver(GLPKSolver):
         # Find cross-domain routes
         cross_domain_routes = model.find_all_routes(BaseOutput, BaseInput, max_length=2, domain_match='different')
 
-        nodes_with_dynamic_cost = []  # Only these nodes' costs are updated each timestep
         non_storages = []
-        non_storages_with_dynamic_bounds = []  # These nodes' constraints are updated each timestep
-        non_storages_with_constant_bounds = []  # These nodes' constraints are updated only at reset
         storages = []
         virtual_storages = []
         aggregated_with_factors = []
-        aggregated_with_dynamic_factors = []
-        aggregated_with_constant_factors = []
         aggregated = []
 
         for some_node in self.all_nodes:
@@ -496,21 +491,6 @@ cdef class CythonGLPKSolver(GLPKSolver):
         if len(cross_domain_cols) > 0:
             self.idx_row_cross_domain = glp_add_rows(self.prob, len(cross_domain_cols))
 
-        # Calculate the fixed costs
-        for some_node in self.all_nodes:
-            try:
-                fixed_cost = some_node.has_fixed_cost
-            except AttributeError:
-                fixed_cost = False
-
-            if self.set_fixed_costs_once and fixed_cost:
-                # With a fixed cost this should work with no scenario index
-                cost = some_node.get_cost(None)
-                data = some_node._AbstractNode__data
-                self.node_costs_arr[data.id] = cost
-            else:
-                nodes_with_dynamic_cost.append(some_node)
-
         cross_domain_row = 0
         for row, node in enumerate(non_storages):
             node._AbstractNode__data.row = row
@@ -543,12 +523,6 @@ cdef class CythonGLPKSolver(GLPKSolver):
             finally:
                 free(ind)
                 free(val)
-            # Now test whether this node has fixed flow constraints
-            if self.set_fixed_flows_once and node.has_constant_flows:
-                non_storages_with_constant_bounds.append(node)
-            else:
-                non_storages_with_dynamic_bounds.append(node)
-
             # Add constraint for cross-domain routes
             # i.e. those from a demand to a supply
             if node in cross_domain_cols:
@@ -675,12 +649,6 @@ cdef class CythonGLPKSolver(GLPKSolver):
                 # Always use the safe API in setup
                 set_row_bnds_safe(self.prob, row+n, GLP_FX, 0.0, 0.0)
 
-            # Determine whether the factors should be updated in reset or at each time-step
-            if self.set_fixed_factors_once and agg_node.has_constant_factors:
-                aggregated_with_constant_factors.append(agg_node)
-            else:
-                aggregated_with_dynamic_factors.append(agg_node)
-
         # aggregated node min/max flow constraints
         if aggregated:
             self.idx_row_aggregated_min_max = glp_add_rows(self.prob, len(aggregated))
@@ -742,15 +710,10 @@ cdef class CythonGLPKSolver(GLPKSolver):
 
         self.routes = routes
         self.non_storages = non_storages
-        self.non_storages_with_constant_bounds = non_storages_with_constant_bounds
-        self.non_storages_with_dynamic_bounds = non_storages_with_dynamic_bounds
-        self.nodes_with_dynamic_cost = nodes_with_dynamic_cost
         self.storages = storages
         self.virtual_storages = virtual_storages
         self.aggregated = aggregated
         self.aggregated_with_factors = aggregated_with_factors
-        self.aggregated_with_dynamic_factors = aggregated_with_dynamic_factors
-        self.aggregated_with_constant_factors = aggregated_with_constant_factors
 
         self.basis_manager.init_basis(self.prob, len(model.scenarios.combinations))
         self.is_first_solve = True
@@ -774,9 +737,48 @@ cdef class CythonGLPKSolver(GLPKSolver):
     def reset(self):
         # Resetting this triggers a crashing of a new basis in each scenario
         self.is_first_solve = True
+        self._find_fixed_nodes()
         self._update_nonstorage_constant_bounds()
         self._update_constant_agg_factors()
 
+    cdef int _find_fixed_nodes(self) except -1:
+        """Find the nodes whose costs, bounds and factors are only set at reset.
+
+        These may have been given other values, or parameters, since the last run.
+        """
+        if self.non_storages is None:
+            return 0
+        self.nodes_with_dynamic_cost = []  # Only these nodes' costs are updated each timestep
+        for some_node in self.all_nodes:
+            try:
+                fixed_cost = some_node.has_fixed_cost
+            except AttributeError:
+                fixed_cost = False
+
+            if self.set_fixed_costs_once and fixed_cost:
+                # With a fixed cost this should work with no scenario index
+                cost = some_node.get_cost(None)
+                data = some_node._AbstractNode__data
+                self.node_costs_arr[data.id] = cost
+            else:
+                self.nodes_with_dynamic_cost.append(some_node)
+
+        self.non_storages_with_dynamic_bounds = []  # These nodes' constraints are updated each timestep
+        self.non_storages_with_constant_bounds = []  # These nodes' constraints are updated only at reset
+        for node in self.non_storages:
+            if self.set_fixed_flows_once and node.has_constant_flows:
+                self.non_storages_with_constant_bounds.append(node)
+            else:
+                self.non_storages_with_dynamic_bounds.append(node)
+
+        self.aggregated_with_dynamic_factors = []
+        self.aggregated_with_constant_factors = []
+        for agg_node in self.aggregated_with_factors:
+            if self.set_fixed_factors_once and agg_node.has_constant_factors:
+                self.aggregated_with_constant_factors.append(agg_node)
+            else:
+                self.aggregated_with_dynamic_factors.append(agg_node)
+
     cdef int _update_nonstorage_constant_bounds(self) except -1:
         """Update the bounds of non-storage where they are constants.
 
@@ -1208,16 +1210,11 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
         # Find cross-domain routes
         cross_domain_routes = model.find_all_routes(BaseOutput, BaseInput, max_length=2, domain_match='different')
 
-        nodes_with_dynamic_cost = []
         link_nodes = []
         non_storages = []
-        non_storages_with_dynamic_bounds = []  # These nodes' constraints are updated each timestep
-        non_storages_with_constant_bounds = []  # These nodes' constraints are updated only at reset
         storages = []
         virtual_storages = []
         aggregated_with_factors = []
-        aggregated_with_dynamic_factors = []
-        aggregated_with_constant_factors = []
         aggregated = []
 
         for some_node in self.all_nodes:
@@ -1281,32 +1278,6 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
         if len(cross_domain_cols) > 0:
             self.idx_row_cross_domain = glp_add_rows(self.prob, len(cross_domain_cols))
 
-        self.edge_fixed_cost_arr[...] = 0.0
-        # Calculate fixed costs
-        for some_node in self.all_nodes:
-            try:
-                fixed_cost = some_node.has_fixed_cost
-            except AttributeError:
-                fixed_cost = False
-
-            if self.set_fixed_costs_once and fixed_cost:
-                # With a fixed cost this should work with no scenario index
-                cost = some_node.get_cost(None)
-                data = some_node._AbstractNode__data
-
-                # Link nodes have edges connected upstream & downstream. We apply
-                # half the cost assigned to the node to all the connected edges.
-                # The edge costs are then the mean of the node costs at either end.
-                if data.is_link:
-                    cost /= 2
-
-                for col in data.in_edges:
-                    self.edge_fixed_cost_arr[col] += cost
-                for col in data.out_edges:
-                    self.edge_fixed_cost_arr[col] += cost
-            else:
-                nodes_with_dynamic_cost.append(some_node)
-
         cross_domain_row = 0
         for row, node in enumerate(non_storages):
             node._AbstractNode__data.row = row
@@ -1347,12 +1318,6 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                 free(ind)
                 free(val)
 
-            # Now test whether this node has constant flow constraints
-            if self.set_fixed_flows_once and node.has_constant_flows:
-                non_storages_with_constant_bounds.append(node)
-            else:
-                non_storages_with_dynamic_bounds.append(node)
-
             # Add constraint for cross-domain routes
             # i.e. those from a demand to a supply
             if node in cross_domain_cols:
@@ -1509,12 +1474,6 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                 # Always use safe API in setup
                 set_row_bnds_safe(self.prob, row+n, GLP_FX, 0.0, 0.0)
 
-            # Determine whether the factors should be updated in reset or at each time-step
-            if self.set_fixed_factors_once and agg_node.has_constant_factors:
-                aggregated_with_constant_factors.append(agg_node)
-            else:
-                aggregated_with_dynamic_factors.append(agg_node)
-
         # aggregated node min/max flow constraints
         if aggregated:
             self.idx_row_aggregated_min_max = glp_add_rows(self.prob, len(aggregated))
@@ -1555,15 +1514,10 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                 free(val)
 
         self.non_storages = non_storages
-        self.non_storages_with_dynamic_bounds = non_storages_with_dynamic_bounds
-        self.non_storages_with_constant_bounds = non_storages_with_constant_bounds
-        self.nodes_with_dynamic_cost = nodes_with_dynamic_cost
         self.storages = storages
         self.virtual_storages = virtual_storages
         self.aggregated = aggregated
         self.aggregated_with_factors = aggregated_with_factors
-        self.aggregated_with_dynamic_factors = aggregated_with_dynamic_factors
-        self.aggregated_with_constant_factors = aggregated_with_constant_factors
 
         self.basis_manager.init_basis(self.prob, len(model.scenarios.combinations))
         self.is_first_solve = True
@@ -1587,9 +1541,59 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
     def reset(self):
         # Resetting this triggers a crashing of a new basis in each scenario
         self.is_first_solve = True
+        self._find_fixed_nodes()
         self._update_nonstorage_constant_bounds()
         self._update_constant_agg_factors()
 
+    cdef int _find_fixed_nodes(self) except -1:
+        """Find the nodes whose costs, bounds and factors are only set at reset.
+
+        These may have been given other values, or parameters, since the last run.
+        """
+        if self.non_storages is None:
+            return 0
+        self.edge_fixed_cost_arr[...] = 0.0
+        self.nodes_with_dynamic_cost = []
+        for some_node in self.all_nodes:
+            try:
+                fixed_cost = some_node.has_fixed_cost
+            except AttributeError:
+                fixed_cost = False
+
+            if self.set_fixed_costs_once and fixed_cost:
+                # With a fixed cost this should work with no scenario index
+                cost = some_node.get_cost(None)
+                data = some_node._AbstractNode__data
+
+                # Link nodes have edges connected upstream & downstream. We apply
+                # half the cost assigned to the node to all the connected edges.
+                # The edge costs are then the mean of the node costs at either end.
+                if data.is_link:
+                    cost /= 2
+
+                for col in data.in_edges:
+                    self.edge_fixed_cost_arr[col] += cost
+                for col in data.out_edges:
+                    self.edge_fixed_cost_arr[col] += cost
+            else:
+                self.nodes_with_dynamic_cost.append(some_node)
+
+        self.non_storages_with_dynamic_bounds = []  # These nodes' constraints are updated each timestep
+        self.non_storages_with_constant_bounds = []  # These nodes' constraints are updated only at reset
+        for node in self.non_storages:
+            if self.set_fixed_flows_once and node.has_constant_flows:
+                self.non_storages_with_constant_bounds.append(node)
+            else:
+                self.non_storages_with_dynamic_bounds.append(node)
+
+        self.aggregated_with_dynamic_factors = []
+        self.aggregated_with_constant_factors = []
+        for agg_node in self.aggregated_with_factors:
+            if self.set_fixed_factors_once and agg_node.has_constant_factors:
+                self.aggregated_with_constant_factors.append(agg_node)
+            else:
+                self.aggregated_with_dynamic_factors.append(agg_node)
+
     cdef int _update_nonstorage_constant_bounds(self) except -1:
         """Update the bounds of non-storage where they are constants.
         
-- 
2.43.0


From ecf25aea899e3b10d43b407062c5e948b60991e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 76/95] fix: removing a node removes the parameters that it
 made for itself

---
 pywr/_model.pyx             | 5 +++++
 pywr/domains/groundwater.py | 2 ++
 pywr/domains/river.py       | 4 ++++
 pywr/nodes.py               | 1 +
 4 files changed, 12 insertions(+)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 8617714..3f18812 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -982,6 +982,11 @@ class NodeIterator(object):
         for node2 in nodes_to_delete:
             del(self[node2])
         self.model.graph.remove_node(node)
+        # remove the parameters that the node has created for its own use
+        graph = self.model.component_graph
+        for component in reversed(getattr(node, "_own_components", ())):
+            if component in graph and not graph.out_degree(component):
+                graph.remove_node(component)
         self.model.dirty = True
 
     def keys(self):
diff --git a/pywr/domains/groundwater.py b/pywr/domains/groundwater.py
index 4175f5e..5c96e3d 100644
--- a/pywr/domains/groundwater.py
+++ b/pywr/domains/groundwater.py
@@ -103,12 +103,14 @@ class KeatingAquifer(Storage):
         self.min_volume = min(volumes)
 
         self.level = InterpolatedVolumeParameter(model, self, volumes, levels)
+        self._own_components = [self.level]
 
         # initialise streamflow parameters
         for n, node in enumerate(self.inputs[0:num_streams]):
             parameter = KeatingStreamFlowParameter(
                 model, self, stream_flow_levels[n], transmissivity, coefficient
             )
+            self._own_components.append(parameter)
             node.max_flow = parameter
             node.min_flow = parameter
 
diff --git a/pywr/domains/river.py b/pywr/domains/river.py
index bd7a3f6..77444fa 100644
--- a/pywr/domains/river.py
+++ b/pywr/domains/river.py
@@ -74,13 +74,16 @@ class Reservoir(RiverDomainMixin, Storage):
         control_curve = pop_kwarg_parameter(kwargs, "control_curve", None)
         above_curve_cost = kwargs.pop("above_curve_cost", None)
         cost = kwargs.pop("cost", 0.0)
+        self._own_components = []
         if above_curve_cost is not None:
             if control_curve is None:
                 # Make a default control curve at 100% capacity
                 control_curve = ConstantParameter(model, 1.0)
+                self._own_components.append(control_curve)
             elif not isinstance(control_curve, Parameter):
                 # Assume parameter is some kind of constant and coerce to ConstantParameter
                 control_curve = ConstantParameter(model, control_curve)
+                self._own_components.append(control_curve)
 
             if not isinstance(cost, Parameter):
                 # In the case where an above_curve_cost is given and cost is not a Parameter
@@ -88,6 +91,7 @@ class Reservoir(RiverDomainMixin, Storage):
                 kwargs["cost"] = ControlCurveParameter(
                     model, self, control_curve, [above_curve_cost, cost]
                 )
+                self._own_components.append(kwargs["cost"])
             else:
                 raise ValueError(
                     "If an above_curve_cost is given cost must not be a Parameter."
diff --git a/pywr/nodes.py b/pywr/nodes.py
index ba9d330..8b8f950 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1289,6 +1289,7 @@ class DelayNode(Node):
             initial_flow=initial_flow,
             name=param_name,
         )
+        self._own_components = [self.delay_param]
         self.input = Input(
             model,
             name=input_name,
-- 
2.43.0


From 1ee2f804fe27532418cc914a00aac80b6d0071c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 77/95] fix: the constants that an aggregated node made for its
 factors are removed with them

---
 pywr/_core.pxd  |  1 +
 pywr/_core.pyx  | 16 +++++++++++++---
 pywr/_model.pyx |  2 ++
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pywr/_core.pxd b/pywr/_core.pxd
index 51553e3..ab31a06 100644
--- a/pywr/_core.pxd
+++ b/pywr/_core.pxd
@@ -97,6 +97,7 @@ cdef class Node(AbstractNode):
 cdef class AggregatedNode(AbstractNode):
     cdef list _nodes
     cdef list _factors
+    cdef list _own_factors
     cdef double[:] _flow_weights
     cdef double _max_flow
     cdef double _min_flow
diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index c03fd9c..bb7d21b 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -806,17 +806,27 @@ cdef class AggregatedNode(AbstractNode):
                 for factor in self._factors:
                     factor.parents.remove(self)
 
+            own_factors = []
             if values is None:
                 factors = None
             else:
                 factors = []
                 for val in values:
                     if isinstance(val, (int, float)):
-                        factors.append(ConstantParameter(self.model, val))
-                    else:
-                        factors.append(val)
+                        val = ConstantParameter(self.model, val)
+                        own_factors.append(val)
+                    elif self._own_factors and val in self._own_factors:
+                        own_factors.append(val)
+                    factors.append(val)
+
+            # The previous constants are of no further use
+            graph = self.model.component_graph
+            for val in self._own_factors or ():
+                if val not in own_factors and val in graph and not graph.out_degree(val):
+                    graph.remove_node(val)
 
             self._factors = factors
+            self._own_factors = own_factors
             self.model.dirty = True
 
     property has_fixed_factors:
diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 3f18812..3cc2df8 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -983,6 +983,8 @@ class NodeIterator(object):
             del(self[node2])
         self.model.graph.remove_node(node)
         # remove the parameters that the node has created for its own use
+        if isinstance(node, AggregatedNode):
+            node.factors = None
         graph = self.model.component_graph
         for component in reversed(getattr(node, "_own_components", ())):
             if component in graph and not graph.out_degree(component):
-- 
2.43.0


From a9370e8717e6207f3c012c92492c53fefdc8213d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:22 +0000
Subject: [PATCH 78/95] fix: the maximum flow of a loss link is not lost when
 all of its flow is

---
 pywr/nodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 8b8f950..e9f36b3 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1379,10 +1379,11 @@ class LossLink(Node):
             self.output.max_flow = 0.0
         elif value == 1.0 and self.loss_factor_type == "gross":
             # 100% loss; all flow to the output loss node
-            self.agg.factors = None
+            self.agg.nodes = [self.net, self.output]
+            self.agg.factors = [0.0, 1.0]
             self.output.max_flow = float("inf")
-            self.net.max_flow = 0.0
         else:
+            self.agg.nodes = [self.output, self.net]
             self.output.max_flow = float("inf")
             if self.loss_factor_type == "net":
                 self.agg.factors = [value, 1.0]
-- 
2.43.0


From 3816c82edac1ba2f3f43b374a65d869f26d98a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:22 +0000
Subject: [PATCH 79/95] fix: scenario combinations that were given before a
 further scenario are rejected

---
 pywr/_core.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index bb7d21b..a3f1b8a 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -119,6 +119,8 @@ cdef class ScenarioCollection:
         """
         cdef Scenario scenario
         cdef int i
+        if self._user_combinations is not None and self._user_combinations.shape[1] != len(self._scenarios):
+            raise ValueError('User defined combinations must have shape (N, S) where S in number of Scenarios')
         if len(self._scenarios) == 0:
             # model has no scenarios defined, implicitly has 1 scenario of size 1
             combinations = [ScenarioIndex(0, np.array([0], dtype=np.int32))]
-- 
2.43.0


From 9a8b558cd9562d6d3e3e37658d600e5c7794bc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 80/95] fix: the time step length of a multi-model document
 applies to its sub-models

---
 pywr/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/model.py b/pywr/model.py
index 71d92e7..831a54d 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -159,7 +159,7 @@ class MultiModel:
 
             sub_model.timestepper.start = timestepper_data["start"]
             sub_model.timestepper.end = timestepper_data["end"]
-            sub_model.timestepper.timestep = timestepper_data["timestep"]
+            sub_model.timestepper.delta = timestepper_data["timestep"]
             model.add_model(sub_model_name, sub_model)
 
         return model
-- 
2.43.0


From 19b8640536f8e0537ebbee5f31c7df9a1f40aa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 81/95] fix: the solver given to MultiModel.load is used

---
 pywr/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/model.py b/pywr/model.py
index 831a54d..0a69fc3 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -84,7 +84,7 @@ class MultiModel:
             data = data.read()
             return cls.loads(data, model, path, solver)
 
-        return cls.load_from_dict(data, model=model, path=path, solver=None)
+        return cls.load_from_dict(data, model=model, path=path, solver=solver)
 
     @classmethod
     def _load_from_dict(cls, *args, **kwargs) -> "MultiModel":
-- 
2.43.0


From fb511eba5deb5a465876b7ff53b96403b1afedbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:31 +0000
Subject: [PATCH 82/95] fix: sub-models with a different number of time steps
 are reported

---
 pywr/model.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pywr/model.py b/pywr/model.py
index 0a69fc3..ef84a9d 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -1,3 +1,4 @@
+import itertools
 import warnings
 from io import IOBase
 from pathlib import Path
@@ -253,10 +254,13 @@ class MultiModel:
             t1 = time.time()
 
             # Begin time-stepping
-            for timesteps in zip(*timesteppers):
+            for timesteps in itertools.zip_longest(*timesteppers):
                 for model, timestep in zip(self.models.values(), timesteps):
-                    # Check all timesteps are the same
-                    if timestep.datetime != timesteps[0].datetime:
+                    # Check all timesteps are the same, and that all sub-models have one
+                    if (
+                        None in timesteps
+                        or timestep.datetime != timesteps[0].datetime
+                    ):
                         raise RuntimeError(
                             "Timesteps are not synchronised across all sub-models."
                         )
-- 
2.43.0


From 9441dfed1eac2a9daa560debae2cdaa998cd6977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:31 +0000
Subject: [PATCH 83/95] fix: a parameter that has not been evaluated yet has
 the value zero instead of an arbitrary one

---
 pywr/parameters/_parameters.pyx | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index f3a1e4f..ca0c4ab 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -63,7 +63,13 @@ cdef class Parameter(Component):
             num_comb = len(self.model.scenarios.combinations)
         else:
             num_comb = 1
-        self._Parameter__values = np.empty([num_comb], np.float64)
+        self._Parameter__values = np.zeros([num_comb], np.float64)
+
+    cpdef reset(self):
+        super(Parameter, self).reset()
+        # The values of a previous run may be used before there are any of this one (e.g. by another sub-model)
+        if self._Parameter__values is not None:
+            self._Parameter__values[:] = 0.0
 
     cpdef double value(self, Timestep ts, ScenarioIndex scenario_index) except? -1:
         raise NotImplementedError("Parameter must be subclassed")
@@ -1212,7 +1218,12 @@ cdef class IndexParameter(Parameter):
             num_comb = len(self.model.scenarios.combinations)
         else:
             num_comb = 1
-        self._IndexParameter__indices = np.empty([num_comb], np.int32)
+        self._IndexParameter__indices = np.zeros([num_comb], np.int32)
+
+    cpdef reset(self):
+        super(IndexParameter, self).reset()
+        if self._IndexParameter__indices is not None:
+            self._IndexParameter__indices[:] = 0
 
     cdef calc_values(self, Timestep timestep):
         cdef ScenarioIndex scenario_index
-- 
2.43.0


From e97f6f3435f6651eaa068a007772e7f5b366162c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:31 +0000
Subject: [PATCH 84/95] fix: a bisection between infinite bounds, which never
 ends, is rejected

---
 pywr/utils/bisect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywr/utils/bisect.py b/pywr/utils/bisect.py
index 52df52c..c4bc89e 100644
--- a/pywr/utils/bisect.py
+++ b/pywr/utils/bisect.py
@@ -69,6 +69,8 @@ class BisectionSearchModel(Model):
         # Use the bounds of the parameter for the bisection search space
         min_value = param.get_double_lower_bounds()[0]
         max_value = param.get_double_upper_bounds()[0]
+        if not (np.isfinite(min_value) and np.isfinite(max_value)):
+            raise ValueError("The bounds of the bisection parameter must be finite.")
         if min_value >= max_value:
             raise ValueError(
                 "Minimum bounds of the bisection parameter must be strictly greater than its "
-- 
2.43.0


From b63b322e423b306a5fe2a7f045d8e92c811f4205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:31 +0000
Subject: [PATCH 85/95] fix: a bisection ends when its bounds can not get any
 closer

---
 pywr/utils/bisect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywr/utils/bisect.py b/pywr/utils/bisect.py
index c4bc89e..9889371 100644
--- a/pywr/utils/bisect.py
+++ b/pywr/utils/bisect.py
@@ -89,6 +89,8 @@ class BisectionSearchModel(Model):
         while (max_value - min_value) > self.bisect_epsilon:
             # Compute the current value to try as the middle of the bounds
             current_value = (max_value + min_value) / 2
+            if not min_value < current_value < max_value:
+                break  # There is no number between the bounds
             logger.debug(
                 f"Performing bisection run with value: {current_value:.4f}; "
                 f"bounds [{min_value:.4f}, {max_value:.4f}]"
-- 
2.43.0


From 9bbc1aaaafb010afa20a2ff53bcb818c56bd67f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:31 +0000
Subject: [PATCH 86/95] fix: a bisection finds that only its lower bound is
 feasible

---
 pywr/utils/bisect.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pywr/utils/bisect.py b/pywr/utils/bisect.py
index 9889371..80691cb 100644
--- a/pywr/utils/bisect.py
+++ b/pywr/utils/bisect.py
@@ -109,7 +109,10 @@ class BisectionSearchModel(Model):
 
         # Ensure a feasible solution is found.
         if np.isneginf(best_feasible):
-            if self.error_on_infeasible:
+            # The lower bound is the only value left to try
+            param.set_double_variables(np.array([min_value]))
+            super().run()
+            if self.error_on_infeasible and not self.is_feasible():
                 raise ValueError(
                     "No feasible solutions found during bisection. Trying lowering the bounds on the "
                     "bisection parameter."
-- 
2.43.0


From e65e509040a344be4b357ed7f1adea7e47577520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:13 +0000
Subject: [PATCH 87/95] fix: delayed flows and licences have the value zero
 before they are evaluated in a further run

---
 pywr/parameters/_parameters.pyx | 1 +
 pywr/parameters/licenses.py     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index ca0c4ab..f500cdb 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -2157,6 +2157,7 @@ cdef class FlowDelayParameter(Parameter):
         self._memory_pointer = 0
 
     cpdef reset(self):
+        super(FlowDelayParameter, self).reset()
         self._memory[...] = self.initial_flow
         self._memory_pointer = 0
 
diff --git a/pywr/parameters/licenses.py b/pywr/parameters/licenses.py
index 10cd0e2..4776f3b 100644
--- a/pywr/parameters/licenses.py
+++ b/pywr/parameters/licenses.py
@@ -92,6 +92,7 @@ class StorageLicense(License):
         self._remaining[self._remaining < 0] = 0.0
 
     def reset(self):
+        super(StorageLicense, self).reset()
         self._remaining[...] = self._amount
 
     @classmethod
-- 
2.43.0


From 14c6cce802762c3167620b5dfe3c0f65c14259c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:59 +0000
Subject: [PATCH 88/95] fix: models of a GLPK environment that an internal
 error has destroyed are no longer used

---
 pywr/solvers/cython_glpk.pyx | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index 2afe813..f167437 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -103,13 +103,14 @@ class GLPKInternalError(Exception):
 
 
 cdef jmp_buf error_ctx
-cdef bint has_glpk_errored = 0
+# The number of GLPK environments that have been destroyed following an error
+cdef int glpk_env_id = 0
 
 cdef void error_hook(void *info) noexcept:
     # Free GLPK memory; this will destroy the entire GLPK environment for this process
     # Potentially invalidating other models.
-    global has_glpk_errored
-    has_glpk_errored = True;
+    global glpk_env_id
+    glpk_env_id += 1
     glp_free_env();
     longjmp((<jmp_buf*>info)[0], <int>1)
 
@@ -141,13 +142,16 @@ cdef class GLPKSolver:
     cdef public bint set_fixed_flows_once
     cdef public bint set_fixed_costs_once
     cdef public bint set_fixed_factors_once
+    # The GLPK environment that `prob` is part of
+    cdef int env_id
 
     def __cinit__(self):
         self.prob = glp_create_prob()
+        self.env_id = glpk_env_id
 
     def __dealloc__(self):
         # If there's been an error the GLPK environment is destroyed and the pointer is invalid.
-        if not has_glpk_errored:
+        if self.env_id == glpk_env_id:
             glp_delete_prob(self.prob)
 
     def __init__(self, use_presolve=False, time_limit=None, iteration_limit=None, message_level="error",
@@ -171,13 +175,22 @@ cdef class GLPKSolver:
         if iteration_limit is not None:
             self.smcp.it_lim = iteration_limit
 
+    cdef int _check_env(self) except -1:
+        """Raise an error if the problem has been destroyed together with its GLPK environment"""
+        if self.env_id != glpk_env_id:
+            raise GLPKInternalError("The GLPK environment of this model has been invalidated by an earlier internal "
+                                    "GLPK error. The model needs to be recreated to continue.")
+        return 0
+
     def setup(self, model):
+        self._check_env()
         self.has_presolved = False
 
     def reset(self):
-        pass
+        self._check_env()
 
     cpdef object solve(self, model):
+        self._check_env()
         if self.use_presolve and not self.has_presolved:
             self.smcp.presolve = GLP_ON
             self.has_presolved = True
@@ -185,12 +198,15 @@ cdef class GLPKSolver:
             self.smcp.presolve = GLP_OFF
 
     cpdef dump_mps(self, filename):
+        self._check_env()
         glp_write_mps(self.prob, GLP_MPS_FILE, NULL, filename)
 
     cpdef dump_lp(self, filename):
+        self._check_env()
         glp_write_lp(self.prob, NULL, filename)
 
     cpdef dump_glpk(self, filename):
+        self._check_env()
         glp_write_prob(self.prob, 0, filename)
 
 
@@ -735,6 +751,7 @@ cdef class CythonGLPKSolver(GLPKSolver):
         }
 
     def reset(self):
+        self._check_env()
         # Resetting this triggers a crashing of a new basis in each scenario
         self.is_first_solve = True
         self._find_fixed_nodes()
@@ -1539,6 +1556,7 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
         }
 
     def reset(self):
+        self._check_env()
         # Resetting this triggers a crashing of a new basis in each scenario
         self.is_first_solve = True
         self._find_fixed_nodes()
-- 
2.43.0


From 4354ae5ca3be85d4847334b59478695e75592f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:17 +0000
Subject: [PATCH 89/95] fix: aggregated storages sum the volumes of members
 created after them at the end of the timestep

---
 pywr/_model.pyx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 3cc2df8..0de38de 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -857,7 +857,15 @@ class Model(object):
         cdef AbstractNode node
         cdef Component component
         cdef double t0 = time.time()
+        cdef list aggregated = []
         for node in self.graph.nodes():
+            if isinstance(node, AggregatedStorage):
+                aggregated.append(node)
+            else:
+                node.after(self.timestep)
+        # Aggregated storages sum the volumes at the end of the timestep of their members, which may have been
+        # created after them
+        for node in aggregated:
             node.after(self.timestep)
         cdef list components = self.flatten_component_tree(rebuild=False)
         for component in components:
-- 
2.43.0


From b68f598a72e7e013f0e060e07f92fd1380478486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:17 +0000
Subject: [PATCH 90/95] fix: an inactive virtual storage with negative factors
 does not limit flows with lpsolve

---
 pywr/solvers/cython_lpsolve.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index c03f43a..add1471 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -89,9 +89,8 @@ cdef int set_row_bnds(lprec *prob, int row, double a, double b) except -1:
         # set_rh_range(prob, row, 0.0)
     elif b == DBL_MAX:
         if a == -DBL_MAX:
+            # This also sets an infinite right hand side (any other value would act as an upper bound)
             set_constr_type(prob, row, FR)
-            set_rh(prob, row, 0.0)
-            # set_rh_range(prob, row, 0.0)
         else:
             set_constr_type(prob, row, GE)
             set_rh(prob, row, a)
-- 
2.43.0


From 02d388604ee893d2f81dc2ffd06133eed3a3745d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:09 +0000
Subject: [PATCH 91/95] fix: the rolling mean flow recorder starts afresh with
 each run, as other recorders do

---
 pywr/recorders/_recorders.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index f2ac558..3793253 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1687,6 +1687,7 @@ cdef class RollingMeanFlowNodeRecorder(NodeRecorder):
     cpdef reset(self):
         super(RollingMeanFlowNodeRecorder, self).reset()
         self.position = 0
+        self._data[:, :] = 0.0
 
     cpdef after(self):
         cdef Timestep timestep
-- 
2.43.0


From 5f711d7442e61c191e1603da2caada4a3e0d2d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:18 +0000
Subject: [PATCH 92/95] fix: a changed loss factor of a LossLink takes effect
 on the next run

---
 pywr/nodes.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index e9f36b3..a516fe0 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1369,6 +1369,19 @@ class LossLink(Node):
 
         super().__init__(model, name, **kwargs)
 
+    def loss_factor():
+        def fget(self):
+            return self._loss_factor
+
+        def fset(self, value):
+            self._loss_factor = value
+            # The factors of the sub-nodes are set during setup
+            self.net.model.dirty = True
+
+        return locals()
+
+    loss_factor = property(**loss_factor())
+
     def setup(self, model):
         super().setup(model)
         value = self.loss_factor
-- 
2.43.0


From 6f612c869f75b68b07b6c977f0c6813e3a71fa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:18 +0000
Subject: [PATCH 93/95] fix: changed data of a DataFrameParameter takes effect
 on the next run

---
 pywr/parameters/_parameters.pxd | 2 +-
 pywr/parameters/_parameters.pyx | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pywr/parameters/_parameters.pxd b/pywr/parameters/_parameters.pxd
index 6050684..7eabd45 100644
--- a/pywr/parameters/_parameters.pxd
+++ b/pywr/parameters/_parameters.pxd
@@ -39,7 +39,7 @@ cdef class DataFrameParameter(Parameter):
     cdef public Scenario scenario
     cdef int _scenario_index
     cdef int[:] _scenario_ids
-    cdef public object dataframe
+    cdef object _dataframe
     cdef public int timestep_offset
 
 cdef class ArrayIndexedParameter(Parameter):
diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index f500cdb..0d29bb3 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -216,6 +216,15 @@ cdef class DataFrameParameter(Parameter):
         self.scenario = scenario
         self.timestep_offset = timestep_offset
 
+    property dataframe:
+        def __get__(self):
+            return self._dataframe
+
+        def __set__(self, value):
+            self._dataframe = value
+            # The data is aligned to the timesteps of the model during setup
+            self.model.dirty = True
+
     cpdef setup(self):
         cdef Py_ssize_t i
         super(DataFrameParameter, self).setup()
-- 
2.43.0


From 8a444c8b7d74b5526a76d5c9f17cdeec97bc7f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:18 +0000
Subject: [PATCH 94/95] fix: a changed number of timesteps of a rolling or
 delaying component takes effect on the next run

---
 pywr/_core.pxd                  |  2 +-
 pywr/_core.pyx                  | 19 ++++++---
 pywr/parameters/_parameters.pxd |  8 ++--
 pywr/parameters/_parameters.pyx | 74 ++++++++++++++++++++++++---------
 4 files changed, 73 insertions(+), 30 deletions(-)

diff --git a/pywr/_core.pxd b/pywr/_core.pxd
index ab31a06..24e1757 100644
--- a/pywr/_core.pxd
+++ b/pywr/_core.pxd
@@ -155,7 +155,7 @@ cdef class VirtualStorage(Storage):
     cdef public bint active
 
 cdef class RollingVirtualStorage(VirtualStorage):
-    cdef public int timesteps
+    cdef int _timesteps
     cdef double[:, :] _memory
     cdef int _memory_pointer
     cdef double _initial_utilisation
diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index a3f1b8a..dbc7860 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -1544,10 +1544,19 @@ cdef class RollingVirtualStorage(VirtualStorage):
     def __cinit__(self):
         self._memory_pointer = 0
 
+    property timesteps:
+        def __get__(self):
+            return self._timesteps
+
+        def __set__(self, value):
+            self._timesteps = value
+            # The memory is made during setup
+            self.model.dirty = True
+
     cpdef setup(self, model):
         super(RollingVirtualStorage, self).setup(model)
         cdef int ncomb = len(model.scenarios.combinations)
-        if self.timesteps < 2:
+        if self._timesteps < 2:
             raise ValueError('The number of time-steps for a RollingVirtualStorage node must be greater than one.')
         cdef double initial_vol = self.get_initial_volume()
         cdef double initial_pc = self.get_initial_pc()
@@ -1555,10 +1564,10 @@ cdef class RollingVirtualStorage(VirtualStorage):
         if initial_pc == 0.0:
             if isinstance(self.max_volume, Parameter):
                 raise ValueError("`max_volume` cannot be a parameter if `initial_volume` or `initial_volume_pc` is 0.0")
-            self._initial_utilisation = self._max_volume / (self.timesteps - 1)
+            self._initial_utilisation = self._max_volume / (self._timesteps - 1)
         else:
-            self._initial_utilisation = ((initial_vol / initial_pc) - initial_vol) / (self.timesteps - 1)
-        self._memory = np.full((self.timesteps-1, ncomb), self._initial_utilisation, dtype=np.float64)
+            self._initial_utilisation = ((initial_vol / initial_pc) - initial_vol) / (self._timesteps - 1)
+        self._memory = np.full((self._timesteps-1, ncomb), self._initial_utilisation, dtype=np.float64)
         self._memory_pointer = 0
 
     cpdef reset(self):
@@ -1580,7 +1589,7 @@ cdef class RollingVirtualStorage(VirtualStorage):
             # Flow is negative in VirtualStorage to remove from the store, save the +ve number here for
             # returning to the store later
             self._memory[self._memory_pointer, i] = -self._flow[i] * ts.days
-        self._memory_pointer = (self._memory_pointer + 1) % (self.timesteps - 1)
+        self._memory_pointer = (self._memory_pointer + 1) % (self._timesteps - 1)
 
 
 cdef class ShadowStorage(AbstractStorage):
diff --git a/pywr/parameters/_parameters.pxd b/pywr/parameters/_parameters.pxd
index 7eabd45..bf503aa 100644
--- a/pywr/parameters/_parameters.pxd
+++ b/pywr/parameters/_parameters.pxd
@@ -218,8 +218,8 @@ cdef class PiecewiseIntegralParameter(Parameter):
 
 cdef class FlowDelayParameter(Parameter):
     cdef public AbstractNode node
-    cdef public int days
-    cdef public int timesteps
+    cdef int _days
+    cdef int _timesteps
     cdef public double initial_flow
     cdef double[:, :] _memory
     cdef public int _memory_pointer
@@ -231,8 +231,8 @@ cdef class DiscountFactorParameter(Parameter):
 
 cdef class RollingMeanFlowNodeParameter(Parameter):
     cdef int position
-    cdef public int timesteps
-    cdef public int days
+    cdef int _timesteps
+    cdef int _days
     cdef public double initial_flow
     cdef public AbstractNode node
     cdef double[:, :] _memory
diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 0d29bb3..2a15f69 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -2146,23 +2146,40 @@ cdef class FlowDelayParameter(Parameter):
 
     def __init__(self, model, node, *args, **kwargs):
         self.node = node
-        self.timesteps = kwargs.pop('timesteps', 0)
-        self.days = kwargs.pop('days', 0)
+        self._timesteps = kwargs.pop('timesteps', 0)
+        self._days = kwargs.pop('days', 0)
         self.initial_flow = kwargs.pop('initial_flow', 0.0)
         super().__init__(model, *args, **kwargs)
 
+    property timesteps:
+        def __get__(self):
+            return self._timesteps
+
+        def __set__(self, value):
+            self._timesteps = value
+            # The memory is made during setup
+            self.model.dirty = True
+
+    property days:
+        def __get__(self):
+            return self._days
+
+        def __set__(self, value):
+            self._days = value
+            self.model.dirty = True
+
     cpdef setup(self):
         super(FlowDelayParameter, self).setup()
         cdef int r
-        if self.days > 0:
-            r = self.days % self.model.timestepper.delta
+        if self._days > 0:
+            r = self._days % self.model.timestepper.delta
             if r == 0:
-                self.timesteps = self.days / self.model.timestepper.delta
+                self._timesteps = self._days / self.model.timestepper.delta
             else:
                 raise ValueError('The delay defined as number of days is not exactly divisible by the timestep delta.')
-        if self.timesteps < 1:
+        if self._timesteps < 1:
             raise ValueError('The number of time-steps for a FlowDelayParameter node must be greater than one.')
-        self._memory = np.zeros((self.timesteps,  len(self.model.scenarios.combinations)))
+        self._memory = np.zeros((self._timesteps,  len(self.model.scenarios.combinations)))
         self._memory_pointer = 0
 
     cpdef reset(self):
@@ -2176,8 +2193,8 @@ cdef class FlowDelayParameter(Parameter):
     cpdef after(self):
         for i in range(self._memory.shape[1]):
             self._memory[self._memory_pointer, i] = self.node._flow[i]
-        if self.timesteps > 1:
-            self._memory_pointer = (self._memory_pointer + 1) % self.timesteps
+        if self._timesteps > 1:
+            self._memory_pointer = (self._memory_pointer + 1) % self._timesteps
 
     @classmethod
     def load(cls, model, data):
@@ -2239,26 +2256,43 @@ cdef class RollingMeanFlowNodeParameter(Parameter):
         if not timesteps and not days:
             raise ValueError("Either `timesteps` or `days` must be specified.")
         if timesteps:
-            self.timesteps = int(timesteps)
+            self._timesteps = int(timesteps)
         else:
-            self.timesteps = 0
+            self._timesteps = 0
         if days:
-            self.days = int(days)
+            self._days = int(days)
         else:
-            self.days = 0
+            self._days = 0
         self._memory = None
         self.position = 0
 
+    property timesteps:
+        def __get__(self):
+            return self._timesteps
+
+        def __set__(self, value):
+            self._timesteps = value
+            # The memory is made during setup
+            self.model.dirty = True
+
+    property days:
+        def __get__(self):
+            return self._days
+
+        def __set__(self, value):
+            self._days = value
+            self.model.dirty = True
+
     cpdef setup(self):
         super(RollingMeanFlowNodeParameter, self).setup()
-        if self.days > 0:
+        if self._days > 0:
             try:
-                self.timesteps = self.days // self.model.timestepper.delta
+                self._timesteps = self._days // self.model.timestepper.delta
             except TypeError:
                 raise TypeError('A rolling window defined as a number of days is only valid with daily time-steps.')
-        if self.timesteps == 0:
+        if self._timesteps == 0:
             raise ValueError("Timesteps is less than 1.")
-        self._memory = np.zeros([len(self.model.scenarios.combinations), self.timesteps])
+        self._memory = np.zeros([len(self.model.scenarios.combinations), self._timesteps])
 
     cpdef reset(self):
         super(RollingMeanFlowNodeParameter, self).reset()
@@ -2273,10 +2307,10 @@ cdef class RollingMeanFlowNodeParameter(Parameter):
             return self.initial_flow
 
         # Calculate the mean flow from the memory
-        if ts.index <= self.timesteps:
+        if ts.index <= self._timesteps:
             n = ts.index
         else:
-            n = self.timesteps
+            n = self._timesteps
         return np.mean(self._memory[scenario_index.global_id, :n])
 
     cpdef after(self):
@@ -2287,7 +2321,7 @@ cdef class RollingMeanFlowNodeParameter(Parameter):
 
         # prepare for the next timestep
         self.position += 1
-        if self.position >= self.timesteps:
+        if self.position >= self._timesteps:
             self.position = 0
 
     @classmethod
-- 
2.43.0


From 0ac060d60d917ef7a51240c398bb4b63e452f3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:10 +0000
Subject: [PATCH 95/95] fix: the initial utilisation of a RollingVirtualStorage
 is that of its volumes at the start of each run

---
 pywr/_core.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index dbc7860..9e8d5ac 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -1558,6 +1558,11 @@ cdef class RollingVirtualStorage(VirtualStorage):
         cdef int ncomb = len(model.scenarios.combinations)
         if self._timesteps < 2:
             raise ValueError('The number of time-steps for a RollingVirtualStorage node must be greater than one.')
+        self._memory = np.empty((self._timesteps-1, ncomb), dtype=np.float64)
+        self._memory_pointer = 0
+
+    cpdef reset(self):
+        VirtualStorage.reset(self)
         cdef double initial_vol = self.get_initial_volume()
         cdef double initial_pc = self.get_initial_pc()
 
@@ -1567,11 +1572,6 @@ cdef class RollingVirtualStorage(VirtualStorage):
             self._initial_utilisation = self._max_volume / (self._timesteps - 1)
         else:
             self._initial_utilisation = ((initial_vol / initial_pc) - initial_vol) / (self._timesteps - 1)
-        self._memory = np.full((self._timesteps-1, ncomb), self._initial_utilisation, dtype=np.float64)
-        self._memory_pointer = 0
-
-    cpdef reset(self):
-        VirtualStorage.reset(self)
         self._memory[:] = self._initial_utilisation
         self._memory_pointer = 0
 
-- 
2.43.0

