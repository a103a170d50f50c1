From 323740605a81e8dccd250bf5ebd864bfc7a871cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 01/35] fix: run in default_execution_id when no execution_id
 is given

Scheduler(..., default_execution_id='x').run() used the context None and
raised SchedulerError because None had never been initialized.
---
 src/graph_scheduler/scheduler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index d4d4edb..b2ec834 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -856,7 +856,7 @@ class Scheduler:
     def run(
         self,
         termination_conds=None,
-        execution_id=None,
+        execution_id=NotImplemented,
         base_execution_id=None,
         skip_environment_state_update_time_increment=False,
         **kwargs,
@@ -867,7 +867,12 @@ class Scheduler:
 
         :param termination_conds: (dict) - a mapping from `TimeScale`\\s to `Condition`\\s that when met
                terminate the execution of the specified `TimeScale`
+        :param execution_id: (object) - the execution context to run in; if not specified,
+               `Scheduler.default_execution_id` is used
         """
+        if execution_id is NotImplemented:
+            execution_id = self.default_execution_id
+
         self._validate_run_state()
 
         if termination_conds is None:
-- 
2.43.0


From 688ae0cb53eb9af23fef4da1cc5c5d395bb336d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 02/35] fix: do not copy the None context into new contexts
 when run has no base_execution_id

run(execution_id='new') on a scheduler that had already run in the context
None started with the counts, execution_list and clock of None.
---
 src/graph_scheduler/scheduler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index b2ec834..3cb4254 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -857,7 +857,7 @@ class Scheduler:
         self,
         termination_conds=None,
         execution_id=NotImplemented,
-        base_execution_id=None,
+        base_execution_id=NotImplemented,
         skip_environment_state_update_time_increment=False,
         **kwargs,
     ):
@@ -869,6 +869,8 @@ class Scheduler:
                terminate the execution of the specified `TimeScale`
         :param execution_id: (object) - the execution context to run in; if not specified,
                `Scheduler.default_execution_id` is used
+        :param base_execution_id: (object) - if specified and execution_id is new, the counts,
+               execution_list, and clock of execution_id are copied from this execution context
         """
         if execution_id is NotImplemented:
             execution_id = self.default_execution_id
-- 
2.43.0


From 8558ff36b8afa42b6103c3537667535d0f9c1588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 03/35] fix: initialize execution_timestamps for every
 execution context

A run with absolute time conditions in any context other than the default
one raised KeyError when recording its first timestamp.
---
 src/graph_scheduler/scheduler.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 3cb4254..d136909 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -579,6 +579,15 @@ class Scheduler:
             else:
                 self.execution_list[execution_id] = []
 
+        if execution_id not in self.execution_timestamps:
+            if base_execution_id is not NotImplemented:
+                if base_execution_id not in self.execution_timestamps:
+                    raise SchedulerError('execution_id {0} not in {1}.execution_timestamps'.format(base_execution_id, self))
+
+                self.execution_timestamps[execution_id] = list(self.execution_timestamps[base_execution_id])
+            else:
+                self.execution_timestamps[execution_id] = []
+
         self._init_clock(execution_id, base_execution_id)
 
     def _init_clock(self, execution_id, base_execution_id=NotImplemented):
-- 
2.43.0


From 36a77967e39630b25bd13e89e1ec5552ef42e5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 04/35] fix: parse string TimeScale keys of termination
 conditions without mutating the argument

run(termination_conds={'environment_state_update': cond}) raised
RuntimeError (dictionary changed size during iteration), and the caller's
dictionary was modified.
---
 src/graph_scheduler/scheduler.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index d136909..09c3950 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -643,23 +643,25 @@ class Scheduler:
             " GraphStructureCondition."
         )
 
-        # parse string representation of TimeScale
-        parsed_conds = termination_conds
+        # parse string representation of TimeScale (on a copy, because
+        # termination_conds belongs to the caller)
+        given_conds = termination_conds
+        termination_conds = copy.copy(termination_conds)
         delkeys = set()
-        for scale in termination_conds:
+        for scale in given_conds:
             try:
-                parsed_conds[getattr(TimeScale, scale.upper())] = termination_conds[scale]
+                termination_conds[getattr(TimeScale, scale.upper())] = given_conds[scale]
                 delkeys.add(scale)
             except (AttributeError, TypeError):
                 pass
 
         try:
             parsed_conds = {
-                k: parsed_conds[k]
-                for k in parsed_conds
+                k: termination_conds[k]
+                for k in termination_conds
                 if (
                     isinstance(k, TimeScale)
-                    and isinstance(parsed_conds[k], Condition)
+                    and isinstance(termination_conds[k], Condition)
                     and k not in delkeys
                 )
             }
-- 
2.43.0


From f0b3aa75beeb9115ae321e36972fb5f546fab0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 05/35] fix: allow assigning over structural conditions in
 ConditionSet.__setitem__

remove_condition takes a single argument, so assignment raised TypeError
whenever the key already had a graph structure condition.
---
 src/graph_scheduler/condition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index e57feca..845cc5a 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -706,7 +706,7 @@ class ConditionSet(object):
     def __setitem__(self, key, value):
         if key in self.conditions_structural:
             for cond in reversed(self.conditions_structural[key]):
-                self.remove_condition(key, cond)
+                self.remove_condition(cond)
 
         self.add_condition(key, value)
 
-- 
2.43.0


From 8ae2b492a79c7c81d193d55f58a56be56a80c01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 06/35] fix: return the removed condition from
 ConditionSet.remove_condition(owner)

When called with an owner, None was returned instead of the condition that
was removed; when the condition was not found, it was returned anyway.
---
 src/graph_scheduler/condition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 845cc5a..b8f9d7d 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -845,7 +845,7 @@ class ConditionSet(object):
         else:
             warnings.warn(f'Condition {condition} not found for owner {owner}.')
 
-        return condition
+        return condition_found
 
     def add_condition_set(
         self, conditions: Union['ConditionSet', typing_dict_condition_set]
-- 
2.43.0


From 163fd633e11211836f9f80d8fbd078480197d1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 07/35] fix: reset ENVIRONMENT_SEQUENCE call counts in
 end_environment_sequence

The clock moved on to the next ENVIRONMENT_SEQUENCE but the counts did not,
so e.g. AfterNCalls(x, 1, time_scale=TimeScale.ENVIRONMENT_SEQUENCE) stayed
satisfied from calls made in earlier environment sequences.
---
 src/graph_scheduler/scheduler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 09c3950..1dd3636 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -686,6 +686,8 @@ class Scheduler:
             execution_id = self.default_execution_id
 
         self._increment_time(TimeScale.ENVIRONMENT_SEQUENCE, execution_id)
+        if execution_id in self.counts_total:
+            self._reset_counts_total(TimeScale.ENVIRONMENT_SEQUENCE, execution_id)
 
     def add_graph_edge(self, sender: Hashable, receiver: Hashable) -> AddEdgeTo:
         """
-- 
2.43.0


From 8f60e90d261e7ab8140bbd24ce72a080b17b8767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 08/35] fix: reset CONSIDERATION_SET_EXECUTION call counts at
 each consideration set

They were only reset with each PASS, so they duplicated the PASS counts.
---
 src/graph_scheduler/scheduler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 1dd3636..aee2f46 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -943,6 +943,8 @@ class Scheduler:
                 and not termination_conds[TimeScale.ENVIRONMENT_STATE_UPDATE].is_satisfied(**is_satisfied_kwargs)
                 and not termination_conds[TimeScale.ENVIRONMENT_SEQUENCE].is_satisfied(**is_satisfied_kwargs)
             ):
+                self._reset_counts_total(TimeScale.CONSIDERATION_SET_EXECUTION, execution_id)
+
                 # all nodes to be added during this consideration set execution
                 cur_consideration_set_execution_exec = set()
                 # the current "layer/group" of nodes that MIGHT be added during this consideration set execution
-- 
2.43.0


From 270f159b98adf545a52a44bba1bfbda95e2a38eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 09/35] fix: make JustRan unsatisfied before anything has
 executed

It raised IndexError on the empty execution_list.
---
 src/graph_scheduler/condition.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index b8f9d7d..82719ae 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2181,9 +2181,15 @@ class JustRan(_DependencyValidation, Condition):
         def func(dependency, scheduler=None, execution_id=None):
             logger.debug(f'checking if {dependency} in previous execution step set')
             try:
-                return dependency in scheduler.execution_list[execution_id][-1]
+                last_execution_set = scheduler.execution_list[execution_id][-1]
+            except IndexError:
+                # nothing has executed yet
+                return False
+
+            try:
+                return dependency in last_execution_set
             except TypeError:
-                return dependency == scheduler.execution_list[execution_id][-1]
+                return dependency == last_execution_set
         super().__init__(func, dependency)
 
 
-- 
2.43.0


From a0d1b30b99ca818b2a43134707b1ced66e25e254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 10/35] fix: compare TimeInterval start and end as times

They were compared before being parsed, so string arguments were compared
lexicographically (TimeInterval(start='5ms', end='10ms') was rejected and
start='10ms', end='5ms' accepted).
---
 src/graph_scheduler/condition.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 82719ae..244b8d7 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1368,13 +1368,13 @@ class TimeInterval(AbsoluteCondition):
                 'At least one of "repeat", "start", "end" must be specified'
             )
 
-        if start is not None and end is not None and start > end:
-            raise ConditionError(f'Start ({start}) is later than {end}')
-
         repeat = _parse_absolute_unit(repeat, unit)
         start = _parse_absolute_unit(start, unit)
         end = _parse_absolute_unit(end, unit)
 
+        if start is not None and end is not None and start > end:
+            raise ConditionError(f'Start ({start}) is later than {end}')
+
         def func(scheduler, execution_id):
             satisfied = True
             clock = scheduler.get_clock(execution_id)
-- 
2.43.0


From a088ce3410016d753037baa177f3fe47abbbc29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 11/35] fix: treat Not and NWhen of an absolute condition as
 absolute

The absolute clock was not enabled for them (unlike for All and Any), so
e.g. Not(TimeInterval(start=3)) stayed satisfied forever.
---
 src/graph_scheduler/condition.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 244b8d7..4dc7c6f 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1261,6 +1261,18 @@ class Not(Condition):
         super(Not, Not).owner.__set__(self, value)
         self.condition.owner = value
 
+    @property
+    def absolute_intervals(self):
+        return self.condition.absolute_intervals
+
+    @property
+    def absolute_fixed_points(self):
+        return self.condition.absolute_fixed_points
+
+    @property
+    def is_absolute(self):
+        return self.condition.is_absolute
+
 
 class NWhen(Condition):
     """NWhen
@@ -1287,6 +1299,18 @@ class NWhen(Condition):
         super(NWhen, NWhen).owner.__set__(self, value)
         self.condition.owner = value
 
+    @property
+    def absolute_intervals(self):
+        return self.condition.absolute_intervals
+
+    @property
+    def absolute_fixed_points(self):
+        return self.condition.absolute_fixed_points
+
+    @property
+    def is_absolute(self):
+        return self.condition.is_absolute
+
     def satis(self, condition, n, *args, scheduler=None, execution_id=None, **kwargs):
         if execution_id not in self.satisfactions:
             self.satisfactions[execution_id] = 0
-- 
2.43.0


From 797a4718affbb6788ee70a2ac6c2cdb005275bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 12/35] fix: allow TimeInterval(repeat) without an owning node

As a termination condition in standard mode it raised UnboundLocalError.
---
 src/graph_scheduler/condition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 4dc7c6f..182249b 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1406,6 +1406,9 @@ class TimeInterval(AbsoluteCondition):
             if scheduler._in_exact_time_mode and start is not None:
                 offset = start
             else:
+                # remains 0 when the owner is not a node, e.g. when used as
+                # a termination condition
+                offset = 0 * clock.time.absolute_interval
                 for i, cs in enumerate(scheduler.consideration_queue):
                     if self.owner in cs:
                         offset = i * clock.time.absolute_interval
-- 
2.43.0


From 7768280fbceb45ee8001585f760be47e0143f039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 13/35] fix: do not share sender sets between nodes in
 operation-based graph conditions

Operation.KEEP and Operation.REPLACE return their arguments, so two nodes
of the modified graph could share a set and an edge change for one was
applied to the other, e.g. BeforeNode('B', subject_senders='replace') lost
edges.
---
 src/graph_scheduler/condition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 182249b..8edb5e3 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3168,7 +3168,8 @@ class _GSCWithOperations(_GSCUsingNodes):
                         sender, receiver, new_sender_nodes, new_receiver_nodes, graph, old_receiver_nodes
                     )
                     conflict_strings.extend(edge_conflicts)
-            result_graph[receiver] = new_sender_nodes[receiver]
+            # copy because an operation may return one of its arguments
+            result_graph[receiver] = set(new_sender_nodes[receiver])
 
         # sender has an operation that changes its receiver nodes
         # ([owner/subject]_receiver)
-- 
2.43.0


From baf6c685ba28f848bd45484943404d500ef6d4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 14/35] fix: compare nodes by equality in operation-based graph
 conditions

Nodes are dictionary keys, so equal nodes are the same node; identity
comparison produced wrong graphs when e.g. the owner was given as a tuple
equal to but distinct from the graph's key.
---
 src/graph_scheduler/condition.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 8edb5e3..7f43171 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2951,7 +2951,7 @@ class _GSCWithOperations(_GSCUsingNodes):
     def _get_edge_conflicts(
         self, sender, receiver, new_sender_nodes, new_receiver_nodes, old_sender_nodes, old_receiver_nodes
     ):
-        if receiver is self.owner:
+        if receiver == self.owner:
             sender_operation = 'owner_senders'
             sender_sources = old_sender_nodes[self.owner]
             sender_comparisons = set().union(*[old_sender_nodes[n] for n in self.nodes])
@@ -2960,7 +2960,7 @@ class _GSCWithOperations(_GSCUsingNodes):
             sender_sources = old_sender_nodes[receiver]
             sender_comparisons = old_sender_nodes[self.owner]
 
-        if sender is self.owner:
+        if sender == self.owner:
             receiver_operation = 'owner_receivers'
             receiver_sources = old_receiver_nodes[self.owner]
             receiver_comparisons = set().union(*[old_receiver_nodes[n] for n in self.nodes])
@@ -3048,7 +3048,7 @@ class _GSCWithOperations(_GSCUsingNodes):
 
     def _prune_owner_edge(self, owner_idx, cycle, graph, base_graph):
         len_cycle = len(cycle)
-        assert cycle[owner_idx % len_cycle] is self.owner
+        assert cycle[owner_idx % len_cycle] == self.owner
 
         owner_is_full_ancestor = True
         owner_is_full_descendant = True
@@ -3099,11 +3099,11 @@ class _GSCWithOperations(_GSCUsingNodes):
                     receiver_idx = (i + 1) % len_c
                     receiver = c[receiver_idx]
 
-                    if receiver is self.owner:
+                    if receiver == self.owner:
                         self._prune_owner_edge(receiver_idx, c, graph, base_graph)
                     elif (
                         receiver in base_graph[sender]
-                        and sender is not self.owner
+                        and sender != self.owner
                         and not self._is_required_edge(sender, receiver)
                     ):
                         # may have been removed in another cycle
@@ -3337,7 +3337,7 @@ class BeforeNodes(_GSCReposition, _GSCWithOperations):
         return [n for n in self.nodes if self.owner in graph[n]]
 
     def _is_required_edge(self, sender, receiver):
-        return sender is self.owner and receiver in self.nodes
+        return sender == self.owner and receiver in self.nodes
 
     def _process(self, graph):
         graph = super()._process(graph)
@@ -3394,7 +3394,7 @@ class WithNode(_GSCReposition, _GSCWithOperations, _GSCSingleNode):
         return [n for n in self.nodes if graph[n] == graph[self.owner]]
 
     def _is_required_edge(self, sender, receiver):
-        return receiver is self.node or receiver is self.owner
+        return receiver == self.node or receiver == self.owner
 
     def _process(self, graph):
         graph = super()._process(graph)
@@ -3443,7 +3443,7 @@ class AfterNodes(_GSCReposition, _GSCWithOperations):
         return [n for n in self.nodes if n in graph[self.owner]]
 
     def _is_required_edge(self, sender, receiver):
-        return sender in self.nodes and receiver is self.owner
+        return sender in self.nodes and receiver == self.owner
 
     def _process(self, graph):
         graph = super()._process(graph)
-- 
2.43.0


From dacac49f3b0dcde0b1212b26c319a9ee46ad6a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 15/35] fix: report operation conflicts for nodes that are not
 strings

Building the message of the ConditionError raised TypeError.
---
 src/graph_scheduler/condition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 7f43171..b545268 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2937,8 +2937,8 @@ class _GSCWithOperations(_GSCUsingNodes):
         except TypeError:
             pass
 
-        sources_str = ','.join(sources) if len(sources) else '{}'
-        comparisons_str = ','.join(comparisons) if len(comparisons) else '{}'
+        sources_str = ','.join(str(n) for n in sources) if len(sources) else '{}'
+        comparisons_str = ','.join(str(n) for n in comparisons) if len(comparisons) else '{}'
 
         return '\t{0} {1} applied on {2} with {3} against {4}'.format(
             str(operation_arg_name).ljust(self._operations_names_max_length()),
-- 
2.43.0


From 6446ea0542e9fa054ed215efda709c4336e6ec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 16/35] fix: do not drop positional arguments of functions with
 default values

Condition(lambda a, b=0: ..., 1, 2) called the function with b=0, keyword-
only parameters were counted as positional, and positional-only parameters
were not.
---
 src/graph_scheduler/utilities.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index 33496dc..d71f0d2 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -55,6 +55,8 @@ def prune_unused_args(func, args=None, kwargs=None):
     has_args_param = False
     has_kwargs_param = False
     count_positional = 0
+    # a parameter given by keyword and those after it cannot be given positionally
+    given_by_keyword = False
     func_kwargs_names = set()
 
     for name, param in sig.parameters.items():
@@ -62,10 +64,15 @@ def prune_unused_args(func, args=None, kwargs=None):
             has_args_param = True
         elif param.kind is inspect.Parameter.VAR_KEYWORD:
             has_kwargs_param = True
-        elif param.kind is inspect.Parameter.POSITIONAL_OR_KEYWORD or param.kind is inspect.Parameter.KEYWORD_ONLY:
-            if param.default is inspect.Parameter.empty:
-                count_positional += 1
+        elif param.kind is inspect.Parameter.KEYWORD_ONLY:
             func_kwargs_names.add(name)
+        else:
+            if param.kind is inspect.Parameter.POSITIONAL_OR_KEYWORD:
+                func_kwargs_names.add(name)
+                if kwargs is not None and name in kwargs:
+                    given_by_keyword = True
+            if not given_by_keyword:
+                count_positional += 1
 
     if args is not None:
         try:
-- 
2.43.0


From 074ec14c5a9f66613fe3c95ab029c156383b6c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 17/35] fix: use the absolute time arguments of Time

They were accepted but ignored.
---
 src/graph_scheduler/time.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index 53bf032..d4b9ed9 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -260,10 +260,10 @@ class Time(types.SimpleNamespace):
             **{
                 _time_scale_to_attr_str(ts): v for ts, v in time_scale_values.items()
             },
-            absolute=_get_pint_unit(0, 'ms'),
-            absolute_interval=_get_pint_unit(1, 'ms'),
-            absolute_time_unit_scale=TimeScale.CONSIDERATION_SET_EXECUTION,
-            absolute_enabled=False,
+            absolute=absolute,
+            absolute_interval=absolute_interval,
+            absolute_time_unit_scale=absolute_time_unit_scale,
+            absolute_enabled=absolute_enabled,
         )
 
     def __repr__(self):
-- 
2.43.0


From b72d043ef665b31af5c598f0da01f65df57862e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 18/35] fix: do not reduce absolute times to units with binary
 prefixes

Unit conversion in the scheduler assumes powers of ten, so e.g. 256 minutes
(15 kibiseconds) was used as 15000 seconds.
---
 src/graph_scheduler/condition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index b545268..00e1f46 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -434,6 +434,9 @@ _pint_all_time_units = sorted(
     set([
         getattr(_unit_registry, f'{x}s')
         for x in _unit_registry._prefixes.keys()
+        # exclude binary prefixes (kibi, mebi...), because conversions between
+        # units are assumed to be powers of ten
+        if not x.endswith('bi')
     ]),
     reverse=True
 )
-- 
2.43.0


From f4c57caa6f83f54e70bb6290ffe878f83b815550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 19/35] fix: advance absolute time when the only fixed time
 point is 0 in exact time mode

The interval was the gcd of {0}, so TimeInterval(start=0) stopped the clock
and the run never ended.
---
 src/graph_scheduler/scheduler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index aee2f46..77f02f9 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -1029,7 +1029,8 @@ class Scheduler:
             if self.mode is SchedulingMode.EXACT_TIME:
                 intervals.extend(c.absolute_fixed_points)
 
-        if len(intervals) == 0:
+        # a fixed point at 0 alone does not determine an interval
+        if all(interval.m == 0 for interval in intervals):
             return self.default_absolute_time_unit
         else:
             min_time_unit = min(intervals, key=lambda x: x.u).u
-- 
2.43.0


From 8784b913247e946325c411df1a0a41b82c5a5de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 20/35] fix: do not skip absolute times at which a condition is
 already satisfied

A run started at the earliest fixed time point of its conditions, including
the end of a TimeInterval, so a node with TimeInterval(repeat=2, end=4) ran
only at 4 instead of at 0, 2, 4. The same happened for Not, which is
satisfied before the start of its TimeInterval, and for Any with an
alternative that is not absolute.
---
 src/graph_scheduler/condition.py | 36 ++++++++++++++++++++++++++++++++
 src/graph_scheduler/scheduler.py |  3 +--
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 00e1f46..7fe1904 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1037,6 +1037,14 @@ class Condition(ConditionBase):
     def is_absolute(self):
         return False
 
+    @property
+    def _earliest_absolute_time(self):
+        """
+        The absolute time before which this Condition need not be
+        evaluated
+        """
+        return min(self.absolute_fixed_points, default=0)
+
 
 class AbsoluteCondition(Condition):
     @property
@@ -1169,6 +1177,13 @@ class CompositeCondition(Condition):
     def is_absolute(self):
         return any(a.is_absolute for a in self.args)
 
+    @property
+    def _earliest_absolute_time(self):
+        return min(
+            [c._earliest_absolute_time for c in self.args if c.is_absolute],
+            default=0
+        )
+
 
 class All(CompositeCondition):
     """All
@@ -1235,6 +1250,10 @@ class Any(CompositeCondition):
                 return True
         return False
 
+    @property
+    def _earliest_absolute_time(self):
+        return min([c._earliest_absolute_time for c in self.args], default=0)
+
 
 And = All
 Or = Any
@@ -1276,6 +1295,11 @@ class Not(Condition):
     def is_absolute(self):
         return self.condition.is_absolute
 
+    @property
+    def _earliest_absolute_time(self):
+        # satisfied while self.condition is not
+        return 0
+
 
 class NWhen(Condition):
     """NWhen
@@ -1314,6 +1338,10 @@ class NWhen(Condition):
     def is_absolute(self):
         return self.condition.is_absolute
 
+    @property
+    def _earliest_absolute_time(self):
+        return self.condition._earliest_absolute_time
+
     def satis(self, condition, n, *args, scheduler=None, execution_id=None, **kwargs):
         if execution_id not in self.satisfactions:
             self.satisfactions[execution_id] = 0
@@ -1460,6 +1488,14 @@ class TimeInterval(AbsoluteCondition):
 
         return fp
 
+    @property
+    def _earliest_absolute_time(self):
+        # end is not relevant, because satisfied before it
+        if self.start_inclusive and self.start is not None:
+            return self.start
+        else:
+            return 0
+
 
 class TimeTermination(AbsoluteCondition):
     """TimeTermination
diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 77f02f9..663c76c 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -909,8 +909,7 @@ class Scheduler:
             current_time.absolute = max(
                 current_time.absolute,
                 min([
-                    min(c.absolute_fixed_points)
-                    if len(c.absolute_fixed_points) > 0 else 0
+                    c._earliest_absolute_time
                     for c in self.get_absolute_conditions(termination_conds).values()
                 ])
             )
-- 
2.43.0


From 2b9a45e2348aefca6efbb4204fcc1af5b8b2d78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 21/35] fix: update default conditions when the graph changes
 between runs

The default condition of a node was created from its dependencies at the
first run and kept, so after remove_graph_edge a node still waited for its
former sender.
---
 src/graph_scheduler/scheduler.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 663c76c..0211a11 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -506,6 +506,8 @@ class Scheduler:
         self._push_graph(base_graph)
 
         self.nodes = list(base_graph.keys())
+        # {node: (condition, dependencies)} for nodes without user-specified conditions
+        self._default_conditions = {}
 
         # add conditions after initial graph to deal with structural
         if conditions is not None:
@@ -836,8 +838,20 @@ class Scheduler:
     def _validate_conditions(self):
         unspecified_nodes = []
         for node in self.nodes:
+            dependencies = list(self.graph[node])
+
+            # discard a default condition from a previous run if the dependencies changed
+            try:
+                default_cond, default_dependencies = self._default_conditions[node]
+            except KeyError:
+                pass
+            else:
+                if self.conditions.conditions_basic.get(node) is not default_cond:
+                    del self._default_conditions[node]
+                elif set(dependencies) != default_dependencies:
+                    self.remove_condition(default_cond)
+
             if node not in self.conditions.conditions_basic:
-                dependencies = list(self.graph[node])
                 if len(dependencies) == 0:
                     cond = Always()
                 elif len(dependencies) == 1:
@@ -846,6 +860,7 @@ class Scheduler:
                     cond = All(*[EveryNCalls(x, 1) for x in dependencies])
 
                 self.add_condition(node, cond)
+                self._default_conditions[node] = (cond, set(dependencies))
                 unspecified_nodes.append(node)
         if len(unspecified_nodes) > 0:
             logger.info(
-- 
2.43.0


From 78b8636a6042ac30ee475ca597f26d2de8cead2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 22/35] fix: add the right missing senders for graphs whose
 values are not sets

clone_graph accepts a single node as a value, but senders were collected
from the original graph: {'B': 'node'} added the nodes n, o, d, e.
---
 src/graph_scheduler/scheduler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 0211a11..4d020ed 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -497,10 +497,11 @@ class Scheduler:
                 'Must instantiate a Scheduler with a graph dependency dict or a networkx.DiGraph'
             )
         else:
+            base_graph = clone_graph(graph)
             # add empty dependency set for senders that aren't present
             base_graph = {
-                **{n: set() for n in set().union(*graph.values())},
-                **clone_graph(graph)
+                **{n: set() for n in set().union(*base_graph.values())},
+                **base_graph
             }
 
         self._push_graph(base_graph)
-- 
2.43.0


From ff63ca9a1bd0f553bdee6c92226c1ac257c3a32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 23/35] fix: do not return the cached object from graph
 functions

Modifying e.g. the result of get_receivers, or Scheduler.consideration_queue,
changed the result of later calls for equal graphs.
---
 src/graph_scheduler/utilities.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index d71f0d2..23c6ba4 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -1,4 +1,5 @@
 import collections
+import copy
 import functools
 import inspect
 import logging
@@ -281,7 +282,12 @@ def cached_graph_function(func):
     """
     @functools.wraps(func)
     def graph_function_wrapper(graph: typing_graph_dependency_dict):
-        return cached_hashable_graph_function(func, HashableDict(graph))
+        res = cached_hashable_graph_function(func, HashableDict(graph))
+        # copy so that the caller cannot modify the cached result
+        if isinstance(res, dict):
+            return {k: copy.copy(v) for k, v in res.items()}
+        else:
+            return [copy.copy(v) for v in res]
 
     return graph_function_wrapper
 
-- 
2.43.0


From 2ba1ab71078ed0a80c0d2f79956a287826d2b827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 24/35] fix: keep scheduler graphs consistent when a structural
 condition raises

Graphs were popped and pushed without being recorded if modify_graph raised
partway, so after removing the offending condition other conditions were
applied twice or the base graph was lost (IndexError).
---
 src/graph_scheduler/scheduler.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 4d020ed..ba2c9ba 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -1142,15 +1142,18 @@ class Scheduler:
                 for cond in self._last_handled_structural_condition_order[common_index + 1:]:
                     self._pop_graph()
 
+            # record each condition as it is handled, because modify_graph
+            # may raise
+            self._last_handled_structural_condition_order = (
+                self.conditions.structural_condition_order[:common_index + 1]
+            )
+
             # add dependency dicts for new structural conditions
             cur_graph = self._graphs[-1]
             for cond in self.conditions.structural_condition_order[common_index + 1:]:
                 cur_graph = cond.modify_graph(cur_graph)
                 self._push_graph(cur_graph)
-
-            self._last_handled_structural_condition_order = copy.copy(
-                self.conditions.structural_condition_order
-            )
+                self._last_handled_structural_condition_order.append(cond)
 
     def _push_graph(self, graph):
         try:
-- 
2.43.0


From d5c39eff5cc14aa476b57b6239b0e73075b5b797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:45 +0000
Subject: [PATCH 25/35] fix: update the owner of components when a composite
 condition moves to another owner

---
 src/graph_scheduler/condition.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 7fe1904..9511f29 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1153,10 +1153,13 @@ class Never(Condition):
 class CompositeCondition(Condition):
     @Condition.owner.setter
     def owner(self, value):
+        previous_owner = self.owner
         super(CompositeCondition, CompositeCondition).owner.__set__(self, value)
         for cond in self.args:
             logger.debug('owner setter: Setting owner of {0} to ({1})'.format(cond, value))
-            if cond.owner is None:
+            # components follow the owner of self, unless they were
+            # explicitly given another one
+            if cond.owner is None or cond.owner == previous_owner:
                 cond.owner = value
 
     @property
-- 
2.43.0


From 415fb149986d3cd643f0711ac7faa0ba1dab45ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 26/35] fix: do not share the sets of a graph with the graph
 function cache

The cache key was a shallow copy, whose sets change together with the
graph. When hashes collide, a stale result was returned for a graph that
was modified in place.
---
 src/graph_scheduler/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index 23c6ba4..4d324c5 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -282,7 +282,8 @@ def cached_graph_function(func):
     """
     @functools.wraps(func)
     def graph_function_wrapper(graph: typing_graph_dependency_dict):
-        res = cached_hashable_graph_function(func, HashableDict(graph))
+        # clone so that the cache key does not change with the graph
+        res = cached_hashable_graph_function(func, HashableDict(clone_graph(graph)))
         # copy so that the caller cannot modify the cached result
         if isinstance(res, dict):
             return {k: copy.copy(v) for k, v in res.items()}
-- 
2.43.0


From 13f898c57e4ead6d07ecadb54636c0d4ff8ec6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:57 +0000
Subject: [PATCH 27/35] fix: do not reconnect a node to itself

Reconnecting the receivers of the owner made a node that was both a sender
and a receiver of the owner its own sender, also with
remove_new_self_referential_edges.
---
 src/graph_scheduler/condition.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 9511f29..28f2d3b 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3062,6 +3062,7 @@ class _GSCWithOperations(_GSCUsingNodes):
                 for receiver in orig_receivers_old[self.owner]:
                     if (
                         receiver not in self.nodes
+                        and sender != receiver
                         and self.owner in base_graph[receiver]
                         and sender in base_graph[self.owner]
                         and (
-- 
2.43.0


From 175a748fcb07212fdc1508534c5bfa43fa3f0745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:10 +0000
Subject: [PATCH 28/35] fix: let remove_condition(owner) remove a structural
 condition

The list of the owner's structural conditions is empty after the removal,
so that reading the removed condition from it raised IndexError.
---
 src/graph_scheduler/condition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 28f2d3b..e769031 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -834,8 +834,8 @@ class ConditionSet(object):
                         )
                     )
                 elif len(owner_struct_conds) == 1:
-                    remove_structural_condition(owner_struct_conds[0])
                     condition_found = owner_struct_conds[0]
+                    remove_structural_condition(condition_found)
         else:
             if condition is owner_basic_cond:
                 remove_basic_condition(condition)
-- 
2.43.0


From c2125b48d9054eb392ec0af41226e59ae29d7495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:06 +0000
Subject: [PATCH 29/35] fix: remove exactly the names that a TimeScale alias
 created

Removing an alias deleted every class whose name contains the alias, for
example AllHaveRun together with alias RUN, setting one replaced unrelated
classes (AfterCall, for an alias CALL of PASS), and of two aliases of one
TimeScale the first could not be removed. Names of TimeScales left the
aliases in an inconsistent state.
---
 src/graph_scheduler/time.py | 41 ++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index d4b9ed9..562cddc 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -27,6 +27,8 @@ __all__ = [
 
 
 _time_scale_aliases = {}
+# {alias: (TimeScale, names of the classes created for the alias)}
+_time_scale_alias_classes = {}
 _alias_docs_warning_str = """
 
 .. note:: This documentation was modified from the original due to environment-specific TimeScale renamings. If there is any confusion, please see the original documentation at https://www.github.com/kmantel/graph-scheduler
@@ -656,12 +658,10 @@ def set_time_scale_alias(name: str, target: TimeScale):
     """
     import graph_scheduler
 
-    name_aliased_time_scales = list(filter(
-        lambda e: _time_scale_aliases[e] == name,
-        _time_scale_aliases
-    ))
-    if len(name_aliased_time_scales) > 0:
-        raise ValueError(f"'{name}' is already aliased to {name_aliased_time_scales[0]}")
+    if name in _time_scale_alias_classes:
+        raise ValueError(f"'{name}' is already aliased to {_time_scale_alias_classes[name][0]}")
+    if name in TimeScale.__members__:
+        raise ValueError(f"'{name}' is the name of a TimeScale")
 
     try:
         target = getattr(TimeScale, target)
@@ -670,6 +670,8 @@ def set_time_scale_alias(name: str, target: TimeScale):
     except AttributeError as e:
         raise ValueError(f'Invalid TimeScale {target}') from e
 
+    new_cls_names = []
+    _time_scale_alias_classes[name] = (target, new_cls_names)
     _time_scale_aliases[target] = name
     setattr(TimeScale, name, target)
 
@@ -711,8 +713,13 @@ def set_time_scale_alias(name: str, target: TimeScale):
                 new_class_segment_name
             )
 
+            if hasattr(graph_scheduler, new_cls_name):
+                # do not replace an unrelated class of the same name
+                continue
+
             setattr(graph_scheduler.condition, new_cls_name, cls)
             setattr(graph_scheduler, new_cls_name, cls)
+            new_cls_names.append(new_cls_name)
 
             graph_scheduler.condition.__all__.append(new_cls_name)
             graph_scheduler.__all__.append(new_cls_name)
@@ -726,22 +733,21 @@ def remove_time_scale_alias(name: str):
     """
     import graph_scheduler
 
-    name_aliased_time_scales = list(filter(
-        lambda e: _time_scale_aliases[e] == name,
-        _time_scale_aliases
-    ))
-    assert len(name_aliased_time_scales) <= 1
-
     try:
-        del _time_scale_aliases[name_aliased_time_scales[0]]
-    except (IndexError, KeyError):
+        target, new_cls_names = _time_scale_alias_classes.pop(name)
+    except KeyError:
         return
     else:
+        # an earlier alias of the same TimeScale may be left
+        del _time_scale_aliases[target]
+        for other_name, (other_target, _) in _time_scale_alias_classes.items():
+            if other_target is target:
+                _time_scale_aliases[target] = other_name
+
         delattr(TimeScale, name)
         delattr(Time, name.lower())
         delattr(SimpleTime, name.lower())
 
-        new_class_segment_name = _time_scale_to_class_str(name)
         for cls_name, cls in graph_scheduler.__dict__.copy().items():
 
             if isinstance(cls, (type, types.ModuleType)):
@@ -759,10 +765,7 @@ def remove_time_scale_alias(name: str):
                     # not all modules have docstrings
                     pass
 
-            # NOTE: this could accidentally remove some unintended conditions if
-            # an alias is constructed such that its determined class name is
-            # a substring of some other Condition class name, but this is unlikely
-            if new_class_segment_name in cls_name:
+            if cls_name in new_cls_names:
                 delattr(graph_scheduler.condition, cls_name)
                 delattr(graph_scheduler, cls_name)
 
-- 
2.43.0


From 014c1d8be24b7dcad555f1002d7c562954ae6521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:29 +0000
Subject: [PATCH 30/35] fix: do not skip the time before a TimeTermination

A run whose only absolute conditions are termination conditions started at
the time of the earliest of them, so with TimeTermination(10) no node was
ever executed, while TimeTermination(10, inclusive=False) executed all nodes
from 0 on.
---
 src/graph_scheduler/scheduler.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index ba2c9ba..23bd6df 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -921,14 +921,17 @@ class Scheduler:
         in_absolute_time_mode = len(self.get_absolute_conditions(termination_conds)) > 0
         if in_absolute_time_mode:
             current_time.absolute_interval = self._get_absolute_consideration_set_execution_unit(termination_conds)
-            # advance absolute clock time to first necessary time
-            current_time.absolute = max(
-                current_time.absolute,
-                min([
-                    c._earliest_absolute_time
-                    for c in self.get_absolute_conditions(termination_conds).values()
-                ])
-            )
+            # advance absolute clock time to first necessary time. When
+            # only termination conditions are absolute, all nodes may
+            # execute before them, so no time is skipped
+            if len(self.get_absolute_conditions({})) > 0:
+                current_time.absolute = max(
+                    current_time.absolute,
+                    min([
+                        c._earliest_absolute_time
+                        for c in self.get_absolute_conditions(termination_conds).values()
+                    ])
+                )
             # convert to interval time unit to avoid pint floating point issues
             current_time.absolute = current_time.absolute.to(current_time.absolute_interval.u)
 
-- 
2.43.0


From 283e791de6975fbc78684a1d4071c9ef1f94e6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 31/35] fix: reach the times of TimeIntervals relative to
 different starts

With a single consideration set or in exact time mode, TimeInterval is
satisfied every repeat after start, but the start was not considered for the
length of a consideration set execution if it was exclusive (exact time mode)
or at all (single consideration set). Nodes with
TimeInterval(repeat=2, start=1) and TimeInterval(repeat=2, start=2) in a graph
without edges never both executed.
---
 src/graph_scheduler/condition.py | 31 +++++++++++++++++++++++++++++++
 src/graph_scheduler/scheduler.py |  2 ++
 2 files changed, 33 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index e769031..d8996cd 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1033,6 +1033,15 @@ class Condition(ConditionBase):
         """
         return []
 
+    @property
+    def _absolute_offsets(self):
+        """
+        In exact absolute time, time points to which the
+        `absolute_intervals` of this Condition or those it contains are
+        relative
+        """
+        return []
+
     @property
     def is_absolute(self):
         return False
@@ -1176,6 +1185,13 @@ class CompositeCondition(Condition):
             for c in filter(lambda a: a.is_absolute, self.args)
         ]))
 
+    @property
+    def _absolute_offsets(self):
+        return list(itertools.chain.from_iterable([
+            c._absolute_offsets
+            for c in filter(lambda a: a.is_absolute, self.args)
+        ]))
+
     @property
     def is_absolute(self):
         return any(a.is_absolute for a in self.args)
@@ -1294,6 +1310,10 @@ class Not(Condition):
     def absolute_fixed_points(self):
         return self.condition.absolute_fixed_points
 
+    @property
+    def _absolute_offsets(self):
+        return self.condition._absolute_offsets
+
     @property
     def is_absolute(self):
         return self.condition.is_absolute
@@ -1337,6 +1357,10 @@ class NWhen(Condition):
     def absolute_fixed_points(self):
         return self.condition.absolute_fixed_points
 
+    @property
+    def _absolute_offsets(self):
+        return self.condition._absolute_offsets
+
     @property
     def is_absolute(self):
         return self.condition.is_absolute
@@ -1491,6 +1515,13 @@ class TimeInterval(AbsoluteCondition):
 
         return fp
 
+    @property
+    def _absolute_offsets(self):
+        if self.repeat is not None and self.start is not None:
+            return [self.start]
+        else:
+            return []
+
     @property
     def _earliest_absolute_time(self):
         # end is not relevant, because satisfied before it
diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 23bd6df..07a92b5 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -1046,6 +1046,8 @@ class Scheduler:
             intervals.extend(c.absolute_intervals)
             if self.mode is SchedulingMode.EXACT_TIME:
                 intervals.extend(c.absolute_fixed_points)
+            if self._in_exact_time_mode:
+                intervals.extend(c._absolute_offsets)
 
         # a fixed point at 0 alone does not determine an interval
         if all(interval.m == 0 for interval in intervals):
-- 
2.43.0


From b4023dc93c747cafa3c1c9c40826e6a5cbcd78bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 32/35] fix: begin passes at multiples of their length in
 absolute time

A run started at the time at which the previous one ended, also in the middle
of a pass, or at the start of a TimeInterval. From there, consideration sets
were never considered at the times at which a TimeInterval with repeat is
satisfied, so its node was never executed again: in the linear graph A -> B
with TimeInterval(start=10) and TimeInterval(repeat=2), the default termination
condition ends the first run after A at 10, and in the second run B was never
executed.
---
 src/graph_scheduler/scheduler.py | 48 ++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 07a92b5..c61d1b4 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -313,6 +313,7 @@ import datetime
 import enum
 import fractions
 import logging
+import math
 import warnings
 from typing import Dict, Hashable, Iterable, List, Set, Union
 
@@ -921,17 +922,10 @@ class Scheduler:
         in_absolute_time_mode = len(self.get_absolute_conditions(termination_conds)) > 0
         if in_absolute_time_mode:
             current_time.absolute_interval = self._get_absolute_consideration_set_execution_unit(termination_conds)
-            # advance absolute clock time to first necessary time. When
-            # only termination conditions are absolute, all nodes may
-            # execute before them, so no time is skipped
-            if len(self.get_absolute_conditions({})) > 0:
-                current_time.absolute = max(
-                    current_time.absolute,
-                    min([
-                        c._earliest_absolute_time
-                        for c in self.get_absolute_conditions(termination_conds).values()
-                    ])
-                )
+            # advance absolute clock time to first necessary time
+            current_time.absolute = self._get_absolute_start_time(
+                current_time, termination_conds
+            )
             # convert to interval time unit to avoid pint floating point issues
             current_time.absolute = current_time.absolute.to(current_time.absolute_interval.u)
 
@@ -1074,6 +1068,38 @@ class Scheduler:
                 res = fractions.Fraction(numerator=numerator, denominator=denominator)
             return res * min_time_unit
 
+    def _get_absolute_start_time(self, current_time, termination_conds):
+        """Computes the absolute time of the first consideration set
+        execution of a run started at **current_time**
+        """
+        absolute_conditions = self.get_absolute_conditions(termination_conds).values()
+        start = current_time.absolute
+
+        # when only termination conditions are absolute, all nodes may
+        # execute before them, so no time is skipped
+        if len(self.get_absolute_conditions({})) > 0:
+            start = max(
+                start, min([c._earliest_absolute_time for c in absolute_conditions])
+            )
+
+        if (
+            self.mode is SchedulingMode.EXACT_TIME
+            or any(len(c.absolute_intervals) > 0 for c in absolute_conditions)
+        ):
+            # conditions are repeatedly satisfied at fixed positions
+            # within a pass, so it must begin at a multiple of its length
+            pass_length = current_time.absolute_interval * len(self.consideration_queue)
+
+            def num_passes(t):
+                return round((t / pass_length).to('dimensionless').m, _unit_registry.precision)
+
+            n = math.floor(num_passes(start))
+            if n < num_passes(current_time.absolute):
+                n += 1
+            start = n * pass_length
+
+        return start
+
     def get_absolute_conditions(self, termination_conds=None):
         if termination_conds is None:
             termination_conds = self.termination_conds
-- 
2.43.0


From 0532b5cefa26f84edc32379cb93654e63362bbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 33/35] fix: structural conditions give the same graph whatever
 the iteration order of sets

Cycles were pruned and receivers reconnected in the order in which sets of
nodes (and the cycles found by networkx) happened to be iterated. When that
order mattered, the resulting graph, and so the schedule, differed between
processes for nodes whose hash differs, such as strings.
---
 src/graph_scheduler/condition.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index d8996cd..0525aae 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3089,8 +3089,18 @@ class _GSCWithOperations(_GSCUsingNodes):
             orig_owner_sender_nodes = base_graph[self.owner]
             orig_receivers_old = get_receivers(base_graph)
 
-            for sender in orig_owner_sender_nodes:
-                for receiver in orig_receivers_old[self.owner]:
+            # follow the order of base_graph, because the iteration order
+            # of sets may be different each time
+            order = {n: i for i, n in enumerate(base_graph)}
+            senders = sorted(
+                orig_owner_sender_nodes, key=lambda n: order.get(n, len(order))
+            )
+            receivers = sorted(
+                orig_receivers_old[self.owner], key=lambda n: order[n]
+            )
+
+            for sender in senders:
+                for receiver in receivers:
                     if (
                         receiver not in self.nodes
                         and sender != receiver
@@ -3153,14 +3163,25 @@ class _GSCWithOperations(_GSCUsingNodes):
             graph[receiver].remove(sender)
             logger.debug(f'Pruning edge {sender} to {receiver} in cycle {cycle}')
 
+    @staticmethod
+    def _get_ordered_cycles(graph):
+        # order following graph, because the iteration order of sets, and
+        # so of the cycles found, may be different each time
+        order = {n: i for i, n in enumerate(graph)}
+        cycles = []
+        for c in get_simple_cycles(graph):
+            start = c.index(min(c, key=lambda n: order[n]))
+            cycles.append(c[start:] + c[:start])
+        return sorted(cycles, key=lambda c: [order[n] for n in c])
+
     def _handle_prune_cycles(self, graph, base_graph):
         if not self.prune_cycles:
             return graph
 
-        prev_cycles = list(get_simple_cycles(graph))
+        prev_cycles = self._get_ordered_cycles(graph)
 
         while len(prev_cycles) > 0:
-            cycles = list(get_simple_cycles(graph))
+            cycles = self._get_ordered_cycles(graph)
 
             for c in sorted(prev_cycles, key=lambda x: -len(x)):
                 if c not in cycles:
@@ -3188,7 +3209,7 @@ class _GSCWithOperations(_GSCUsingNodes):
                                 f'cycle not involving owner {c}'
                             )
 
-                cycles = list(get_simple_cycles(graph))
+                cycles = self._get_ordered_cycles(graph)
 
             if prev_cycles == cycles:
                 logger.debug(f'Failed to prune all cycles, remaining: {cycles}')
-- 
2.43.0


From 150f844df61875c90e61656f7dd3df38b374674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 34/35] fix: self-referential edges of the original graph are
 not pruned as new cycles

---
 src/graph_scheduler/condition.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 0525aae..f93b67c 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3188,6 +3188,10 @@ class _GSCWithOperations(_GSCUsingNodes):
                     logger.debug(f'Cycle {c} already resolved')
                     continue
 
+                # not newly created
+                if len(c) == 1 and c[0] in base_graph[c[0]]:
+                    continue
+
                 len_c = len(c)
                 for i in range(len_c):
                     sender = c[i]
-- 
2.43.0


From b32bc69726aa554c47c5e9ad227ee407537ffb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:51 +0000
Subject: [PATCH 35/35] fix: custom condition functions need not be hashable or
 weakly referenceable

---
 src/graph_scheduler/utilities.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index 4d324c5..1d8b6e1 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -49,9 +49,13 @@ def prune_unused_args(func, args=None, kwargs=None):
     # use the func signature to filter out arguments that aren't compatible
     try:
         sig = _unused_args_sig_cache[func]
-    except KeyError:
+    except (KeyError, TypeError):
         sig = inspect.signature(func)
-        _unused_args_sig_cache[func] = sig
+        try:
+            _unused_args_sig_cache[func] = sig
+        except TypeError:
+            # func is not hashable or cannot be weakly referenced
+            pass
 
     has_args_param = False
     has_kwargs_param = False
-- 
2.43.0

