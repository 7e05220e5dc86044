From 8580f19636e358f644904bdf97e8f5625ed6cb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 01/13] fix: use collections.abc.Sequence, so that a list of
 inputs can be given to evolve

---
 netomaton/evolution.py | 3 ++-
 netomaton/utils.py     | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 0272482..d696e89 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -1,4 +1,5 @@
 import collections
+import collections.abc
 from enum import Enum
 from .state import State
 
@@ -418,7 +419,7 @@ def _get_input_function(timesteps=None, input=None):
 
 
 def _is_indexable(obj):
-    return isinstance(obj, collections.Sequence)
+    return isinstance(obj, collections.abc.Sequence)
 
 
 class _TimestepInputFunction:
diff --git a/netomaton/utils.py b/netomaton/utils.py
index 15eb8ee..cf8c02d 100644
--- a/netomaton/utils.py
+++ b/netomaton/utils.py
@@ -4,7 +4,7 @@ import numpy as np
 import matplotlib.pyplot as plt
 import matplotlib.animation as animation
 import matplotlib.collections as mcoll
-import collections
+import collections.abc
 from .state import State
 from .substitution_system import SubstitutionSystem
 try:
@@ -273,7 +273,7 @@ def plot1D(x, y, color=None, label=None, xlabel=None, ylabel=None, xlim=None, yl
     def _get_item(items, i):
         if isinstance(items, str):
             return items
-        if isinstance(items, collections.Sequence):
+        if isinstance(items, collections.abc.Sequence):
             return items[i]
         return items
 
-- 
2.43.0


From 9b0bf24524b1b277cfb4d07078a2a61983104ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:20 +0000
Subject: [PATCH 02/13] fix: choose randomly in majority_rule when there is a
 tie

---
 netomaton/rules/activity_rule.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/netomaton/rules/activity_rule.py b/netomaton/rules/activity_rule.py
index 4d11ea7..cd3d8a2 100644
--- a/netomaton/rules/activity_rule.py
+++ b/netomaton/rules/activity_rule.py
@@ -1,4 +1,4 @@
-from statistics import mode, StatisticsError
+from collections import Counter
 import numpy as np
 
 
@@ -40,11 +40,11 @@ def majority_rule(ctx):
 
     :return: the new activity for the node with the given neighbourhood
     """
-    try:
-        return mode(ctx.neighbourhood_activities)
-    except StatisticsError:
-        # a StatisticsError is raised if there is a tie, and there is no single most common element
+    most_common = Counter(ctx.neighbourhood_activities).most_common(2)
+    if len(most_common) == 2 and most_common[0][1] == most_common[1][1]:
+        # there is a tie, and there is no single most common element
         return np.random.choice(ctx.neighbourhood_activities)
+    return most_common[0][0]
 
 
 def bits_to_int(bits):
-- 
2.43.0


From 0aa0fdf776be5f97d9e2fe2dded059be80309fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:55 +0000
Subject: [PATCH 03/13] fix: keep nodes without edges when building a Network
 from an adjacency matrix

---
 netomaton/topology/networks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netomaton/topology/networks.py b/netomaton/topology/networks.py
index 2410044..40bf9ba 100644
--- a/netomaton/topology/networks.py
+++ b/netomaton/topology/networks.py
@@ -88,6 +88,9 @@ def from_adjacency_matrix(adj):
         for j, val in enumerate(row):
             if val != 0:
                 network.add_edge(i, j, weight=val)
+    for i in range(len(adj)):
+        # a node without any edges is still a node
+        network.add_node(i)
     return network
 
 
-- 
2.43.0


From 5a1c977eb54474ffa9f6e8d273226c2f78c34744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:55 +0000
Subject: [PATCH 04/13] fix: bound the temporal distance by the number of
 timesteps, not of nodes

---
 netomaton/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/analysis.py b/netomaton/analysis.py
index f8b2430..4f84561 100644
--- a/netomaton/analysis.py
+++ b/netomaton/analysis.py
@@ -105,7 +105,7 @@ def average_mutual_information(trajectory_or_activities, temporal_distance=1):
     else:
         activities = trajectory_or_activities
     num_cols = len(activities[0])
-    if not (0 < temporal_distance < num_cols):
+    if not (0 < temporal_distance < len(activities)):
         raise Exception("the temporal distance must be greater than 0 and less than the number of time steps")
     mutual_informations = []
     for i in range(0, num_cols):
-- 
2.43.0


From 2113852b829ed9b7146b12301393779bda63d5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 05/13] fix: count a node's state as one symbol, however many
 characters it is written with, in average_node_entropy and
 average_mutual_information

---
 netomaton/analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/netomaton/analysis.py b/netomaton/analysis.py
index 4f84561..7a9d0b1 100644
--- a/netomaton/analysis.py
+++ b/netomaton/analysis.py
@@ -21,7 +21,7 @@ def shannon_entropy(string):
 def average_node_entropy(trajectory_or_activities):
     """
     Calculates the average node entropy in the given automaton evolution, where entropy is the Shannon entropy.
-    The state of a node over time is represented as a string, and its entropy is calculated. The same is done for all
+    The state of a node over time is a sequence of symbols, and its entropy is calculated. The same is done for all
     nodes in this Network Automaton, and the average entropy is returned.
 
     :param trajectory_or_activities: a list of States that represents the evolution of the automaton, or a list of
@@ -40,7 +40,7 @@ def average_node_entropy(trajectory_or_activities):
     num_cols = len(activities[0])
     entropies = []
     for i in range(0, num_cols):
-        node_states_over_time = ''.join([str(x) for x in [y[i] for y in activities]])
+        node_states_over_time = [str(x) for x in [y[i] for y in activities]]
         entropy = shannon_entropy(node_states_over_time)
         entropies.append(entropy)
     return np.mean(entropies)
@@ -109,7 +109,7 @@ def average_mutual_information(trajectory_or_activities, temporal_distance=1):
         raise Exception("the temporal distance must be greater than 0 and less than the number of time steps")
     mutual_informations = []
     for i in range(0, num_cols):
-        node_states_over_time = ''.join([str(x) for x in [y[i] for y in activities]])
+        node_states_over_time = [str(x) for x in [y[i] for y in activities]]
         mi = mutual_information(node_states_over_time[:-temporal_distance], node_states_over_time[temporal_distance:])
         mutual_informations.append(mi)
     return np.mean(mutual_informations)
-- 
2.43.0


From 58801ad985c663df53bbdccb64e696da5c34eba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 06/13] fix: do not perturb a node that was removed in the same
 timestep

---
 netomaton/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index d696e89..0c7e105 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -285,7 +285,7 @@ def do_activity_rule(t, inp, curr_activities, prev_activities, network, activity
         if node_label not in ctx.removed_nodes:
             curr_activities[node_label] = new_activity
 
-        if perturbation is not None:
+        if perturbation is not None and node_label in curr_activities:
             pctx = PerturbationContext(node_label, curr_activities[node_label], t, node_in)
             curr_activities[node_label] = perturbation(pctx)
 
-- 
2.43.0


From 49b9563f9e7380d9037f57bdbde0c608c0a1d3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 07/13] fix: do not keep a neighbourhood map when there is a
 topology rule

---
 netomaton/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 0c7e105..ee6c561 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -205,7 +205,7 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
                                                            memoize, memo_table, neighbourhood_map, memoization_key)
             curr_network = evolve_topology(topology_rule, t, curr_activities, prev_network,
                                            trajectory, copy_network, persist_network, added_nodes, removed_nodes)
-            if added_nodes or removed_nodes:
+            if topology_rule is None and (added_nodes or removed_nodes):
                 # re-build the neighbourhood map, since the network has changed
                 neighbourhood_map = _get_neighbourhood_map(curr_network)
 
-- 
2.43.0


From c4bf23bdb2f8f83790be9565636db3d4c4f840b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 08/13] fix: order the relations of a Wolfram model
 configuration by number, not as strings

---
 netomaton/wolfram_physics_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/wolfram_physics_model.py b/netomaton/wolfram_physics_model.py
index 36be62e..da1dbb8 100644
--- a/netomaton/wolfram_physics_model.py
+++ b/netomaton/wolfram_physics_model.py
@@ -70,7 +70,7 @@ class WolframPhysicsModel:
                 merged_hyperedges[edge_label] = tuple(merged)
 
         edges.update(merged_hyperedges)
-        config = [edges[label] for label in sorted(edges)]  # sort so that we can preserve the order of the relations
+        config = [edges[label] for label in sorted(edges, key=int)]  # sort so that we can preserve the order of the relations
 
         return config
 
-- 
2.43.0


From 09d79e68656c7d8008bd890c2dc40b62811547f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:22 +0000
Subject: [PATCH 09/13] fix: reshuffle the given update order, instead of
 replacing it with the first n integers

---
 netomaton/asynchronous_rule.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/netomaton/asynchronous_rule.py b/netomaton/asynchronous_rule.py
index 2016ae7..31399e2 100644
--- a/netomaton/asynchronous_rule.py
+++ b/netomaton/asynchronous_rule.py
@@ -24,17 +24,18 @@ class AsynchronousRule:
             raise Exception("either update_order or n must be specified")
         self._activity_rule = activity_rule
         if update_order is not None:
+            self._nodes = update_order
             self._update_order = update_order
         else:
-            self._shuffle_update_order(n)
+            self._nodes = range(n)
+            self._shuffle_update_order()
         self._curr = 0
         self._num_applied = 0
         self._randomize_each_cycle = randomize_each_cycle
 
-    def _shuffle_update_order(self, n):
-        self._update_order = np.arange(n)
+    def _shuffle_update_order(self):
+        self._update_order = list(self._nodes)
         np.random.shuffle(self._update_order)
-        self._update_order = self._update_order.tolist()
 
     def __call__(self, ctx):
         if ctx.node_label in self._update_order:
@@ -53,4 +54,4 @@ class AsynchronousRule:
             self._curr = (self._curr + 1) % len(self._update_order)
             self._num_applied = 0
             if self._randomize_each_cycle:
-                self._shuffle_update_order(len(self._update_order))
+                self._shuffle_update_order()
-- 
2.43.0


From b41c33d9ae31cf28511ab474c77c8e673d5ba627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 10/13] fix: drop the activity of a node that was removed by
 another node

---
 netomaton/evolution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index ee6c561..875f7c9 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -247,6 +247,10 @@ def evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, t
                                                       activity_rule, past, perturbation, memoize, memoization_table,
                                                       neighbourhood_map, memoization_key)
 
+        for node_label in removed_nodes:
+            # a node may have been removed by another node, and so may already have an activity
+            curr_activities.pop(node_label, None)
+
         if added_nodes:
             for state, outgoing_links, node_label in added_nodes:
                 curr_activities[node_label] = check_np(state)
-- 
2.43.0


From 32131d0665a4b6d58bda05c45218f05a4a920d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:20 +0000
Subject: [PATCH 11/13] fix: the head-centric Turing machine reads
 multi-character symbols whole

---
 netomaton/turing_machine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netomaton/turing_machine.py b/netomaton/turing_machine.py
index 9d9e20d..4d951a8 100644
--- a/netomaton/turing_machine.py
+++ b/netomaton/turing_machine.py
@@ -119,7 +119,8 @@ class HeadCentricTuringMachine(TuringMachine):
         if self._halt:
             return None
 
-        return self._tape_history[-1][self._head_pos]
+        # a list, with the input of the single node, since a symbol that is itself a sequence must reach the node whole
+        return [self._tape_history[-1][self._head_pos]]
 
     def activities_for_plotting(self, trajectory):
         activities = get_activities_over_time_as_list(trajectory)
-- 
2.43.0


From f8d2b12c1f0a75ae1629a9f36f651d99c2c58f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:10 +0000
Subject: [PATCH 12/13] fix: a substitution system evolved again starts its new
 cells afresh

After a run of two timesteps, the count of the cells added in the timestep was kept for the first timestep of the next run: the new
cells were linked to cells of the earlier run, and a third timestep failed with a KeyError. Failing input: the system with axiom AAB and rules
AA->AB, AB->BA, BA->AA, BB->B, evolved for 2 timesteps and then for 3.
---
 netomaton/substitution_system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netomaton/substitution_system.py b/netomaton/substitution_system.py
index a561ae2..ef99be3 100644
--- a/netomaton/substitution_system.py
+++ b/netomaton/substitution_system.py
@@ -58,7 +58,8 @@ class SubstitutionSystem:
         #  carry the state information
 
     def _update_last_timestep(self, ctx):
-        if self._last_timestep != ctx.timestep:
+        # node 0 is the first node of the initial network, and exists only there: with it, the system starts another run
+        if self._last_timestep != ctx.timestep or ctx.node_label == 0:
             self._num_nodes_added = 0
         self._last_timestep = ctx.timestep
 
-- 
2.43.0


From 02a1203e33de4ce71e4e6cb1c6ebcaf17ba2648f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:43 +0000
Subject: [PATCH 13/13] fix: number a Wolfram model's new nodes from the
 network of the timestep

topology_rule numbered new nodes after the highest node of the model's last update, also when evolving a different network (as the model's initial
network a second time): with {{x,y}} -> {{x,y},{y,z}} and the network of [(1,2)], a second run made (2,6) instead of (2,3).
---
 netomaton/wolfram_physics_model.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/netomaton/wolfram_physics_model.py b/netomaton/wolfram_physics_model.py
index da1dbb8..2fcebb2 100644
--- a/netomaton/wolfram_physics_model.py
+++ b/netomaton/wolfram_physics_model.py
@@ -76,6 +76,7 @@ class WolframPhysicsModel:
 
     def topology_rule(self, cctx):
         relations = self.network_to_config(cctx.network)
+        self.last_node = self._get_last_node(relations)  # the network may be another one than that of the last update
 
         matched_relations = []
         unmatched_relations = []
@@ -129,6 +130,15 @@ class WolframPhysicsModel:
 
         return self.network
 
+    @staticmethod
+    def _get_last_node(config):
+        last_node = 0
+        for relation in config:
+            for node in relation:
+                if node > last_node:
+                    last_node = node
+        return last_node
+
     def _matches(self, rule, relation, symbol_bindings):
         if len(rule) != len(relation):
             #  rule does not match this relation
-- 
2.43.0

