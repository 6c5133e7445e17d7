From fb69c48369460fa6c43a7a9f777f7ef2798f4547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:45 +0000
Subject: [PATCH 01/21] fix: make_joined no longer crashes when factors
 disagree or a value has vanished

can_join_samples looked only at variables common to all samples, so three or more
pairwise factors could reach join_sample with conflicting values; a value which was
already eliminated made it call frozenset.intersection() without arguments; and an
empty joined factor tripped the one-factor assertion.
---
 Python/research/scripts/relnet/relation_graph.py | 5 ++++-
 Python/research/scripts/relnet/sample_set.py     | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/Python/research/scripts/relnet/relation_graph.py b/Python/research/scripts/relnet/relation_graph.py
index 85b9abd..c6b0a5b 100644
--- a/Python/research/scripts/relnet/relation_graph.py
+++ b/Python/research/scripts/relnet/relation_graph.py
@@ -313,7 +313,7 @@ class RelationGraph(SampleSpace):
                     [join_factors(outcomes[1:], acc.copy().add(o, c)) for o, c in outcomes[0].items()])
             else:
                 ss = acc.build()
-                if ss.can_join_samples():
+                if ss and ss.can_join_samples():
                     bo, cs = acc.build().make_joined_sample()
                     return SampleSetBuilder(self._components_provider, {bo: prod(cs)}).build()
                 else:
@@ -332,6 +332,9 @@ class RelationGraph(SampleSpace):
             factors = factors.difference(factors_for_var)
             factors = factors.union(frozenset({joined_factor.build()}))
 
+        if not all(factors):  # Factors contradict each other, so there is no outcome which satisfy all of them
+            factors = frozenset({})
+
         assert len(factors) <= 1, \
             f"[RelationGraph.make_joined] Expect number of factors after joining to be 1 or 0, got {len(factors)}"
 
diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index c83f684..45a8d39 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -175,8 +175,8 @@ class SampleSet(Samples):
         In case result sample graph will not connected AssertionError will be raise.
         :return: (new_sample, list_of_counts)
         """
-        for var in frozenset.intersection(*[s.included_variables for s in self.samples()]):
-            if len({s.value_for_variable(var) for s in self.samples()}) > 1:
+        for var in frozenset().union(*[s.included_variables for s in self.samples()]):
+            if len({s.value_for_variable(var) for s in self.samples() if s.have_variable(var)}) > 1:
                 return False
         return True
 
-- 
2.43.0


From 541b41607b0eb926a7841bfa675ea8c91e2d8c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:45 +0000
Subject: [PATCH 02/21] fix: group_intersecting key of a single node sample is
 its variable, not the characters of its name

---
 Python/research/scripts/relnet/sample_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index 45a8d39..2f382cc 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -144,7 +144,7 @@ class SampleSet(Samples):
             if sample.edges:
                 key = sample.edges_endpoint_variables()
             else:
-                key = frozenset(sample.included_variables)  # Singe node graph
+                key = frozenset({sample.included_variables})  # Singe node graph
             if key in sample_acc:
                 sample_acc[key][sample] = count
             else:
-- 
2.43.0


From 6323d2c652d6fc80dd90863508df532f91a7173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:46 +0000
Subject: [PATCH 03/21] fix: join_sample_set no longer exhausts the stack on
 about a thousand sample sets

---
 Python/research/scripts/relnet/sample_set.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index 2f382cc..30274d6 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -266,12 +266,12 @@ class SampleSetBuilder(Samples):
         :param sample_sets: smple sets to be joined
         :return: joined sample set
         """
-        if len(sample_sets) > 1:
-            return sample_sets[0].union(SampleSetBuilder.join_sample_set(sample_sets[1:]))
-        else:
-            assert sample_sets, \
-                "[SampleSetBuilder.join_sample_set] Input sample_sets should not be empty"
-            return sample_sets[0]
+        assert sample_sets, \
+            "[SampleSetBuilder.join_sample_set] Input sample_sets should not be empty"
+        joined = sample_sets[0]
+        for sample_set in sample_sets[1:]:
+            joined = joined.union(sample_set)
+        return joined
 
     def __init__(
             self,
-- 
2.43.0


From 27e268911475e897347f355300d6120827dc9d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:46 +0000
Subject: [PATCH 04/21] fix: similarity of two empty samples is 1 instead of a
 division by zero

---
 Python/research/scripts/relnet/sample_graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index cd4e8e3..e7a12dc 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -429,6 +429,8 @@ class SampleGraph:
         :param other: other sample
         :return: 0 - completely different, 1 - completely match
         """
+        if self == other:
+            return 1.0
         intersect_hash = self.hash.intersection(other.hash)
         differ_hash = self.hash.symmetric_difference(other.hash)
         return len(intersect_hash) / (len(intersect_hash) + len(differ_hash))
-- 
2.43.0


From de65b757abfc6aae0864af56b3162a9f9fe1cccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:46 +0000
Subject: [PATCH 05/21] fix: activation graph of an empty selection has zero
 weights instead of a division by zero

---
 Python/research/scripts/relnet/conditional_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/conditional_graph.py b/Python/research/scripts/relnet/conditional_graph.py
index 9a13e8b..33e66ff 100644
--- a/Python/research/scripts/relnet/conditional_graph.py
+++ b/Python/research/scripts/relnet/conditional_graph.py
@@ -106,7 +106,7 @@ class ConditionalGraph(SampleSpace):
         return ActivationGraph(
             self._components_provider,
             self.outcomes.length,
-            {ActiveNode(var, {v: w / self.outcomes.length for v, w in values.items()}, in_query)
+            {ActiveNode(var, {v: w / (self.outcomes.length or 1) for v, w in values.items()}, in_query)
              for var, (values, in_query) in grouped_values.items()},
             {ActiveEdge(set(endpoints), relations, in_query)
              for endpoints, (relations, in_query) in grouped_relations.items()},
-- 
2.43.0


From a4caed85e7a0eaa1a1c6e92eeae176801b88f31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 06/21] fix: build_from_edges rejects conflicting or detached
 edges and leaves the builder untouched when it does

---
 Python/research/scripts/relnet/sample_graph.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index e7a12dc..d58c803 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -137,13 +137,24 @@ class SampleGraphBuilder:
             assert self.is_edges_connected(edges), \
                 f"[SampleGraphBuilder.build_from_edges] Passed edges are not form connected graph, edges: {edges}"
 
+        new_edges: Dict[frozenset[ValueNode], RelationEdge] = {}
+
         for endpoints, relation in edges:
             self.validate_endpoints(endpoints)
             nodes = {self._components_provider.get_node(var, val) for var, val in endpoints}
             edge = self._components_provider.get_edge(frozenset(nodes), relation)
-            self._edges.add(edge)
-            self._endpoints[edge.endpoints] = edge
-            self._nodes.update(nodes)
+            assert (new_edges | self._endpoints).get(edge.endpoints, edge) == edge, \
+                f"[SampleGraphBuilder.build_from_edges] Edge {edge} conflict with other edge with same endpoints"
+            new_edges[edge.endpoints] = edge
+
+        new_nodes = {node for endpoints in new_edges for node in endpoints}
+        assert not (validate_connectivity and self._nodes) or not new_nodes.isdisjoint(self._nodes), \
+            f"[SampleGraphBuilder.build_from_edges] Passed edges are not connected to previously added " \
+            f"nodes {self._nodes}, edges: {edges}"
+
+        self._edges.update(new_edges.values())
+        self._endpoints.update(new_edges)
+        self._nodes.update(new_nodes)
 
         return self.build()
 
-- 
2.43.0


From 055c45dac2b7a0dc58c48b76698f2cff24d9ca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:32 +0000
Subject: [PATCH 07/21] fix: join_sample leaves the builder untouched when the
 sample can't be joined

---
 Python/research/scripts/relnet/sample_graph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index d58c803..9f43642 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -218,6 +218,11 @@ class SampleGraphBuilder:
         assert sample.is_compatible(self._components_provider), \
             f"[SampleGraphBuilder.join_sample] Incompatible sample {sample}"
 
+        joined = self.__copy__()._join_sample(sample)  # On copy, to not change this builder if can't be joined
+        self._nodes, self._edges, self._endpoints = joined._nodes, joined._edges, joined._endpoints
+        return self
+
+    def _join_sample(self, sample: 'SampleGraph'):
         def is_connected(edge: RelationEdge) -> bool:
             return not edge.endpoints.isdisjoint(self._nodes) or not self._nodes
 
-- 
2.43.0


From 1336c5e55dd11edd17a94c33d097867c2dffd69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:53 +0000
Subject: [PATCH 08/21] fix: components provider keeps its own copy of the
 vocabulary, later changes of the passed sets no longer leak in

---
 Python/research/scripts/relnet/graph_components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Python/research/scripts/relnet/graph_components.py b/Python/research/scripts/relnet/graph_components.py
index d6b9d08..7a5ee14 100644
--- a/Python/research/scripts/relnet/graph_components.py
+++ b/Python/research/scripts/relnet/graph_components.py
@@ -169,8 +169,8 @@ class BuilderComponentsProvider(SampleGraphComponentsProvider):
         assert relations, \
             f"[BuilderComponentsProvider.__init__] Set of relations should not be empty."
 
-        self._variables: Dict[Any, Set[Any]] = variables
-        self._relations: Set[Any] = relations
+        self._variables: Dict[Any, Set[Any]] = {var: set(values) for var, values in variables.items()}
+        self._relations: Set[Any] = set(relations)
         self.nodes: Dict[Tuple[Any, Any], ValueNode] = {}
         self.edges: Dict[Tuple[frozenset[ValueNode], Any], RelationEdge] = {}
 
-- 
2.43.0


From 92a626e409be5ceca3846dd8f75827c95feed33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:54 +0000
Subject: [PATCH 09/21] fix: visualize_outcomes skips empty outcomes and no
 longer merges nodes of different outcomes

---
 Python/research/scripts/relnet/sample_space.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_space.py b/Python/research/scripts/relnet/sample_space.py
index 70cf7a4..adccec9 100644
--- a/Python/research/scripts/relnet/sample_space.py
+++ b/Python/research/scripts/relnet/sample_space.py
@@ -205,15 +205,17 @@ class SampleSpace:
 
         for i, (outcome, count) in enumerate(self.outcomes.items()):
             node_list = list(outcome.nodes)
+            if not node_list:  # Empty outcome, nothing to draw
+                continue
             head_node = node_list[0]
-            net.add_node(head_node.string_id + str(i), label=f"{head_node.string_id}@{outcome.name}({count})")
+            net.add_node(f"{i}:{head_node.string_id}", label=f"{head_node.string_id}@{outcome.name}({count})")
 
             for node in node_list[1:]:
-                net.add_node(node.string_id + str(i), label=node.string_id)
+                net.add_node(f"{i}:{node.string_id}", label=node.string_id)
 
             for edge in outcome.edges:
                 ep = list(edge.endpoints)
-                net.add_edge(ep[0].string_id + str(i), ep[1].string_id + str(i), label=str(edge.relation))
+                net.add_edge(f"{i}:{ep[0].string_id}", f"{i}:{ep[1].string_id}", label=str(edge.relation))
 
         if self._evidence:
             for node in self._evidence.nodes:
-- 
2.43.0


From 2090b17632888675f20297478353ee75e6a9eedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:03 +0000
Subject: [PATCH 10/21] fix: group_intersecting no longer loses the samples of
 a group whose key equals the union of two merged ones

---
 Python/research/scripts/relnet/sample_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index 30274d6..60311a9 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -154,7 +154,8 @@ class SampleSet(Samples):
             for k_a in sample_acc.keys():
                 for k_b in sample_acc.keys():
                     if k_a != k_b and not k_a.isdisjoint(k_b):
-                        sample_acc[k_a | k_b] = sample_acc.pop(k_a) | sample_acc.pop(k_b)
+                        merged = sample_acc.pop(k_a) | sample_acc.pop(k_b)
+                        sample_acc[k_a | k_b] = sample_acc.get(k_a | k_b, {}) | merged
                         group()
                         return
         group()
-- 
2.43.0


From 9490cb88cf01817e20d0de10e6ccce4291cbcb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:39 +0000
Subject: [PATCH 11/21] fix: Counter.argMax and Counter.sortedKeys work on
 Python 3

---
 Python/research/scripts/demo/util.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index d81667f..e72c5f6 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -295,7 +295,7 @@ class Counter(dict):
         Returns the key with the highest value.
         """
         if len(self.keys()) == 0: return None
-        all = self.items()
+        all = list(self.items())
         values = [x[1] for x in all]
         maxIndex = values.index(max(values))
         return all[maxIndex][0]
@@ -312,9 +312,7 @@ class Counter(dict):
         >>> a.sortedKeys()
         ['second', 'third', 'first']
         """
-        sortedItems = self.items()
-        compare = lambda x, y:  sign(y[1] - x[1])
-        sortedItems.sort(cmp=compare)
+        sortedItems = sorted(self.items(), key=lambda x: x[1], reverse=True)
         return [x[0] for x in sortedItems]
 
     def totalCount(self):
-- 
2.43.0


From abd93fbc542252c9fcaa5b2a4a77a83df856a87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:39 +0000
Subject: [PATCH 12/21] fix: deep copy of a finished game state stays finished

---
 Python/research/scripts/demo/game.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Python/research/scripts/demo/game.py b/Python/research/scripts/demo/game.py
index 3950f27..2570703 100644
--- a/Python/research/scripts/demo/game.py
+++ b/Python/research/scripts/demo/game.py
@@ -400,6 +400,8 @@ class GameStateData:
         state._foodEaten = self._foodEaten
         state._foodAdded = self._foodAdded
         state._capsuleEaten = self._capsuleEaten
+        state._lose = self._lose
+        state._win = self._win
         return state
 
     def copyAgentStates( self, agentStates ):
-- 
2.43.0


From ec035cc1225d2c057d4de767050dae783ddbb6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:39 +0000
Subject: [PATCH 13/21] fix: eating a ghost no longer marks it as eaten in the
 predecessor state

---
 Python/research/scripts/demo/game.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/game.py b/Python/research/scripts/demo/game.py
index 2570703..5abf49d 100644
--- a/Python/research/scripts/demo/game.py
+++ b/Python/research/scripts/demo/game.py
@@ -381,7 +381,7 @@ class GameStateData:
             self.capsules = prevState.capsules[:]
             self.agentStates = self.copyAgentStates( prevState.agentStates )
             self.layout = prevState.layout
-            self._eaten = prevState._eaten
+            self._eaten = prevState._eaten[:]
             self.score = prevState.score
 
         self._foodEaten = None
-- 
2.43.0


From 4698c92084e73ef95544a1356742a14ca2053f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:39 +0000
Subject: [PATCH 14/21] fix: TimeoutFunction cancels its alarm when the
 function raises

---
 Python/research/scripts/demo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index e72c5f6..6eccf5f 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -628,8 +628,8 @@ class TimeoutFunction:
             try:
                 result = self.function(*args, **keyArgs)
             finally:
+                signal.alarm(0)
                 signal.signal(signal.SIGALRM, old)
-            signal.alarm(0)
         else:
             startTime = time.time()
             result = self.function(*args, **keyArgs)
-- 
2.43.0


From 59a9ed2b93135a46dbfaffc17acc63d2ac687655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:46 +0000
Subject: [PATCH 15/21] fix: wait_for_keys waits for a key on Python 3

---
 Python/research/scripts/demo/graphicsUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/graphicsUtils.py b/Python/research/scripts/demo/graphicsUtils.py
index 22e6ae1..097b6d1 100644
--- a/Python/research/scripts/demo/graphicsUtils.py
+++ b/Python/research/scripts/demo/graphicsUtils.py
@@ -309,7 +309,7 @@ def keys_waiting():
 def wait_for_keys():
     keys = []
     while keys == []:
-        keys = keys_pressed()
+        keys = list(keys_pressed())
         sleep(0.05)
     return keys
 
-- 
2.43.0


From 2cf1ada26fcb74e22418415fb3afbda509ad0f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:46 +0000
Subject: [PATCH 16/21] fix: updateDistributions shows every cell of the
 distributions on Python 3

---
 Python/research/scripts/demo/graphicsDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/graphicsDisplay.py b/Python/research/scripts/demo/graphicsDisplay.py
index bd53e9a..8db5363 100644
--- a/Python/research/scripts/demo/graphicsDisplay.py
+++ b/Python/research/scripts/demo/graphicsDisplay.py
@@ -589,7 +589,7 @@ class PacmanGraphics:
     def updateDistributions(self, distributions):
         "Draws an agent's belief distributions"
         # copy all distributions so we don't change their state
-        distributions = map(lambda x: x.copy(), distributions)
+        distributions = [dist.copy() for dist in distributions]
         if self.distributionImages == None:
             self.drawDistributions(self.previousState)
         for x in range(len(self.distributionImages)):
-- 
2.43.0


From 8e6aeed6582095919aab2fdf47b188f46d56ddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:46 +0000
Subject: [PATCH 17/21] fix: edges of variable graphs print whatever their
 variables are

sorted(endpoints) compared the variables themselves, so repr of an edge between
variables of different types (any hashable may be a variable) raised TypeError.
---
 Python/research/scripts/relnet/activation_graph.py | 2 +-
 Python/research/scripts/relnet/folded_graph.py     | 2 +-
 Python/research/scripts/relnet/variables_graph.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Python/research/scripts/relnet/activation_graph.py b/Python/research/scripts/relnet/activation_graph.py
index 49cf148..feabc45 100644
--- a/Python/research/scripts/relnet/activation_graph.py
+++ b/Python/research/scripts/relnet/activation_graph.py
@@ -62,7 +62,7 @@ class ActiveEdge(VariableEdge):
         self._relation_edges_dict: Dict[Any, int] = relations
 
     def __repr__(self):
-        ep = sorted(self.endpoints)
+        ep = sorted(self.endpoints, key=str)
         relations = ",".join(sorted([f"{r}({c})" for r, c in self.relations]))
         in_query = "Q" if self.in_query else ""
         return f"({ep[0]})--{in_query}{{{relations}}}--({ep[1]})"
diff --git a/Python/research/scripts/relnet/folded_graph.py b/Python/research/scripts/relnet/folded_graph.py
index 8d63adc..1f8bc5a 100644
--- a/Python/research/scripts/relnet/folded_graph.py
+++ b/Python/research/scripts/relnet/folded_graph.py
@@ -92,7 +92,7 @@ class FoldedEdge(VariableEdge):
         self._relation_edges_dict: Dict[RelationEdge, int] = relation_edges
 
     def __repr__(self):
-        ep = sorted(self.endpoints)
+        ep = sorted(self.endpoints, key=str)
         relations = ",".join(sorted([f"{e.relation}({c})" for e, c in self.relation_edges]))
         return f"({ep[0]})--{{{relations}}}--({ep[1]})"
 
diff --git a/Python/research/scripts/relnet/variables_graph.py b/Python/research/scripts/relnet/variables_graph.py
index 960120f..6f289a9 100644
--- a/Python/research/scripts/relnet/variables_graph.py
+++ b/Python/research/scripts/relnet/variables_graph.py
@@ -61,7 +61,7 @@ class VariableEdge:
         raise AssertionError("[VariableEdge.__copy__] variable edge should not be copied")
 
     def __repr__(self):
-        ep = sorted(self.endpoints)
+        ep = sorted(self.endpoints, key=str)
         return f"({ep[0]})--({ep[1]})"
 
     def __hash__(self):
-- 
2.43.0


From 58645d9613517620c08b3c3679dacde1ae3f18c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:30 +0000
Subject: [PATCH 18/21] fix: a plain dictionary is a distribution to choose
 from

---
 Python/research/scripts/demo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index 6eccf5f..4507354 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -522,7 +522,7 @@ def flipCoin( p ):
 def chooseFromDistribution( distribution ):
     "Takes either a counter or a list of (prob, key) pairs and samples"
     if type(distribution) == dict or type(distribution) == Counter:
-        return sample(distribution)
+        return sample(Counter(distribution))
     r = random.random()
     base = 0.0
     for prob, element in distribution:
-- 
2.43.0


From ff9d7632acecfe5f948938b5619c04018164a22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:30 +0000
Subject: [PATCH 19/21] fix: matrices that are not square can be inverted

---
 Python/research/scripts/demo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index 4507354..3642944 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -552,7 +552,7 @@ def arrayInvert(array):
     """
     Inverts a matrix stored as a list of lists.
     """
-    result = [[] for i in array]
+    result = [[] for i in (array[0] if array else [])]
     for outer in array:
         for inner in range(len(outer)):
             result[inner].append(outer[inner])
-- 
2.43.0


From 18007ab0074b41bc8246eff71647520ce1c7f5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:50 +0000
Subject: [PATCH 20/21] fix: the overlay of a game before is not removed from
 the new window

---
 Python/research/scripts/demo/graphicsDisplay.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Python/research/scripts/demo/graphicsDisplay.py b/Python/research/scripts/demo/graphicsDisplay.py
index 8db5363..58709bb 100644
--- a/Python/research/scripts/demo/graphicsDisplay.py
+++ b/Python/research/scripts/demo/graphicsDisplay.py
@@ -183,6 +183,7 @@ class PacmanGraphics:
         self.width = layout.width
         self.height = layout.height
         self.make_window(self.width, self.height)
+        self.expandedCells = []  # those of an earlier window are gone with it
         self.infoPane = InfoPane(layout, self.gridSize)
         self.currentState = layout
 
-- 
2.43.0


From 27b9dad4add33e7bb62384af294592aa23073377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:19 +0000
Subject: [PATCH 21/21] fix: muted output is restored when an agent's exception
 reaches the caller of Game.run

---
 Python/research/scripts/demo/game.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/Python/research/scripts/demo/game.py b/Python/research/scripts/demo/game.py
index 5abf49d..f97086d 100644
--- a/Python/research/scripts/demo/game.py
+++ b/Python/research/scripts/demo/game.py
@@ -606,7 +606,10 @@ class Game:
                         self.unmute()
                         return
                 else:
-                    agent.registerInitialState(self.state.deepCopy())
+                    try:
+                        agent.registerInitialState(self.state.deepCopy())
+                    finally:
+                        self.unmute()
                 ## TODO: could this exceed the total time
                 self.unmute()
 
@@ -636,7 +639,10 @@ class Game:
                         self.unmute()
                         return
                 else:
-                    observation = agent.observationFunction(self.state.deepCopy())
+                    try:
+                        observation = agent.observationFunction(self.state.deepCopy())
+                    finally:
+                        self.unmute()
                 self.unmute()
             else:
                 observation = self.state.deepCopy()
@@ -685,7 +691,10 @@ class Game:
                     self.unmute()
                     return
             else:
-                action = agent.getAction(observation)
+                try:
+                    action = agent.getAction(observation)
+                finally:
+                    self.unmute()
             self.unmute()
 
             # Execute the action
@@ -724,7 +733,9 @@ class Game:
                     agent.final( self.state )
                     self.unmute()
                 except Exception as data:
-                    if not self.catchExceptions: raise data
+                    if not self.catchExceptions:
+                        self.unmute()
+                        raise data
                     self._agentCrash(agentIndex)
                     self.unmute()
                     return
-- 
2.43.0

