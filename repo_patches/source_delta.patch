From 809e27742af185f99a5f993a961a37a5fbf0bf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:28 +0000
Subject: [PATCH 01/40] fix: self-configuring bounds keep a bound of zero
 instead of reconfiguring on every call

---
 gerrychain/constraints/bounds.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerrychain/constraints/bounds.py b/gerrychain/constraints/bounds.py
index 88dd8a6..2d259be 100644
--- a/gerrychain/constraints/bounds.py
+++ b/gerrychain/constraints/bounds.py
@@ -116,7 +116,7 @@ class SelfConfiguringUpperBound:
         self.bound = None
 
     def __call__(self, partition: Partition) -> bool:
-        if not self.bound:
+        if self.bound is None:
             self.bound = self.func(partition)
         return self.func(partition) <= self.bound
 
@@ -153,7 +153,7 @@ class SelfConfiguringLowerBound:
         self.epsilon = epsilon
 
     def __call__(self, partition: Partition) -> bool:
-        if not self.bound:
+        if self.bound is None:
             self.bound = self.func(partition) - self.epsilon
         return self.func(partition) >= self.bound
 
@@ -196,7 +196,7 @@ class WithinPercentRangeOfBounds:
         self.ubound = None
 
     def __call__(self, partition: Partition) -> bool:
-        if not (self.lbound and self.ubound):
+        if self.lbound is None or self.ubound is None:
             self.lbound = self.func(partition) * (1.0 - self.percent)
             self.ubound = self.func(partition) * (1.0 + self.percent)
             return True
-- 
2.43.0


From 47070fc925f1bd763790193dce72dd362cd1277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:28 +0000
Subject: [PATCH 02/40] fix: an invalid initial state raises ValueError even if
 a failed constraint has no __name__

---
 gerrychain/chain.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gerrychain/chain.py b/gerrychain/chain.py
index 9b63f8a..f545bc5 100644
--- a/gerrychain/chain.py
+++ b/gerrychain/chain.py
@@ -89,7 +89,9 @@ class MarkovChain:
             ]
             message = (
                 "The given initial_state is not valid according is_valid. "
-                "The failed constraints were: " + ",".join([f.__name__ for f in failed])
+                "The failed constraints were: " + ",".join(
+                    getattr(f, "__name__", type(f).__name__) for f in failed
+                )
             )
             raise ValueError(message)
 
@@ -143,7 +145,9 @@ class MarkovChain:
             ]
             message = (
                 "The given initial_state is not valid according to the new constraints. "
-                "The failed constraints were: " + ",".join([f.__name__ for f in failed])
+                "The failed constraints were: " + ",".join(
+                    getattr(f, "__name__", type(f).__name__) for f in failed
+                )
             )
             raise ValueError(message)
 
-- 
2.43.0


From 418ff280f30f84d7e653cbcb53399ecf373a27e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:28 +0000
Subject: [PATCH 03/40] fix: count every exterior side of a grid cell, also on
 one-cell-wide grids

---
 gerrychain/grid.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/gerrychain/grid.py b/gerrychain/grid.py
index b635c80..6cf286c 100644
--- a/gerrychain/grid.py
+++ b/gerrychain/grid.py
@@ -235,12 +235,8 @@ def get_boundary_perim(node: Tuple[int, int], dimensions: Tuple[int, int]) -> in
     :rtype: int
     """
     m, n = dimensions
-    if node in [(0, 0), (m - 1, 0), (0, n - 1), (m - 1, n - 1)]:
-        return 2
-    elif node[0] in [0, m - 1] or node[1] in [0, n - 1]:
-        return 1
-    else:
-        return 0
+    x, y = node
+    return (x == 0) + (x == m - 1) + (y == 0) + (y == n - 1)
 
 
 def color_half(node: Tuple[int, int], threshold: int) -> int:
-- 
2.43.0


From 987df9ffaf331d6e62191f98455da3cd0fe857f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:28 +0000
Subject: [PATCH 04/40] fix: num_spanning_trees handles single-node districts

---
 gerrychain/updaters/spanning_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/updaters/spanning_trees.py b/gerrychain/updaters/spanning_trees.py
index 307daf4..a4129f4 100644
--- a/gerrychain/updaters/spanning_trees.py
+++ b/gerrychain/updaters/spanning_trees.py
@@ -26,7 +26,7 @@ def _num_spanning_trees_in_district(partition, district: int) -> int:
     """
     graph = partition.subgraphs[district]
     laplacian = networkx.laplacian_matrix(graph)
-    L = numpy.delete(numpy.delete(laplacian.todense(), 0, 0), 1, 1)
+    L = numpy.delete(numpy.delete(laplacian.todense(), 0, 0), 0, 1)
     return math.exp(numpy.linalg.slogdet(L)[1])
 
 
-- 
2.43.0


From 59d00996771c6fbd158837fdb9c125a45a51f21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:28 +0000
Subject: [PATCH 05/40] fix: a county split in the parent partition is an old
 split, not a new split again

---
 gerrychain/updaters/county_splits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/updaters/county_splits.py b/gerrychain/updaters/county_splits.py
index fad28f4..4732d39 100644
--- a/gerrychain/updaters/county_splits.py
+++ b/gerrychain/updaters/county_splits.py
@@ -107,7 +107,7 @@ def compute_county_splits(
         split = CountySplit.NOT_SPLIT
 
         if len(seen) > 1:
-            if county_info.split != CountySplit.OLD_SPLIT:
+            if county_info.split == CountySplit.NOT_SPLIT:
                 split = CountySplit.NEW_SPLIT
             else:
                 split = CountySplit.OLD_SPLIT
-- 
2.43.0


From 203a4d67869adfb9abcd1c7714b64d5dc1c2eb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:28 +0000
Subject: [PATCH 06/40] fix: report each metagraph neighbour once even if
 several cut edges lead to it

---
 gerrychain/metagraph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gerrychain/metagraph.py b/gerrychain/metagraph.py
index 438af20..24beb30 100644
--- a/gerrychain/metagraph.py
+++ b/gerrychain/metagraph.py
@@ -27,8 +27,12 @@ def all_cut_edge_flips(partition: Partition) -> Iterator[Dict]:
     :returns: An iterator that yields dictionaries representing the flipped edges.
     :rtype: Iterator[Dict]
     """
+    seen = set()
     for edge, index in product(partition.cut_edges, (0, 1)):
-        yield {edge[index]: partition.assignment.mapping[edge[1 - index]]}
+        node, part = edge[index], partition.assignment.mapping[edge[1 - index]]
+        if (node, part) not in seen:
+            seen.add((node, part))
+            yield {node: part}
 
 
 def all_valid_states_one_flip_away(
-- 
2.43.0


From 56020cf791898315e6780de67eae7759b9b5404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:06 +0000
Subject: [PATCH 07/40] fix: WithinPercentRangeOfBounds keeps its bounds
 ordered for negative initial values

---
 gerrychain/constraints/bounds.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerrychain/constraints/bounds.py b/gerrychain/constraints/bounds.py
index 2d259be..ffd89df 100644
--- a/gerrychain/constraints/bounds.py
+++ b/gerrychain/constraints/bounds.py
@@ -197,8 +197,10 @@ class WithinPercentRangeOfBounds:
 
     def __call__(self, partition: Partition) -> bool:
         if self.lbound is None or self.ubound is None:
-            self.lbound = self.func(partition) * (1.0 - self.percent)
-            self.ubound = self.func(partition) * (1.0 + self.percent)
+            value = self.func(partition)
+            self.lbound, self.ubound = sorted(
+                (value * (1.0 - self.percent), value * (1.0 + self.percent))
+            )
             return True
         else:
             return self.lbound <= self.func(partition) <= self.ubound
-- 
2.43.0


From 428cccefa824cbdef065447659929d37c7bb808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:06 +0000
Subject: [PATCH 08/40] fix: a DataTally (or Election) reads node attributes
 from the graph of the partition at hand

---
 gerrychain/updaters/tally.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gerrychain/updaters/tally.py b/gerrychain/updaters/tally.py
index 97305b3..cd9e982 100644
--- a/gerrychain/updaters/tally.py
+++ b/gerrychain/updaters/tally.py
@@ -34,15 +34,15 @@ class DataTally:
         self.data = data
         self.alias = alias
 
-        def initialize_tally(partition):
+        def value_at(partition, node):
             if isinstance(self.data, str):
-                nodes = partition.graph.nodes
-                attribute = self.data
-                self.data = {node: nodes[node][attribute] for node in nodes}
+                return partition.graph.lookup(node, self.data)
+            return self.data[node]
 
+        def initialize_tally(partition):
             tally = collections.defaultdict(int)
             for node, part in partition.assignment.items():
-                add = self.data[node]
+                add = value_at(partition, node)
 
                 if math.isnan(add):
                     warnings.warn(
@@ -56,8 +56,8 @@ class DataTally:
 
         @on_flow(initialize_tally, alias=alias)
         def update_tally(partition, previous, new_nodes, old_nodes):
-            inflow = sum(self.data[node] for node in new_nodes)
-            outflow = sum(self.data[node] for node in old_nodes)
+            inflow = sum(value_at(partition, node) for node in new_nodes)
+            outflow = sum(value_at(partition, node) for node in old_nodes)
             return previous + inflow - outflow
 
         self._call = update_tally
-- 
2.43.0


From c90f5db2ef8a06742feb744588b2028c8c6ac000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:06 +0000
Subject: [PATCH 09/40] fix: tallies ignore NaN values at every step and have
 an entry for every part

---
 gerrychain/updaters/tally.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/gerrychain/updaters/tally.py b/gerrychain/updaters/tally.py
index cd9e982..00af3d0 100644
--- a/gerrychain/updaters/tally.py
+++ b/gerrychain/updaters/tally.py
@@ -40,7 +40,7 @@ class DataTally:
             return self.data[node]
 
         def initialize_tally(partition):
-            tally = collections.defaultdict(int)
+            tally = {part: 0 for part in partition.parts}
             for node, part in partition.assignment.items():
                 add = value_at(partition, node)
 
@@ -52,12 +52,12 @@ class DataTally:
                     )
                 else:
                     tally[part] += add
-            return dict(tally)
+            return tally
 
         @on_flow(initialize_tally, alias=alias)
         def update_tally(partition, previous, new_nodes, old_nodes):
-            inflow = sum(value_at(partition, node) for node in new_nodes)
-            outflow = sum(value_at(partition, node) for node in old_nodes)
+            inflow = _sum_ignoring_nan(value_at(partition, node) for node in new_nodes)
+            outflow = _sum_ignoring_nan(value_at(partition, node) for node in old_nodes)
             return previous + inflow - outflow
 
         self._call = update_tally
@@ -127,7 +127,7 @@ class Tally:
             being the sum of the "field" attribute of nodes in that part.
         :rtype: Dict
         """
-        tally = collections.defaultdict(self.dtype)
+        tally = {part: self.dtype() for part in partition.parts}
         for node, part in partition.assignment.items():
             add = self._get_tally_from_node(partition, node)
 
@@ -138,7 +138,7 @@ class Tally:
                 )
             else:
                 tally[part] += add
-        return dict(tally)
+        return tally
 
     def _update_tally(self, partition):
         """
@@ -170,6 +170,13 @@ class Tally:
         return sum(partition.graph.lookup(node, field) for field in self.fields)
 
 
+def _sum_ignoring_nan(values):
+    """
+    Sums the given values, leaving out the NaNs that the initial tally ignores.
+    """
+    return sum(value for value in values if not math.isnan(value))
+
+
 def compute_out_flow(graph, fields: Union[str, List[str]], flow: Dict) -> int:
     """
     :param graph: The graph that the partition is defined on.
@@ -185,7 +192,9 @@ def compute_out_flow(graph, fields: Union[str, List[str]], flow: Dict) -> int:
     :returns: The sum of the "field" attribute of nodes in the "out" set of the flow.
     :rtype: int
     """
-    return sum(graph.lookup(node, field) for node in flow["out"] for field in fields)
+    return _sum_ignoring_nan(
+        sum(graph.lookup(node, field) for field in fields) for node in flow["out"]
+    )
 
 
 def compute_in_flow(graph, fields: Union[str, List[str]], flow: Dict) -> int:
@@ -203,4 +212,6 @@ def compute_in_flow(graph, fields: Union[str, List[str]], flow: Dict) -> int:
     :returns: The sum of the "field" attribute of nodes in the "in" set of the flow.
     :rtype: int
     """
-    return sum(graph.lookup(node, field) for node in flow["in"] for field in fields)
+    return _sum_ignoring_nan(
+        sum(graph.lookup(node, field) for field in fields) for node in flow["in"]
+    )
-- 
2.43.0


From cf72ba4840e62ad1075dd32f2bf41b9303213122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:42 +0000
Subject: [PATCH 10/40] fix: a one-sided cut exactly epsilon away from the
 target counts as balanced

The two-sided test and the memoising search both include the limit.
---
 gerrychain/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/tree.py b/gerrychain/tree.py
index 06ce843..206bf3f 100644
--- a/gerrychain/tree.py
+++ b/gerrychain/tree.py
@@ -207,7 +207,7 @@ class PopulatedGraph:
         if one_sided_cut:
             return (
                 abs(self.population[node] - self.ideal_pop)
-                < self.epsilon * self.ideal_pop
+                <= self.epsilon * self.ideal_pop
             )
 
         return (
-- 
2.43.0


From fc3f48716c326aad9d930114003fb4a2c0b23510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:42 +0000
Subject: [PATCH 11/40] fix: balanced cuts of a two-node tree can be found

No node of such a tree has degree above one, so choosing the root raised an
IndexError and two single-node districts could never be recombined.
---
 gerrychain/tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerrychain/tree.py b/gerrychain/tree.py
index 206bf3f..cda1047 100644
--- a/gerrychain/tree.py
+++ b/gerrychain/tree.py
@@ -261,12 +261,12 @@ def find_balanced_edge_cuts_contraction(
     :rtype: List[Cut]
     """
 
-    root = choice([x for x in h if h.degree(x) > 1])
+    root = choice([x for x in h if h.degree(x) > 1] or list(h))
     # BFS predecessors for iteratively contracting leaves
     pred = predecessors(h.graph, root)
 
     cuts = []
-    leaves = deque(x for x in h if h.degree(x) == 1)
+    leaves = deque(x for x in h if h.degree(x) == 1 and x != root)
     while len(leaves) > 0:
         leaf = leaves.popleft()
         if h.has_ideal_population(leaf, one_sided_cut=one_sided_cut):
@@ -374,7 +374,7 @@ def find_balanced_edge_cuts_memoization(
     :rtype: List[Cut]
     """
 
-    root = choice([x for x in h if h.degree(x) > 1])
+    root = choice([x for x in h if h.degree(x) > 1] or list(h))
     pred = predecessors(h.graph, root)
     succ = successors(h.graph, root)
     total_pop = h.tot_pop
-- 
2.43.0


From ca3087e12e1bf5b32628edd88cf07f4c075130d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:42 +0000
Subject: [PATCH 12/40] fix: bipartition_tree_random honours one_sided_cut

The parameter was ignored and every cut was one-sided, so ReCom (whose default
method it is) could stop with a PopulationBalanceError although a balanced cut
was available.
---
 gerrychain/tree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gerrychain/tree.py b/gerrychain/tree.py
index cda1047..834e6e4 100644
--- a/gerrychain/tree.py
+++ b/gerrychain/tree.py
@@ -866,7 +866,7 @@ def bipartition_tree_random(
     :rtype: Union[Set[Any], None]
     """
     if "one_sided_cut" in signature(balance_edge_fn).parameters:
-        balance_edge_fn = partial(balance_edge_fn, one_sided_cut=True)
+        balance_edge_fn = partial(balance_edge_fn, one_sided_cut=one_sided_cut)
 
     possible_cuts = _bipartition_tree_random_all(
         graph=graph,
@@ -1093,7 +1093,9 @@ def get_seed_chunks(
     pop_col: str,
     epsilon: float,
     node_repeats: int = 1,
-    method: Callable = partial(bipartition_tree_random, max_attempts=10000),
+    method: Callable = partial(
+        bipartition_tree_random, one_sided_cut=True, max_attempts=10000
+    ),
 ) -> List[List[int]]:
     """
     Helper function for recursive_seed_part. Partitions the graph into ``num_chunks`` chunks,
-- 
2.43.0


From e517878153c730d5a909a05771b55d7d16d0a284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:42 +0000
Subject: [PATCH 13/40] fix: tree partitioning does not empty the node set of a
 frozen graph

FrozenGraph.node_indices is cached, so removing nodes from it in place corrupted
the graph of the caller's partition.
---
 gerrychain/tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerrychain/tree.py b/gerrychain/tree.py
index 834e6e4..33d0986 100644
--- a/gerrychain/tree.py
+++ b/gerrychain/tree.py
@@ -926,7 +926,7 @@ def epsilon_tree_bipartition(
         )
 
     flips = {}
-    remaining_nodes = graph.node_indices
+    remaining_nodes = set(graph.node_indices)
 
     lb_pop = pop_target * (1 - epsilon)
     ub_pop = pop_target * (1 + epsilon)
@@ -1004,7 +1004,7 @@ def recursive_tree_part(
     :rtype: dict
     """
     flips = {}
-    remaining_nodes = graph.node_indices
+    remaining_nodes = set(graph.node_indices)
     # We keep a running tally of deviation from ``epsilon`` at each partition
     # and use it to tighten the population constraints on a per-partition
     # basis such that every partition, including the last partition, has a
-- 
2.43.0


From 7b07994372e3db21fbc30c41eeca0a61bd016bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:42 +0000
Subject: [PATCH 14/40] fix: recom gives up once every adjacent pair of
 districts has failed

It waited for as many failures as there are pairs of districts, adjacent or not,
and so ran forever as soon as two districts were not adjacent.
---
 gerrychain/proposals/tree_proposals.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gerrychain/proposals/tree_proposals.py b/gerrychain/proposals/tree_proposals.py
index e66a718..4067449 100644
--- a/gerrychain/proposals/tree_proposals.py
+++ b/gerrychain/proposals/tree_proposals.py
@@ -93,8 +93,13 @@ def recom(
     """
 
     bad_district_pairs = set()
-    n_parts = len(partition)
-    tot_pairs = n_parts * (n_parts - 1) / 2  # n choose 2
+    # Only adjacent districts can be merged
+    tot_pairs = len(
+        {
+            frozenset(partition.assignment.mapping[node] for node in edge)
+            for edge in partition["cut_edges"]
+        }
+    )
 
     # Try to add the region aware in if the method accepts the surcharge dictionary
     if "region_surcharge" in signature(method).parameters:
-- 
2.43.0


From f1ea0911d9ea44e50197d7f1ed9eab6c079bfc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:41 +0000
Subject: [PATCH 15/40] fix: Gingleator scores are defined when every district
 is an opportunity district

There is no next highest district then; taking the maximum of an empty sequence
raised a ValueError in the middle of a run.
---
 gerrychain/optimization/gingleator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerrychain/optimization/gingleator.py b/gerrychain/optimization/gingleator.py
index 77399b3..2b61b89 100755
--- a/gerrychain/optimization/gingleator.py
+++ b/gerrychain/optimization/gingleator.py
@@ -141,7 +141,7 @@ class Gingleator(SingleMetricOptimizer):
         """
         dist_percs = part[minority_perc_col].values()
         num_opport_dists = sum(list(map(lambda v: v >= threshold, dist_percs)))
-        next_dist = max(i for i in dist_percs if i < threshold)
+        next_dist = max((i for i in dist_percs if i < threshold), default=0)
         return num_opport_dists + next_dist
 
     @classmethod
@@ -168,9 +168,9 @@ class Gingleator(SingleMetricOptimizer):
         """
         dist_percs = part[minority_perc_col].values()
         num_opport_dists = sum(list(map(lambda v: v >= threshold, dist_percs)))
-        next_dist = max(i for i in dist_percs if i < threshold)
+        next_dist = max((i for i in dist_percs if i < threshold), default=None)
 
-        if next_dist < threshold - 0.1:
+        if next_dist is None or next_dist < threshold - 0.1:
             return num_opport_dists
         else:
             return num_opport_dists + (next_dist - threshold + 0.1) * 10
-- 
2.43.0


From fb22fd5b394fd341a868fb81afc49faea14c4ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:41 +0000
Subject: [PATCH 16/40] fix: best_part and best_score include the plan just
 yielded

The plan was yielded before it was compared with the best one, so during a run
both lagged one plan behind, and a run that was stopped early lost its last plan.
---
 gerrychain/optimization/optimization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerrychain/optimization/optimization.py b/gerrychain/optimization/optimization.py
index 5b45e3c..bd8b7e6 100644
--- a/gerrychain/optimization/optimization.py
+++ b/gerrychain/optimization/optimization.py
@@ -417,12 +417,12 @@ class SingleMetricOptimizer:
             )
 
             for part in chain:
-                yield part
                 part_score = self.score(part)
 
                 if self._is_improvement(part_score, self._best_score):
                     self._best_part = part
                     self._best_score = part_score
+                yield part
 
     def simulated_annealing(
         self,
@@ -466,11 +466,11 @@ class SingleMetricOptimizer:
         chain_generator = tqdm(chain) if with_progress_bar else chain
 
         for part in chain_generator:
-            yield part
             part_score = self.score(part)
             if self._is_improvement(part_score, self._best_score):
                 self._best_part = part
                 self._best_score = part_score
+            yield part
 
     def tilted_short_bursts(
         self,
@@ -553,7 +553,6 @@ class SingleMetricOptimizer:
                 self._proposal, self._constraints, accept, self._best_part, burst_length
             )
             for part in chain:
-                yield part
                 part_score = self.score(part)
                 if self._is_improvement(part_score, self._best_score):
                     self._best_part = part
@@ -561,6 +560,7 @@ class SingleMetricOptimizer:
                     time_stuck = 0
                 else:
                     time_stuck += 1
+                yield part
 
                 i += 1
                 if i >= num_steps:
@@ -599,9 +599,9 @@ class SingleMetricOptimizer:
         chain_generator = tqdm(chain) if with_progress_bar else chain
 
         for part in chain_generator:
-            yield part
             part_score = self.score(part)
 
             if self._is_improvement(part_score, self._best_score):
                 self._best_part = part
                 self._best_score = part_score
+            yield part
-- 
2.43.0


From 3a412f361c2a7d49837614601b5bbde86f537573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:41 +0000
Subject: [PATCH 17/40] fix: variable length short bursts get longer when they
 are stuck

The first plan of a burst is the best one so far; as a tie it reset the counter
of plans without improvement, so the burst length never grew.
---
 gerrychain/optimization/optimization.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gerrychain/optimization/optimization.py b/gerrychain/optimization/optimization.py
index bd8b7e6..55d53bb 100644
--- a/gerrychain/optimization/optimization.py
+++ b/gerrychain/optimization/optimization.py
@@ -554,12 +554,14 @@ class SingleMetricOptimizer:
             )
             for part in chain:
                 part_score = self.score(part)
+                # A tie makes the later plan the best one, but is not an improvement
+                if self._is_improvement(self._best_score, part_score):
+                    time_stuck += 1
+                else:
+                    time_stuck = 0
                 if self._is_improvement(part_score, self._best_score):
                     self._best_part = part
                     self._best_score = part_score
-                    time_stuck = 0
-                else:
-                    time_stuck += 1
                 yield part
 
                 i += 1
@@ -568,6 +570,7 @@ class SingleMetricOptimizer:
 
             if time_stuck >= stuck_buffer * burst_length:
                 burst_length *= 2
+                time_stuck = 0
 
     def tilted_run(self, num_steps: int, p: float, with_progress_bar: bool = False):
         """
-- 
2.43.0


From 7e1f2a7d2c546b912fdb339658fb9cc3befaa9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:41 +0000
Subject: [PATCH 18/40] fix: simulated annealing accepts large improvements
 instead of overflowing

---
 gerrychain/optimization/optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerrychain/optimization/optimization.py b/gerrychain/optimization/optimization.py
index 55d53bb..a46cbcb 100644
--- a/gerrychain/optimization/optimization.py
+++ b/gerrychain/optimization/optimization.py
@@ -179,7 +179,9 @@ class SingleMetricOptimizer:
             beta = beta_function(part[self._step_indexer])
             if self._maximize:
                 score_delta *= -1
-            return random.random() < math.exp(-beta * beta_magnitude * score_delta)
+            return random.random() < math.exp(
+                min(0, -beta * beta_magnitude * score_delta)
+            )
 
         return simulated_annealing_acceptance_function
 
-- 
2.43.0


From ab5ef761b08ae2f80486e2fe16bcc9167c4cd167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:41 +0000
Subject: [PATCH 19/40] fix: add_data adds only the requested columns

---
 gerrychain/graph/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/graph/graph.py b/gerrychain/graph/graph.py
index fdd905a..3247eb3 100644
--- a/gerrychain/graph/graph.py
+++ b/gerrychain/graph/graph.py
@@ -326,7 +326,7 @@ class Graph(networkx.Graph):
 
         check_dataframe(df[columns])
 
-        column_dictionaries = df.to_dict("index")
+        column_dictionaries = df[columns].to_dict("index")
         networkx.set_node_attributes(self, column_dictionaries)
 
         if hasattr(self, "data"):
-- 
2.43.0


From 3378030d3cd62cbab159009f22a9adb83d8a4f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:41 +0000
Subject: [PATCH 20/40] fix: locality entropies work for locality labels that
 are not strings

---
 gerrychain/updaters/locality_split_scores.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerrychain/updaters/locality_split_scores.py b/gerrychain/updaters/locality_split_scores.py
index 28720b2..c5b009a 100644
--- a/gerrychain/updaters/locality_split_scores.py
+++ b/gerrychain/updaters/locality_split_scores.py
@@ -307,7 +307,7 @@ class LocalitySplits:
                 # counter = dict(locality_splits[district+1])
                 count = dict(v)
                 if locality_j in count:
-                    intersection = count[str(locality_j)]
+                    intersection = count[locality_j]
                     p = intersection / tot_county_vtds
 
                     if p != 0:
@@ -350,7 +350,7 @@ class LocalitySplits:
                 # counter = dict(locality_splits[district+1])
                 count = dict(v)
                 if locality_j in count:
-                    intersection = count[str(locality_j)]
+                    intersection = count[locality_j]
                     p = intersection / tot_county_vtds
 
                     if p != 0:
-- 
2.43.0


From 6f8acf0786e1e160b963fab260722860c40f7f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:41 +0000
Subject: [PATCH 21/40] fix: locality scores of earlier plans do not change
 when another plan is scored

---
 gerrychain/updaters/locality_split_scores.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/updaters/locality_split_scores.py b/gerrychain/updaters/locality_split_scores.py
index c5b009a..d0d4587 100644
--- a/gerrychain/updaters/locality_split_scores.py
+++ b/gerrychain/updaters/locality_split_scores.py
@@ -195,7 +195,7 @@ class LocalitySplits:
             if s == "num_split_localities":
                 self.scores[s] = self.num_split_localities(partition)
 
-        return self.scores
+        return dict(self.scores)
 
     def num_parts(self, partition) -> int:
         """
-- 
2.43.0


From 2f9feae1acb5dc1d105b85027de225f27c440b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:41 +0000
Subject: [PATCH 22/40] fix: a LocalitySplits object used with several graphs
 reads the localities of each

The localities of the first graph were kept forever.
---
 gerrychain/updaters/locality_split_scores.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gerrychain/updaters/locality_split_scores.py b/gerrychain/updaters/locality_split_scores.py
index d0d4587..b2181b0 100644
--- a/gerrychain/updaters/locality_split_scores.py
+++ b/gerrychain/updaters/locality_split_scores.py
@@ -130,11 +130,16 @@ class LocalitySplits:
         # certain use cases.
         self.allowed_pieces = {}
 
+        # The graph whose localities are remembered
+        self._graph = None
+
         self.scores = dict.fromkeys(scores_to_compute)
 
     def __call__(self, partition):
 
-        if self.localities == []:
+        if self._graph is not partition.graph:
+            self._graph = partition.graph
+            self.allowed_pieces = {}
             self.localitydict = dict(partition.graph.nodes(data=self.col_id))
             self.localities = set(list(self.localitydict.values()))
 
-- 
2.43.0


From d46fb2b77d7bb44073681c32f327b200055d52d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:39 +0000
Subject: [PATCH 23/40] fix: contiguity checks look at every part once a plan's
 parent is gone

The chain drops the parent of a state when it moves on. The parts that had lost
nodes were not checked from then on, so a discontiguous plan became contiguous.
---
 gerrychain/constraints/contiguity.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gerrychain/constraints/contiguity.py b/gerrychain/constraints/contiguity.py
index e1077e4..87f2d1b 100644
--- a/gerrychain/constraints/contiguity.py
+++ b/gerrychain/constraints/contiguity.py
@@ -152,12 +152,10 @@ def affected_parts(partition: Partition) -> Set[int]:
     flips = partition.flips
     parent = partition.parent
 
-    if flips is None:
+    # Without the parent, there is no telling which parts the nodes came from
+    if flips is None or parent is None:
         return partition.parts
 
-    if parent is None:
-        return set(flips.values())
-
     affected = set()
     for node, part in flips.items():
         affected.add(part)
-- 
2.43.0


From 83083081db45004c083084e0475e31026bdae4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:08 +0000
Subject: [PATCH 24/40] fix: slow_reversible_propose_bi can flip a node without
 neighbors in its own part

Removing its part from the list of neighboring parts raised a ValueError.
---
 gerrychain/proposals/proposals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/proposals/proposals.py b/gerrychain/proposals/proposals.py
index 988c746..3eaeb86 100644
--- a/gerrychain/proposals/proposals.py
+++ b/gerrychain/proposals/proposals.py
@@ -123,8 +123,8 @@ def slow_reversible_propose_bi(partition: Partition) -> Partition:
                 for neighbor in partition.graph.neighbors(flip)
             ]
         )
+        - {partition.assignment.mapping[flip]}
     )
-    neighbor_assignments.remove(partition.assignment.mapping[flip])
     flips = {flip: random.choice(neighbor_assignments)}
 
     return partition.flip(flips)
-- 
2.43.0


From 1eb31ca37283c296a25bf2ac34ecf0a674e95ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:46 +0000
Subject: [PATCH 25/40] fix: num_spanning_trees counts trees on graphs whose
 edges have weights

spectral_recom, for one, leaves random weights on the edges.
---
 gerrychain/updaters/spanning_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/updaters/spanning_trees.py b/gerrychain/updaters/spanning_trees.py
index a4129f4..ad52931 100644
--- a/gerrychain/updaters/spanning_trees.py
+++ b/gerrychain/updaters/spanning_trees.py
@@ -25,7 +25,7 @@ def _num_spanning_trees_in_district(partition, district: int) -> int:
     :rtype: int
     """
     graph = partition.subgraphs[district]
-    laplacian = networkx.laplacian_matrix(graph)
+    laplacian = networkx.laplacian_matrix(graph, weight=None)
     L = numpy.delete(numpy.delete(laplacian.todense(), 0, 0), 0, 1)
     return math.exp(numpy.linalg.slogdet(L)[1])
 
-- 
2.43.0


From c6542605fb540c5aee4e551968b6d4a2db8d7e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:46 +0000
Subject: [PATCH 26/40] fix: diversity statistics tell plans with the same cut
 edges apart

Two different plans have the same cut edges if a district is not contiguous.
---
 gerrychain/meta/diversity.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/gerrychain/meta/diversity.py b/gerrychain/meta/diversity.py
index e8961ec..cab0ea4 100644
--- a/gerrychain/meta/diversity.py
+++ b/gerrychain/meta/diversity.py
@@ -34,8 +34,7 @@ def collect_diversity_stats(
 ) -> Iterable[Tuple[Partition, DiversityStats]]:
     """
     Report the diversity of the chain being run, live, as a drop-in wrapper.
-    Requires the cut_edges updater on each `Partition` object. Plans/districts
-    are considered distinct if they are not isomorphic. That is, relabled plans
+    Plans/districts are considered distinct if they are not isomorphic. That is, relabled plans
     and districts are considered non-unique and counted as duplicate.
 
     Example usage::
@@ -65,17 +64,17 @@ def collect_diversity_stats(
     for partition in chain:
         steps_taken += 1
 
-        for district, nodes in partition.assignment.parts.items():
-            hashable_nodes = tuple(sorted(list(nodes)))
+        hashable_plan = frozenset(
+            frozenset(nodes) for nodes in partition.assignment.parts.values()
+        )
+        for hashable_nodes in hashable_plan:
             if hashable_nodes not in seen_districts:
                 unique_districts += 1
                 seen_districts[hashable_nodes] = 1
 
-        cut_edges = partition["cut_edges"]
-        hashable_cut_edges = tuple(sorted(list(cut_edges)))
-        if hashable_cut_edges not in seen_plans:
+        if hashable_plan not in seen_plans:
             unique_plans += 1
-            seen_plans[hashable_cut_edges] = 1
+            seen_plans[hashable_plan] = 1
 
         stats = DiversityStats(
             unique_plans=unique_plans,
-- 
2.43.0


From 336bfdb18313e8f9d2a77f01af564275790d0871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:14 +0000
Subject: [PATCH 27/40] fix: ignore_errors=True ignores invalid geometries
 after reprojection too

---
 gerrychain/graph/graph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gerrychain/graph/graph.py b/gerrychain/graph/graph.py
index 3247eb3..562ecf0 100644
--- a/gerrychain/graph/graph.py
+++ b/gerrychain/graph/graph.py
@@ -237,9 +237,8 @@ class Graph(networkx.Graph):
         # explicitly told not to.
         if reproject:
             df = reprojected(dataframe)
-            if ignore_errors:
+            if not ignore_errors:
                 invalid_reproj = invalid_geometries(df)
-                print(invalid_reproj)
                 if len(invalid_reproj) > 0:
                     raise GeometryError(
                         "Invalid geometries at rows {} after "
-- 
2.43.0


From fa325c3c3e5682908643258983f33e637baf8722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:26 +0000
Subject: [PATCH 28/40] fix: a validator given an iterator keeps its
 constraints after the first check

---
 gerrychain/constraints/validity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerrychain/constraints/validity.py b/gerrychain/constraints/validity.py
index c93d74f..df15949 100644
--- a/gerrychain/constraints/validity.py
+++ b/gerrychain/constraints/validity.py
@@ -27,6 +27,9 @@ class Validator:
         :param constraints: List of validator functions that will check partitions.
         :type constraints: List[Callable]
         """
+        if not isinstance(constraints, (list, tuple)):
+            # An iterator would be used up by the first check
+            constraints = list(constraints)
         self.constraints = constraints
 
     def __call__(self, partition: Partition) -> bool:
-- 
2.43.0


From b15ebcb3f54b3286ef9880f5d4c545eb907438ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:36 +0000
Subject: [PATCH 29/40] fix: an optimizer given an iterator of constraints
 applies them in every burst

---
 gerrychain/optimization/optimization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerrychain/optimization/optimization.py b/gerrychain/optimization/optimization.py
index a46cbcb..0f5345f 100644
--- a/gerrychain/optimization/optimization.py
+++ b/gerrychain/optimization/optimization.py
@@ -66,7 +66,8 @@ class SingleMetricOptimizer:
         """
         self._initial_part = initial_state
         self._proposal = proposal
-        self._constraints = constraints
+        # Every burst builds a chain from these, so an iterator must not be used up
+        self._constraints = constraints if callable(constraints) else list(constraints)
         self._score = optimization_metric
         self._maximize = maximize
         self._best_part = None
-- 
2.43.0


From 36657e53e9aea66f3522b3612c108fc8bac7a896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:30 +0000
Subject: [PATCH 30/40] fix: flip every district skips districts that border no
 other district

---
 gerrychain/proposals/proposals.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gerrychain/proposals/proposals.py b/gerrychain/proposals/proposals.py
index 3eaeb86..02ad591 100644
--- a/gerrychain/proposals/proposals.py
+++ b/gerrychain/proposals/proposals.py
@@ -35,6 +35,9 @@ def propose_flip_every_district(partition: Partition) -> Partition:
     flips = dict()
 
     for dist_edges in partition["cut_edges_by_part"].values():
+        if not dist_edges:
+            # The district has come to border no other district
+            continue
         edge = random.choice(tuple(dist_edges))
 
         index = random.choice((0, 1))
-- 
2.43.0


From c4d0353146458b3b4ddcc2e8ac14acd1c9c92206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:41 +0000
Subject: [PATCH 31/40] fix: uniform spanning tree of a single node contains
 that node

---
 gerrychain/tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gerrychain/tree.py b/gerrychain/tree.py
index 33d0986..8ef8f85 100644
--- a/gerrychain/tree.py
+++ b/gerrychain/tree.py
@@ -128,6 +128,8 @@ def uniform_spanning_tree(
     for node in tree_nodes:
         if next_node[node] is not None:
             G.add_edge(node, next_node[node])
+    # A graph with a single node has no edges that would bring it into the tree
+    G.add_node(root)
 
     return G
 
-- 
2.43.0


From 99994ac32b628ac9383d53fe5e1fa9cc032e8057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:03 +0000
Subject: [PATCH 32/40] fix: a plan keeps its own copy of the flips it was made
 with

---
 gerrychain/partition/partition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerrychain/partition/partition.py b/gerrychain/partition/partition.py
index 9f484f6..d2d21ce 100644
--- a/gerrychain/partition/partition.py
+++ b/gerrychain/partition/partition.py
@@ -152,7 +152,8 @@ class Partition:
 
     def _from_parent(self, parent: "Partition", flips: Dict) -> None:
         self.parent = parent
-        self.flips = flips
+        # The caller may go on to use its dictionary for something else
+        self.flips = dict(flips)
 
         self.graph = parent.graph
         self.updaters = parent.updaters
-- 
2.43.0


From e6a834083f29c297cdae04173894827fb6770714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:03 +0000
Subject: [PATCH 33/40] fix: cut_edge_accept accepts a plan without cut edges
 instead of dividing by zero

---
 gerrychain/accept.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gerrychain/accept.py b/gerrychain/accept.py
index 92d3b5c..b85bdea 100644
--- a/gerrychain/accept.py
+++ b/gerrychain/accept.py
@@ -29,7 +29,8 @@ def cut_edge_accept(partition: Partition) -> bool:
     """
     bound = 1.0
 
-    if partition.parent is not None:
+    # A plan without cut edges is always accepted
+    if partition.parent is not None and len(partition["cut_edges"]) > 0:
         bound = min(1, len(partition.parent["cut_edges"]) / len(partition["cut_edges"]))
 
     return random.random() < bound
-- 
2.43.0


From 25816d96fa061b412fafb23c228f7f7c2d974f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:03 +0000
Subject: [PATCH 34/40] fix: use the active geometry column, whatever its name

---
 gerrychain/graph/geo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerrychain/graph/geo.py b/gerrychain/graph/geo.py
index 0fc0199..6e307d8 100644
--- a/gerrychain/graph/geo.py
+++ b/gerrychain/graph/geo.py
@@ -26,7 +26,7 @@ def identify_utm_zone(df: GeoDataFrame) -> int:
     number for the centroid of the geometries in the dataframe.
     """
     wgs_df = df.to_crs("+proj=longlat +ellps=WGS84 +datum=WGS84 +no_defs")
-    utm_counts = Counter(utm_of_point(point) for point in wgs_df["geometry"].centroid)
+    utm_counts = Counter(utm_of_point(point) for point in wgs_df.geometry.centroid)
     # most_common returns a list of tuples, and we want the 0,0th entry
     most_common = utm_counts.most_common(1)[0][0]
     return most_common
@@ -61,8 +61,8 @@ def invalid_geometries(df):
     :rtype: list of int
     """
     invalid = []
-    for idx, row in df.iterrows():
-        validity = explain_validity(row.geometry)
+    for idx, geometry in df.geometry.items():
+        validity = explain_validity(geometry)
         if validity != "Valid Geometry":
             invalid.append(idx)
     return invalid
-- 
2.43.0


From fc546b44f33d186c59d66d0fb01f31508e608d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:03 +0000
Subject: [PATCH 35/40] fix: Gingleators over different columns can share an
 initial state

---
 gerrychain/optimization/gingleator.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gerrychain/optimization/gingleator.py b/gerrychain/optimization/gingleator.py
index 2b61b89..2602e55 100755
--- a/gerrychain/optimization/gingleator.py
+++ b/gerrychain/optimization/gingleator.py
@@ -28,7 +28,7 @@ class Gingleator(SingleMetricOptimizer):
         score_function: Optional[Callable] = None,
         minority_pop_col: Optional[str] = None,
         total_pop_col: str = "TOTPOP",
-        min_perc_column_name: str = "_gingleator_auxiliary_helper_updater_min_perc_col",
+        min_perc_column_name: Optional[str] = None,
     ):
         """
         :param proposal: Function proposing the next state from the current state.
@@ -59,9 +59,10 @@ class Gingleator(SingleMetricOptimizer):
             which to compute percentage. Defaults to "TOTPOP".
         :type total_pop_col: str, optional
         :param min_perc_column_name: If minority_perc_col is not defined, the name to give the
-            created percentage updater. Defaults to
-            "_gingleator_auxiliary_helper_updater_min_perc_col".
-        :type min_perc_column_name: str, optional
+            created percentage updater. Defaults to None, in which case the name is
+            "_gingleator_auxiliary_helper_updater_min_perc_col" followed by the names of the
+            two columns, so that several Gingleators can share an initial state.
+        :type min_perc_column_name: Optional[str], optional
         """
         if minority_perc_col is None and minority_pop_col is None:
             raise ValueError(
@@ -78,6 +79,11 @@ class Gingleator(SingleMetricOptimizer):
         )
 
         if minority_perc_col is None:
+            if min_perc_column_name is None:
+                min_perc_column_name = (
+                    "_gingleator_auxiliary_helper_updater_min_perc_col"
+                    f"_{minority_pop_col!r}_{total_pop_col!r}"
+                )
             perc_up = {
                 min_perc_column_name: lambda part: {
                     k: part[minority_pop_col][k] / part[total_pop_col][k]
-- 
2.43.0


From a1193f41bc9fb3b494b92dc73ee80ee56614f2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:03 +0000
Subject: [PATCH 36/40] fix: Graph.add_data takes any iterable of column names

---
 gerrychain/graph/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gerrychain/graph/graph.py b/gerrychain/graph/graph.py
index 562ecf0..77d9ba9 100644
--- a/gerrychain/graph/graph.py
+++ b/gerrychain/graph/graph.py
@@ -322,6 +322,8 @@ class Graph(networkx.Graph):
 
         if columns is None:
             columns = list(df.columns)
+        else:
+            columns = list(columns)
 
         check_dataframe(df[columns])
 
-- 
2.43.0


From 31f2848b5d9566420e76f92f18e106c53f539318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:33 +0000
Subject: [PATCH 37/40] fix: Assignment.to_dict returns a dictionary of its
 own, not the plan's inner mapping

---
 gerrychain/partition/assignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerrychain/partition/assignment.py b/gerrychain/partition/assignment.py
index b38ca49..5a7bcd4 100644
--- a/gerrychain/partition/assignment.py
+++ b/gerrychain/partition/assignment.py
@@ -129,7 +129,7 @@ class Assignment(Mapping):
         :returns: The assignment as a ``{node: part}`` dictionary.
         :rtype: Dict
         """
-        return self.mapping
+        return dict(self.mapping)
 
     @classmethod
     def from_dict(cls, assignment: Dict) -> "Assignment":
-- 
2.43.0


From 6f8fedd6a32d819342a15f2cc876178b6c20a713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:46 +0000
Subject: [PATCH 38/40] fix: populations exactly at the tolerance are not
 refused because of rounding

---
 gerrychain/tree.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gerrychain/tree.py b/gerrychain/tree.py
index 8ef8f85..4893919 100644
--- a/gerrychain/tree.py
+++ b/gerrychain/tree.py
@@ -930,9 +930,9 @@ def epsilon_tree_bipartition(
     flips = {}
     remaining_nodes = set(graph.node_indices)
 
-    lb_pop = pop_target * (1 - epsilon)
-    ub_pop = pop_target * (1 + epsilon)
-    check_pop = lambda x: lb_pop <= x <= ub_pop
+    # The same test as the search for balanced cuts makes, so that rounding does not
+    # tell them apart
+    check_pop = lambda x: abs(x - pop_target) <= epsilon * pop_target
 
     nodes = method(
         graph.subgraph(remaining_nodes),
@@ -1016,9 +1016,9 @@ def recursive_tree_part(
     # 98% of the target population and the target population.
     debt: Union[int, float] = 0
 
-    lb_pop = pop_target * (1 - epsilon)
-    ub_pop = pop_target * (1 + epsilon)
-    check_pop = lambda x: lb_pop <= x <= ub_pop
+    # The same test as the search for balanced cuts makes, so that rounding does not
+    # tell them apart
+    check_pop = lambda x: abs(x - pop_target) <= epsilon * pop_target
 
     for part in parts[:-2]:
         min_pop = max(pop_target * (1 - epsilon), pop_target * (1 - epsilon) - debt)
-- 
2.43.0


From c7de2f568475a6a483685327fd33948063fcc236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:46 +0000
Subject: [PATCH 39/40] fix: from_file keeps the coordinate system of the
 graph's own geometries

---
 gerrychain/graph/graph.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gerrychain/graph/graph.py b/gerrychain/graph/graph.py
index 77d9ba9..b6f8951 100644
--- a/gerrychain/graph/graph.py
+++ b/gerrychain/graph/graph.py
@@ -171,7 +171,6 @@ class Graph(networkx.Graph):
             reproject=reproject,
             ignore_errors=ignore_errors,
         )
-        graph.graph["crs"] = df.crs.to_json()
         return graph
 
     @classmethod
-- 
2.43.0


From 43eb8428c8b11cb03bc389212f7f36ab3c8e084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:54 +0000
Subject: [PATCH 40/40] fix: spectral recom does not leave its random weights
 on the graph, where a later unweighted step would use them

---
 gerrychain/proposals/spectral_proposals.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gerrychain/proposals/spectral_proposals.py b/gerrychain/proposals/spectral_proposals.py
index 3c213a9..3c062de 100644
--- a/gerrychain/proposals/spectral_proposals.py
+++ b/gerrychain/proposals/spectral_proposals.py
@@ -32,8 +32,13 @@ def spectral_cut(
     n = len(nlist)
 
     if weight_type == "random":
-        for edge in graph.edge_indices:
-            graph.edges[edge]["weight"] = random.random()
+        # The weights are for this cut only, so they must not stay on the plan's graph
+        weighted = nx.Graph()
+        weighted.add_nodes_from(nlist)
+        weighted.add_weighted_edges_from(
+            (*edge, random.random()) for edge in graph.edge_indices
+        )
+        graph = weighted
 
     if lap_type == "normalized":
         LAP = (nx.normalized_laplacian_matrix(graph)).todense()
-- 
2.43.0

