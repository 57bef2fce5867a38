From f5e671ec225bc8f67e19d75f932cf8a946e4cd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:59 +0000
Subject: [PATCH 01/16] fix: parse empty Python code instead of raising
 IndexError

---
 r_u_sure/parsing/pseudo_parser/stack_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/parsing/pseudo_parser/stack_parser.py b/r_u_sure/parsing/pseudo_parser/stack_parser.py
index a6ec45d..e20ca22 100644
--- a/r_u_sure/parsing/pseudo_parser/stack_parser.py
+++ b/r_u_sure/parsing/pseudo_parser/stack_parser.py
@@ -1008,7 +1008,7 @@ class PseudoParser:
 
     if language == 'python':
 
-      if code[-1] != '\n':
+      if not code.endswith('\n'):
         code = code + '\n'
         appended_newline = True
       else:
-- 
2.43.0


From 49ebfa7d73caca2cb3cc3c60b2443870cb801c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:13 +0000
Subject: [PATCH 02/16] fix: truncate after a closing bracket that is the last
 token of the code

---
 r_u_sure/parsing/pseudo_parser/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/r_u_sure/parsing/pseudo_parser/utilities.py b/r_u_sure/parsing/pseudo_parser/utilities.py
index 2a33f85..4df0d61 100644
--- a/r_u_sure/parsing/pseudo_parser/utilities.py
+++ b/r_u_sure/parsing/pseudo_parser/utilities.py
@@ -245,7 +245,8 @@ def infer_match_pair_truncation_index(
         # infer_split_truncation_index
         finished = True
 
-  return None
+  # if the closing match pair was the last leaf, the code ends right after it
+  return code_index if finished else None
 
 
 def infer_split_truncation_index(
-- 
2.43.0


From 65d77835d0cb032b7eca5af0c1d849754df6b981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:14 +0000
Subject: [PATCH 03/16] fix: accept splitters=None in
 infer_split_truncation_index as documented

---
 r_u_sure/parsing/pseudo_parser/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/parsing/pseudo_parser/utilities.py b/r_u_sure/parsing/pseudo_parser/utilities.py
index 4df0d61..83a0c1a 100644
--- a/r_u_sure/parsing/pseudo_parser/utilities.py
+++ b/r_u_sure/parsing/pseudo_parser/utilities.py
@@ -288,7 +288,7 @@ def infer_split_truncation_index(
       if after_cursor:
         if (node.parent.annotation == 'split' and
             node.parent.children[-1] == node and
-            tokens_raw[node.lo] in splitters):
+            (splitters is None or tokens_raw[node.lo] in splitters)):
           # we found the split immediately proceeding the cursor
           return code_index
 
-- 
2.43.0


From 56671eb393fade4da31c0be33d2a204506e1244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:16 +0000
Subject: [PATCH 04/16] fix: report out-of-order edges with ValueError when the
 source state is new

---
 r_u_sure/decision_diagrams/gated_state_dag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index 8429617..a389f4b 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -249,7 +249,7 @@ def partial_state_dag_add_edge(dag: PartialStateDAG, edge: Edge):
     raise ValueError(
         (
             f"Incoming edge {edge} to {edge.dest} added after an outgoing edge"
-            f" from {edge.dest} to {dag.seen_outgoing[edge.source]}"
+            f" from {edge.dest} to {dag.seen_outgoing[edge.dest]}"
         ),
     )
 
@@ -295,7 +295,7 @@ def _partial_state_dag_add_edge_overload(dag: PartialStateDAG, edge: Edge):
                 "added after an outgoing edge from",
                 edge.dest,
                 "to",
-                dag.seen_outgoing[edge.source],
+                dag.seen_outgoing[edge.dest],
             ),
         )
 
-- 
2.43.0


From 5ffc9b87ec6af7fde0af07ab1c1d6baafcfb9885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:16 +0000
Subject: [PATCH 05/16] fix: keep the ID of an evicted state when rewriting
 states to integers

---
 r_u_sure/decision_diagrams/gated_state_dag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index a389f4b..3468f34 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -424,6 +424,9 @@ def prune_unreachable_and_rewrite_states(
       if state == looked_up_state:
         # Already present.
         return looked_up_index
+      elif state in fallback_lookup_table:
+        # Already present, but was evicted earlier.
+        return fallback_lookup_table[state]
       else:
         # evictions[()] += 1
         # Conflict! Evict the old state since it's less likely to be active.
-- 
2.43.0


From f8906f7520074b1a2f91f80c5198ccde318685a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:16 +0000
Subject: [PATCH 06/16] fix: raise ValueError when the final state of a DAG is
 never reached

---
 r_u_sure/decision_diagrams/gated_state_dag.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/r_u_sure/decision_diagrams/gated_state_dag.py b/r_u_sure/decision_diagrams/gated_state_dag.py
index 3468f34..0da6dc4 100644
--- a/r_u_sure/decision_diagrams/gated_state_dag.py
+++ b/r_u_sure/decision_diagrams/gated_state_dag.py
@@ -454,7 +454,10 @@ def prune_unreachable_and_rewrite_states(
   # Second pass: Iterate through rewritten edges in reverse, and determine which
   # states are reachable from the end.
   reachable_from_end = np.zeros((len(states_by_index),), dtype=np.bool_)
-  reachable_from_end[lookup_or_create_id_for_state(dag.final_state)] = True
+  final_state_id = lookup_id_for_state(dag.final_state)
+  if final_state_id == -1:
+    raise ValueError("No path from start to end")
+  reachable_from_end[final_state_id] = True
   for i in range(len(rewritten_edge_triples) - 1, -1, -1):
     (source_id, dest_id, original_edge_index) = rewritten_edge_triples[i]
     if reachable_from_end[dest_id]:
-- 
2.43.0


From 386fdf9b6528f4ef676dfa78e8dd7208fc5794b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:06 +0000
Subject: [PATCH 07/16] fix: compute the minimal cost of a DAG without
 variables from its middle

---
 r_u_sure/decision_diagrams/packed_dags.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/r_u_sure/decision_diagrams/packed_dags.py b/r_u_sure/decision_diagrams/packed_dags.py
index c6d264e..6c4bfaa 100644
--- a/r_u_sure/decision_diagrams/packed_dags.py
+++ b/r_u_sure/decision_diagrams/packed_dags.py
@@ -1423,6 +1423,10 @@ def compute_minimal_cost(
     update_prefixes_up_to(memo, memo.dag.num_variable_keys - 1)
     return memo.prefix_table[-1]
   elif strategy == MinimalCostComputationStrategy.FROM_MIDDLE:
+    if memo.dag.num_variable_keys == 0:
+      # There are no variables to compute min-marginals for.
+      update_suffixes_up_to(memo, -1)
+      return memo.suffix_table[0]
     target_var = memo.suffixes_valid_starting_from_tag[()]
     target_var = max(0, target_var)
     target_var = min(target_var, memo.dag.num_variable_keys - 1)
-- 
2.43.0


From eea44b942eacd85d3419cb7b67ef8c499353b6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:43 +0000
Subject: [PATCH 08/16] fix: stop the sweep solver when the soft timeout is
 exceeded

---
 r_u_sure/decision_diagrams/consistent_path_dual_solver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
index 6db2af1..c2be3ca 100644
--- a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
+++ b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
@@ -696,6 +696,7 @@ def solve_system_with_sweeps(
   # Keep track of how many sweeps we have run without seeing any change.
   reached_plateau = False
 
+  timed_out = False
   while True:
     saw_any_change = False
 
@@ -728,6 +729,7 @@ def solve_system_with_sweeps(
       steps_at_sweep.append(step_count)
       times_at_sweep.append(stamp - base_time)
       if stamp - base_time > soft_timeout:
+        timed_out = True
         break
 
     # Check for exit criteria.
@@ -735,6 +737,9 @@ def solve_system_with_sweeps(
       reached_plateau = True
       break
 
+    if timed_out:
+      break
+
   return MinMarginalSweepSolverResults(
       objective_at_step=np.asarray(objective_at_step),
       variable_at_step=np.asarray(variable_at_step),
-- 
2.43.0


From 27f09a9ed104c92f1a971b5bf45c436f92159534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:43 +0000
Subject: [PATCH 09/16] fix: report the cost of greedily extracting from a
 system without variables

---
 r_u_sure/decision_diagrams/consistent_path_dual_solver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
index c2be3ca..76616a0 100644
--- a/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
+++ b/r_u_sure/decision_diagrams/consistent_path_dual_solver.py
@@ -783,6 +783,12 @@ def greedy_extract(
     iteration_order = range(system_data.num_variable_keys - 1, -1, -1)
 
   last_cost = np.nan
+  if system_data.num_variable_keys == 0:
+    # There is nothing to decide, so every subproblem attains its minimal cost.
+    last_cost = 0.0
+    for dag_table in system_data.dag_tables:
+      last_cost += packed_dags.compute_minimal_cost(dag_table)
+
   for variable in iteration_order:
     min_marginals = system_min_marginals(system_data, variable)
     choice = np.argmin(min_marginals)
-- 
2.43.0


From 0ee2b915e190caeb4bc045987a94a1bdf51478a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:08 +0000
Subject: [PATCH 10/16] fix: let an unmatched part continue past a leading
 region end node

The branch for region end nodes set can_skip_prototype instead of
can_advance_unmatched, which was left unset when a region end node is the
first node of the prototype.
---
 r_u_sure/edit_distance_utility/part_selection_dags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/edit_distance_utility/part_selection_dags.py b/r_u_sure/edit_distance_utility/part_selection_dags.py
index f61914c..2791b9d 100644
--- a/r_u_sure/edit_distance_utility/part_selection_dags.py
+++ b/r_u_sure/edit_distance_utility/part_selection_dags.py
@@ -782,7 +782,7 @@ def make_selection_dag_builder(
         elif prototype_node_id.category == PSNCategory.REGION_END_NODE:
           # Can skip region end nodes if we decide not to stop the region.
           assert prototype_visit.category == InOrderTraversalCategory.LEAF
-          can_skip_prototype = True
+          can_advance_unmatched = True
           cost = 0.0
           required_assignment = SharedVariableAssignment(
               key=DecisionKey(
-- 
2.43.0


From 1a0e13653a4e9f7c004b37878f6de53dfbc954b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:45 +0000
Subject: [PATCH 11/16] fix: keep leading decision nodes when no prefix is
 dropped

truncate_prefix_at_offset dropped region start, region end and early exit nodes
(and empty tokens) at the very beginning of a sequence when start_offset was 0,
although no node has started before the cursor then. With an empty context the
first token of a suggestion could therefore never be put in a region.
---
 r_u_sure/tree_structure/transforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/tree_structure/transforms.py b/r_u_sure/tree_structure/transforms.py
index b1d90b9..de70858 100644
--- a/r_u_sure/tree_structure/transforms.py
+++ b/r_u_sure/tree_structure/transforms.py
@@ -289,8 +289,9 @@ def truncate_prefix_at_offset(
   Returns:
     Extended sequence with region start/end nodes.
   """
-  # Tracks whether we have seen the start point yet.
-  past_start_point = False
+  # Tracks whether we have seen the start point yet. If there is no prefix, the
+  # sequence begins at the start point, so nothing has to be dropped.
+  past_start_point = start_offset == 0
   # If past_start_point is False, tracks the characters we have seen so far.
   prefix_chars_seen_so_far = 0
 
-- 
2.43.0


From f0765f77d5de71be3b50c1d792b9f2779f304a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:17 +0000
Subject: [PATCH 12/16] fix: do not count the first suggested token as seen in
 an empty context

extract_context_tokens added a token before checking whether the end of the
context had been reached, so with an empty context (prediction location 0) the
first token of the suggestion was always treated as already seen.
---
 r_u_sure/wrappers/call_sequence_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/wrappers/call_sequence_wrapper.py b/r_u_sure/wrappers/call_sequence_wrapper.py
index 6158af4..f54362f 100644
--- a/r_u_sure/wrappers/call_sequence_wrapper.py
+++ b/r_u_sure/wrappers/call_sequence_wrapper.py
@@ -63,14 +63,14 @@ def extract_context_tokens(
   for node, _, _ in sequence_node_helpers.walk_with_paths(
       context_and_prototype
   ):
+    if position >= prediction_location:
+      break
     if isinstance(node, sequence_nodes.TextTokenNode):
       seen_tokens.add(node.text_contents)
     if isinstance(
         node, (sequence_nodes.TextTokenNode, sequence_nodes.TextDecorationNode)
     ):
       position += len(node.text_contents)
-      if position >= prediction_location:
-        break
   return seen_tokens
 
 
-- 
2.43.0


From 1a94cad4d6ad04bb83cf79b085bfb6031e401054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:56 +0000
Subject: [PATCH 13/16] fix: place labels on the requested side of their point

---
 r_u_sure/rendering/svg_renderer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/rendering/svg_renderer.py b/r_u_sure/rendering/svg_renderer.py
index dc60d2c..8787e46 100644
--- a/r_u_sure/rendering/svg_renderer.py
+++ b/r_u_sure/rendering/svg_renderer.py
@@ -144,7 +144,7 @@ class SVGRenderer(rendering.Renderer):
         rendering.PointDirection.UP_LEFT,
         rendering.PointDirection.UP_RIGHT,
     }:
-      vertical_align_offset = (len(lines) + 0.5) * text_size
+      vertical_align_offset = -(len(lines) - 0.5) * text_size
       vertical_pad_offset = -padding_fraction * text_size
     elif direction in {
         rendering.PointDirection.DOWN,
@@ -157,7 +157,7 @@ class SVGRenderer(rendering.Renderer):
         rendering.PointDirection.LEFT,
         rendering.PointDirection.RIGHT,
     }:
-      vertical_align_offset = text_size * (len(lines) - 1) / 2
+      vertical_align_offset = -text_size * (len(lines) - 1) / 2
       vertical_pad_offset = 0
     elif direction in {rendering.PointDirection.AROUND}:
       lines_above = (len(lines) + 1) // 2
-- 
2.43.0


From de88e32307559e4901195f2d3710a023d964daf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:33 +0000
Subject: [PATCH 14/16] fix: never reuse the index of a token added twice

---
 r_u_sure/parsing/pseudo_parser/stack_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r_u_sure/parsing/pseudo_parser/stack_parser.py b/r_u_sure/parsing/pseudo_parser/stack_parser.py
index e20ca22..2924e48 100644
--- a/r_u_sure/parsing/pseudo_parser/stack_parser.py
+++ b/r_u_sure/parsing/pseudo_parser/stack_parser.py
@@ -100,7 +100,7 @@ class RegexCodec:
     """
     if not non_unique:
       assert token not in self.token_to_index
-    index = len(self.token_to_index) + 1
+    index = len(self.index_to_token) + 1
     self.token_to_index[token] = index
     self.index_to_token[index] = token
     self.index_to_token_type[index] = token_type
-- 
2.43.0


From 27f4a8b97faab112562f4bb78b75c7f5de620f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:37 +0000
Subject: [PATCH 15/16] fix: do not drop closing brackets that have no opener

stack_based_bracket_match silently left a closer seen on an empty stack out
of the tree, in strict and in error tolerant mode alike. Treat it like any
other unmatched closer: a ParseError, or a regular token when tolerant.
---
 r_u_sure/parsing/pseudo_parser/stack_parser.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/r_u_sure/parsing/pseudo_parser/stack_parser.py b/r_u_sure/parsing/pseudo_parser/stack_parser.py
index 2924e48..582c41a 100644
--- a/r_u_sure/parsing/pseudo_parser/stack_parser.py
+++ b/r_u_sure/parsing/pseudo_parser/stack_parser.py
@@ -577,12 +577,9 @@ def stack_based_bracket_match(tokens: List[Union[int, str]],
         (token in closers) and
         opener_stack and
         (opener_stack[-1] == closer_to_opener[token]))
-    # is this token an ill formed parenthesis closer that could not have been
-    # fixed by prefixing the entire code block with a matching opener ?
-    unprefixable_unmatched_closer = (
-        (token in closers) and
-        opener_stack and
-        (opener_stack[-1] != closer_to_opener[token]))
+    # is this token an ill formed parenthesis closer, either because it does not
+    # match the innermost opener or because there is no opener left to match ?
+    unmatched_closer = (token in closers) and not matched_closer
     if token in openers:
       # n will have three children: left, middle, and right. left and right
       # have no children, and will represent the opening and closing braces.
@@ -610,9 +607,9 @@ def stack_based_bracket_match(tokens: List[Union[int, str]],
       parent.parent.hi = i + 1
       opener_stack.pop()
       parent = parent.parent.parent
-    elif plain_token or unprefixable_unmatched_closer:
-      if unprefixable_unmatched_closer and not error_tolerant:
-        raise ParseError('empty stack')
+    elif plain_token or unmatched_closer:
+      if unmatched_closer and not error_tolerant:
+        raise ParseError('unmatched closer')
       n = Node(lo=i, hi=i+1, parent=parent, annotation='sibling')
       parent.children.append(n)
 
-- 
2.43.0


From 000e8b90de98229ff47b9a8afe05c3966653fccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:22 +0000
Subject: [PATCH 16/16] fix: reject parse trees in which a leaf has no range

---
 r_u_sure/parsing/pseudo_parser/stack_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/r_u_sure/parsing/pseudo_parser/stack_parser.py b/r_u_sure/parsing/pseudo_parser/stack_parser.py
index 582c41a..32994b5 100644
--- a/r_u_sure/parsing/pseudo_parser/stack_parser.py
+++ b/r_u_sure/parsing/pseudo_parser/stack_parser.py
@@ -515,13 +515,13 @@ def valid_parse_ranges(root: Node, n: int) -> bool:
   """
 
   def _check(node):
+    if node.lo is None or node.hi is None:
+      return False
     if node.children:
       if node.lo != node.children[0].lo:
         return False
       if node.hi != node.children[-1].hi:
         return False
-      if node.lo is None or node.hi is None:
-        return False
       lows = [n.lo for n in node.children[1:]]
       his = [n.hi for n in node.children[:-1]]
       if lows != his:
-- 
2.43.0

