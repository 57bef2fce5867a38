PROPERTY = "P20"
NEEDS = "a region that starts inside a group which is deleted as a whole (its opening marker is a child of the deleted group)"
BREAKS = "Such a region is free: its fixed cost is not charged, so the cost is too low and too many regions look worthwhile."
EDITS = [("r_u_sure/edit_distance_utility/edit_dags.py",
'''          cost = parameters.low_confidence_region_cost
''',
'''          if alignment_type == EditDagStateAlignment.RECURSIVELY_DELETING:
            cost = 0.0
          else:
            cost = parameters.low_confidence_region_cost
''')]
DEMO = '''
from r_u_sure.decision_diagrams import gated_state_dag as g, packed_dags as p
from r_u_sure.edit_distance_utility import edit_dags as e, region_decisions as rd
from r_u_sure.tree_structure import sequence_nodes as n, packed_sequence_nodes as psn
proto = psn.pack([n.GroupNode([n.RegionStartNode(), n.TextTokenNode("a", "k"), n.RegionEndNode()], "g")])
target = psn.pack([n.TextTokenNode("zz", "k")])
params = e.TrustRegionUtilityParameters(1., 1., .5, .5, 0., 7., 0., 0.)
dag, _ = e.make_edit_dag_builder(with_numba=False)(proto, target, params)
packed, data = e.pack_dag(g.prune_to_reachable(dag))
K, C, V = rd.DecisionKey, rd.DecisionCategory, rd.DecisionValue
want = {K(0, C.NODE_IN_REGION): V.FALSE, K(1, C.REGION_SHOULD_START): V.TRUE,
        K(2, C.NODE_IN_REGION): V.TRUE, K(3, C.REGION_SHOULD_END): V.TRUE}
assert sorted(data.variable_keys) == sorted(want), data.variable_keys
costs = {}
out = {}
for edge in dag.edges:
  out.setdefault(edge.source, []).append(edge)
best = [float("inf")]
def go(state, cost):
  if state == dag.final_state:
    best[0] = min(best[0], cost)
  for edge in out.get(state, []):
    a = edge.required_assignment
    if a is None or want[a.key] == a.value:
      go(edge.dest, cost + edge.cost)
go(dag.initial_state, 0.0)
assert abs(best[0] - 7.5) < 1e-9, best
'''
