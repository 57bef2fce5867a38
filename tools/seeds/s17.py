PROPERTY = "P22"
NEEDS = "a selected part that contains a group, and a target in which the group's contents are followed by something else before that group ends"
BREAKS = "The end of a group in the part matches the end of any group, so a part can be credited although the groups differ in kind."
EDITS = [("r_u_sure/edit_distance_utility/part_selection_dags.py",
'''          if prototype_node.match_type == target_node.match_type:
            if (
                prototype_visit.category
                == InOrderTraversalCategory.BEFORE_GROUP
            ):
''',
'''          if (
              prototype_node.match_type == target_node.match_type
              or prototype_visit.category
              == InOrderTraversalCategory.AFTER_GROUP
          ):
            if (
                prototype_visit.category
                == InOrderTraversalCategory.BEFORE_GROUP
            ):
''')]
NEEDS = "a selected part that includes the end of a group but not its start, and a target with a group of another kind ending there"
DEMO = '''
from r_u_sure.edit_distance_utility import part_selection_dags as s, region_decisions as rd
from r_u_sure.tree_structure import sequence_nodes as n, packed_sequence_nodes as psn
tok = lambda x: n.TextTokenNode(x, "k")
proto = psn.pack([n.GroupNode([n.RegionStartNode(), tok("a")], "g"), tok("b"), n.RegionEndNode()])
target = psn.pack([n.GroupNode([tok("a")], "other"), tok("b")])
params = s.PartSelectionUtilityParameters(lambda t: s.UtilitiesAndCostsForNode(match_utility=1.0, delete_cost=1.0))
dag = s.make_selection_dag_builder(params, with_numba=False)(proto, target)
out = {}
for edge in dag.edges:
  out.setdefault(edge.source, []).append(edge)
best = [float("inf")]
def go(state, cost):
  if state == dag.final_state:
    best[0] = min(best[0], cost)
  for edge in out.get(state, []):
    go(edge.dest, cost + edge.cost)
go(dag.initial_state, 0.0)
assert best[0] == 0.0, best
'''
