PROPERTY = "P21"
NEEDS = "a region marker inside a group that lies in a region"
BREAKS = "Inside a group of a region, a further region is required to be marked as 'not started' instead of 'not applicable': valid decisions are rejected and invalid ones accepted."
EDITS = [("r_u_sure/edit_distance_utility/constraint_dags.py",
'''                        DecisionCategory.REGION_SHOULD_START,
                    ),
                    value=DecisionValue.NOT_APPLICABLE,
                ),
                cost=0,
            ),
        )
''',
'''                        DecisionCategory.REGION_SHOULD_START,
                    ),
                    value=DecisionValue.FALSE,
                ),
                cost=0,
            ),
        )
''')]
DEMO = '''
from r_u_sure.edit_distance_utility import constraint_dags as c, region_decisions as rd
from r_u_sure.tree_structure import sequence_nodes as n, packed_sequence_nodes as psn
tok = lambda x: n.TextTokenNode(x, "k")
proto = psn.pack([n.RegionStartNode(), n.GroupNode([n.RegionStartNode(), tok("a"), n.RegionEndNode()], "g"), n.RegionEndNode()])
K, C, V = rd.DecisionKey, rd.DecisionCategory, rd.DecisionValue
want = {K(0, C.REGION_SHOULD_START): V.TRUE, K(1, C.NODE_IN_REGION): V.TRUE,
        K(2, C.REGION_SHOULD_START): V.NOT_APPLICABLE, K(3, C.NODE_IN_REGION): V.TRUE,
        K(4, C.REGION_SHOULD_END): V.FALSE, K(5, C.REGION_SHOULD_END): V.TRUE}
dag = c.make_constraint_dag_builder(with_numba=False)(proto)
out = {}
for edge in dag.edges:
  out.setdefault(edge.source, []).append(edge)
def go(state):
  if state == dag.final_state:
    return True
  return any(go(e.dest) for e in out.get(state, [])
             if e.required_assignment is None or want[e.required_assignment.key] == e.required_assignment.value)
assert go(dag.initial_state)
'''
