PROPERTY = "P16"
NEEDS = "a state with several outgoing edges that assign different variables, a later variable before an earlier one"
BREAKS = "Copies of that state are missing, so a path of the original graph has no counterpart in the packed graph."
EDITS = [("r_u_sure/decision_diagrams/packed_dags.py",
'''        if edge.source not in largest_immediately_after:
          largest_immediately_after[edge.source] = update
        else:
          largest_immediately_after[edge.source] = max(
              largest_immediately_after[edge.source], update
          )
''',
'''        # Edges come in order, so the most recent one assigns the largest.
        largest_immediately_after[edge.source] = update
''')]
DEMO = '''
from r_u_sure.decision_diagrams import gated_state_dag as g, packed_dags as p
A = g.SharedVariableAssignment
E = g.Edge
# 0 -> 1, then 1 -> 2 assigns variable 3 (cheap) and 1 -> 2 assigns variable 1 (dear).
edges = [E(0, 1, 0.0), E(1, 2, 1.0, A(3, 0)), E(1, 2, 5.0, A(1, 1)), E(1, 3, 9.0, A(2, 1)), E(1, 2, 4.0, A(1, 0)), E(2, 4, 0.0), E(3, 4, 0.0)]
try:
  packed, data = p.convert_dag_to_packed(g.CompleteStateDAG(0, edges, 4), 0, None)
  cost = float(p.compute_minimal_cost(p.empty_unpenalized_table(packed)))
except (KeyError, ValueError, IndexError, AssertionError) as error:
  raise SystemExit(f"packing failed: {error!r}")
assert cost == 1.0, cost
'''
