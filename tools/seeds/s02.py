PROPERTY = "P17"
NEEDS = "a penalty change on a variable whose prefix costs are already cached further on, where the new penalties have the same minimum as the old ones, then a query of a later variable"
BREAKS = "The cached prefix costs are treated as still valid, so min-marginals and minimal costs are those of the old penalties."
EDITS = [("r_u_sure/decision_diagrams/packed_dags.py",
'''  memo.penalties[variable_index, :] = penalties
  # Changing''',
'''  unchanged = np.min(memo.penalties[variable_index, :]) == np.min(penalties)
  memo.penalties[variable_index, :] = penalties
  if unchanged:
    # The cheapest choice costs the same, so prefixes through it stay valid.
    return
  # Changing''')]
DEMO = '''
import numpy as np
from r_u_sure.decision_diagrams import gated_state_dag as g, packed_dags as p
A = g.SharedVariableAssignment
edges = [g.Edge(0, 1, 1.0, A(0, 0), 0), g.Edge(0, 1, 3.0, A(0, 1), 1),
         g.Edge(1, 2, 0.0, A(1, 0), 2), g.Edge(1, 2, 1.0, A(1, 1), 3)]
dag, data = p.convert_dag_to_packed(g.CompleteStateDAG(0, edges, 2), 0, None)
memo = p.empty_unpenalized_table(dag)
assert list(p.compute_min_marginals_for_variable(memo, 1)) == [1.0, 2.0]
p.set_penalties(memo, 0, np.array([5.0, 0.0]))
got = list(p.compute_min_marginals_for_variable(memo, 1))
assert got == [3.0, 4.0], got
'''
