PROPERTY = "P18"
NEEDS = "a system with unequal weights where a variable is not used by every graph"
BREAKS = "The penalties of a variable no longer add up to the requested extra cost after an averaging step, so the bound is no longer a bound."
EDITS = [("r_u_sure/decision_diagrams/consistent_path_dual_solver.py",
'''    weight = system_data.dag_update_proportions[subproblem_index]
    total_weight += weight
''',
'''    weight = system_data.dag_update_proportions[subproblem_index]
    total_weight += system_data.dag_update_proportions[len(subprob_info)]
''')]
DEMO = '''
import numpy as np
from r_u_sure.decision_diagrams import gated_state_dag as g, packed_dags as p
from r_u_sure.decision_diagrams import consistent_path_dual_solver as s
A = g.SharedVariableAssignment
def dag(key, c0, c1):
  return g.CompleteStateDAG(0, [g.Edge(0, 1, c0, A(key, 0), 0), g.Edge(0, 1, c1, A(key, 1), 1)], 1)
system = s.make_system([p.convert_dag_to_packed(d, 0, [0, 1]) for d in (dag(1, 0., 0.), dag(0, 3., 0.), dag(0, 0., 5.))],
                       np.array([1.0, 4.0, 2.0]))
bound = s.min_marginal_average(system.data, 0)
total = system.data.dag_tables[1].penalties[0] + system.data.dag_tables[2].penalties[0]
assert np.allclose(total, 0.0), total
assert bound <= 3.0
'''
