PROPERTY = "P19"
NEEDS = "a constraint with a finite penalty on a variable that some graph of the system does not use"
BREAKS = "The penalties handed to the graphs no longer add up to the requested extra cost, so solutions are evaluated and bounded with too small a penalty."
EDITS = [("r_u_sure/decision_diagrams/consistent_path_dual_solver.py",
'''    penalty_vector = np.full(
        (system.data.num_variable_values,), np.float64(penalty)
    )
    penalty_vector[value_index] = 0.0
    # Update unary penalties.
    system.data.extra_unary_costs[variable_index, :] += penalty_vector

    # Evenly divide the new penalty across relevant subproblems to maintain the
    # invariant.
    subprob_var_indices = system.data.dag_variable_index_map[variable_index, :]
    num_relevant = 0
    for subproblem_index, sub_variable_index in enumerate(subprob_var_indices):
      if sub_variable_index != -1:
        num_relevant += 1
''',
'''    penalty_vector = np.full(
        (system.data.num_variable_values,), np.float64(penalty)
    )
    penalty_vector[value_index] = 0.0
    # Update unary penalties.
    system.data.extra_unary_costs[variable_index, :] += penalty_vector

    # Evenly divide the new penalty across subproblems to maintain the
    # invariant.
    subprob_var_indices = system.data.dag_variable_index_map[variable_index, :]
    num_relevant = len(subprob_var_indices)
''')]
DEMO = '''
from r_u_sure.decision_diagrams import gated_state_dag as g, packed_dags as p
from r_u_sure.decision_diagrams import consistent_path_dual_solver as s
A = g.SharedVariableAssignment
d0 = g.CompleteStateDAG(0, [g.Edge(0, 1, 0.0, A(0, 0), 0), g.Edge(0, 1, 5.0, A(0, 1), 1)], 1)
d1 = g.CompleteStateDAG(0, [g.Edge(0, 1, 0.0, A(1, 0), 0), g.Edge(0, 1, 1.0, A(1, 1), 1)], 1)
system = s.make_system([p.convert_dag_to_packed(d, 0, [0, 1]) for d in (d0, d1)])
s.constrain_system(system, {0: 1}, penalty=4.0)
vector, cost = s.greedy_extract(system.data, s.SweepDirection.FORWARD)
assert cost == 4.0, (vector, cost)
'''
