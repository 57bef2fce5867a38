PROPERTY = "P24"
NEEDS = "two equal samples in a row that were given different weights"
BREAKS = "The graph of the first one is reused together with its weight, so the second sample counts with the first one's weight."
EDITS = [("r_u_sure/wrappers/edit_distance_wrapper_base.py",
'''    # Edit dags
    for target, scale_factor in zip(targets, target_utility_scale_factors):
      dag, _ = self._construct_edit_dag(
''',
'''    # Edit dags
    previous_target = None
    for target, scale_factor in zip(targets, target_utility_scale_factors):
      if target == previous_target:
        # Samples repeat often, and building these graphs is slow.
        dags_and_conversion_data.append(dags_and_conversion_data[-1])
        dag_update_proportions.append(scale_factor)
        continue
      previous_target = target
      dag, _ = self._construct_edit_dag(
''')]
DEMO = '''
from r_u_sure.decision_diagrams import consistent_path_dual_solver as c
from r_u_sure.wrappers import parser_tools, uncertainty_regions_wrapper as u
w = u.UncertaintyRegionsWrapper(use_numba=False)
parse = parser_tools.ParserHelper("python").parse_to_nodes
proto, info = w.process_prototype_and_context(parse("x = foo"), 0)
samples = ["x = foo", "x = barbar", "x = barbar"]
targets = [w.process_target(parse(s), 0) for s in samples]
def bound(weights):
  system = w.build_system(proto, info, targets, weights)
  return sum(float(__import__("r_u_sure.decision_diagrams.packed_dags", fromlist=["x"]).compute_minimal_cost(t)) for t in system.data.dag_tables)
one = [bound([1.0, 0.0, 0.0]), bound([0.0, 1.0, 0.0]), bound([0.0, 0.0, 1.0])]
both = bound([1.0, 1.0, 3.0])
assert abs(one[1] - one[2]) < 1e-9, one
assert abs(both - (one[0] + one[1] + 3 * one[2])) < 1e-6, (both, one)
'''
