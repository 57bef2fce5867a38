"""P20: the edit DAG computes the uncertainty-aware edit distance."""

import itertools
import math

from hypothesis import strategies as st
import numpy as np

from vp import nodes
from vp import region_ref as ref
from vp.harness import Check, Discard, Target, require, require_close, require_equal
from r_u_sure.decision_diagrams import gated_state_dag as gsd
from r_u_sure.decision_diagrams import packed_dags
from r_u_sure.edit_distance_utility import edit_dags
from r_u_sure.edit_distance_utility import region_decisions as rd
from r_u_sure.tree_structure import packed_sequence_nodes as psn

INF = math.inf
_BUILDERS = {}


def builder(compiled):
  if compiled not in _BUILDERS:
    _BUILDERS[compiled] = edit_dags.make_edit_dag_builder(with_numba=compiled)
  return _BUILDERS[compiled]


def parameters(values):
  return edit_dags.TrustRegionUtilityParameters(
      high_confidence_match_utility_per_char=values[0],
      high_confidence_delete_cost_per_char=values[1],
      low_confidence_match_utility_per_char=values[2],
      low_confidence_delete_cost_per_char=values[3],
      insert_cost_per_char=values[4],
      low_confidence_region_cost=values[5],
      high_confidence_start_editing_cost=values[6],
      low_confidence_start_editing_cost=values[7])


def constrained_cost(packed, data, assignment):
  """Minimal cost of the DAG under a complete assignment."""
  penalties = np.full((packed.num_variable_keys, packed.num_variable_values), INF)
  for i, key in enumerate(data.variable_keys):
    penalties[i, data.variable_value_index_from_value[assignment[key]]] = 0.0
  return float(packed_dags.compute_minimal_cost(packed_dags.empty_table(packed, penalties)))


_PACKERS = {}


def check_specialized(module, dag, pruned, packed, data):
  """The packers made for this kind of DAG agree with the general one."""
  if module not in _PACKERS:
    _PACKERS[module] = (module.make_specialized_dag_packer(),
                        module.make_specialized_dag_packer(states_rewritten_as_integers=True))
  (packer, converter), (packer_int, converter_int) = _PACKERS[module]
  rewritten = gsd.prune_unreachable_and_rewrite_states(
      dag, np.full((4 * len(dag.edges) + 64,), -1, dtype=np.int32))
  for other, other_data in (packer(converter(pruned)), packer_int(converter_int(rewritten))):
    require_equal(list(other_data.variable_keys), list(data.variable_keys), "the packers differ")
    require_equal(list(other_data.variable_values), list(data.variable_values),
                  "the packers order values differently")
    require_equal({k: other_data.variable_value_index_from_value[k] for k in rd.DecisionValue},
                  {k: data.variable_value_index_from_value[k] for k in rd.DecisionValue},
                  "the packers order values differently")
    require_equal(
        float(packed_dags.compute_minimal_cost(packed_dags.empty_unpenalized_table(other))),
        float(packed_dags.compute_minimal_cost(packed_dags.empty_unpenalized_table(packed))),
        "the packers differ")
    require_equal(sorted(edge_rows(other)), sorted(edge_rows(packed)), "the packers differ")


def edge_rows(packed):
  """What the edges require and cost, without the numbering of states."""
  return [(float(e["cost"]), int(e["required_assignment_key_index"]),
           int(e["required_assignment_value_index"])) for e in packed.packed_edge_matrix]


def make_pair(case):
  prototype = ref.insert_controls(case["base"], case["controls"])
  target = (ref.mutate(case["base"], case["ops"]) if case["other"] is None else case["other"])
  return prototype, target


def build(prototype, target, values, compiled=False):
  dag, render_data = builder(compiled)(
      psn.pack(nodes.to_nodes(prototype)), psn.pack(nodes.to_nodes(target)), parameters(values))
  return dag, render_data


def run(case):
  prototype, target = make_pair(case)
  items, t_items = ref.index_items(prototype), ref.index_items(target)
  params = ref.Params(case["params"])
  dag, _ = build(prototype, target, case["params"])
  dag_jit, _ = build(prototype, target, case["params"], compiled=True)
  require_equal((dag.initial_state, dag.final_state), (dag_jit.initial_state, dag_jit.final_state),
                "interpreted and compiled construction differ")
  require_equal(list(dag_jit.edges), list(dag.edges),
                "interpreted and compiled construction differ")
  pruned = gsd.prune_to_reachable(dag)
  packed, data = edit_dags.pack_dag(pruned)
  if case["pick"] % 8 == 0:
    check_specialized(edit_dags, dag_jit, pruned, packed, data)
  require_equal(list(data.variable_keys), ref.all_keys(items), "wrong decisions")
  require_equal(list(data.variable_values), list(rd.DecisionValue), "wrong values")
  labels = []
  seen = []
  for assignment in ref.sample_walks(items, False, case["flip"]):
    want = ref.edit_cost(items, assignment, t_items, params)
    require_close(constrained_cost(packed, data, assignment), want, "wrong edit cost",
                  prototype=prototype, target=target, assignment=assignment)
    seen.append(want)
    if ref.TRUE in [v for k, v in assignment.items() if k.category == ref.START]:
      labels.append("region")
    if ref.TRUE in [v for k, v in assignment.items() if k.category == ref.EXIT]:
      labels.append("exit")
    # A changed decision that makes no sense has no path.
    keys = sorted(assignment)
    if keys:
      key = keys[case["pick"] % len(keys)]
      changed = dict(assignment)
      changed[key] = list(rd.DecisionValue)[case["pick"] % 3]
      got = constrained_cost(packed, data, changed)
      if ref.is_valid(items, changed, False):
        require_close(got, ref.edit_cost(items, changed, t_items, params), "wrong edit cost",
                      assignment=changed)
      else:
        require(got == INF, "an impossible set of decisions was accepted", assignment=changed)
        labels.append("rejected")
  # The overall optimum.
  try:
    every = list(itertools.islice(ref.walks(items, False, 0, budget=1500), 61))
  except Discard:
    every = None
  if every is not None and len(every) <= 60:
    want = min(ref.edit_cost(items, ref.complete(items, a), t_items, params) for a in every)
    got = float(packed_dags.compute_minimal_cost(packed_dags.empty_unpenalized_table(packed)))
    require_close(got, want, "wrong optimum", prototype=prototype, target=target)
    labels.append("optimum")
  labels = sorted(set(labels))
  if nodes.size(prototype) >= 4 and nodes.size(target) >= 2 and "region" in labels:
    labels.append("nontrivial")
  return labels


def case_strategy(max_leaves=5, large=False):
  reach = 3 if large else 1
  return st.fixed_dictionaries({
      "base": ref.content_strategy(max_leaves, large=large),
      "controls": ref.controls_strategy(max_size=8 if large else 5, reach=reach),
      "ops": ref.ops_strategy(8 if large else 4, reach),
      "other": (st.none() if large
                else st.one_of(st.none(), st.none(), ref.content_strategy(4))),
      "params": ref.params_strategy(),
      "flip": st.integers(0, 4095),
      "pick": st.integers(0, 30),
  })


CHECK = Check(
    property="P20",
    targets=[
        Target("cost", case_strategy, run, quick=3000, thorough=40000,
               rule="prototype of at least four nodes, target of two, and a region used"),
        Target("large", lambda: case_strategy(large=True), run, quick=450, thorough=6000,
               rule="as in cost; up to twelve nodes and groups at the top"),
    ],
    assumptions=[
        "edit and insertion costs are not negative",
        "numba is not installable here: compiled mode runs the numba overloads as Python",
    ],
)
