"""P21: the constraint DAG accepts exactly the well-nested region decisions."""

import math

from hypothesis import strategies as st

from vp import nodes
from vp import region_ref as ref
from vp.checks.p20 import check_specialized, constrained_cost
from vp.harness import Check, Discard, Target, require, require_equal
from r_u_sure.decision_diagrams import gated_state_dag as gsd
from r_u_sure.decision_diagrams import packed_dags
from r_u_sure.edit_distance_utility import constraint_dags
from r_u_sure.edit_distance_utility import region_decisions as rd
from r_u_sure.tree_structure import packed_sequence_nodes as psn

_BUILDERS = {}


def builder(compiled):
  if compiled not in _BUILDERS:
    _BUILDERS[compiled] = constraint_dags.make_constraint_dag_builder(with_numba=compiled)
  return _BUILDERS[compiled]


def run(case):
  spec = ref.insert_controls(case["base"], case["controls"])
  items = ref.index_items(spec)
  prototype = psn.pack(nodes.to_nodes(spec))
  dag = builder(False)(prototype)
  dag_jit = builder(True)(prototype)
  require_equal((list(dag_jit.edges), dag_jit.initial_state, dag_jit.final_state),
                (list(dag.edges), dag.initial_state, dag.final_state),
                "interpreted and compiled construction differ")
  pruned = gsd.prune_to_reachable(dag)
  packed, data = constraint_dags.pack_dag(pruned)
  if case["flip"] % 8 == 0:
    check_specialized(constraint_dags, dag_jit, pruned, packed, data)
  require_equal(list(data.variable_keys), ref.all_keys(items), "wrong decisions")
  require_equal(list(data.variable_values), list(rd.DecisionValue), "wrong values")
  free = float(packed_dags.compute_minimal_cost(packed_dags.empty_unpenalized_table(packed)))
  require_equal(free, 0.0, "the constraints have a cost of their own")

  labels = []

  def judge(assignment, want):
    got = constrained_cost(packed, data, assignment)
    if want:
      require_equal(got, 0.0, "valid decisions are rejected or have a cost",
                    prototype=spec, assignment=assignment)
    else:
      require(got == math.inf, "invalid decisions are accepted",
              prototype=spec, assignment=assignment, cost=got)

  # Decisions that would be fine if regions did not have to respect the tree.
  try:
    for assignment in ref.sample_walks(items, False, case["flip"], 6):
      ok = ref.is_valid(items, assignment, True)
      judge(assignment, ok)
      labels.append("accepted" if ok else "badly-nested")
      for key, value in assignment.items():
        if key.category == ref.START and value == ref.TRUE and ok:
          labels.append("region")
        if key.category == ref.EXIT and value == ref.TRUE and ok:
          labels.append("exit")
      keys = sorted(assignment)
      if keys:
        changed = dict(assignment)
        for pick in case["picks"]:
          changed[keys[pick[0] % len(keys)]] = list(rd.DecisionValue)[pick[1]]
        ok = ref.is_valid(items, changed, True)
        judge(changed, ok)
        if not ok:
          labels.append("rejected")
  except Discard:
    labels.append("large")
  # Well-nested ones, reached directly.
  try:
    for assignment in ref.sample_walks(items, True, case["flip"] ^ 4095, 4):
      judge(assignment, True)
  except Discard:
    labels.append("large")
  # On small prototypes, the number of solutions is compared as well.
  if len(dag.edges) <= 60:
    counts = {}
    for edge in dag.edges:
      counts.setdefault(edge.source, []).append(edge)
    limit = 400
    found = []

    def paths(state, assigned):
      if len(found) > limit:
        return
      if state == dag.final_state:
        found.append(frozenset(ref.complete(items, dict(assigned)).items()))
        return
      for edge in counts.get(state, []):
        ra = edge.required_assignment
        paths(edge.dest, assigned if ra is None else assigned + [(ra.key, ra.value)])

    paths(dag.initial_state, [])
    if len(found) <= limit:
      want = [frozenset(ref.complete(items, a).items()) for a in ref.walks(items, True)]
      require(set(found) == set(want), "different sets of solutions",
              only_dag=[sorted(x) for x in set(found) - set(want)][:2],
              only_reference=[sorted(x) for x in set(want) - set(found)][:2])
      labels.append("all-solutions")
  labels = sorted(set(labels))
  if "region" in labels and nodes.size(spec) >= 4 and any(i[0] == "group" for i in spec):
    labels.append("nontrivial")
  return labels


def case_strategy(large=False):
  return st.fixed_dictionaries({
      "base": ref.content_strategy(7, large=large),
      "controls": ref.controls_strategy(max_size=14 if large else 6, reach=3 if large else 1),
      "flip": st.integers(0, 4095),
      "picks": st.lists(st.tuples(st.integers(0, 30), st.integers(0, 2)).map(list),
                        min_size=1, max_size=3),
  })


CHECK = Check(
    property="P21",
    targets=[
        Target("accepts", case_strategy, run, quick=8000, thorough=120000,
               rule="prototype with a group, at least four nodes, and a region used"),
        Target("large", lambda: case_strategy(True), run, quick=1000, thorough=15000,
               rule="as in accepts; up to 14 pairs or single markers"),
    ],
    assumptions=["numba is not installable here: compiled mode runs the numba overloads as Python"],
)
