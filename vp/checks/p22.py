"""P22: the part-selection DAG credits exactly the parts found in the target, in order."""

import itertools
import math

from hypothesis import strategies as st

from vp import nodes
from vp import region_ref as ref
from vp.checks.p20 import check_specialized, constrained_cost, make_pair
from vp.harness import Check, Discard, Target, require, require_close, require_equal
from r_u_sure.decision_diagrams import gated_state_dag as gsd
from r_u_sure.decision_diagrams import packed_dags
from r_u_sure.edit_distance_utility import part_selection_dags as psd
from r_u_sure.edit_distance_utility import region_decisions as rd
from r_u_sure.tree_structure import packed_sequence_nodes as psn

INF = math.inf


def utilities(params, text, type_):
  match_fixed, match_per_char, delete_fixed, delete_per_char, type_bonus = params
  bonus = type_bonus if type_ == "B" else 0.0
  return (match_fixed + match_per_char * len(text) + bonus,
          delete_fixed + delete_per_char * len(text) + bonus / 2)


def symbols(items):
  """In-order events without decorations and control nodes."""
  for item, closing in ref._events(items):
    if item.kind == "tok":
      yield (item, ("tok", item.text, item.type))
    elif item.kind == "group":
      yield (item, ("close" if closing else "open", item.type))


def parts_of(items, assignment):
  """The selected parts, each a list of (item, symbol)."""
  out, current = [], None
  for item, closing in ref._events(items):
    if item.kind == "start" and assignment[ref.Key(item.index, ref.START)] == ref.TRUE:
      current = []
    elif item.kind == "end" and assignment[ref.Key(item.index, ref.END)] == ref.TRUE:
      out.append(current)
      current = None
    elif current is not None:
      if item.kind == "tok":
        current.append((item, ("tok", item.text, item.type)))
      elif item.kind == "group":
        current.append((item, ("close" if closing else "open", item.type)))
  return out


def reference_cost(items, assignment, target, params):
  haystack = [s for _, s in symbols(target)]
  best = {0: 0.0}
  for part in parts_of(items, assignment):
    needle = [s for _, s in part]
    pairs = [utilities(params, s[1], s[2]) for s in needle if s[0] == "tok"]
    match, unmatched = -sum(p[0] for p in pairs), sum(p[1] for p in pairs)
    after = {}
    for pos, cost in best.items():
      after[pos] = min(after.get(pos, INF), cost + unmatched)
      for i in range(pos, len(haystack) - len(needle) + 1):
        if haystack[i:i + len(needle)] == needle:
          end = i + len(needle)
          after[end] = min(after.get(end, INF), cost + match)
    best = after
  return min(best.values())


def run(case):
  prototype, target = make_pair(case)
  items, t_items = ref.index_items(prototype), ref.index_items(target)
  params = case["params"]

  def utility_fn(node):
    # Match types are opaque; the packed node keeps the original one.
    match, delete = utilities(params, node.text_contents, node.match_type)
    return psd.UtilitiesAndCostsForNode(match_utility=match, delete_cost=delete)

  parameters = psd.PartSelectionUtilityParameters(token_node_utility_fn=utility_fn)
  packed_p, packed_t = psn.pack(nodes.to_nodes(prototype)), psn.pack(nodes.to_nodes(target))
  dag = psd.make_selection_dag_builder(parameters)(packed_p, packed_t)
  dag_jit = psd.make_selection_dag_builder(parameters, with_numba=True)(packed_p, packed_t)
  require_equal((list(dag_jit.edges), dag_jit.initial_state, dag_jit.final_state),
                (list(dag.edges), dag.initial_state, dag.final_state),
                "interpreted and compiled construction differ")
  pruned = gsd.prune_to_reachable(dag)
  packed, data = psd.pack_dag(pruned)
  if case["pick"] % 8 == 0:
    check_specialized(psd, dag_jit, pruned, packed, data)
  keys = ref.all_keys(items)
  require_equal(list(data.variable_keys), keys, "wrong decisions")
  require_equal(list(data.variable_values), list(rd.DecisionValue), "wrong values")
  labels = []

  def explain(assignment, want):
    """The groups describing the cheapest path have to add up."""
    path, used = packed_dags.constrained_best_path(packed, data, assignment)
    require_equal({k: used[k] for k in keys}, assignment, "the path makes other decisions")
    groups = list(psd.extract_match_groups(path, packed_p, packed_t))
    require_close(sum(g.cost for g in groups), want, "group costs do not add up")
    selected = {i.index for part in parts_of(items, assignment) for i, _ in part}
    skip = psd.DagStateCategory.SKIP_IN_TARGET
    said = [t for g in groups if g.category != skip for t in g.content_tokens]
    require_equal(said, [s[1] for _, s in symbols(items) if s[0] == "tok"],
                  "the groups do not spell out the prototype")
    inside = [t for g in groups if g.category in (
        psd.DagStateCategory.SELECT_MATCHED, psd.DagStateCategory.SELECT_UNMATCHED)
              for t in g.content_tokens]
    require_equal(inside, [s[1] for i, s in symbols(items) if s[0] == "tok" and i.index in selected],
                  "the groups do not spell out the selected parts")
    used_target = [t for g in groups
                   if g.category in (skip, psd.DagStateCategory.SELECT_MATCHED)
                   for t in g.content_tokens]
    t_tokens = [s[1] for _, s in symbols(t_items) if s[0] == "tok"]
    require_equal(used_target, t_tokens[:len(used_target)],
                  "the skipped and matched groups do not spell out the target")
    for g in groups:
      if g.category == psd.DagStateCategory.SELECT_MATCHED and g.content_tokens:
        labels.append("matched")
      if g.category == psd.DagStateCategory.SELECT_UNMATCHED and g.content_tokens:
        labels.append("unmatched")

  for assignment in ref.sample_walks(items, False, case["flip"]):
    want = reference_cost(items, assignment, t_items, params)
    require_close(constrained_cost(packed, data, assignment), want, "wrong selection cost",
                  prototype=prototype, target=target, assignment=assignment)
    explain(assignment, want)
    if any(parts_of(items, assignment)):
      labels.append("part")
    if keys:
      changed = dict(assignment)
      key = keys[case["pick"] % len(keys)]
      changed[key] = list(rd.DecisionValue)[case["pick"] % 3]
      got = constrained_cost(packed, data, changed)
      if ref.is_valid(items, changed, False):
        require_close(got, reference_cost(items, changed, t_items, params),
                      "wrong selection cost", assignment=changed)
      else:
        require(got == INF, "an impossible set of decisions was accepted", assignment=changed)
        labels.append("rejected")
  try:
    every = list(itertools.islice(ref.walks(items, False, 0, budget=1500), 61))
  except Discard:
    every = None
  if every is not None and len(every) <= 60:
    want = min(reference_cost(items, ref.complete(items, a), t_items, params) for a in every)
    got = float(packed_dags.compute_minimal_cost(packed_dags.empty_unpenalized_table(packed)))
    require_close(got, want, "wrong optimum", prototype=prototype, target=target)
    labels.append("optimum")
  labels = sorted(set(labels))
  if "part" in labels and "matched" in labels:
    labels.append("nontrivial")
  return labels


def case_strategy(large=False):
  reach = 3 if large else 1
  c = st.sampled_from([1.0, 0.5, 2.0, 0.0, 3.0, -0.5])
  return st.fixed_dictionaries({
      "base": ref.content_strategy(5, large=large),
      "controls": ref.controls_strategy(kinds=("start", "end", "pair", "pair"),
                                        max_size=8 if large else 4, reach=reach),
      "ops": ref.ops_strategy(5 if large else 3, reach),
      "other": (st.none() if large
                else st.one_of(st.none(), st.none(), ref.content_strategy(5))),
      "params": st.tuples(c, c, c, c, st.sampled_from([0.0, 1.0, 0.25])).map(list),
      "flip": st.integers(0, 4095),
      "pick": st.integers(0, 30),
  })


CHECK = Check(
    property="P22",
    targets=[
        Target("cost", case_strategy, run, quick=4000, thorough=60000,
               rule="a selected part with a token that is found in the target"),
        Target("large", lambda: case_strategy(True), run, quick=500, thorough=10000,
               rule="as in cost; up to twelve nodes and groups at the top"),
    ],
    assumptions=[
        "prototypes have no early-exit nodes and targets no control nodes, as documented",
        "numba is not installable here: compiled mode runs the numba overloads as Python",
    ],
)
