"""P24: the edit-based wrappers solve the problem the user posed, end to end."""

import math
import re

from hypothesis import strategies as st
import numpy as np

from vp import nodes
from vp import region_ref as ref
from vp import wrap
from vp.checks import p11
from vp.checks import p23
from vp.harness import Check, Discard, Target, require, require_close, require_equal
from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver

INF = math.inf


def prepare(case, compiled):
  context, prototype, targets = wrap.texts_of(case)
  language, mode = case["language"], case["mode"]
  made = wrap.wrapper(mode, *case["params"], compiled)
  location = len(context)
  tree = wrap.parse(language, context + prototype)
  tree_spec = nodes.to_spec(tree)
  packed, info = made.process_prototype_and_context(tree, location)
  require_equal(nodes.to_spec(tree), tree_spec, "the parsed prototype was modified")
  spec = wrap.unpacked(packed)
  require_equal(nodes.text_of(spec), prototype, "the prototype's text changed")
  require_equal(spec, wrap.expected_prototype(tree_spec, mode, location),
                "wrong decision points", context=context, prototype=prototype)
  packed_targets, target_specs = [], []
  for text in targets:
    target_tree = wrap.parse(language, context + text)
    want = p11.ref_truncate(nodes.to_spec(target_tree), location)
    packed_target = made.process_target(target_tree, location)
    require_equal(wrap.unpacked(packed_target), want, "wrong target")
    require_equal(nodes.text_of(want), text, "the target's text changed")
    packed_targets.append(packed_target)
    target_specs.append(want)
  return made, packed, info, spec, packed_targets, target_specs


def run(case):
  context, prototype, targets = wrap.texts_of(case)
  made, packed, info, spec, packed_targets, target_specs = prepare(case, case["compiled"])
  if nodes.size(spec) > case.get("limit", 70):
    raise Discard
  items = ref.index_items(spec)
  t_items = [ref.index_items(t) for t in target_specs]
  params = wrap.params_of(*case["params"], case["mode"])
  weights = case["weights"]
  given = None if weights is None else (weights * len(targets))[:len(targets)]
  real = [1.0 / len(targets)] * len(targets) if given is None else given
  system = made.build_system(packed, info, packed_targets, target_utility_scale_factors=given)
  keys = ref.all_keys(items)
  labels = [case["language"], case["mode"]]

  def parts(assignment):
    return [ref.edit_cost(items, assignment, t, params) for t in t_items]

  def true_cost(assignment):
    return sum(w * c for w, c in zip(real, parts(assignment)))

  for assignment in ref.sample_walks(items, True, case["flip"], 2):
    used, cost = wrap.cost_under(system, assignment)
    require_equal({k: used[k] for k in keys}, assignment, "the system decides otherwise")
    require_close(cost, true_cost(assignment), "wrong weighted cost",
                  context=context, prototype=prototype, targets=targets)
    if ref.TRUE in [v for k, v in assignment.items() if k.category == ref.START]:
      labels.append("region")
    if ref.TRUE in [v for k, v in assignment.items() if k.category == ref.EXIT]:
      labels.append("exit")
    judge_information(made, case, packed, info, items, assignment, packed_targets, t_items,
                      parts(assignment), context, target_specs, system)
  for assignment in ref.sample_walks(items, False, case["flip"], 2):
    if not ref.is_valid(items, assignment, True):
      _, cost = wrap.cost_under(system, assignment)
      require(cost == INF, "a badly nested region was accepted", assignment=assignment)
      labels.append("badly-nested")

  # Solving.
  results = solver.solve_system_with_sweeps(system.data, soft_timeout=20.0)
  vector, cost = solver.greedy_extract(system.data, direction=solver.SweepDirection.FORWARD)
  solution = solver.assignments_from_assignment_vector(system, vector)
  require_equal(sorted(solution), keys, "the solution does not decide everything")
  if cost < INF:
    require(ref.is_valid(items, solution, True), "the solution is not valid", solution=solution)
    require_close(float(cost), true_cost(solution), "the solution has another cost",
                  prototype=prototype, targets=targets)
    labels.append("solved")
  if len(results.objective_at_step):
    bound = float(results.objective_at_step[-1])
    require(bound <= cost + 1e-6, "the bound exceeds the solution's cost", bound=bound, cost=cost)
    for assignment in ref.sample_walks(items, True, case["flip"] ^ 2730, 2):
      other = true_cost(assignment)
      require(bound <= other + 1e-6 * max(1, abs(other)),
              "the bound exceeds the cost of a valid solution", assignment=assignment)
    if abs(bound - cost) <= 1e-6 * max(1, abs(cost)):
      labels.append("tight")
  labels = sorted(set(labels))
  if nodes.size(spec) >= 6 and len(targets) >= 2 and any(t != prototype for t in targets):
    labels.append("nontrivial")
  return labels


def judge_information(made, case, packed, info, items, assignment, packed_targets, t_items,
                      costs, context, target_specs, system):
  """The reported information and renderings of a given solution."""
  del t_items
  want = p23.pieces(items, assignment)
  which = case["pick"] % len(packed_targets)
  evaluation = made.build_system(packed, info, [packed_targets[which]])
  got = made.solution_info(packed, packed_targets[which], info, evaluation, assignment,
                           sample_system=system)
  require_equal([(t, bool(r)) for t, r in got["extracted_parts"]], [(t, r) for _, t, r, _ in want],
                "wrong extracted parts")
  require_close(float(got["total_cost"]), costs[which], "wrong total cost")
  require_close(sum(v for k, v in got.items() if re.fullmatch("[A-Z_]+_cost", k)), costs[which],
                "the metrics have another total cost")
  for a, b in zip(got["sample_system_costs_unsorted"], costs):
    require_close(float(a), b, "wrong cost of a sample")
  require_equal(len(got["sample_system_costs_unsorted"]), len(costs), "wrong number of samples")
  require_equal(list(got["sample_system_costs"]), sorted(got["sample_system_costs_unsorted"]),
                "the costs are not sorted")
  require_close(float(got["sample_system_cost_average"]), float(np.mean(costs)), "wrong average")
  if len(costs) > 1:
    mean = sum(costs) / len(costs)
    require_close(float(got["sample_system_cost_variance"]),
                  sum((c - mean) ** 2 for c in costs) / (len(costs) - 1), "wrong variance", tol=1e-5)
  require_equal(int(got["true_cost_rank_in_sample_system"]),
                sum(c < got["total_cost"] for c in got["sample_system_costs_unsorted"]), "wrong rank")
  alone = made.solution_info(packed, None, info, None, assignment)
  require_equal(alone["extracted_parts"], got["extracted_parts"], "wrong extracted parts")
  require("total_cost" not in alone, "a cost without a target")

  rendered = made.render_solution_html(packed, info, assignment)
  rendered = rendered.replace("<br>", "")
  chars = [(c, "in_region" in classes) for text, classes in p23.spans_of(rendered) for c in text]
  want_chars = [(c, False) for c in context]
  want_chars += [(c, r) for k, t, r, _ in want for c in ("︙" if k == "empty" else t)]
  require_equal(chars, want_chars, "wrong rendering of the suggestion", html=rendered)

  rendered = made.render_pairwise_matching_html(packed, packed_targets, info, system, assignment)
  chunks = re.split(r"========== Target (\d+) ==========<br>", rendered)
  require_equal(chunks[0], "", "text before the first target")
  require_equal(chunks[1::2], [str(i) for i in range(len(packed_targets))], "wrong targets shown")
  exited = ref.TRUE in [v for k, v in assignment.items() if k.category == ref.EXIT]
  for chunk, target in zip(chunks[2::2], target_specs):
    spans = p23.spans_of(chunk.replace("<br>", ""))
    edit = [(t, c) for t, c in spans if "edit_sequence_root" in c and "prefix" not in c]
    shown_context = "".join(t for t, c in spans if "edit_sequence_root" not in c)
    require_equal(shown_context, context, "the context is not shown")
    source = "".join(t for t, c in edit if "keep" in c or "delete" in c)
    require_equal(source, "".join(t for _, t, _, _ in want), "the edits do not start from the suggestion")
    # The target's white space may be left out after kept text.
    result = "".join(t for t, c in edit if "keep" in c or "insert" in c)
    if case["mode"] == "regions" and any(
        not t.isspace() for t, c in edit if "delete" in c or "insert" in c):
      require(any("፠" in t for t, c in edit if "start_editing" in c), "the edit is not marked")
    elif case["mode"] != "regions":
      require("፠" not in chunk, "edits of truncated text are marked")
    letters = [c for c in result if not c.isspace()]
    goal = [c for c in nodes.text_of(target) if not c.isspace()]
    if not exited and case["language"] == "raw_simple_tokens":
      require_equal(result, nodes.text_of(target), "the edits do not end in the target")
    elif not exited and "#" not in prototype_text(items) + nodes.text_of(target) and (
        "/" not in prototype_text(items) + nodes.text_of(target)):
      require_equal(letters, goal, "the edits do not end in the target")


def prototype_text(items):
  return "".join(i.text + prototype_text(i.children) for i in items)


def run_compiled(case):
  """Interpreted and compiled wrappers agree."""
  a = prepare(case, False)
  b = prepare(case, True)
  if nodes.size(a[3]) > 60:
    raise Discard
  require_equal(a[3], b[3], "different prototypes")
  given = None if case["weights"] is None else case["weights"][:len(a[4])]
  systems = [m.build_system(p, i, t, target_utility_scale_factors=given)
             for m, p, i, _, t, _ in (a, b)]
  outcomes = []
  for system in systems:
    results = solver.solve_system_with_sweeps(system.data, soft_timeout=30.0)
    vector, cost = solver.greedy_extract(system.data, direction=solver.SweepDirection.FORWARD)
    bound = float(results.objective_at_step[-1]) if len(results.objective_at_step) else None
    outcomes.append((solver.assignments_from_assignment_vector(system, vector), float(cost), bound))
  # Rounding may break ties differently, so only the values have to agree.
  if outcomes[0][2] is not None:
    require_close(outcomes[1][2], outcomes[0][2], "different bounds")
  require_close(outcomes[1][1], outcomes[0][1], "different costs")
  require_equal(sorted(outcomes[1][0]), sorted(outcomes[0][0]), "different decisions")
  made, packed, info, _, _, _ = b
  require_equal(made.render_solution_html(packed, info, outcomes[1][0]),
                a[0].render_solution_html(a[1], a[2], outcomes[1][0]), "different renderings")
  return [case["mode"]] + (["nontrivial"] if nodes.size(a[3]) >= 6 else [])


def params_strategy():
  return st.tuples(st.sampled_from([0.7, 0.5, 0.9, 0.3, 0.6]), st.sampled_from([5.0, 0.0, 1.0, 2.5]),
                   st.sampled_from([0.5, 0.25, 0.75, 1.0])).map(list)


def params_or_default():
  own = params_strategy()
  return st.one_of(own, own, own, st.just([None, None, None]))


def realistic_strategy():
  return wrap.realistic_case(("python", "cpp"), extra=dict(
      options(False), limit=st.just(150), compiled=st.sampled_from([False, False, True])))


def many_strategy():
  """Many samples of a short suggestion."""
  return wrap.suggestion_case(
      ("python", "cpp", "raw_simple_tokens"), max_size=3, extra=options(False),
      sizes=[1, 2, 3], counts=[9, 12, 17, 20])


def case_strategy(compiled):
  return wrap.suggestion_case(
      ("python", "cpp", "raw_simple_tokens"), max_size=6, max_targets=5, extra=options(compiled))


def options(compiled):
  return {
      "mode": st.sampled_from(["regions", "prefix", "both", "regions"]),
      "params": params_or_default(),
      "weights": st.one_of(st.none(), st.lists(
          st.sampled_from([0.5, 0.25, 1.0, 2.0]), min_size=5, max_size=5)),
      "flip": st.integers(0, 4095),
      "pick": st.integers(0, 5),
      "compiled": st.just(compiled),
  }


def compiled_strategy():
  return wrap.suggestion_case(
      ("python", "cpp"), max_size=5,
      extra={
          "mode": st.sampled_from(["both"]),
          "params": st.just([0.7, 5.0, 0.5]),
          "weights": st.one_of(st.none(), st.just([0.5, 0.25, 0.25])),
      })


CHECK = Check(
    property="P24",
    targets=[
        Target("solve", lambda: case_strategy(False), run, quick=800, thorough=8000,
               rule="prototype of at least six nodes and two targets, one of them different"),
        Target("realistic", realistic_strategy, run, quick=60, thorough=800,
               rule="as in solve; cut out of ordinary programs"),
        Target("many", many_strategy, run, quick=40, thorough=600,
               rule="as in solve; nine to twenty samples of a short suggestion"),
        Target("compiled", compiled_strategy, run_compiled, quick=120, thorough=1600,
               rule="prototype of at least six nodes"),
    ],
    assumptions=[
        "numba is not installable here: compiled mode runs the numba overloads as Python",
        "weights are positive; costs are compared up to a relative error of 1e-6",
    ],
)
