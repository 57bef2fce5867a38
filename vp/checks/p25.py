"""P25: effective precision is the probability threshold for showing or marking text."""

from hypothesis import strategies as st

from vp import nodes
from vp import region_ref as ref
from vp import wrap
from vp.harness import Check, Target, require, require_close, require_equal
from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver
from r_u_sure.wrappers import uncertainty_regions_wrapper

RULE = "the probability differs from the precision by less than a quarter"


def expected_utilities(costs, length, q):
  """(confident, in a region): as the documentation lists the four situations."""
  high = q * length * costs.high_confidence_match_utility_per_char + (1 - q) * (
      -length * costs.high_confidence_delete_cost_per_char
      - costs.high_confidence_start_editing_cost)
  low = q * length * costs.low_confidence_match_utility_per_char + (1 - q) * (
      -length * costs.low_confidence_delete_cost_per_char
      - costs.low_confidence_start_editing_cost) - costs.low_confidence_region_cost
  return high, low


def run_formula(case):
  p, start, s, length, q = (case[k] for k in ("p", "start", "s", "length", "q"))
  costs = uncertainty_regions_wrapper.derive_uncertainty_region_costs(p, start, s)
  require_equal(float(costs.insert_cost_per_char), 0.0, "insertions cost something")
  require_close(costs.high_confidence_start_editing_cost, start, "another editing cost")
  require_close(costs.high_confidence_match_utility_per_char, 1.0, "another unit of utility")
  require_close(costs.high_confidence_delete_cost_per_char, 1.0, "another unit of cost")
  require_close(costs.low_confidence_match_utility_per_char + costs.low_confidence_delete_cost_per_char,
                2 * s, "another sensitivity to edits")
  require_close(costs.low_confidence_start_editing_cost, s * start, "another sensitivity to edits")
  require(costs.low_confidence_region_cost >= -1e-12, "a region pays for itself")
  high, low = expected_utilities(costs, length, p)
  require_close(high, low, "not indifferent at the precision", costs=costs)
  high, low = expected_utilities(costs, length, q)
  if q > p and s < 1:
    require(high > low - 1e-9, "a likely token is better put in a region", costs=costs)
  if q < p and s < 1:
    require(low > high - 1e-9, "an unlikely token is better kept confident", costs=costs)
  # Being correct is never worse than being incorrect.
  sure = expected_utilities(costs, length, 1.0)
  never = expected_utilities(costs, length, 0.0)
  require(sure[0] >= never[0] - 1e-9 and sure[1] >= never[1] - 1e-9,
          "being incorrect is better than being correct", costs=costs)
  return ["nontrivial"] if 0 < abs(q - p) < 0.25 and s < 1 else []


def solve(system):
  solver.solve_system_with_sweeps(system.data, soft_timeout=20.0)
  vector, cost = solver.greedy_extract(system.data, direction=solver.SweepDirection.FORWARD)
  return solver.assignments_from_assignment_vector(system, vector), float(cost)


def run_region(case):
  """A suggestion in which exactly one token is uncertain."""
  p, start, s, q = (case[k] for k in ("p", "start", "s", "q"))
  made = wrap.wrapper("regions", p, start, s, False)
  before, token, after = case["before"], "u" * case["length"], case["after"]
  wrong = "w" * case["length"]
  texts = ["".join(before) + t + "".join(after) for t in (token, wrong)]
  packed, info = made.process_prototype_and_context(
      wrap.parse("raw_simple_tokens", texts[0]), 0)
  targets = [made.process_target(wrap.parse("raw_simple_tokens", t), 0) for t in texts]
  system = made.build_system(packed, info, targets, target_utility_scale_factors=[q, 1 - q])
  items = ref.index_items(wrap.unpacked(packed))
  uncertain = [i.index for i in walk(items) if i.kind == "tok" and i.text == token]
  require_equal(len(uncertain), 1, "the token is missing")
  where = [k for k in ref.all_keys(items) if k.category == ref.IN]
  best = None
  # The best annotation in which the token is, or is not, in a region.
  costs = {}
  for value in (ref.TRUE, ref.FALSE):
    key = ref.Key(uncertain[0], ref.IN)
    require(key in where, "the token is not decided")
    clone = solver.clone_system(system)
    solver.constrain_system(clone, {key: value}, penalty=1e6)
    assignment, cost = solve(clone)
    costs[value] = cost
    require_equal(assignment[key], value, "the token cannot be marked" if value == ref.TRUE else
                  "the token cannot be left unmarked")
  if abs(q - p) > 1e-9:
    best = ref.TRUE if q < p else ref.FALSE
    other = ref.FALSE if q < p else ref.TRUE
    require(costs[best] < costs[other], "the other choice is better", best=best, costs=costs)
    assignment, cost = solve(system)
    marked = sorted(k.prototype_preorder_index for k, v in assignment.items()
                    if k.category == ref.IN and v == ref.TRUE)
    require_close(cost, costs[best], "the solution is not the best one")
    require_equal(marked, uncertain if q < p else [], "the wrong tokens are marked",
                  text=texts[0], q=q, p=p)
  else:
    require_close(costs[ref.TRUE], costs[ref.FALSE], "not indifferent at the precision")
  labels = ["marked" if best == ref.TRUE else "unmarked"]
  if 0 < abs(q - p) < 0.25 and (before or after):
    labels.append("nontrivial")
  return labels


def walk(items):
  for item in items:
    yield item
    yield from walk(item.children)


_CALLS = {}


def call_wrapper(p):
  if p not in _CALLS:
    from r_u_sure.wrappers import call_sequence_wrapper
    _CALLS[p] = call_sequence_wrapper.ApiCallSequenceWrapper(effective_precision=p, use_numba=False)
  return _CALLS[p]


def run_call(case):
  """A call that occurs in a fraction q of the samples is shown iff q exceeds the precision."""
  p, q = case["p"], case["q"]
  made = call_wrapper(p)
  context = "import a\n"
  suggestion = "".join(case["filler"]) + case["call"] + "\n"
  other = "".join(case["filler"]) + case["instead"] + "\n"
  packed, info = made.process_prototype_and_context(
      wrap.parse("python", context + suggestion), len(context))
  targets = [made.process_target(wrap.parse("python", context + t), len(context))
             for t in (suggestion, other)]
  system = made.build_system(packed, info, targets, target_utility_scale_factors=[q, 1 - q])
  assignment, cost = solve(system)
  parts = made.solution_info(packed, None, info, None, assignment)["extracted_parts"]
  shown = "".join(t for t, r in parts if r)
  if q > p:
    require(shown, "a likely call is not shown", parts=parts)
    require("".join(t for t, _ in parts).strip().endswith(")"), "the call is cut")
    require(cost < 0, "a likely call has no utility")
  else:
    require_equal(shown, "", "an unlikely call is shown", parts=parts)
    require_close(cost, 0.0, "hiding everything costs something")
  return ["shown" if shown else "hidden", "nontrivial"]


def probabilities():
  return st.sampled_from([0.3, 0.5, 0.7, 0.9, 0.1, 0.6])


def threshold_fields():
  return {
      "p": probabilities(),
      "start": st.sampled_from([5.0, 0.0, 1.0, 2.5]),
      "s": st.sampled_from([0.5, 0.25, 0.75, 0.1]),
  }


def region_cases():
  word = st.sampled_from(["x ", "foo ", "( ", "= ", "12 "])
  near = st.tuples(probabilities(), st.sampled_from([-0.2, -0.05, 0.05, 0.2, -0.01, 0.01, 0.0]))
  return st.fixed_dictionaries({
      **threshold_fields(),
      "length": st.integers(1, 7),
      "before": st.lists(word, max_size=3),
      "after": st.lists(word.map(lambda w: " " + w.strip()), max_size=3),
      "near": near,
  }).map(_set_q)


def _set_q(case):
  _, delta = case.pop("near")
  case["q"] = min(0.99, max(0.01, round(case["p"] + delta, 4)))
  return case


def call_cases():
  return st.fixed_dictionaries({
      "p": probabilities(),
      "near": st.tuples(probabilities(), st.sampled_from([-0.2, -0.05, 0.05, 0.2, -0.01, 0.01])),
      "filler": st.lists(st.sampled_from(["x = 1\n", "y = x\n", "if x:\n  y\n"]), max_size=2),
      "call": st.sampled_from(["foo(x)", "r = foo.bar(1)", "foo()", "zed.baz(k, 2)", "foo . bar(1)"]),
      "instead": st.sampled_from(["z = 2", "quux(7)", "qq.q(8, 9)", ""]),
  }).map(_set_q)


def formula_cases():
  unit = st.floats(0.01, 0.99)
  return st.fixed_dictionaries({
      "p": unit, "q": unit, "s": st.floats(0, 1), "start": st.floats(0, 20),
      "length": st.integers(1, 40),
  })


CHECK = Check(
    property="P25",
    targets=[
        Target("formula", formula_cases, run_formula, quick=4000, thorough=100000, rule=RULE),
        Target("region", region_cases, run_region, quick=500, thorough=10000,
               rule=RULE + ", and there are other tokens"),
        Target("call", call_cases, run_call, quick=500, thorough=5000, rule="every case"),
    ],
    assumptions=["sensitivities are between 0 and 1 and editing costs are not negative"],
)
