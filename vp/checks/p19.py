"""P19: systems of DAGs: construction, edits, copies and extraction of solutions."""

import math

from hypothesis import strategies as st
import numba
import numpy as np

from vp import gen_code
from vp import packed_ref
from vp import systems
from vp.harness import Check, Target, expect_raises, require, require_close, require_equal
from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver

INF = math.inf
FORWARD, REVERSE = solver.SweepDirection.FORWARD, solver.SweepDirection.REVERSE
Status = solver.PartialCommitmentStatus


def check_structure(system, converted, model):
  data = system.data
  require_equal(list(system.variable_keys), model.keys, "wrong variables")
  require_equal(list(system.variable_values), model.values, "wrong values")
  require_equal((data.num_variable_keys, data.num_variable_values),
                (len(model.keys), len(model.values)), "wrong counts")
  want = [[keys.index(k) if k in keys else -1 for keys in model.keys_of] for k in model.keys]
  require_equal(data.dag_variable_index_map.shape, (len(model.keys), len(converted)), "wrong shape")
  require_equal([[int(x) for x in row] for row in data.dag_variable_index_map], want,
                "wrong variable index map")
  require_equal([float(w) for w in data.dag_update_proportions], model.weights, "wrong weights")
  require_equal(len(system.conversion_data), len(converted), "wrong number of DAGs")


def check_extract(system, model, direction):
  before = systems.snapshot(system)
  vector, cost = solver.greedy_extract(system.data, direction)
  require(systems.same_snapshot(before, systems.snapshot(system)),
          "extracting a solution modified the system")
  require_equal(len(vector), len(model.keys), "wrong number of decisions")
  require(all(0 <= int(v) < len(model.values) for v in vector), "a decision is missing")
  true = model.cost(vector)
  cost = float(cost)
  if true == INF:
    require(cost == INF, "an infeasible solution was given a finite cost", cost=cost,
            vector=list(vector))
  else:
    require_close(cost, true, "the solution does not have the reported cost", vector=list(vector))
  optimum = model.optimum()
  if optimum < INF and cost < INF:
    require(cost >= optimum - 1e-6 * max(1.0, abs(optimum)), "better than the optimum")
  # Each decision was the best one given those before it.
  penalties = [p.copy() for p in systems.penalties_of(system)]
  order = range(len(model.keys))
  for i in order if direction == FORWARD else reversed(order):
    options = model.system_marginals(penalties, i)
    choice = int(vector[i])
    if min(options) < INF:
      require(options[choice] <= min(options) + 1e-6 * max(1.0, abs(min(options))),
              "a decision was not the best one available", variable=i, options=options)
    for d, keys in enumerate(model.keys_of):
      if model.keys[i] in keys:
        row = penalties[d][keys.index(model.keys[i])]
        keep = row[choice]
        row[:] = INF
        row[choice] = keep
  if len(model.costs) == 1:
    # One DAG: greedy extraction is exact.
    require_close(cost, optimum, "a single DAG was not solved exactly")
  named = solver.assignments_from_assignment_vector(system, vector)
  require_equal({k: v for k, v in named.items()},
                {k: model.values[int(v)] for k, v in zip(model.keys, vector)}, "wrong assignments")
  return cost < INF


def forbidden(system):
  return [[float(x) == INF for x in row] for row in system.data.extra_unary_costs]


def commit_reference(model, penalties, direction, target, strictness):
  """The documented rule: (needs greedy extraction, {(variable, value): forbidden}).

  None where rounding decides.
  """
  n = len(model.keys)
  order = list(range(n)) if direction == FORWARD else list(reversed(range(n)))
  tables = [model.system_marginals(penalties, i) for i in range(n)]
  bound = max(min(row) for row in tables)
  ranked = np.array([[-INF if x == INF else x for x in row] for row in tables])
  with np.errstate(invalid="ignore"):
    threshold = float(np.quantile(ranked, 1 - target / len(model.values)))
  if math.isnan(threshold) or math.isnan(bound) or bound == INF:
    return None, None
  close = lambda a, b: abs(a - b) <= 1e-4 * max(1.0, abs(a), abs(b))
  if close(threshold, bound):
    return None, None
  if threshold < bound:
    return True, {}
  gap = (threshold - bound) * strictness
  out = {}
  for i in order:
    options = model.system_marginals(penalties, i)
    bound = max(bound, min(options))
    for v, x in enumerate(options):
      if x < INF and close(x, bound + gap) and not (gap == 0 and x == bound):
        return False, None
      out[i, v] = x > bound + gap
      if out[i, v]:
        for d, keys in enumerate(model.keys_of):
          if model.keys[i] in keys:
            penalties[d][keys.index(model.keys[i])][v] = INF
  return False, out


def check_commit(system, model, direction, target, strictness):
  before = systems.snapshot(system)
  optimum = model.optimum()
  greedy, expected = commit_reference(
      model, [p.copy() for p in systems.penalties_of(system)], direction, target, strictness)
  possible = [model.allowed(i) for i in range(len(model.keys))]
  status = solver.partially_commit(system.data, direction, target, strictness)
  after = systems.snapshot(system)
  if greedy is not None:
    require_equal(status == Status.NEEDS_GREEDY_EXTRACT, greedy, "wrong verdict", status=status)
  if status == Status.NEEDS_GREEDY_EXTRACT:
    require(systems.same_snapshot(before, after), "modified the system without committing")
    return status
  new = 0
  for i in range(len(model.keys)):
    kept = []
    for v in range(len(model.values)):
      old_extra, new_extra = float(before[2][i, v]), float(after[2][i, v])
      if new_extra == INF:
        if old_extra != INF and v in possible[i]:
          new += 1
        for d, keys in enumerate(model.keys_of):
          if model.keys[i] in keys and old_extra != INF:
            require(float(after[0][d][keys.index(model.keys[i]), v]) == INF,
                    "a forbidden choice is still allowed in a subproblem")
      else:
        kept.append(v)
        require(new_extra == old_extra, "an extra cost changed", variable=i, value=v)
        for d, keys in enumerate(model.keys_of):
          if model.keys[i] in keys:
            j = keys.index(model.keys[i])
            require(before[0][d][j, v] == after[0][d][j, v], "a penalty changed", variable=i)
    if any(float(x) < INF for x in before[2][i]):
      require(kept, "every choice of a variable was forbidden", variable=i)
  if status == Status.STUCK:
    require_equal(new, 0, "reported as stuck but forbade possible choices")
  if expected is not None:
    for (i, v), gone in expected.items():
      require_equal(float(after[2][i, v]) == INF, gone or float(before[2][i, v]) == INF,
                    "not the choices that are too far from the best", variable=i, value=v)
  model.extra = [[float(x) for x in row] for row in after[2]]
  if len(model.costs) == 1 and optimum < INF:
    require_close(model.optimum(), optimum, "committing lost the optimum of a single DAG")
  return status


def run_history(case):
  model = systems.Model(case["specs"], case["ordering"], case["weights"])
  system, converted = systems.build(case)
  check_structure(system, converted, model)
  pool = [(system, model)]
  labels = set()
  edits = 0
  committed = set()
  for op in case["ops"]:
    which = op[1] % len(pool)
    system, model = pool[which]
    name = op[0]
    others = [(s, systems.snapshot(s)) for j, (s, _) in enumerate(pool) if j != which]
    if name == "constrain":
      if not model.keys:
        continue
      amount = INF if op[4] == "inf" else op[4]
      constraints = {}
      for i, v in zip(op[2], op[3]):
        constraints[model.keys[i % len(model.keys)]] = v
      solver.constrain_system(system, {k: model.values[v] for k, v in constraints.items()}, amount)
      for k, v in constraints.items():
        i = model.keys.index(k)
        for w in range(len(model.values)):
          if w != v:
            model.extra[i][w] += amount
      edits += 1
    elif name == "unknown":
      with expect_raises(KeyError, "unknown variable accepted"):
        solver.constrain_system(system, {(99, 99): model.values[0]})
      if model.keys:
        with expect_raises(KeyError, "unknown value accepted"):
          solver.constrain_system(system, {model.keys[0]: 77})
    elif name == "noise":
      scale, seed = op[2], op[3]
      twin = solver.clone_system(system)
      old = [list(r) for r in model.extra]
      solver.break_symmetry_randomly(system, scale, random_seed=seed)
      solver.break_symmetry_randomly(twin, scale, random_seed=seed)
      require(systems.same_snapshot(systems.snapshot(system), systems.snapshot(twin)),
              "the same seed gives different noise")
      new = [[float(x) for x in r] for r in system.data.extra_unary_costs]
      for a, b in zip(old, new):
        for x, y in zip(a, b):
          if x < INF:
            require(-1e-9 <= y - x <= scale + 1e-9, "noise out of range", noise=y - x)
          else:
            require(y == INF, "noise re-allowed a forbidden choice")
      model.extra = new
      edits += 1
    elif name == "average":
      if model.keys:
        solver.min_marginal_average(system.data, op[2] % len(model.keys))
    elif name == "clone":
      before = systems.snapshot(system)
      pool.append((solver.clone_system(system), model.copy()))
      require(systems.same_snapshot(before, systems.snapshot(pool[-1][0])), "the copy differs")
      if which in committed:
        committed.add(len(pool) - 1)
      labels.add("clone")
    elif name == "extract":
      ok = check_extract(system, model, [FORWARD, REVERSE][op[2]])
      labels.add("extract-finite" if ok else "extract-inf")
    elif name == "commit":
      if model.keys:
        status = check_commit(system, model, [FORWARD, REVERSE][op[2]], op[3], op[4])
        labels.add(status.name)
        committed.add(which)
    for s, snap in others:
      require(systems.same_snapshot(snap, systems.snapshot(s)), "another system changed", op=op)
    system, model = pool[which]
    systems.check_invariant(system, model)
    systems.check_tables_answer(system, model)
  labels = sorted(labels)
  if edits and len(case["specs"]) >= 2 and "extract-finite" in labels:
    labels.append("nontrivial")
  return labels


def run_reject(case):
  """Systems need at least one DAG, and all DAGs the same values."""
  with expect_raises(ValueError, "an empty system was accepted"):
    solver.make_system([])
  converted = []
  values = []
  for spec, ordering in zip(case["specs"], case["orderings"]):
    ordering = ordering or packed_ref.values_of(spec)
    converted.append(packed_ref.convert(spec, case["compiled"], ordering=ordering))
    values.append(list(ordering))
  if any(v != values[0] for v in values):
    with expect_raises(ValueError, "differing values were accepted"):
      solver.make_system(converted)
    return ["reject", "nontrivial"]
  system = solver.make_system(converted)
  require_equal(list(system.variable_values), values[0], "wrong values")
  return ["accept"]


def history_strategy(large=False):
  which = st.integers(0, 3)
  op = st.one_of(
      st.tuples(st.just("constrain"), which, st.lists(st.integers(0, 5), min_size=1, max_size=2),
                st.lists(st.integers(0, 2), min_size=2, max_size=2),
                st.sampled_from([1.0, 0.5, 3.0, -1.0, "inf"])),
      st.tuples(st.just("noise"), which, st.sampled_from([1.0, 0.1, 5.0]), st.integers(0, 4)),
      st.tuples(st.just("average"), which, st.integers(0, 5)),
      st.tuples(st.just("average"), which, st.integers(0, 5)),
      st.tuples(st.just("clone"), which),
      st.tuples(st.just("extract"), which, st.integers(0, 1)),
      st.tuples(st.just("extract"), which, st.integers(0, 1)),
      st.tuples(st.just("commit"), which, st.integers(0, 1),
                st.sampled_from([0.25, 0.5, 1.0, 1.5, 2.0]), st.sampled_from([0.0, 0.5, 1.0])),
      st.tuples(st.just("unknown"), which),
  ).map(list)
  return st.fixed_dictionaries({
      "specs": systems.large_specs_strategy() if large else systems.specs_strategy(),
      "compiled": st.booleans(),
      "ordering": st.sampled_from([[0, 1, 2], [2, 0, 1]]),
      "weights": systems.weights_strategy(),
      "ops": gen_code.sized(op, 10, 2),
  })


def reject_strategy():
  return st.fixed_dictionaries({
      "specs": systems.specs_strategy(),
      "compiled": st.booleans(),
      "orderings": st.lists(
          st.sampled_from([[0, 1, 2], [0, 1, 2], [2, 0, 1], [0, 1, 2, 3], None]),
          min_size=3, max_size=3),
  })


CHECK = Check(
    property="P19",
    targets=[
        Target("history", history_strategy, run_history, quick=12000, thorough=120000,
               rule="at least two DAGs, an edit, and a solution of finite cost extracted"),
        Target("large", lambda: history_strategy(True), run_history, quick=600, thorough=10000,
               rule="as in history; four to six DAGs over up to six variables"),
        Target("reject", reject_strategy, run_reject, quick=1500, thorough=10000,
               rule="DAGs with differing values"),
    ],
    assumptions=[
        "costs are finite or plus infinity; comparisons allow a relative error of 1e-6",
        "numba is not installable here: compiled mode runs the numba overloads as Python",
    ],
)
