"""P18: dual bounds never exceed the true optimum and only improve."""

import math
import time

from hypothesis import strategies as st
import numpy as np

from vp import gen_code
from vp import packed_ref
from vp import systems
from vp.harness import Check, Discard, Target, require, require_close, require_equal
from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver

INF = math.inf
TOL = 1e-6


def prepare(case):
  model = systems.Model(case["specs"], case["ordering"], case["weights"])
  system, _ = systems.build(case)
  for kind, which, value, amount in case["edits"]:
    if not model.keys:
      break
    i = which % len(model.keys)
    if kind == "constrain":
      amount = INF if amount == "inf" else amount
      solver.constrain_system(system, {model.keys[i]: model.values[value]}, penalty=amount)
      for v in range(len(model.values)):
        if v != value:
          model.extra[i][v] += amount
    else:
      solver.break_symmetry_randomly(system, 0.5, random_seed=which)
      model.extra = [[float(x) for x in row] for row in system.data.extra_unary_costs]
  return system, model


def not_above(bound, optimum, message, **context):
  require(not math.isnan(bound), "the bound is not a number", **context)
  if optimum < INF:
    require(bound <= optimum + TOL * max(1.0, abs(optimum)), message,
            bound=bound, optimum=optimum, **context)


def not_below(new, old, message, **context):
  if old == -INF:
    return
  if old == INF:
    require(new == INF, message, new=new, old=old, **context)
  else:
    require(new >= old - TOL * max(1.0, abs(old)), message, new=new, old=old, **context)


def run_steps(case):
  """Single averaging steps in any order."""
  system, model = prepare(case)
  systems.check_invariant(system, model)
  if not model.keys:
    return []
  optimum = model.optimum()
  last = model.dual_bound(system)
  not_above(last, optimum, "the initial bound exceeds the optimum")
  start = last
  for var in case["order"]:
    var = var % len(model.keys)
    bound = float(solver.min_marginal_average(system.data, var))
    not_above(bound, optimum, "the bound exceeds the true optimum", variable=var)
    not_below(bound, last, "the bound decreased", variable=var)
    require_close(bound, model.dual_bound(system), "the bound is not that of the penalties",
                  variable=var)
    systems.check_invariant(system, model)
    # All subproblems that use the variable agree, in proportion to their weights.
    users = [d for d, keys in enumerate(model.keys_of) if model.keys[var] in keys]
    rows = [model.sub_marginals(system, d, var) for d in users]
    weight = sum(model.weights[d] for d in users)
    for v in range(len(model.values)):
      total = sum(r[v] for r in rows)
      for d, r in zip(users, rows):
        require_close(r[v], total * model.weights[d] / weight if total < INF else INF,
                      "the subproblems do not agree in proportion to their weights",
                      variable=var, value=v)
    got = [float(x) for x in solver.system_min_marginals(system.data, var)]
    want = model.system_marginals(system, var)
    for a, b in zip(got, want):
      require_close(a, b, "wrong combined min-marginals", variable=var)
    last = bound
  labels = [f"dags={len(case['specs'])}"]
  labels.append("feasible" if optimum < INF else "infeasible")
  if optimum < INF and len(model.keys) >= 2 and len(case["specs"]) >= 2 and last > start + TOL:
    labels.append("nontrivial")
  return labels


def run_sweeps(case):
  system, model = prepare(case)
  optimum = model.optimum()
  timeout = INF if case["timeout"] == "inf" else case["timeout"]
  wall = time.perf_counter()
  result = solver.solve_system_with_sweeps(
      system.data, soft_timeout=timeout, tolerance=case["tolerance"])
  wall = time.perf_counter() - wall
  steps = [float(x) for x in result.objective_at_step]
  variables = [int(x) for x in result.variable_at_step]
  sweeps = [float(x) for x in result.objective_at_sweep]
  counts = [int(x) for x in result.steps_at_sweep]
  times = [float(x) for x in result.time_at_sweep]
  require(len(sweeps) == len(counts) == len(times) >= 1, "inconsistent sweep records")
  require_equal(len(steps), len(variables), "inconsistent step records")
  require_equal(counts[-1], len(steps), "steps are missing")
  require_equal(counts, sorted(counts), "step counts decrease")
  require_equal(times, sorted(times), "times decrease")
  require(0 <= times[0] and times[-1] <= wall, "impossible times", times=times, wall=wall)
  for value, count in zip(sweeps, counts):
    want = steps[count - 1] if count else -INF
    require(value == want, "a sweep's bound is not that of its last step", value=value, want=want)
  last = -INF
  for bound, var in zip(steps, variables):
    require(0 <= var < len(model.keys), "no such variable")
    not_above(bound, optimum, "the bound exceeds the true optimum")
    not_below(bound, last, "the bound decreased")
    last = bound
  if steps:
    require_close(steps[-1], model.dual_bound(system), "the last bound is not that of the penalties")
  systems.check_invariant(system, model)
  systems.check_tables_answer(system, model)
  # Stopping.
  require(all(t <= timeout for t in times[:-1]), "went on after the timeout", times=times)
  if not result.reached_plateau:
    require(times[-1] > timeout, "stopped without a plateau or a timeout", times=times)
  else:
    start = counts[-2] if len(counts) > 1 else 0
    before = steps[start - 1] if start else -INF
    for bound in steps[start:]:
      require(not bound - before > case["tolerance"], "plateau reported while still improving",
              bound=bound, before=before)
      before = bound
  if timeout == INF:
    require(bool(result.reached_plateau), "stopped without a plateau")
    if len(model.keys) >= 2:
      require_equal(set(variables), set(range(len(model.keys))), "variables were skipped")
  if timeout <= 0:
    require_equal(len(times), 1, "more than one sweep after an immediate timeout")
  labels = ["plateau" if result.reached_plateau else "timeout"]
  if optimum < INF and len(steps) >= 4 and len(case["specs"]) >= 2:
    if steps[-1] > steps[0] + TOL:
      labels.append("nontrivial")
    if abs(steps[-1] - optimum) < 1e-4:
      labels.append("tight")
  return labels


def _base(large=False):
  edit = st.one_of(
      st.tuples(st.just("constrain"), st.integers(0, 5), st.integers(0, 2),
                st.sampled_from([1.0, 2.5, 0.25, "inf"])),
      st.tuples(st.just("noise"), st.integers(0, 5), st.just(0), st.just(0))).map(list)
  return dict(
      specs=systems.large_specs_strategy() if large else systems.specs_strategy(),
      compiled=st.booleans(),
      ordering=st.sampled_from([[0, 1, 2], [2, 0, 1]]),
      weights=systems.weights_strategy(),
      edits=st.lists(edit, max_size=2))


def steps_strategy(large=False):
  return st.fixed_dictionaries(dict(
      _base(large), order=gen_code.sized(st.integers(0, 5), 10, 1)))


def sweeps_strategy(large=False):
  return st.fixed_dictionaries(dict(
      _base(large), timeout=st.sampled_from(["inf", "inf", "inf", 0.0, -1.0, 0.0005, 0.002]),
      tolerance=st.sampled_from([1e-5, 1e-3, 0.1])))


CHECK = Check(
    property="P18",
    targets=[
        Target("steps", steps_strategy, run_steps, quick=9000, thorough=100000,
               rule="a feasible system of at least two DAGs and two variables whose bound improved"),
        Target("sweeps", sweeps_strategy, run_sweeps, quick=9000, thorough=100000,
               rule="a feasible system of at least two DAGs whose bound improved over the sweeps"),
        Target("large_steps", lambda: steps_strategy(True), run_steps, quick=800, thorough=10000,
               rule="as in steps; four to six DAGs over up to six variables"),
        Target("large_sweeps", lambda: sweeps_strategy(True), run_sweeps, quick=800,
               thorough=10000, rule="as in sweeps; four to six DAGs over up to six variables"),
    ],
    assumptions=[
        "costs are finite or plus infinity; comparisons allow a relative error of 1e-6",
        "numba is not installable here: compiled mode runs the numba overloads as Python",
    ],
)
