"""Systems of several DAGs over shared variables, and a brute-force model of them."""

import itertools
import math

from hypothesis import strategies as st
import numpy as np

from vp import packed_ref
from vp.harness import Discard, require, require_close, require_equal
from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver
from r_u_sure.decision_diagrams import packed_dags

INF = math.inf
VALUES = [0, 1, 2]


def specs_strategy(max_dags=3, max_keys=4):
  spec = packed_ref.dag_spec(values=tuple(VALUES), max_keys=max_keys, max_states=6, max_edges=11, min_keys=1)
  loose = packed_ref.dag_spec(values=tuple(VALUES), max_keys=max_keys, max_states=6, max_edges=11)
  return st.sampled_from([max_dags] * 3 + [2, 2, 1]).flatmap(
      lambda n: st.lists(spec if n > 1 else loose, min_size=n, max_size=n))


def large_specs_strategy():
  """More graphs over more variables."""
  spec = packed_ref.dag_spec(values=tuple(VALUES), max_keys=6, max_states=8, max_edges=20, min_keys=2, min_edges=10)
  return st.sampled_from([4, 5, 6]).flatmap(lambda n: st.lists(spec, min_size=n, max_size=n))


def weights_strategy():
  return st.one_of(
      st.none(), st.lists(st.sampled_from([1.0, 0.25, 3.0, 10.0, 0.5, 1e-4]), min_size=6, max_size=6))


def build(case):
  weights = case.get("weights")
  converted = [
      packed_ref.convert(spec, case["compiled"], ordering=case["ordering"])
      for spec in case["specs"]]
  if weights is None:
    return solver.make_system(converted), converted
  return solver.make_system(
      converted, np.array(weights[:len(converted)], np.float64)), converted


def penalties_of(system):
  """The penalties of a system, or of a list of penalty arrays standing in for one."""
  if isinstance(system, list):
    return system
  return [t.penalties for t in system.data.dag_tables]


class Model:
  """All joint assignments with their true costs, and the extra unary costs."""

  def __init__(self, specs, ordering, weights=None):
    self.values = list(ordering)
    self.weights = [1.0] * len(specs) if weights is None else list(weights[:len(specs)])
    self.keys_of = [packed_ref.keys_of(s) for s in specs]
    self.keys = sorted({k for keys in self.keys_of for k in keys})
    self.costs = []
    for spec, keys in zip(specs, self.keys_of):
      table = {}
      paths = packed_ref.paths_of(spec)
      if len(paths) > 300:
        raise Discard
      for cost, assignment, _ in paths:
        row = tuple(self.values.index(assignment[k]) for k in keys)
        table[row] = min(table.get(row, INF), cost)
      self.costs.append(table)
    self.extra = [[0.0] * len(self.values) for _ in self.keys]
    self.position = [[self.keys.index(k) for k in keys] for keys in self.keys_of]
    self.joint = {}
    for row in itertools.product(range(len(self.values)), repeat=len(self.keys)):
      cost = self.base_cost(row)
      if cost < INF:
        self.joint[row] = cost

  def copy(self):
    other = object.__new__(Model)
    other.__dict__.update(self.__dict__)
    other.extra = [list(x) for x in self.extra]
    return other

  def base_cost(self, row):
    return sum(t.get(tuple(row[p] for p in pos), INF)
               for t, pos in zip(self.costs, self.position))

  def cost(self, row):
    row = tuple(int(v) for v in row)
    return self.joint.get(row, INF) + sum(self.extra[i][v] for i, v in enumerate(row))

  def optimum(self):
    return min((self.cost(r) for r in self.joint), default=INF)

  def allowed(self, var):
    """Values of a variable used by some consistent assignment of finite cost."""
    return {r[var] for r in self.joint if self.cost(r) < INF}

  # Subproblems with the penalties the solver has at the moment.
  def sub_min(self, system, d):
    penalties = penalties_of(system)[d]
    return min((c + sum(float(penalties[i, v]) for i, v in enumerate(row))
                for row, c in self.costs[d].items()))

  def sub_marginals(self, system, d, var):
    penalties = penalties_of(system)[d]
    local = self.keys_of[d].index(self.keys[var])
    out = [INF] * len(self.values)
    for row, c in self.costs[d].items():
      out[row[local]] = min(
          out[row[local]], c + sum(float(penalties[i, v]) for i, v in enumerate(row)))
    return out

  def dual_bound(self, system):
    return sum(self.sub_min(system, d) for d in range(len(self.costs)))

  def system_marginals(self, system, var):
    total = [0.0] * len(self.values)
    for d, keys in enumerate(self.keys_of):
      part = (self.sub_marginals(system, d, var) if self.keys[var] in keys
              else [self.sub_min(system, d)] * len(self.values))
      total = [a + b for a, b in zip(total, part)]
    return total


def check_invariant(system, model):
  """Penalties redistribute exactly the extra costs, and forbid only the impossible."""
  data = system.data
  extra = [[float(x) for x in row] for row in data.extra_unary_costs]
  for i, row in enumerate(model.extra):
    for v, want in enumerate(row):
      require_close(extra[i][v], want, "wrong extra cost", variable=i, value=v)
  for i, key in enumerate(model.keys):
    for v in range(len(model.values)):
      parts = [float(data.dag_tables[d].penalties[keys.index(key), v])
               for d, keys in enumerate(model.keys_of) if key in keys]
      require(not any(math.isnan(p) or p == -INF for p in parts), "invalid penalty",
              parts=parts, variable=i, value=v)
      if any(p == INF for p in parts):
        require(v not in model.allowed(i), "a possible assignment was forbidden",
                variable=i, value=v, parts=parts)
      else:
        require_close(sum(parts), model.extra[i][v], "penalties do not add up",
                      variable=i, value=v, parts=parts)


def snapshot(system):
  data = system.data
  return (
      [t.penalties.copy() for t in data.dag_tables],
      [t.dag.packed_edge_matrix.copy() for t in data.dag_tables],
      data.extra_unary_costs.copy(), data.dag_variable_index_map.copy(),
      data.dag_update_proportions.copy(), data.num_variable_keys, data.num_variable_values,
  )


def same_snapshot(a, b):
  return (all(np.array_equal(x, y) for x, y in zip(a[0], b[0]))
          and all((x == y).all() for x, y in zip(a[1], b[1]))
          and all(np.array_equal(x, y) for x, y in zip(a[2:5], b[2:5]))
          and a[5:] == b[5:])


def check_tables_answer(system, model):
  """Every subproblem still answers exactly for its current penalties."""
  for d in range(len(model.costs)):
    require_close(float(packed_dags.compute_minimal_cost(system.data.dag_tables[d])),
                  model.sub_min(system, d), "a subproblem reports a wrong minimal cost", dag=d)
