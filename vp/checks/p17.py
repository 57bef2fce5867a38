"""P17: shortest-path costs and min-marginals stay exact under any history."""

import math

from hypothesis import strategies as st
import numba
import numpy as np

from vp import gen_code
from vp import packed_ref
from vp.harness import Check, Discard, Target, require, require_close, require_equal
from r_u_sure.decision_diagrams import packed_dags

Strategy = packed_dags.MinimalCostComputationStrategy


def close(actual, expected, message, **context):
  """Costs are doubles: an error of single precision is an error."""
  require_close(actual, expected, message, tol=1e-9, **context)


PENALTIES = [0.0, 0.0, 1.0, -1.5, 0.25, 3.0, "inf", -2.0, -1000.0, 65536.0]


def _penalty(p):
  return math.inf if p == "inf" else float(p)


@numba.njit
def _jit_minimal_cost(memo, strategy):
  return packed_dags.compute_minimal_cost(memo, strategy)


class Model:
  """Paths plus the current penalties."""

  def __init__(self, paths, data, n_values):
    self.rows = [
        (c, [data.variable_value_index_from_value[a[k]] for k in data.variable_keys])
        for c, a, _ in paths]
    self.penalties = [[0.0] * n_values for _ in data.variable_keys]
    self.n_values = n_values

  def copy(self):
    other = object.__new__(Model)
    other.rows, other.n_values = self.rows, self.n_values
    other.penalties = [list(p) for p in self.penalties]
    return other

  def cost(self, row):
    c, a = row
    return c + sum(self.penalties[i][v] for i, v in enumerate(a))

  def minimum(self):
    return min(self.cost(r) for r in self.rows)

  def best_of(self, row):
    return min((self.cost(r) for r in self.rows if r[1] == row), default=None)

  def marginals(self, var):
    out = [math.inf] * self.n_values
    for row in self.rows:
      out[row[1][var]] = min(out[row[1][var]], self.cost(row))
    return out


class LargeModel:
  """The same for graphs with too many paths to list."""

  def __init__(self, spec, data, n_values):
    self.spec, self.data, self.n_values = spec, data, n_values
    self.penalties = [[0.0] * n_values for _ in data.variable_keys]

  def copy(self):
    other = LargeModel(self.spec, self.data, self.n_values)
    other.penalties = [list(p) for p in self.penalties]
    return other

  def _best(self, penalties):
    return packed_ref.cheapest(self.spec, {
        k: dict(zip(self.data.variable_values, row))
        for k, row in zip(self.data.variable_keys, penalties)})

  def minimum(self):
    return self._best(self.penalties)

  def best_of(self, row):
    best = self._best([[p if v == want else math.inf for v, p in enumerate(line)]
                       for line, want in zip(self.penalties, row)])
    return None if best == math.inf else best

  def marginals(self, var):
    out = []
    for v in range(self.n_values):
      penalties = [list(p) for p in self.penalties]
      penalties[var] = [p if i == v else math.inf for i, p in enumerate(penalties[var])]
      out.append(self._best(penalties))
    return out


def check_vector(actual, expected, message):
  require_equal(len(actual), len(expected), message)
  for i, (a, b) in enumerate(zip(actual, expected)):
    close(float(a), b, message, value=i, all=[float(x) for x in actual], want=expected)


def run(case):
  spec = case["spec"]
  paths = None
  if not case.get("large"):
    paths = packed_ref.paths_of(spec)
    if len(paths) > 300:
      raise Discard
  packed, data = packed_ref.convert(spec, case["compiled"], ordering=case["ordering"])
  n_vars, n_values = packed.num_variable_keys, packed.num_variable_values
  before = packed.packed_edge_matrix.copy()
  model = (LargeModel(spec, data, n_values) if paths is None
           else Model(paths, data, n_values))
  memos = [(packed_dags.empty_unpenalized_table(packed), model)]
  labels = set()
  sets = 0
  for op in case["ops"]:
    name = op[0]
    memo, model = memos[op[1] % len(memos)]
    if name == "set":
      if n_vars == 0:
        continue
      var = op[2] % n_vars
      new = [_penalty(op[3][j % len(op[3])]) for j in range(n_values)]
      packed_dags.set_penalties(memo, var, np.array(new))
      model.penalties[var] = new
      sets += 1
    elif name == "marginals":
      if n_vars == 0:
        continue
      var = op[2] % n_vars
      check_vector(packed_dags.compute_min_marginals_for_variable(memo, var),
                   model.marginals(var), f"wrong min-marginals of variable {var}")
      if sets:
        labels.add("marginals-after-set")
    elif name == "all":
      got = packed_dags.compute_all_min_marginals(memo)
      require_equal(got.shape, (n_vars, n_values), "wrong shape")
      for var in range(n_vars):
        check_vector(got[var], model.marginals(var), f"wrong min-marginals of variable {var}")
    elif name == "cost":
      strategy = [Strategy.AT_END, Strategy.AT_START, Strategy.FROM_MIDDLE][op[2] % 3]
      close(float(_jit_minimal_cost(memo, strategy)), model.minimum(),
                    f"wrong minimal cost ({strategy.name})")
      labels.add(strategy.name)
    elif name == "default_cost":
      close(float(packed_dags.compute_minimal_cost(memo)), model.minimum(),
                    "wrong minimal cost")
    elif name == "prefixes":
      packed_dags.update_prefixes_up_to(memo, op[2] % (n_vars + 1) - 1)
      check_prefixes(memo, packed, model)
    elif name == "suffixes":
      packed_dags.update_suffixes_up_to(memo, op[2] % (n_vars + 1) - 1)
      check_suffixes(memo, packed, model)
    elif name == "valid":
      packed_dags.make_fully_valid(memo)
      check_prefixes(memo, packed, model, True)
      check_suffixes(memo, packed, model, True)
    elif name == "copy":
      memos.append((packed_dags.copy_memo(memo), model.copy()))
      labels.add("copy")
    elif name == "restart":
      memos.append((packed_dags.empty_table(packed, memo.penalties), model.copy()))
    elif name == "extract":
      if model.minimum() < math.inf:
        _, assignments = packed_dags.extract_minimal_cost_path_and_assignments(memo, data)
        row = [data.variable_value_index_from_value[assignments[k]] for k in data.variable_keys]
        best = model.best_of(row)
        require(best is not None, "extracted assignments belong to no path")
        close(best, model.minimum(), "extracted assignments are not optimal")
  for memo, model in memos:
    require_equal([[float(x) for x in row] for row in memo.penalties], model.penalties,
                  "penalties changed on their own")
  require((packed.packed_edge_matrix == before).all(), "the DAG was modified")
  labels = sorted(labels)
  if sets >= 2 and n_vars >= 2 and "marginals-after-set" in labels:
    labels.append("nontrivial")
  return labels


def _edge_cost(packed, model, e):
  key = int(e["required_assignment_key_index"])
  penalty = 0.0 if key == -1 else model.penalties[key][int(e["required_assignment_value_index"])]
  return float(e["cost"]) + penalty


def check_prefixes(memo, packed, model, complete=False):
  """Every cost that is not masked as unknown is the exact cheapest prefix."""
  want = [math.inf] * packed.num_tagged_states
  want[0] = 0.0
  changed = True
  while changed:  # Bellman-Ford; independent of the order of the edges
    changed = False
    for e in packed.packed_edge_matrix:
      new = want[int(e["source_index"])] + _edge_cost(packed, model, e)
      if new < want[int(e["dest_index"])]:
        want[int(e["dest_index"])] = new
        changed = True
  _check_masked(packed_dags.masked_prefixes(memo), want, complete, "prefix")


def check_suffixes(memo, packed, model, complete=False):
  want = [math.inf] * packed.num_tagged_states
  want[-1] = 0.0
  changed = True
  while changed:
    changed = False
    for e in packed.packed_edge_matrix:
      new = want[int(e["dest_index"])] + _edge_cost(packed, model, e)
      if new < want[int(e["source_index"])]:
        want[int(e["source_index"])] = new
        changed = True
  _check_masked(packed_dags.masked_suffixes(memo), want, complete, "suffix")


def _check_masked(got, want, complete, what):
  for i, (a, b) in enumerate(zip(got, want)):
    a = float(a)
    if math.isnan(a):
      require(not complete, f"{what} cost unknown after a full update", state=i)
    else:
      close(a, b, f"wrong {what} cost", state=i)


def strategy(large=False):
  which = st.integers(0, 3)
  var = st.integers(0, 18)
  op = st.one_of(
      st.tuples(st.just("set"), which, var,
                st.lists(st.sampled_from(PENALTIES), min_size=3, max_size=3)),
      st.tuples(st.just("set"), which, var,
                st.lists(st.sampled_from(PENALTIES[:6]), min_size=3, max_size=7)),
      st.tuples(st.just("marginals"), which, var),
      st.tuples(st.just("marginals"), which, var),
      st.tuples(st.just("all"), which),
      st.tuples(st.just("cost"), which, st.integers(0, 2)),
      st.tuples(st.just("cost"), which, st.integers(0, 2)),
      st.tuples(st.just("default_cost"), which),
      st.tuples(st.just("prefixes"), which, var),
      st.tuples(st.just("suffixes"), which, var),
      st.tuples(st.just("valid"), which),
      st.tuples(st.just("copy"), which),
      st.tuples(st.just("restart"), which),
      st.tuples(st.just("extract"), which),
  ).map(list)
  return st.fixed_dictionaries({
      "spec": (packed_ref.dag_spec(scales=packed_ref.WIDE, max_keys=16, max_states=24, max_edges=80, min_keys=6, min_edges=35) if large
               else packed_ref.dag_spec(scales=packed_ref.WIDE, max_edges=11)),
      "large": st.just(large),
      "compiled": st.booleans(),
      "ordering": st.sampled_from([None, None, [9, 2, 0, 6, 1, 7, 3, 4]]),
      "ops": gen_code.sized(op, 24 if large else 16, 5),
  })


CHECK = Check(
    property="P17",
    targets=[
        Target("history", strategy, run, quick=16000, thorough=120000,
               rule="at least two variables, two penalty changes and a query after one"),
        Target("large", lambda: strategy(True), run, quick=1200, thorough=10000,
               rule="as in history; up to 16 variables and 80 edges"),
    ],
    assumptions=[
        "penalties are finite or plus infinity",
        "numba is not installable here: compiled mode runs the numba overloads as Python",
    ],
)
