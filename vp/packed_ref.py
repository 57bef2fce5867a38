"""Generators and brute-force references for DAGs with shared variables."""

from hypothesis import strategies as st
import numba

from vp import dags
from vp import gen_code
from r_u_sure.decision_diagrams import gated_state_dag as gsd
from r_u_sure.decision_diagrams import packed_dags

MISSING = 0
# Sorted; used as tuples.
KEYS = [[0, 3], [2, 2], [2, 11], [10, 0], [10, 5], [12, 1], [12, 9], [12, 10], [13, 0], [20, 7],
        [21, 0], [21, 1], [30, 0], [101, 3], [101, 20], [102, 1], [103, 0], [1000, 5]]
COSTS = [0, 1, -2, 3, 2, 0.5, -1, 4, 0.25]
WIDE = ("plain", "plain", "plain", "plain", "fine", "decimal", "huge")


@st.composite
def dag_spec(draw, max_keys=4, values=None, max_states=7, max_edges=14, min_keys=0,
             min_edges=4, scales=("plain", "plain", "plain", "fine", "decimal")):
  """A pruned DAG whose paths assign variables at most once and in order."""
  scale = draw(st.sampled_from(scales))
  if values is None:
    values = draw(st.sampled_from([(0, 1, 2)] * 4 + [(0, 1, 2, 3, 4, 6, 9)]))
  n = draw(st.sampled_from([max(2, max_states - i) for i in (0, 0, 1, 1, 2, 2, 3, 4, 5)]))
  k = draw(st.sampled_from([max(min_keys, max_keys - i) for i in (0, 0, 0, 1, 1, 2, 3, 9)]))
  raw = draw(gen_code.sized(
      st.tuples(st.integers(0, 99), st.sampled_from([1, 1, 2, 1, 3, 2, 4]), st.sampled_from(COSTS),
                st.sampled_from([0, 1, 1, 2, 0, 1, 3]), st.sampled_from(list(values))),
      max_edges, min(min_edges, max_edges)))
  edges = []
  for a, step, cost, jump, value in raw:
    a = a % (n - 1)
    edges.append([a, min(n - 1, a + step), cost, jump, value])
  # A backbone so that there is always a path.
  stops = sorted({0, n - 1} | set(draw(st.lists(st.integers(0, n - 1), max_size=3))))
  for a, b in zip(stops, stops[1:]):
    edges.append([a, b, draw(st.sampled_from(COSTS)), draw(st.sampled_from([0, 1, 1, 2])),
                  draw(st.sampled_from(list(values)))])
  edges.sort(key=lambda e: e[0])
  largest = {0: -1}
  out = []
  for i, (a, b, cost, jump, value) in enumerate(edges):
    if a not in largest:
      continue  # not reachable from the start
    key = largest[a] + jump  # jump 0: no assignment
    if jump == 0 or key >= k:
      assignment, now = None, largest[a]
    else:
      assignment, now = [KEYS[key], value], key
    largest[b] = max(largest.get(b, -1), now)
    if scale == "fine":  # costs that differ by very little
      cost += (i * 5 % 7) * 1e-4
    elif scale == "decimal":  # costs that have no exact representation
      cost += (i * 4 % 9) * 0.1 + 0.01
    elif scale == "huge":
      cost *= 1e10
    out.append([a, b, cost, assignment, i])
  if draw(st.booleans()):
    out.sort(key=lambda e: e[1])
  spec = {"initial": 0, "final": n - 1, "edges": out}
  return dict(spec, edges=dags.pruned_edges(spec))


def keys_of(spec):
  return sorted({dags.freeze(e[3][0]) for e in spec["edges"] if e[3]})


def values_of(spec, missing=MISSING):
  return sorted({e[3][1] for e in spec["edges"] if e[3]} | {missing})


def paths_of(spec, missing=MISSING):
  """[(cost, {key: value for every key}, edge indices)]"""
  keys = keys_of(spec)
  out = []
  for path in dags.enumerate_paths(spec):
    assignment = {k: missing for k in keys}
    cost = 0.0
    for i in path:
      edge = spec["edges"][i]
      cost += dags.cost_of(edge[2])
      if edge[3]:
        assignment[dags.freeze(edge[3][0])] = edge[3][1]
    out.append((cost, assignment, path))
  return out


def cheapest(spec, penalties, missing=MISSING):
  """Cheapest path by dynamic programming over (state, last variable assigned).

  Args:
    spec: The DAG.
    penalties: {key: {value: cost}}, added once for every variable's final value.
    missing: Value of variables that a path does not assign.

  Returns:
    The cost of the cheapest path including penalties.
  """
  keys = keys_of(spec)
  position = {k: i for i, k in enumerate(keys)}

  def skipped(a, b):
    return sum(penalties[k][missing] for k in keys[a:b])

  best = {(dags.freeze(spec["initial"]), 0): 0.0}  # number of variables decided so far
  order = {}
  for e in spec["edges"]:
    order.setdefault(dags.freeze(e[0]), []).append(e)
  for state in sorted(order):  # states are numbered in topological order
    for (at, decided), cost in [x for x in best.items() if x[0][0] == state]:
      for _, dest, step, assignment, _ in order[state]:
        new, now = cost + dags.cost_of(step), decided
        if assignment:
          key = dags.freeze(assignment[0])
          new += skipped(decided, position[key]) + penalties[key][assignment[1]]
          now = position[key] + 1
        where = (dags.freeze(dest), now)
        if new < best.get(where, float("inf")):
          best[where] = new
  final = dags.freeze(spec["final"])
  return min((cost + skipped(decided, len(keys))
              for (at, decided), cost in best.items() if at == final), default=float("inf"))


def count_paths(edges, initial, final):
  """Number of paths; edges are (source, dest) with edges into a state first."""
  count = {initial: 1}
  for a, b in edges:
    count[b] = count.get(b, 0) + count.get(a, 0)
  return count.get(final, 0)


_JIT = None


def convert(spec, compiled=False, missing=MISSING, ordering=None):
  global _JIT
  dag = dags.to_dag(spec)
  if not compiled:
    return packed_dags.convert_dag_to_packed(dag, missing, ordering)
  if _JIT is None:
    _JIT = packed_dags.make_specialized_fn__convert_dag_to_packed(
        example_state=0, example_variable_key=(0, 0), example_variable_value=0,
        example_info=0, with_numba=True)
  fn, cast = _JIT
  return fn(cast(dag), missing, None if ordering is None else numba.typed.List(ordering))
