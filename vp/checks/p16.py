"""P16: packing a DAG preserves its paths, costs and assignments."""

import math

from hypothesis import strategies as st
import numpy as np

from vp import dags
from vp import gen_code
from vp import packed_ref
from vp.harness import (Check, Discard, Target, expect_raises, require, require_close,
                        require_equal)
from r_u_sure.decision_diagrams import packed_dags

INF = math.inf


def close(actual, expected, message, **context):
  """Costs are doubles: an error of single precision is an error."""
  require_close(actual, expected, message, tol=1e-9, **context)



def packed_paths(packed, limit=5000):
  """All paths through the packed edges, as lists of packed edge indices."""
  out = {}
  for i, e in enumerate(packed.packed_edge_matrix):
    out.setdefault(int(e["source_index"]), []).append(i)
  final = packed.num_tagged_states - 1
  paths = []

  def go(state, path):
    if len(paths) > limit:
      raise Discard
    if state == final:
      paths.append(list(path))
      return
    for i in out.get(state, []):
      path.append(i)
      go(int(packed.packed_edge_matrix[i]["dest_index"]), path)
      path.pop()

  go(0, [])
  return paths


def check_layout(packed, keys):
  """The documented grouping of edges and states."""
  m = packed.packed_edge_matrix
  n = len(keys)
  bounds = [int(b) for b in packed.edge_group_boundary_indices]
  require_equal(len(bounds), 2 * n + 2, "wrong number of edge groups")
  require_equal((bounds[0], bounds[-1]), (0, len(m)), "edge groups do not cover the edges")
  require_equal(bounds, sorted(bounds), "edge groups out of order")
  tags = [int(b) for b in packed.state_variable_boundary_indices]
  require_equal(len(tags), n + 2, "wrong number of state groups")
  require_equal((tags[0], tags[-1]), (0, packed.num_tagged_states),
                "state groups do not cover the states")
  require_equal(tags, sorted(tags), "state groups out of order")

  def tag(state):
    return next(i - 1 for i in range(n + 1) if tags[i] <= state < tags[i + 1])

  done = set()  # states with an outgoing edge already listed
  for i, e in enumerate(m):
    group = max(g for g in range(2 * n + 1) if bounds[g] <= i)
    src, dst, key = int(e["source_index"]), int(e["dest_index"]), int(
        e["required_assignment_key_index"])
    if group % 2:
      require_equal(key, group // 2, "edge in the wrong group", edge=i)
      require_equal((tag(src), tag(dst)), (key - 1, key), "edge between wrong states", edge=i)
      require(0 <= e["required_assignment_value_index"] < packed.num_variable_values,
              "value out of range")
    else:
      require_equal(key, -1, "assigning edge in a non-assigning group", edge=i)
      require_equal((tag(src), tag(dst)), (group // 2 - 1,) * 2, "edge between wrong states",
                    edge=i)
    done.add(src)
    require(dst not in done, "an edge into a state follows an edge out of it", edge=i)


def run_convert(case):
  spec, missing = case["spec"], case["missing"]
  keys = packed_ref.keys_of(spec)
  values = packed_ref.values_of(spec, missing)
  ordering = None
  if case["ordering"] is not None:
    ordering = sorted(set(values) | {7}, key=lambda v: (v * case["ordering"]) % 11)
  want = packed_ref.paths_of(spec, missing)
  if len(want) > 400:
    raise Discard
  by_edges = {tuple(p): (c, a) for c, a, p in want}
  for compiled in (False, True):
    packed, data = packed_ref.convert(spec, compiled, missing, ordering)
    require_equal(list(data.variable_keys), keys, "wrong variables")
    require_equal(list(data.variable_values), ordering if ordering is not None else values,
                  "wrong values")
    require_equal(dict(data.variable_key_index_from_key), {k: i for i, k in enumerate(keys)},
                  "wrong variable numbers")
    require_equal(dict(data.variable_value_index_from_value),
                  {v: i for i, v in enumerate(data.variable_values)}, "wrong value numbers")
    require_equal((packed.num_variable_keys, packed.num_variable_values,
                   packed.num_tagged_states),
                  (len(keys), len(data.variable_values), len(data.tagged_states)),
                  "wrong counts")
    require_equal(list(data.original_edges), list(dags.to_dag(spec).edges), "edges changed")
    check_layout(packed, keys)
    seen = set()
    for path in packed_paths(packed):
      assigned = []
      cost = 0.0
      original = []
      for i in path:
        e = packed.packed_edge_matrix[i]
        cost += float(e["cost"])
        if e["required_assignment_key_index"] != -1:
          assigned.append((keys[e["required_assignment_key_index"]],
                           data.variable_values[e["required_assignment_value_index"]]))
        info = data.tagged_edges[i].info
        if info != -1:
          original.append(info)
      require_equal([k for k, _ in assigned], keys, "a path does not assign every variable once")
      original = tuple(original)
      require(original in by_edges, "a path that does not exist", path=original)
      require(original not in seen, "a path was duplicated", path=original)
      seen.add(original)
      close(cost, by_edges[original][0], "wrong path cost")
      require_equal(dict(assigned), by_edges[original][1], "wrong path assignments")
    require_equal(len(seen), len(by_edges), "paths were lost")
    # Scaling multiplies every cost and leaves the original alone.
    scaled = packed_dags.scale_packed_dag_costs(packed, case["scale"])
    require_equal([float(c) for c in scaled.packed_edge_matrix["cost"]],
                  [float(c) * case["scale"] for c in packed.packed_edge_matrix["cost"]],
                  "wrong scaled costs")
    for field in ("source_index", "dest_index", "required_assignment_key_index",
                  "required_assignment_value_index"):
      require_equal(list(scaled.packed_edge_matrix[field]),
                    list(packed.packed_edge_matrix[field]), "scaling changed the structure")
    check_layout(scaled, keys)
    require_equal([float(data.tagged_edges[i].cost) for i in range(len(data.tagged_edges))],
                  [float(c) for c in packed.packed_edge_matrix["cost"]], "scaling changed its input")
    check_extraction(packed, data, spec, want, case, keys)
  labels = [f"vars={len(keys)}"]
  if len(keys) >= 2 and len(want) >= 3:
    labels.append("nontrivial")
  return labels


def check_extraction(packed, data, spec, want, case, keys):
  """Cheapest paths under constraints, and with penalties."""
  edges = list(dags.to_dag(spec).edges)
  _, example, _ = want[case["pick"] % len(want)]
  constraints = {k: v for j, (k, v) in enumerate(sorted(example.items()))
                 if case["mask"] >> j & 1}
  best = min(c for c, a, _ in want if all(a[k] == v for k, v in constraints.items()))
  path, assignments = packed_dags.constrained_best_path(packed, data, constraints)
  feasible = {tuple(p): (c, a) for c, a, p in want}
  infos = tuple(_index_of(edges, e) for e in path)
  require(infos in feasible, "the best path is not a path", path=path)
  close(feasible[infos][0], best, "the best path is not the cheapest")
  require_equal(assignments, feasible[infos][1], "wrong assignments of the best path")
  require(all(assignments[k] == v for k, v in constraints.items()), "constraint violated")
  # With penalties.
  penalties = np.array(
      [[((i * 5 + j * 3 + case["pick"]) % 7 - 2) / 4 for j in range(packed.num_variable_values)]
       for i in range(len(keys))]).reshape((len(keys), packed.num_variable_values))
  memo = packed_dags.empty_table(packed, penalties)

  def penalized(c, a):
    return c + sum(penalties[i, data.variable_value_index_from_value[a[k]]]
                   for i, k in enumerate(keys))

  best = min(penalized(c, a) for c, a, _ in want)
  for tagged in (False, True):
    path, assignments = packed_dags.extract_minimal_cost_path_and_assignments(
        memo, data, tagged=tagged)
    if tagged:
      infos = tuple(e.info for e in path if e.info != -1)
      require_equal([e.required_assignment.key for e in path if e.required_assignment is not None],
                    keys, "a tagged path does not assign every variable")
    else:
      infos = tuple(_index_of(edges, e) for e in path)
    require(infos in feasible, "the penalized best path is not a path")
    cost, assignment = feasible[infos]
    close(penalized(cost, assignment), best, "the penalized path is not the cheapest")
    require_equal(assignments, assignment, "wrong assignments with penalties")


def _index_of(edges, edge):
  return next(i for i, e in enumerate(edges) if e == edge)  # infos are unique


def run_reject(case):
  """Out-of-order or repeated assignments on some path are rejected."""
  spec = case["spec"]
  edges = []
  for j, e in enumerate(spec["edges"]):
    key = case["keys"][j % len(case["keys"])]
    edges.append(e[:3] + [None if key is None else [packed_ref.KEYS[key], 1]] + e[4:])
  spec = dict(spec, edges=edges)
  bad = False
  for path in dags.enumerate_paths(spec):
    keys = [tuple(edges[i][3][0]) for i in path if edges[i][3]]
    if any(b <= a for a, b in zip(keys, keys[1:])):
      bad = True
  for compiled in (False, True):
    if bad:
      with expect_raises((ValueError, RuntimeError) if compiled else ValueError,
                         "a DAG with out-of-order assignments was accepted"):
        packed_ref.convert(spec, compiled)
    else:
      packed_ref.convert(spec, compiled)
  return ["bad", "nontrivial"] if bad else ["good"]


def run_large(case):
  """Graphs with too many paths to list: counts, layout and cheapest paths."""
  spec, missing = case["spec"], case["missing"]
  keys = packed_ref.keys_of(spec)
  values = packed_ref.values_of(spec, missing)
  n_paths = packed_ref.count_paths(
      [(e[0], e[1]) for e in spec["edges"]], spec["initial"], spec["final"])
  edges = list(dags.to_dag(spec).edges)
  for compiled in (False, True):
    packed, data = packed_ref.convert(spec, compiled, missing)
    require_equal(list(data.variable_keys), keys, "wrong variables")
    require_equal(list(data.variable_values), values, "wrong values")
    check_layout(packed, keys)
    m = packed.packed_edge_matrix
    require_equal(packed_ref.count_paths(
        [(int(e["source_index"]), int(e["dest_index"])) for e in m], 0,
        packed.num_tagged_states - 1), n_paths, "paths were lost or duplicated")
    penalties = np.array(
        [[((i * 5 + j * 3 + case["pick"]) % 7 - 2) / 4 for j in range(len(values))]
         for i in range(len(keys))]).reshape((len(keys), len(values)))
    as_dict = {k: dict(zip(values, row)) for k, row in zip(keys, penalties)}
    free = packed_dags.extract_minimal_cost_path_and_assignments(
        packed_dags.empty_table(packed, penalties), data)
    best = packed_ref.cheapest(spec, as_dict, missing)
    check_path(spec, edges, keys, missing, free, as_dict, best)
    # Fix some variables to the values of another path, so that one exists.
    other = packed_dags.extract_minimal_cost_path_and_assignments(
        packed_dags.empty_table(packed, -penalties), data)[1]
    fixed = {k: v for j, (k, v) in enumerate(sorted(other.items())) if case["mask"] >> j & 1}
    as_dict = {k: {v: INF if k in fixed and fixed[k] != v else 0.0 for v in values} for k in keys}
    check_path(spec, edges, keys, missing, packed_dags.constrained_best_path(packed, data, fixed),
               as_dict, packed_ref.cheapest(spec, as_dict, missing))
  return ["nontrivial"] if len(keys) >= 6 and n_paths > 400 else []


def check_path(spec, edges, keys, missing, result, penalties, best):
  path, assignments = result
  state = spec["initial"]
  cost = 0.0
  want = {k: missing for k in keys}
  for e in path:
    require(e in edges, "the best path uses an edge that does not exist", edge=e)
    require_equal(e.source, state, "the best path is not connected")
    state = e.dest
    cost += e.cost
    if e.required_assignment is not None:
      want[e.required_assignment.key] = e.required_assignment.value
  require_equal(state, spec["final"], "the best path does not end at the end")
  require_equal(assignments, want, "wrong assignments of the best path")
  close(cost + sum(penalties[k][v] for k, v in want.items()), best,
                "the best path is not the cheapest")


def large_strategy():
  return st.fixed_dictionaries({
      "spec": packed_ref.dag_spec(scales=packed_ref.WIDE, max_keys=16, max_states=24, max_edges=80, min_keys=6, min_edges=35),
      "missing": st.sampled_from([0, 0, 5]),
      "pick": st.integers(0, 20),
      "mask": st.integers(0, 2 ** 16 - 1),
  })


def convert_strategy():
  return st.fixed_dictionaries({
      "spec": packed_ref.dag_spec(scales=packed_ref.WIDE),
      "missing": st.sampled_from([0, 0, 5]),
      "ordering": st.sampled_from([None, None, 3, 7]),
      "scale": st.sampled_from([0.5, 2.0, 1.0, 0.0, -1.0]),
      "pick": st.integers(0, 20),
      "mask": st.integers(0, 15),
  })


def reject_strategy():
  return st.fixed_dictionaries({
      "spec": packed_ref.dag_spec(scales=packed_ref.WIDE, max_keys=0, max_states=5, max_edges=7),
      "keys": gen_code.sized(st.sampled_from([None, None, 0, 1, 2]), 8, 3),
  })


CHECK = Check(
    property="P16",
    targets=[
        Target("convert", convert_strategy, run_convert, quick=9000, thorough=80000,
               rule="at least two variables and three paths"),
        Target("large", large_strategy, run_large, quick=1500, thorough=20000,
               rule="at least six variables and more than 400 paths"),
        Target("reject", reject_strategy, run_reject, quick=4000, thorough=40000,
               rule="some path assigns variables out of order or twice"),
    ],
    assumptions=[
        "DAGs are pruned, have at least one edge, and list edges into a state before edges out of it",
        "numba is not installable here: compiled mode runs the numba overloads as Python",
    ],
)
