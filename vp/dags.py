"""Plain-data descriptions of gated DAGs (test-side only).

A DAG spec: {"initial": s, "final": s, "edges": [[src, dst, cost, assignment, info]]},
with assignment None or [key, value]; states are ints or strings; cost may be "inf".
"""

import math

import numba

from r_u_sure.decision_diagrams import gated_state_dag as gsd


def cost_of(c):
  return math.inf if c == "inf" else float(c)


def freeze(x):
  return tuple(freeze(i) for i in x) if isinstance(x, list) else x


def to_edge(e):
  src, dst, cost, assignment, info = e
  return gsd.Edge(
      freeze(src), freeze(dst), cost_of(cost),
      None if assignment is None
      else gsd.SharedVariableAssignment(freeze(assignment[0]), freeze(assignment[1])),
      freeze(info))


def to_dag(spec, typed=False):
  edges = [to_edge(e) for e in spec["edges"]]
  if typed:
    edges = numba.typed.List(edges)
  return gsd.CompleteStateDAG(freeze(spec["initial"]), edges, freeze(spec["final"]))


def on_path(spec):
  """States on some finite path from the initial to the final state (graph search)."""
  succ, pred = {}, {}
  for src, dst, cost, _, _ in spec["edges"]:
    if cost_of(cost) < math.inf:
      succ.setdefault(freeze(src), []).append(freeze(dst))
      pred.setdefault(freeze(dst), []).append(freeze(src))

  def search(start, graph):
    seen, todo = {start}, [start]
    while todo:
      for n in graph.get(todo.pop(), []):
        if n not in seen:
          seen.add(n)
          todo.append(n)
    return seen

  return search(freeze(spec["initial"]), succ) & search(freeze(spec["final"]), pred)


def pruned_edges(spec):
  keep = on_path(spec)
  return [e for e in spec["edges"]
          if cost_of(e[2]) < math.inf and freeze(e[0]) in keep and freeze(e[1]) in keep]


def enumerate_paths(spec, limit=5000):
  """All finite paths as lists of edge indices into spec["edges"]."""
  out = {}
  for i, e in enumerate(spec["edges"]):
    if cost_of(e[2]) < math.inf:
      out.setdefault(freeze(e[0]), []).append(i)
  final = freeze(spec["final"])
  paths = []

  def go(state, path):
    if len(paths) >= limit:
      raise OverflowError
    if state == final:
      paths.append(list(path))
      return
    for i in out.get(state, []):
      path.append(i)
      go(freeze(spec["edges"][i][1]), path)
      path.pop()

  go(freeze(spec["initial"]), [])
  return paths
