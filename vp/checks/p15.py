"""P15: building, pruning and renumbering decision DAGs."""

import contextlib

from hypothesis import strategies as st
import numba
import numpy as np

from vp import dags
from vp import gen_code
from vp.harness import Check, Target, expect_raises, require, require_equal
from r_u_sure.decision_diagrams import gated_state_dag as gsd


def _edge_list(edges):
  return [dags.to_edge(e) for e in edges]


def check_prune(spec):
  given = dags.to_dag(spec)
  want_states = dags.on_path(spec)
  require_equal(gsd.compute_reachable_states(given), want_states, "wrong reachable states")
  seen = []
  for e in given.edges:
    for s in (e.source, e.dest):
      if s not in seen:
        seen.append(s)
  require_equal(gsd.extract_state_list(given), seen, "wrong state list")
  want = _edge_list(dags.pruned_edges(spec))
  for name, fn, typed in (("interpreted", gsd.prune_to_reachable, False),
                          ("compiled", gsd.prune_to_reachable_jit, True)):
    dag = dags.to_dag(spec, typed)
    result = fn(dag)
    require_equal(list(result.edges), want, f"wrong pruned edges ({name})")
    require_equal((result.initial_state, result.final_state),
                  (given.initial_state, given.final_state), f"ends changed ({name})")
    require_equal(list(dag.edges), _edge_list(spec["edges"]), "the input was modified")
  return want_states, want


def run_rewrite(case):
  """A history of DAGs renumbered with one scratch table."""
  scratch = np.full((case["scratch"],), case["dirt"], dtype=np.int32)
  labels = []
  for spec in case["dags"]:
    states, want = check_prune(spec)
    dag = dags.to_dag(spec, typed=True)
    if not states:
      with expect_raises(ValueError, "a DAG without any path was accepted"):
        gsd.prune_unreachable_and_rewrite_states(dag, scratch)
      labels.append("no-path")
      continue
    result = gsd.prune_unreachable_and_rewrite_states(dag, scratch)
    require_equal(len(result.edges), len(want), "wrong number of edges",
                  got=list(result.edges), want=want)
    forward = {dag.initial_state: int(result.initial_state)}

    def same(old, new):
      new = int(new)
      require_equal(forward.setdefault(old, new), new, "a state got two numbers", state=old)

    same(dag.final_state, result.final_state)
    for got, edge in zip(result.edges, want):
      same(edge.source, got.source)
      same(edge.dest, got.dest)
      require_equal((got.cost, got.required_assignment, got.info),
                    (edge.cost, edge.required_assignment, edge.info), "edge contents changed")
    require_equal(set(forward), states, "wrong set of states")
    require_equal(sorted(forward.values()), list(range(len(states))),
                  "numbers are not consecutive and distinct")
    require_equal(list(dag.edges), _edge_list(spec["edges"]), "the input was modified")
    if len(want) >= 3 and len(want) < len(spec["edges"]):
      labels.append("nontrivial")
    if len(states) > case["scratch"]:
      labels.append("collisions")
  return sorted(set(labels))


def run_build(case):
  """A history of edge additions: edges into a state must precede edges out of it."""
  dag = gsd.partial_state_dag_starting_from(dags.freeze(case["initial"]))
  accepted = []
  outgoing = set()
  rejected = 0
  for edge_spec, trace in case["adds"]:
    edge = dags.to_edge(edge_spec)
    context = gsd.adding_edge_tracebacks() if trace else contextlib.nullcontext()
    with context:
      if edge.dest in outgoing:
        rejected += 1
        with expect_raises(ValueError, f"out-of-order edge {edge} accepted"):
          gsd.partial_state_dag_add_edge(dag, edge)
        continue
      gsd.partial_state_dag_add_edge(dag, edge)
    outgoing.add(edge.source)
    accepted.append((edge, trace))
  final = dags.freeze(case["final"])
  done = gsd.partial_state_dag_finish(dag, final)
  require_equal((done.initial_state, done.final_state), (dags.freeze(case["initial"]), final),
                "wrong ends")
  require_equal(len(done.edges), len(accepted), "wrong number of edges")
  for got, (edge, trace) in zip(done.edges, accepted):
    if not trace:
      require_equal(got, edge, "edge changed")
    else:
      require(got.info is not None and "traceback" in got.info, "no traceback recorded")
    require_equal(gsd.strip_traceback_from_edge(got), edge, "stripping does not restore the edge")
  # Adding edges while compiled keeps them all, in order.
  typed = gsd.PartialStateDAG(dags.freeze(case["initial"]), numba.typed.List(), numba.typed.Dict())
  _add_all(typed, numba.typed.List([e for e, _ in accepted]))
  require_equal(list(typed.edges), [e for e, _ in accepted], "compiled mode lost edges")
  return ["nontrivial"] if rejected and len(accepted) >= 2 else []


@numba.njit
def _add_all(dag, edges):
  for edge in edges:
    gsd.partial_state_dag_add_edge(dag, edge)


LABELS = st.one_of(
    st.lists(st.integers(-12, 40), min_size=9, max_size=9, unique=True),
    st.lists(st.sampled_from([["a", i] for i in range(5)] + [["b", i] for i in range(5)]),
             min_size=9, max_size=9, unique_by=str),
    st.just([0, 7, 14, 21, 28, 1, 8, 15, 22]),
)


def dag_strategy(large=False):
  top = 39 if large else 8
  edge = st.tuples(
      st.integers(0, top), st.integers(0, top),
      st.sampled_from([0, 1, -2, 3, 2, "inf", "inf"]),
      st.sampled_from([None, None, ["k", 0], ["k", 1], ["m", 1]]), st.integers(0, 99))

  @st.composite
  def build(draw):
    n = draw(st.integers(20, 40) if large else st.integers(2, 9))
    labels = draw(st.sampled_from([[(7 * i) % 41 for i in range(40)],
                                   [["s", i // 6, i % 6] for i in range(40)]])
                  if large else LABELS)
    edges = []
    for a, b, cost, assignment, info in draw(gen_code.sized(edge, *((120, 50) if large else (20,)))):
      a, b = a % n, b % n
      if a == b:
        continue
      edges.append([min(a, b), max(a, b), cost, assignment, info])
    order = draw(st.sampled_from(["source", "dest"]))
    edges.sort(key=lambda e: e[0] if order == "source" else e[1])
    initial = draw(st.sampled_from([0, 0, 0, 0, 1]))
    final = draw(st.sampled_from([n - 1, n - 1, n - 1, n - 2, 0]))
    return {
        "initial": labels[initial], "final": labels[final],
        "edges": [[labels[a], labels[b], c, g, i] for a, b, c, g, i in edges],
    }

  return build()


def rewrite_strategy(large=False):
  return st.fixed_dictionaries({
      "scratch": st.sampled_from([1, 2, 3, 5, 7, 8, 64, 1000]),
      "dirt": st.sampled_from([-1, 0, 3]),
      "dags": st.lists(dag_strategy(large), min_size=1, max_size=3),
  })


def build_strategy():
  state = st.integers(0, 6)
  info = st.sampled_from([None, 3, "x", ["t", 1]])
  edge = st.tuples(state, state, st.integers(0, 3), st.just(None), info).filter(
      lambda e: e[0] != e[1]).map(list)
  up = edge.map(lambda e: [min(e[:2]), max(e[:2])] + e[2:])
  return st.fixed_dictionaries({
      "initial": state, "final": state,
      "adds": gen_code.sized(st.tuples(st.one_of(edge, up), st.booleans()).map(list), 12),
  })


CHECK = Check(
    property="P15",
    targets=[
        Target("rewrite", rewrite_strategy, run_rewrite, quick=12000, thorough=150000,
               rule="pruning removes edges and keeps at least three"),
        Target("large", lambda: rewrite_strategy(True), run_rewrite, quick=800, thorough=10000,
               rule="as in rewrite; up to 40 states and 120 edges"),
        Target("build", build_strategy, run_build, quick=10000, thorough=80000,
               rule="at least two edges accepted and one rejected"),
    ],
    assumptions=[
        "edges are listed so that edges into a state precede edges out of it",
        "numba is not installable here: compiled mode runs the numba overloads as Python",
    ],
)
