"""Shared helpers for checks of the high-level wrappers (test-side only)."""

import html
import math
import re

from hypothesis import strategies as st
import numpy as np

from vp import corpus
from vp import nodes
from vp import region_ref as ref
from vp.checks import p10
from vp.checks import p11
from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.wrappers import parser_tools
from r_u_sure.wrappers import prefix_truncation_wrapper
from r_u_sure.wrappers import uncertainty_regions_wrapper

INF = math.inf
_CACHE = {}


def blocked(item):
  return item[2] in ("MATCH_LEFT", "MATCH_INNER", "MATCH_RIGHT") or (
      item[0] == "tok" and item[1] == "\n")


# Precision, start cost and sensitivity of a task created without any of them.
DEFAULTS = {"regions": (0.7, 5.0, 0.5), "prefix": (0.7, 0.0, 0.5), "both": (0.7, 0.0, 0.5)}


def wrapper(mode, precision, start_cost, sensitivity, compiled):
  """mode: "regions", "prefix" or "both"; precision None leaves all parameters out."""
  key = (mode, precision, start_cost, sensitivity, compiled)
  if key not in _CACHE:
    # Compiled wrappers hold a large table each: keep one.
    if compiled:
      for other in [k for k in _CACHE if k[-1]]:
        del _CACHE[other]
    if precision is None and mode == "regions":
      made = uncertainty_regions_wrapper.UncertaintyRegionsWrapper(use_numba=compiled)
    elif precision is None:
      made = prefix_truncation_wrapper.PrefixByEditDistanceWrapper(
          use_numba=compiled, **({"also_insert_uncertainty_regions": True} if mode == "both" else {}))
    elif mode == "regions":
      made = uncertainty_regions_wrapper.UncertaintyRegionsWrapper(
          effective_precision=precision, high_confidence_start_inserting_cost=start_cost,
          low_confidence_edit_sensitivity=sensitivity, use_numba=compiled)
    else:
      made = prefix_truncation_wrapper.PrefixByEditDistanceWrapper(
          start_editing_cost=start_cost, also_insert_uncertainty_regions=mode == "both",
          uncertainty_region_effective_precision=precision,
          low_confidence_edit_sensitivity=sensitivity, use_numba=compiled)
    _CACHE[key] = made
  return _CACHE[key]


def parse(language, text):
  return parser_tools.ParserHelper(language, flatten=False).parse_to_nodes(text)


def expected_prototype(tree_spec, mode, location):
  spec = tree_spec
  if mode in ("regions", "both"):
    spec = p10.ref_subsequences(spec, True, lambda i: not blocked(i))
  if mode in ("prefix", "both"):
    spec = p10.ref_exits(spec, True, True)
  return p11.ref_truncate(spec, location)


def unpacked(packed):
  return nodes.to_spec(psn.unpack(packed))


def params_of(precision, start_cost, sensitivity, mode="regions"):
  """The documented parameters: equations solved for, not copied from the code."""
  if precision is None:
    precision, start_cost, sensitivity = DEFAULTS[mode]
  p, s = precision, sensitivity
  # match + delete = 2 s;  p * match - (1 - p) * delete = p - (1 - p)
  low_delete = p * 2 * s - (2 * p - 1)
  low_match = 2 * s - low_delete
  low_start = s * start_cost
  region = (1 - p) * (start_cost - low_start)
  return ref.Params([1.0, 1.0, low_match, low_delete, 0.0, region, start_cost, low_start])


def cost_under(system, assignment):
  """(decisions, cost) of the best solution that agrees with the assignment."""
  clone = solver.clone_system(system)
  solver.constrain_system(clone, assignment, penalty=INF)
  vector, cost = solver.greedy_extract(clone.data, direction=solver.SweepDirection.FORWARD)
  return solver.assignments_from_assignment_vector(clone, vector), float(cost)


PIECES = {
    "python": ["x", "foo", "(", ")", ".", " ", "\n", "=", "12", "'s t'", ",", "[", "]", ":",
               "\n  ", "bar()", "if a:\n  b\n", "fooBar", "# c", "f(x)", "\n", " "],
    "cpp": ["x", "foo", "(", ")", ".", " ", "\n", "=", "12", "\"s t\"", ",", "{", "}", ";",
            "/*c*/", "bar();", "if(a){b;}", "fooBar", "// c", "f(x)", ";", " "],
    "raw_simple_tokens": ["x", "foo", " ", "\n", "(", "12", "fooBar", ".", "_", "  "],
}


def pieces_strategy(language, max_size, sizes=None):
  piece = st.sampled_from(PIECES[language])
  sizes = sizes or [3, 2, 4, max_size, max_size - 1, 1, 0, 5, 4]
  return st.sampled_from(sizes).flatmap(lambda n: st.lists(piece, min_size=n, max_size=n))


def mutate_pieces(pieces, ops):
  out = list(pieces)
  for op, position, piece in ops:
    if op == "add":
      out.insert(position % (len(out) + 1), piece)
    elif out:
      i = position % len(out)
      if op == "drop":
        del out[i]
      elif op == "set":
        out[i] = piece
      elif op == "cut":
        del out[i:]
  return out


def suggestion_case(languages, max_size=7, max_targets=3, extra=None, sizes=None, counts=None):
  def build(language):
    piece = st.sampled_from(PIECES[language])
    op = st.tuples(st.sampled_from(["set", "drop", "add", "cut"]), st.integers(0, 9), piece).map(list)
    fields = {
        "language": st.just(language),
        "context": pieces_strategy(language, 5),
        "trim": st.sampled_from([0, 0, 0, 1, 2]),
        "pieces": pieces_strategy(language, max_size, sizes),
        "targets": st.sampled_from(counts or [1, 2, max_targets]).flatmap(
            lambda n: st.lists(st.lists(op, max_size=3), min_size=n, max_size=n)),
    }
    fields.update(extra or {})
    return st.fixed_dictionaries(fields)

  return st.sampled_from(list(languages)).flatmap(build)


def realistic_case(languages, max_chars=48, max_targets=2, extra=None, max_lines=9,
                   max_context=300):
  """Contexts, suggestions and samples cut out of ordinary programs."""

  def build(language):
    lines = corpus.lines(language)
    # Names whose being built in depends on the Python version.
    lines = [re.sub(r"\b(open|exit|match|case|help|aiter|anext)\b", r"\1er", l) for l in lines]
    piece = st.sampled_from(PIECES[language])
    op = st.tuples(st.sampled_from(["set", "drop", "add", "cut"]), st.integers(0, 30), piece).map(list)

    def cut(t):
      start, count, at, size, grain, targets = t
      code = "".join(lines[start:start + count])
      at %= len(code)
      rest = code[at:at + size]
      return {"language": language, "context": [code[:at]],
              "pieces": [rest[i:i + grain] for i in range(0, len(rest), grain)],
              "targets": targets, "trim": 0}

    base = st.tuples(
        st.integers(0, len(lines) - 1), st.integers(1, max_lines), st.integers(0, max_context),
        st.integers(4, max_chars), st.sampled_from([3, 5, 8]),
        st.sampled_from([1, 2, max_targets]).flatmap(
            lambda n: st.lists(st.lists(op, max_size=3), min_size=n, max_size=n))).map(cut)
    return st.tuples(base, st.fixed_dictionaries(extra or {})).map(lambda t: {**t[0], **t[1]})

  return st.sampled_from(list(languages)).flatmap(build)


def texts_of(case):
  context = "".join(case["context"])
  context = context[:max(0, len(context) - case.get("trim", 0))]
  prototype = "".join(case["pieces"])
  targets = ["".join(mutate_pieces(case["pieces"], ops)) for ops in case["targets"]]
  return context, prototype, targets


def strip_tags(text):
  from vp.checks.p23 import spans_of
  return spans_of(text)
