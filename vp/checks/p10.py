"""P10: structural transforms insert or remove exactly what they promise."""

import copy

from hypothesis import strategies as st

from vp import nodes
from vp.harness import Check, Target, require, require_equal
from r_u_sure.tree_structure import sequence_nodes as sn
from r_u_sure.tree_structure import transforms
from r_u_sure.wrappers import parser_tools


def ref_flatten(spec):
  out = []
  for item in spec:
    out.extend(ref_flatten(item[1]) if item[0] == "group" else [item])
  return out


def ref_strip(spec):
  out = []
  for item in spec:
    if item[0] == "group":
      out.append(["group", ref_strip(item[1]), item[2]])
    elif item[0] in ("tok", "dec"):
      out.append(item)
  return out


def ref_singleton(item):
  types = []
  while item[0] == "group" and len(item[1]) == 1 and item[1][0][0] in ("group", "tok"):
    types.append(item[2])
    item = item[1][0]
  if item[0] == "group":
    return ["group", [ref_singleton(c) for c in item[1]], tuple(types + [item[2]])]
  if item[0] == "tok":
    return ["tok", item[1], tuple(types + [item[2]])]
  return item


def ref_exits(spec, within, at_start):
  out = [["exit"]] if at_start else []
  for item in spec:
    if item[0] == "group" and within:
      item = ["group", ref_exits(item[1], True, False), item[2]]
    out.append(item)
    if item[0] in ("group", "tok"):
      out.append(["exit"])
  return out


def ref_subsequences(spec, empty, allowed):
  out = []
  for item in spec:
    if item[0] in ("tok", "group"):
      new = item
      if item[0] == "group":
        new = ["group", ref_subsequences(item[1], empty, allowed), item[2]]
      if allowed(item):
        out += [["start"]] + ([["end"]] if empty else []) + [new, ["end"]]
      else:
        out.append(new)
    else:
      out.append(item)
  if empty:
    out += [["start"], ["end"]]
  return out


def ref_single(spec):
  out = []
  for item in spec:
    if item[0] in ("tok", "group"):
      new = item if item[0] == "tok" else ["group", ref_single(item[1]), item[2]]
      out.append(["group", [["start"], new, ["end"]], "region_scope"])
    else:
      out.append(item)
  return out


def allowed(item, kind, blocked):
  """A few node filters, all of which only look at the node as the caller wrote it."""
  if kind == "type":
    return item[2] not in blocked
  if kind == "small":
    return item[0] != "group" or len(item[1]) <= 2
  if kind == "bare":
    return item[0] != "group" or all(c[0] in ("tok", "dec") for c in item[1])
  if kind == "group":
    return item[0] == "group"
  return item[0] == "group" or bool(item[1].strip())


def run(case):
  spec = case["spec"]
  original = nodes.to_nodes(spec)
  labels = []

  def apply(name, fn, expected):
    actual = nodes.to_spec(fn(original))
    require_equal(actual, expected, f"{name}: wrong result")
    require_equal(nodes.to_spec(original), spec, f"{name}: the input was modified")

  apply("flatten_groups", transforms.flatten_groups, ref_flatten(spec))
  apply("strip_decision_nodes", transforms.strip_decision_nodes, ref_strip(spec))
  apply("flatten_singleton_groups", transforms.flatten_singleton_groups,
        [ref_singleton(i) for i in spec])
  within, at_start = case["within"], case["at_start"]
  apply("insert_early_exit",
        lambda s: transforms.insert_early_exit(
            s, allowed_within_group=within, allowed_at_start=at_start),
        ref_exits(spec, within, at_start))
  kind, blocked = case["filter"], case["blocked"]
  ask = lambda item: allowed(item, kind, blocked)
  apply("insert_region_options_around_subsequences",
        lambda s: transforms.insert_region_options_around_subsequences(
            s, allow_empty_regions=case["empty"],
            node_filter=lambda n: ask(nodes.to_spec([n])[0])),
        ref_subsequences(spec, case["empty"], ask))
  apply("insert_region_options_around_single_nodes",
        transforms.insert_region_options_around_single_nodes, ref_single(spec))
  if nodes.size(spec) >= 4 and nodes.depth(spec) >= 2:
    labels.append("nontrivial")
  return labels


def run_defaults(case):
  """Default arguments, and stripping as the inverse of every insertion."""
  spec = case["spec"]
  original = nodes.to_nodes(spec)
  bare = ref_strip(spec)
  exits = transforms.insert_early_exit(original)
  require_equal(nodes.to_spec(exits), ref_exits(spec, True, True), "early exits by default")
  regions = transforms.insert_region_options_around_subsequences(exits)
  require_equal(nodes.to_spec(regions),
                ref_subsequences(ref_exits(spec, True, True), True, lambda i: True),
                "regions by default")
  require_equal(nodes.to_spec(transforms.strip_decision_nodes(regions)), bare,
                "stripping does not undo the insertions")
  require_equal(nodes.text_of(nodes.to_spec(transforms.flatten_groups(regions))),
                nodes.text_of(spec), "text changed")
  return ["nontrivial"] if nodes.size(spec) >= 4 else []


def run_filter(case):
  """Where regions may be placed in parsed code."""
  node = nodes.to_nodes([case["item"]])[0]
  item = case["item"]
  blocked = item[2] in ("MATCH_LEFT", "MATCH_INNER", "MATCH_RIGHT") or (
      item[0] == "tok" and item[1] == "\n")
  require_equal(bool(parser_tools.allow_regions_around_pseudoparse_node(node)), not blocked,
                "wrong answer for a node")
  return ["blocked" if blocked else "allowed", "nontrivial"]


def strategy():
  return st.fixed_dictionaries({
      "spec": nodes.spec_strategy(large=True),
      "within": st.booleans(), "at_start": st.booleans(), "empty": st.booleans(),
      "filter": st.sampled_from(["type", "type", "small", "bare", "group", "text"]),
      "blocked": st.lists(st.sampled_from(nodes.TYPES), max_size=2, unique=True),
  })


def filter_strategy():
  types = st.sampled_from([
      "ROOT", "MATCH", "MATCH_LEFT", "MATCH_RIGHT", "MATCH_INNER", "CONTENT_LEAF",
      "NON_CONTENT_LEAF", "WHITE_SPACE_LEAF", "SPLIT_GROUP", "STRING_LITERAL", "subtoken", None])
  tok = st.tuples(st.just("tok"), st.sampled_from(["\n", "", " ", "x", "\n\n", "\r\n", "("]), types)
  group = st.tuples(st.just("group"), st.sampled_from(
      [[], [["tok", "\n", None]], [["tok", "x", "subtoken"]]]), types)
  return st.one_of(tok, group).map(list).map(lambda i: {"item": i})


CHECK = Check(
    property="P10",
    targets=[
        Target("transforms", strategy, run, quick=12000, thorough=150000,
               rule="at least four nodes with at least one group"),
        Target("defaults", strategy, run_defaults, quick=4000, thorough=50000,
               rule="at least four nodes"),
        Target("filter", filter_strategy, run_filter, quick=600, thorough=2000,
               rule="every case"),
    ],
    assumptions=[],
)
