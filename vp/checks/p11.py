"""P11: dropping the shared context from a parsed suggestion."""

from hypothesis import strategies as st

from vp import gen_code
from vp import nodes
from vp.harness import Check, Target, require, require_equal
from r_u_sure.tree_structure import transforms
from r_u_sure.wrappers import parser_tools


def ref_truncate(spec, offset):
  """Positions of text leaves decide everything; no traversal state."""
  if offset == 0:
    return spec  # nothing lies before the cut
  leaves = []  # (path, start, end)

  def collect(items, path, at):
    for k, item in enumerate(items):
      if item[0] == "group":
        at = collect(item[1], path + (k,), at)
      elif item[0] in ("tok", "dec"):
        leaves.append((path + (k,), at, at + len(item[1])))
        at += len(item[1])
    return at

  collect(spec, (), 0)
  cut = next(((p, s, e) for p, s, e in leaves if e >= offset), None)
  if cut is None:
    return []
  cut_path, start, end = cut

  def keep(items, path):
    out = []
    for k, item in enumerate(items):
      here = path + (k,)
      prefix = cut_path[:len(here)]
      if here < prefix:
        continue  # lies before the cut
      if here == cut_path:
        if offset < end:
          out.append([item[0], item[1][offset - start:]] + item[2:])
      elif item[0] == "group" and here == prefix:
        out.append(["group", keep(item[1], here), item[2]])
      else:
        out.append(item)
    return out

  return keep(spec, ())


def run(case):
  spec = case["spec"]
  text = nodes.text_of(spec)
  offset = case["offset"] % (len(text) + 3)
  original = nodes.to_nodes(spec)
  actual = nodes.to_spec(transforms.truncate_prefix_at_offset(original, offset))
  require_equal(nodes.text_of(actual), text[offset:], "wrong remaining text", offset=offset)
  require_equal(actual, ref_truncate(spec, offset), "wrong remaining nodes", offset=offset)
  require_equal(nodes.to_spec(original), spec, "the input was modified")
  labels = []
  if 0 < offset < len(text):
    labels.append("inside")
    if nodes.depth(spec) >= 2:
      labels.append("nontrivial")
  return labels


def run_code(case):
  """Parse, add decision points, drop the context: what is left is the completion."""
  code = case["code"]
  offset = case["offset"] % (len(code) + 1)
  tree = parser_tools.ParserHelper(case["language"], flatten=False).parse_to_nodes(code)
  tree = transforms.insert_early_exit(tree)
  tree = transforms.insert_region_options_around_subsequences(
      tree, node_filter=parser_tools.allow_regions_around_pseudoparse_node)
  spec = nodes.to_spec(tree)
  actual = nodes.to_spec(transforms.truncate_prefix_at_offset(tree, offset))
  require_equal(nodes.text_of(actual), code[offset:], "wrong remaining text", offset=offset)
  require_equal(actual, ref_truncate(spec, offset), "wrong remaining nodes", offset=offset)
  # Two cuts in a row are one cut.
  if offset >= 1:
    first = transforms.truncate_prefix_at_offset(tree, offset - 1)
    second = nodes.to_spec(transforms.truncate_prefix_at_offset(first, 1))
    require_equal(nodes.text_of(second), code[offset:], "two cuts differ from one")
  return [case["language"]] + (["nontrivial"] if 0 < offset < len(code) else [])


def strategy():
  return st.fixed_dictionaries({
      "spec": nodes.spec_strategy(texts=("a", "bb", "ccc", "", "dddd", "\n"), large=True),
      "offset": st.integers(0, 250)})


def code_strategy():
  return st.tuples(gen_code.case(), st.integers(0, 1000)).map(
      lambda t: dict(t[0], offset=t[1]))


CHECK = Check(
    property="P11",
    targets=[
        Target("nodes", strategy, run, quick=16000, thorough=200000,
               rule="the offset falls strictly inside the text of a nested sequence"),
        Target("code", code_strategy, run_code, quick=8000, thorough=80000,
               rule="the offset falls strictly inside the code"),
    ],
    assumptions=[],
)
