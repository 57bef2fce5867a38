"""P08: node sequences built from parsed code keep text, kinds and structure."""

from hypothesis import strategies as st

from vp import gen_code
from vp import nodes
from vp import ref_parse
from vp.checks import p07
from vp.checks import p09
from vp.harness import Check, Target, expect_raises, require, require_equal
from r_u_sure.parsing import sequence_from_pseudo_parse
from r_u_sure.parsing.pseudo_parser import stack_parser
from r_u_sure.wrappers import parser_tools

NT = stack_parser.NodeType
_INNER = {"root": "ROOT", "paired": "MATCH", "left": "MATCH_LEFT", "right": "MATCH_RIGHT",
          "middle": "MATCH_INNER", "split": "SPLIT_GROUP"}


def _kind(ref, node):
  if node[0] != "sibling":
    return _INNER[node[0]]
  text = "".join(ref.raw[node[1]:node[2]])
  if not text:
    return "NON_CONTENT_LEAF"
  if text.isspace():
    return "WHITE_SPACE_LEAF"
  if ref.types[node[1]] == "STRING":
    return "STRING_LITERAL"
  return "CONTENT_LEAF"


def ref_nodes(ref, node, decoration, subtokenize):
  kind = _kind(ref, node)
  text = "".join(ref.raw[node[1]:node[2]])
  if kind in decoration:
    return ["dec", text]
  if kind in subtokenize:
    return ["group", [["tok", t, "subtoken"] for t in p09.ref_subtokens(text)], kind]
  if not node[3]:
    return ["tok", text, kind]
  return ["group", [ref_nodes(ref, c, decoration, subtokenize) for c in node[3]], kind]


def _flatten(spec):
  out = []
  for item in spec:
    if item[0] == "group":
      out.extend(_flatten(item[1]))
    else:
      out.append(item)
  return out


def run_helper(case):
  language, code = case["language"], case["code"]
  option = {} if case["flatten"] is None else {"flatten": case["flatten"]}
  actual = nodes.to_spec(
      parser_tools.ParserHelper(language, **option).parse_to_nodes(code))
  require_equal(nodes.text_of(actual), code, "text was not preserved")
  if language == "raw_simple_tokens":
    expected = [["tok", t, "subtoken"] for t in p09.ref_subtokens(code)]
  else:
    spaces = p07.ref_spaces_per_indent(code) if language == "python" else 1
    ref = ref_parse.parse(language, code, spaces)
    expected = [ref_nodes(ref, ref.tree, ("WHITE_SPACE_LEAF", "NON_CONTENT_LEAF"),
                          ("STRING_LITERAL",))]
    if case["flatten"]:
      expected = _flatten(expected)
  require_equal(actual, expected, "wrong nodes")
  labels = [language, f"flatten={case['flatten']}"]
  if "STRING_LITERAL" in repr(expected):
    labels.append("string")
  if nodes.size(actual) >= 5:
    labels.append("nontrivial")
  return labels


ALL_TYPES = ["WHITE_SPACE_LEAF", "NON_CONTENT_LEAF", "STRING_LITERAL", "CONTENT_LEAF",
             "MATCH", "MATCH_INNER", "MATCH_LEFT", "SPLIT_GROUP"]


def run_convert(case):
  """Arbitrary choices of decoration / subtokenised kinds."""
  language, code = case["language"], case["code"]
  root, tokens, types, raw, _ = stack_parser.PseudoParser.parse_and_maybe_preprocess(
      language, code, case["spaces"])
  ref = ref_parse.parse(language, code, case["spaces"])
  convert = sequence_from_pseudo_parse.pseudo_parse_node_to_nested_sequence_node
  if case["dec"] is None:
    actual = convert(root, raw, types)
    dec, sub = ("WHITE_SPACE_LEAF",), ("STRING_LITERAL",)
  else:
    dec, sub = case["dec"], case["sub"]
    actual = convert(root, raw, types, decoration_node_types={NT[k] for k in dec},
                     subtokenize_node_types={NT[k] for k in sub})
  actual = nodes.to_spec([actual])
  require_equal(actual, [ref_nodes(ref, ref.tree, dec, sub)], "wrong nodes")
  require_equal(nodes.text_of(actual), code, "text was not preserved")
  return [language] + (["nontrivial"] if nodes.size(actual) >= 5 else [])


def run_damaged(case):
  """A tree that no longer covers its text is refused, not silently shortened."""
  root, _, types, raw, _ = stack_parser.PseudoParser.parse_and_maybe_preprocess(
      case["language"], case["code"], case["spaces"])
  places = []

  def visit(node):
    if len(node.children) >= 2:
      places.extend((node, c) for c in node.children if c.hi > c.lo)
    for child in node.children:
      visit(child)

  visit(root)
  if not places:
    return []
  node, child = places[case["where"] % len(places)]
  if case["swap"]:
    # move the part to the other end of its group, past text that it is not part of
    rest = [c for c in node.children if c is not child]
    after = rest + [child] if child is not node.children[-1] else [child] + rest
    if not any(c.hi > c.lo for c in rest):
      return []
    if [c.lo for c in after] == sorted(c.lo for c in after):
      return []  # only empty parts were passed
    node.children = after
  else:
    node.children = [c for c in node.children if c is not child]
  with expect_raises(ValueError, "a tree that lost or moved part of its text was accepted"):
    sequence_from_pseudo_parse.pseudo_parse_node_to_nested_sequence_node(root, raw, types)
  return [case["language"], "nontrivial"]


def damaged_strategy():
  return st.tuples(gen_code.case(), st.integers(0, 200), st.booleans()).map(
      lambda t: dict(t[0], where=t[1], swap=t[2]))


def helper_strategy():
  raw = st.fixed_dictionaries({
      "language": st.just("raw_simple_tokens"), "code": gen_code.text("python"),
      "spaces": st.just(1)})
  return st.tuples(st.one_of(gen_code.case(), gen_code.case(), gen_code.case(), raw),
                   st.sampled_from([None, False, True])).map(
                       lambda t: dict(t[0], flatten=t[1]))


def convert_strategy():
  kinds = st.one_of(st.none(), st.lists(st.sampled_from(ALL_TYPES), max_size=3, unique=True))
  return st.tuples(gen_code.case(), kinds, kinds).map(
      lambda t: dict(t[0], dec=t[1], sub=t[2] or []))


CHECK = Check(
    property="P08",
    targets=[
        Target("helper", helper_strategy, run_helper, quick=14000, thorough=150000,
               rule="at least five nodes"),
        Target("convert", convert_strategy, run_convert, quick=10000, thorough=120000,
               rule="at least five nodes"),
        Target("damaged", damaged_strategy, run_damaged, quick=2500, thorough=20000,
               rule="a part was removed or moved"),
    ],
    assumptions=[],
)
