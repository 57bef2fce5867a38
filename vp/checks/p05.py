"""P05: statements are grouped by their terminators."""

from hypothesis import strategies as st

from vp import gen_code
from vp import ref_parse
from vp.harness import Check, Target, require, require_equal
from r_u_sure.parsing.pseudo_parser import stack_parser


def run_tree(case):
  language, code = case["language"], case["code"]
  root = stack_parser.PseudoParser.parse_and_maybe_preprocess(
      language, code, case["spaces"])[0]
  ref = ref_parse.parse(language, code, case["spaces"])
  actual = ref_parse.tree_of(root)
  require_equal(actual, ref.tree, "wrong statement groups", tokens=ref.symbols)
  n = repr(actual).count("'split'")
  labels = [language]
  if "'split'" in repr(actual) and "'paired'" in repr(actual):
    labels.append("groups-and-pairs")
  if n >= 2:
    labels.append("nontrivial")
  return labels


def tokens_strategy():
  return st.fixed_dictionaries({
      "tokens": gen_code.sized(st.sampled_from(
          ["(", ")", "[", "]", "{", "}", ";", ",", "I", "D", "x", ";"]), 24),
      "splitters": st.lists(st.sampled_from([";", ",", "x"]), max_size=2, unique=True),
      "fixed": st.lists(st.sampled_from([["(", ")"], ["[", "]"], ["{", "}"]]),
                        max_size=3, unique_by=lambda p: p[0]),
      "nest": st.sampled_from([None, None, ["I", "D"], ["{", "}"]]),
  })


def _blocks_follow_each_other(tree, is_block):
  """Whether a group has two blocks, or two groups in a row have one."""
  counts = [sum(1 for c in g[3] if is_block(c)) if g[0] == "split" else 0 for g in tree[3]]
  if any(n > 1 for n in counts) or any(a and b for a, b in zip(counts, counts[1:])):
    return True
  return any(_blocks_follow_each_other(c, is_block) for c in tree[3])


def run_split(case):
  """split_parse on arbitrary trees, splitters and protected pairs."""
  pairs = [("(", ")"), ("[", "]"), ("{", "}"), ("I", "D")]
  tokens = list(case["tokens"])
  pre, post, = stack_parser.error_correcting_prefix_and_suffix(tokens, pairs)
  tokens = pre + tokens + post
  root = stack_parser.stack_based_bracket_match(tokens, pairs, error_tolerant=True)
  before = ref_parse.tree_of(root)
  fixed = [tuple(p) for p in case["fixed"]]
  splitters = list(case["splitters"])
  openers = {a for a, _ in fixed}
  nest = case.get("nest")
  is_block = nest and (lambda node: node[0] == "paired" and tokens[node[1]] == nest[0])
  grouped = lambda block: before if not splitters else ref_parse.split(
      before, lambda i: tokens[i] in splitters, lambda node: tokens[node[1]] in openers, block)
  if nest and _blocks_follow_each_other(grouped(None), is_block):
    nest = is_block = None  # which block goes under which is not documented
  extra = (tuple(nest),) if nest else ()
  actual = stack_parser.split_parse(root, tokens, splitters, fixed, *extra)
  require(stack_parser.valid_parse_ranges(actual, len(tokens)), "not a valid tree")
  actual = ref_parse.tree_of(actual)
  require_equal(ref_parse.tree_of(root), before, "the input tree was modified")
  expected = grouped(is_block)
  require_equal(actual, expected, "wrong groups", tokens=tokens)
  labels = ["nested"] if nest and expected != grouped(None) else []
  if repr(expected).count("'split'") >= 2 and "'paired'" in repr(expected):
    labels.append("nontrivial")
  return labels


CHECK = Check(
    property="P05",
    targets=[
        Target("tree", gen_code.case, run_tree, quick=20000, thorough=200000,
               rule="at least two statement groups"),
        Target("split", tokens_strategy, run_split, quick=16000, thorough=120000,
               rule="at least two groups and a bracket pair"),
    ],
    assumptions=[],
)
