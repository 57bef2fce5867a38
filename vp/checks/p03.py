"""P03: bracket matching and minimal error correction."""

from hypothesis import strategies as st

from vp import gen_code
from vp import ref_parse
from vp.harness import Check, Target, expect_raises, require, require_equal
from r_u_sure.parsing.pseudo_parser import stack_parser


def _pairs(root):
  return ref_parse.pairs_of(ref_parse.tree_of(root))


def run_parse(case):
  language, code = case["language"], case["code"]
  root, tokens, types, _, (n_pre, n_post) = (
      stack_parser.PseudoParser.parse_and_maybe_preprocess(language, code, case["spaces"]))
  ref = ref_parse.parse(language, code, case["spaces"])
  require_equal((n_pre, n_post), (ref.n_pre, ref.n_post), "wrong correction counts")
  if language == "python":
    strip = lambda toks, kinds: [
        t for t, k in zip(toks, kinds) if k not in (ref_parse.INDENT, ref_parse.DEDENT)]
    names = [k.name for k in types]
    require_equal(strip(tokens, names), strip(ref.tokens, ref.types), "wrong corrected tokens")
    # Only brackets here; indentation blocks belong to P04.
    brackets = lambda toks, pairs, kinds: sorted(
        (len([k for k in kinds[:a] if k not in (ref_parse.INDENT, ref_parse.DEDENT)]),
         len([k for k in kinds[:b] if k not in (ref_parse.INDENT, ref_parse.DEDENT)]))
        for a, b in pairs.items() if toks[a] in ref_parse.OPEN)
    require_equal(brackets(tokens, _pairs(root), names),
                  brackets(ref.tokens, ref.pairs, ref.types), "wrong bracket pairs")
  else:
    require_equal(tokens, ref.tokens, "wrong corrected tokens")
    require_equal(_pairs(root), ref.pairs, "wrong bracket pairs")
  labels = [language]
  if ref.pairs and (n_pre or n_post):
    labels.append("nontrivial")
  return labels


PAIRS = [("(", ")"), ("[", "]"), ("{", "}"), ("<", ">"), (7, 8)]


def tokens_strategy():
  def build(k):
    pairs = PAIRS[:k] if k < 5 else PAIRS[2:]
    symbols = [s for p in pairs for s in p] * 2 + ["x", ";"]
    return st.fixed_dictionaries({
        "pairs": st.just([list(p) for p in pairs]),
        "tokens": st.lists(st.sampled_from(symbols), max_size=22),
    })

  return st.integers(1, 5).flatmap(build)


def _reference_correction(tokens, pairs):
  open_to_close = dict(pairs)
  close_to_open = {b: a for a, b in pairs}
  stack, prefix = [], []
  mismatch = False
  for t in tokens:
    if t in open_to_close:
      stack.append(t)
    elif t in close_to_open:
      if not stack:
        prefix.insert(0, close_to_open[t])
      elif stack[-1] == close_to_open[t]:
        stack.pop()
      else:
        mismatch = True
  return prefix, [open_to_close[t] for t in reversed(stack)], mismatch


def run_tokens(case):
  pairs = [tuple(p) for p in case["pairs"]]
  tokens = list(case["tokens"])
  before = list(tokens)
  prefix, suffix = stack_parser.error_correcting_prefix_and_suffix(tokens, pairs)
  want_prefix, want_suffix, mismatch = _reference_correction(tokens, pairs)
  require_equal((list(prefix), list(suffix)), (want_prefix, want_suffix), "wrong correction")
  fixed = list(prefix) + tokens + list(suffix)
  again = stack_parser.error_correcting_prefix_and_suffix(fixed, pairs)
  require_equal(tuple(map(list, again)), ([], []), "the corrected code needs correction")
  root = stack_parser.stack_based_bracket_match(fixed, pairs, error_tolerant=True)
  want_pairs = ref_parse.pair_up(fixed, dict(pairs))
  require_equal(ref_parse.tree_of(root), ref_parse.build(fixed, want_pairs), "wrong tree")
  require(stack_parser.valid_parse_ranges(root, len(fixed)), "tree reported as invalid")
  if mismatch:
    with expect_raises(stack_parser.ParseError, "mismatched closer accepted in strict mode"):
      stack_parser.stack_based_bracket_match(fixed, pairs)
  else:
    strict = stack_parser.stack_based_bracket_match(fixed, pairs)
    require_equal(ref_parse.tree_of(strict), ref_parse.tree_of(root), "strict mode differs")
  # Without any correction: strict mode takes exactly the balanced sequences,
  # tolerant mode keeps every unmatched closer as an ordinary token.
  if want_prefix or want_suffix or mismatch:
    with expect_raises(stack_parser.ParseError, "unbalanced tokens accepted in strict mode"):
      stack_parser.stack_based_bracket_match(tokens, pairs)
  if not want_suffix:
    loose = stack_parser.stack_based_bracket_match(tokens, pairs, error_tolerant=True)
    require_equal(ref_parse.tree_of(loose),
                  ref_parse.build(tokens, ref_parse.pair_up(tokens, dict(pairs))),
                  "wrong tree of the uncorrected tokens")
    require(stack_parser.valid_parse_ranges(loose, len(tokens)), "tree reported as invalid")
  require_equal(tokens, before, "the token list was modified")
  labels = []
  if mismatch:
    labels.append("mismatch")
  if prefix:
    labels.append("prefix")
  if suffix:
    labels.append("suffix")
  if want_pairs and (mismatch or prefix or suffix):
    labels.append("nontrivial")
  return labels


def _tiles(node, n):
  """The documented meaning of a valid tree over n tokens."""
  if (node.lo, node.hi) != (0, n):
    return False

  def visit(node):
    if not node.children:
      return True
    if any(x is None for c in node.children + [node] for x in (c.lo, c.hi)):
      return False
    at = node.lo
    for child in node.children:
      if child.lo != at or child.parent is not node:
        return False
      at = child.hi
    return at == node.hi and all(visit(c) for c in node.children)

  return visit(node)


def run_validity(case):
  """The tree checker accepts exactly the trees that cover their tokens."""
  pairs = [tuple(p) for p in case["pairs"]]
  tokens = list(case["tokens"])
  prefix, suffix = stack_parser.error_correcting_prefix_and_suffix(tokens, pairs)
  tokens = list(prefix) + tokens + list(suffix)
  root = stack_parser.stack_based_bracket_match(tokens, pairs, error_tolerant=True)
  every = []

  def visit(node):
    every.append(node)
    for child in node.children:
      visit(child)

  visit(root)
  n = len(tokens)
  for kind, where, amount in case["edits"]:
    node = every[where % len(every)]
    if kind == "n":
      n += amount
    elif kind == "parent" and node is not root:
      # (the root keeps none: chains of parents end there)
      node.parent = every[(where + amount) % len(every)]
    elif kind == "none":
      setattr(node, "lo" if amount > 0 else "hi", None)
    elif kind == "drop" and node.children:
      node.children.pop(amount % len(node.children))
    elif kind == "between":
      # the boundary between two neighbours, and all that share it, is unknown
      if len(node.children) >= 2:
        k = amount % (len(node.children) - 1)
        left, right = node.children[k], node.children[k + 1]
        while left is not None:
          left.hi = None
          left = left.children[-1] if left.children else None
        while right is not None:
          right.lo = None
          right = right.children[0] if right.children else None
    elif kind == "shift":
      for name in ("lo", "hi"):
        if getattr(node, name) is not None:
          setattr(node, name, getattr(node, name) + amount)
    elif kind in ("lo", "hi") and getattr(node, kind) is not None:
      setattr(node, kind, getattr(node, kind) + amount)
  expected = _tiles(root, n)
  require_equal(bool(stack_parser.valid_parse_ranges(root, n)), expected,
                "the tree checker is wrong", n=n)
  labels = [f"valid={expected}"]
  if case["edits"] and len(every) > 3:
    labels.append("nontrivial")
  return labels


def validity_strategy():
  edit = st.tuples(
      st.sampled_from(["n", "parent", "none", "between", "drop", "shift", "lo", "hi"]),
      st.integers(0, 40), st.sampled_from([-2, -1, 1, 1, 2]))
  return st.tuples(tokens_strategy(), st.lists(edit, max_size=2)).map(
      lambda t: dict(t[0], edits=[list(e) for e in t[1]]))


CHECK = Check(
    property="P03",
    targets=[
        Target("parse", gen_code.case, run_parse, quick=16000, thorough=150000,
               rule="at least one bracket pair and at least one correction"),
        Target("tokens", tokens_strategy, run_tokens, quick=20000, thorough=200000,
               rule="a matched pair together with a mismatch or a correction"),
        Target("validity", validity_strategy, run_validity, quick=8000, thorough=60000,
               rule="a damaged tree of more than three nodes"),
    ],
    assumptions=[],
)
