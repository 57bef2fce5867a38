"""P01: parsing loses no text and the tree covers every token exactly once."""

from vp import gen_code
from vp import ref_parse
from vp.harness import Check, Target, require, require_equal
from r_u_sure.parsing.pseudo_parser import stack_parser


def _validate(root, n):
  """Every node's range is exactly divided among its children."""

  def visit(node, parent):
    require(node.parent is parent, "wrong parent link", node=str(node))
    require(0 <= node.lo <= node.hi <= n, "range out of bounds", node=str(node))
    if node.children:
      at = node.lo
      for child in node.children:
        require_equal(child.lo, at, "children leave a gap or overlap", node=str(node))
        at = child.hi
        visit(child, node)
      require_equal(at, node.hi, "children do not fill the range", node=str(node))
    else:
      size = node.hi - node.lo
      if node.annotation == "middle":
        require_equal(size, 0, "childless bracket contents must be empty", node=str(node))
      elif node.annotation == "root":
        require_equal(size, 0, "childless root must be empty", node=str(node))
      else:
        require_equal(size, 1, "a leaf holds exactly one token", node=str(node))

  require_equal((root.lo, root.hi), (0, n), "the root does not span all tokens")
  visit(root, None)


def run(case):
  language, code = case["language"], case["code"]
  root, tokens, types, raw, (n_pre, n_post) = (
      stack_parser.PseudoParser.parse_and_maybe_preprocess(
          language, code, case["spaces"]))
  require_equal("".join(raw), code, "raw token strings do not concatenate to the code")
  require(len(tokens) == len(types) == len(raw), "lists of different length",
          lengths=(len(tokens), len(types), len(raw)))
  _validate(root, len(tokens))
  leaf_tokens = []
  for node, _ in stack_parser.Node.depth_first_traversal(root):
    if not node.children:
      leaf_tokens.extend(range(node.lo, node.hi))
  require_equal(leaf_tokens, list(range(len(tokens))),
                "leaves do not enumerate the tokens in order")
  require_equal(root.text(raw), code, "the root's text is not the code")
  # Tokens that stand for code say what the code says; only added tokens differ.
  for i, (t, r) in enumerate(zip(tokens, raw)):
    require(r in ("", t), "a raw token disagrees with the token", index=i, token=t, raw=r)
  # Added tokens: a prefix of openers, a suffix of closers.  Indent markers (and,
  # for Python, the implied final newline) are the only other empty raw tokens.
  non_marker = [
      (t, r) for t, k, r in zip(tokens, types, raw)
      if k not in (stack_parser.TokenType.PYTHON_INDENT,
                   stack_parser.TokenType.PYTHON_DEDENT)
  ]
  body = non_marker[n_pre:len(non_marker) - n_post]
  for t, r in non_marker[:n_pre]:
    require(r == "" and t in "([{", "bad prepended token", token=t, raw=r)
  for t, r in non_marker[len(non_marker) - n_post:]:
    require(r == "" and t in (")", "]", "}", "\n"), "bad appended token", token=t, raw=r)
  if language == "python" and not code.endswith("\n"):
    require(body and body[-1] == ("\n", ""), "missing implied final newline", body=body)
    body = body[:-1]
  require(all(r == t and r for t, r in body), "a token of the code has no text", body=body)
  require_equal("".join(t for t, _ in body), code, "tokens do not spell the code")
  labels = [language]
  if n_pre:
    labels.append("prepended")
  if n_post:
    labels.append("appended")
  if not code:
    labels.append("empty")
  if len(body) >= 3 and len(root.children) >= 1:
    labels.append("nontrivial")
  return labels


def strategy():
  return gen_code.case(
      ("simple", "cpp", "java", "javascript", "python", "python_preprocessor"))


CHECK = Check(
    property="P01",
    targets=[
        Target("lossless", strategy, run, quick=20000, thorough=200000,
               rule="the code has at least three tokens"),
    ],
    assumptions=["nesting is bounded by the generated size (the parser is recursive)"],
)
