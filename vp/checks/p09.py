"""P09: the subtokeniser is lossless and splits by the documented rules."""

import re

from hypothesis import strategies as st

from vp import gen_code
from vp.harness import Check, Target, require, require_equal
from r_u_sure.parsing import sequence_from_pseudo_parse
from r_u_sure.parsing import subtokenizer
from r_u_sure.tree_structure import sequence_nodes as sn

_PIECES = re.compile(
    r"b{1,20}|t{1,20}|w|S+|N+|U+(?!L)|UL+|L+", re.DOTALL)


def _char_class(c):
  if c.isupper():
    return "U"
  if c.islower():
    return "L"
  if c.isdigit():
    return "N"
  if c == " ":
    return "b"
  if c == "\t":
    return "t"
  if c.isspace():
    return "w"
  return "S"


def ref_subtokens(code):
  classes = "".join(_char_class(c) for c in code)
  return [code[m.start():m.end()] for m in _PIECES.finditer(classes)]


def run(case):
  code = case["code"]
  actual = subtokenizer.code_to_tokens_simple_lossless(code)
  require_equal("".join(actual), code, "subtokens do not concatenate to the input")
  require(all(actual), "an empty subtoken was emitted", actual=actual)
  require_equal(actual, ref_subtokens(code), "wrong split points")
  as_nodes = sequence_from_pseudo_parse.subtokenize_token(code)
  require_equal(as_nodes, [sn.TextTokenNode(t, "subtoken") for t in actual], "wrong nodes")
  labels = []
  if any(len(t) == 20 and t.isspace() for t in actual):
    labels.append("long-run")
  if re.search("UUL", "".join(_char_class(c) for c in code)):
    labels.append("camel")
  if len(actual) >= 3:
    labels.append("nontrivial")
  return labels


def strategy():
  piece = st.one_of(
      st.sampled_from(["A", "B", "a", "b", "1", "2", " ", " ", "\t", "\n", "_", "-", "(",
                       "\r", "\x0b", "\xa0", "é", "É", "ß", "中", "²", "٣", "ǅ", "😀"]),
      st.sampled_from(["AB", "Abc", "ABc", "aB", "a1", "__", "--", "  ", "\t\t", " \t",
                       " " * 18, " " * 20, " " * 21, " " * 41, "\t" * 20, "\t" * 25, "\n\n"]),
      st.text(max_size=2),
  )
  return gen_code.sized(piece, 14).map("".join).map(lambda c: {"code": c})


CHECK = Check(
    property="P09",
    targets=[
        Target("subtokens", strategy, run, quick=20000, thorough=400000,
               rule="at least three subtokens"),
    ],
    assumptions=["character classes are those of Python's str predicates"],
)
