"""P06: truncation points chosen for a completion."""

from hypothesis import strategies as st

from vp import gen_code
from vp import ref_parse
from vp.checks import p07
from vp.harness import Check, Discard, Target, expect_raises, require, require_equal
from r_u_sure.parsing.pseudo_parser import stack_parser
from r_u_sure.parsing.pseudo_parser import utilities

T = stack_parser.TokenType


def _leaf_table(ref):
  """[(start offset, end offset, leaf, ancestors)] in order."""
  table = []
  at = 0
  for leaf, chain in ref_parse.leaves(ref.tree):
    size = sum(len(ref.raw[k]) for k in range(leaf[1], leaf[2]))
    table.append((at, at + size, leaf, chain))
    at += size
  return table


def ref_pair_index(ref, selected, cursor):
  table = _leaf_table(ref)
  total = table[-1][1] if table else 0
  if cursor == total:
    return total
  for start, _, leaf, chain in table:
    if start > cursor:
      break
  else:
    return None
  # Innermost selected pair whose contents hold that leaf.
  enclosing = None
  for outer, inner in zip(chain, chain[1:] + [leaf]):
    if inner[0] == "middle" and selected(outer):
      enclosing = outer
  if enclosing is None:
    return None
  closer_token = enclosing[2] - 1
  position = next(k for k, row in enumerate(table)
                  if row[2][0] == "right" and row[2][1] == closer_token)
  return table[min(position + 1, len(table) - 1)][1]


def ref_split_index(ref, splitters, cursor):
  table = _leaf_table(ref)
  total = table[-1][1] if table else 0
  if cursor == total:
    return total
  for start, end, leaf, chain in table:
    if start > cursor and chain and chain[-1][0] == "split":
      if chain[-1][3][-1] is leaf:
        if splitters is None or ref.raw[leaf[1]] in splitters:
          return end
  return total


def ref_fallbacks(code, cursor, language, spaces):
  if language == "python":
    if spaces is None:
      spaces = p07.ref_spaces_per_indent(code)
    ref = ref_parse.parse("python", code, spaces)
    index = ref_pair_index(
        ref, lambda node: ref.types[node[1]] == ref_parse.INDENT, cursor)
    splitters = ("\n",)
  else:
    ref = ref_parse.parse(language, code)
    index = ref_pair_index(
        ref, lambda node: ref.raw[node[1]] == "{" or ref.raw[node[2] - 1] == "}", cursor)
    splitters = (";",)
  if index is None:
    return ref_split_index(ref, splitters, cursor), "split"
  return index, "pair"


def run_fallbacks(case):
  language, code = case["language"], case["code"]
  cursor = case["cursor"] % (len(code) + 1)
  spaces = case["spaces"] if language == "python" and case["explicit"] else None
  actual = utilities.infer_truncation_with_fallbacks(code, cursor, language, spaces)
  expected, how = ref_fallbacks(code, cursor, language, spaces)
  require_equal(actual, expected, "wrong truncation index", cursor=cursor)
  require(cursor <= actual <= len(code), "truncation index outside the completion")
  labels = [language, how]
  if cursor < actual < len(code):
    labels.append("nontrivial")
  return labels


def run_direct(case):
  language, code = case["language"], case["code"]
  cursor = case["cursor"] % (len(code) + 1)
  root, _, types, raw, _ = stack_parser.PseudoParser.parse_and_maybe_preprocess(
      language, code, case["spaces"])
  ref = ref_parse.parse(language, code, case["spaces"])
  labels = [language]
  pair = case["pair"]
  if pair is None:
    actual = utilities.infer_match_pair_truncation_index(root, raw, types, None, cursor)
    expected = ref_pair_index(ref, lambda node: True, cursor)
  elif pair == "indent":
    actual = utilities.infer_match_pair_truncation_index(
        root, raw, types, (T.PYTHON_INDENT, T.PYTHON_DEDENT), cursor)
    expected = ref_pair_index(
        ref, lambda node: ref.types[node[1]] == ref_parse.INDENT, cursor)
  else:
    actual = utilities.infer_match_pair_truncation_index(root, raw, types, tuple(pair), cursor)
    expected = ref_pair_index(
        ref, lambda node: ref.raw[node[1]] == pair[0] or ref.raw[node[2] - 1] == pair[1],
        cursor)
  require_equal(actual, expected, "wrong end of enclosing group", cursor=cursor)
  if actual is not None and cursor < actual:
    labels.append("enclosed")
  splitters = None if case["splitters"] is None else tuple(case["splitters"])
  split = utilities.infer_split_truncation_index(root, raw, splitters, cursor)
  require_equal(split, ref_split_index(ref, splitters, cursor), "wrong end of statement",
                cursor=cursor)
  if actual is not None and cursor < actual < len(code) or cursor < split < len(code):
    labels.append("nontrivial")
  return labels


def run_docstring(case):
  code = case["before"] + case["quote"] + case["after"]
  cursor = len(case["before"]) + 3
  actual = utilities.infer_truncation_pydocstring(code, cursor)
  expected = None
  for i in range(cursor, len(code) - 2):
    if code[i:i + 3] == case["quote"]:
      expected = i + 3
      break
  require_equal(actual, expected, "wrong docstring end", code=code)
  return ["closed", "nontrivial"] if expected is not None else ["open"]


def with_cursor(extra):
  def strategy():
    d = dict(cursor=st.integers(0, 1000), **{k: v() for k, v in extra.items()})
    return st.tuples(gen_code.case(), st.fixed_dictionaries(d)).map(
        lambda t: dict(t[0], **t[1]))

  return strategy


def docstring_strategy():
  body = gen_code.sized(
      st.sampled_from(['"', "'", '"""', "'''", "x", "\n", " ", "\\", '""', "''"]), 10
  ).map("".join)
  return st.fixed_dictionaries({
      "before": st.sampled_from(["", "x = ", "def f():\n  ", "''' ''' ", '""" '.strip()[:0]]),
      "quote": st.sampled_from(['"""', "'''"]),
      "after": body,
  })


CHECK = Check(
    property="P06",
    targets=[
        Target("fallbacks", with_cursor({"explicit": st.booleans}), run_fallbacks,
               quick=20000, thorough=200000,
               rule="the truncation index lies strictly between cursor and end of code"),
        Target("direct", with_cursor({
            "pair": lambda: st.sampled_from(
                [None, "indent", ["{", "}"], ["(", ")"], ["[", "]"]]),
            "splitters": lambda: st.sampled_from(
                [None, ["\n"], [";"], [";", "\n"], ["// c ;"], []]),
        }), run_direct, quick=20000, thorough=200000,
               rule="some truncation index lies strictly between cursor and end of code"),
        Target("docstring", docstring_strategy, run_docstring, quick=4000, thorough=60000,
               rule="a closing triple quote exists"),
    ],
    assumptions=["the cursor lies within the code"],
)
