"""P04: Python indentation becomes balanced blocks."""

from vp import gen_code
from vp import ref_parse
from vp.harness import Check, Target, require, require_equal
from r_u_sure.parsing.pseudo_parser import stack_parser

T = stack_parser.TokenType


def run(case):
  code, spaces = case["code"], case["spaces"]
  root, tokens, types, raw, _ = stack_parser.PseudoParser.parse_and_maybe_preprocess(
      "python", code, spaces)
  ref = ref_parse.parse("python", code, spaces)
  names = [k.name for k in types]
  require_equal(list(zip(names, tokens)), list(zip(ref.types, ref.tokens)),
                "wrong indentation markers")
  level = 0
  for name, text in zip(names, raw):
    if name == ref_parse.INDENT:
      level += 1
      require_equal(text, "", "an indent marker has text")
    elif name == ref_parse.DEDENT:
      level -= 1
      require_equal(text, "", "a dedent marker has text")
    require(level >= 0, "more dedents than indents")
  require_equal(level, 0, "indents are not closed at the end")
  blocks = lambda pairs, kinds: {a: b for a, b in pairs.items() if kinds[a] == ref_parse.INDENT}
  actual = blocks(ref_parse.pairs_of(ref_parse.tree_of(root)), names)
  require_equal(actual, blocks(ref.pairs, ref.types), "wrong indentation blocks")
  require_equal(sum(n == ref_parse.INDENT for n in names), len(actual),
                "an indent is not a block in the tree")
  labels = [f"blocks={min(len(actual), 4)}"]
  if len(actual) >= 2:
    labels.append("nontrivial")
  return labels


def run_desugar(case):
  """Shifting the unit of indentation: n-space code with unit n has the blocks of
  1-space code with unit 1."""
  from r_u_sure.parsing.pseudo_parser import stack_parser as sp
  unit = case["unit"]
  one, many = [], []
  for level, body in case["lines"]:
    one.append(" " * level + body + "\n")
    many.append(" " * (level * unit) + body + "\n")
  parse = sp.PseudoParser.parse_and_maybe_preprocess
  a = parse("python", "".join(one), 1)
  b = parse("python", "".join(many), unit)
  shape = lambda r: [k.name for k in r[2] if k.name != "WHITE_SPACE"]
  require_equal(shape(b), shape(a), "blocks depend on the width of the unit")
  return ["nontrivial"] if unit > 1 and len({l for l, _ in case["lines"]}) > 1 else []


def desugar_strategy():
  from hypothesis import strategies as st
  return st.fixed_dictionaries({
      "unit": st.integers(1, 8),
      "lines": st.lists(
          st.tuples(st.integers(0, 4), st.sampled_from(
              ["x", "if a:", "def f(a, b):", "y = [1, 2]", "# c", "'s'", "pass"])).map(list),
          min_size=1, max_size=9),
  })


def strategy():
  return gen_code.case(("python",))


CHECK = Check(
    property="P04",
    targets=[
        Target("blocks", strategy, run, quick=20000, thorough=200000,
               rule="at least two indentation blocks"),
        Target("unit", desugar_strategy, run_desugar, quick=1500, thorough=40000,
               rule="a unit above one and at least two indentation levels"),
    ],
    assumptions=[],
)
