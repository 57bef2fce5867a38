"""P07: inferred indentation width and docstring positions."""

from hypothesis import strategies as st

from vp import gen_code
from vp import ref_parse
from vp.harness import Check, Target, require, require_equal
from r_u_sure.parsing.pseudo_parser import utilities


def ref_spaces_per_indent(code, candidates=(1, 2, 3, 4)):
  if not code:
    return 1
  ref = ref_parse.parse("python", code, 1)
  widths = []
  for i in range(1, len(ref.types)):
    if ref.types[i] == "WHITE_SPACE" and ref.types[i - 1] in (
        ref_parse.INDENT, ref_parse.DEDENT):
      widths.append(len(ref.raw[i]))
  if not widths:
    return 1
  fitting = [c for c in candidates if all(w % c == 0 for w in widths)]
  return max(fitting) if fitting else 1


def run_indent(case):
  code = case["code"]
  actual = utilities.infer_python_spaces_per_indent(code)
  require_equal(actual, ref_spaces_per_indent(code), "wrong indentation width")
  labels = [f"width={actual}"]
  candidates = sorted(set(case["candidates"]))
  actual2 = utilities.infer_python_spaces_per_indent(code, candidates)
  require_equal(actual2, ref_spaces_per_indent(code, candidates),
                "wrong indentation width for candidates", candidates=candidates)
  if actual > 1 or actual2 > 1:
    labels.append("nontrivial")
  return labels


def indent_strategy():
  unit = st.sampled_from([1, 2, 3, 4, 5, 6, 8])

  def program(u):
    return gen_code.sized(
        st.tuples(st.integers(0, 3), st.sampled_from(
            ["if x:", "x = 1", "def f(a,\n  b):", "# c", "", "y = [\n   1]", "'''s\n t'''"])),
        7, 1).map(lambda ls: "".join(" " * (u * k) + s + "\n" for k, s in ls))

  return st.fixed_dictionaries({
      "code": st.one_of(unit.flatmap(program), unit.flatmap(program),
                        gen_code.code_for("python")),
      "candidates": st.lists(st.integers(1, 8), min_size=1, max_size=4),
  })


def ref_docstrings(code):
  """Positions right after the opening quotes of function docstrings.

  Reference: a node whose text begins with optional spaces and 'def ', directly
  followed by a sibling whose text begins with optional spaces and a triple
  quote, indented one unit deeper.
  """
  unit = ref_spaces_per_indent(code)
  ref = ref_parse.parse("python", code, unit)

  def text(node):
    return "".join(ref.raw[node[1]:node[2]])

  def level(fragment):
    count = 0
    i = unit
    while i < len(fragment):
      if fragment[i - unit:i].isspace():
        count = i // unit
      else:
        break
      i += unit
    return count

  out = []

  def visit(node):
    children = node[3]
    for k, child in enumerate(children):
      if k + 1 < len(children):
        head, body = text(child), text(children[k + 1])
        quoted = body.lstrip(" ")
        if head.lstrip(" ").startswith("def ") and quoted[:3] in ('"""', "'''"):
          if level(body) == level(head) + 1:
            offset = len("".join(ref.raw[:children[k + 1][1]]))
            out.append(offset + len(body) - len(quoted) + 3)
      visit(child)

  visit(ref.tree)
  return out


def run_docstrings(case):
  code = case["code"]
  actual = list(utilities.find_python_function_docstrings(code))
  require_equal(actual, ref_docstrings(code), "wrong docstring positions")
  for i in actual:
    require(code[i - 3:i] in ('"""', "'''"), "position does not follow a triple quote", i=i)
  labels = [f"found={min(len(actual), 3)}"]
  if actual:
    labels.append("nontrivial")
  return labels


def run_docstrings_planted(case):
  """Programs built with known docstrings: exactly those are found."""
  unit = case["unit"]
  lines = ["x = 1"]
  expected = []
  level = 0
  for item in case["items"]:
    level = min(level, item["level"])
    pad = " " * (unit * level)
    lines.append(pad + item["head"])
    inner = " " * (unit * (level + 1))
    if item["doc"]:
      offset = len("\n".join(lines)) + 1 + len(inner) + 3
      if item["head"].startswith("def "):
        expected.append(offset)
      lines.append(inner + item["quote"] + item["doc"] + item["quote"])
    lines.append(inner + item["body"])
    level += 1
  code = "\n".join(lines) + ("\n" if case["newline"] else "")
  require_equal(ref_spaces_per_indent(code) if case["items"] else unit, unit, "")
  actual = sorted(utilities.find_python_function_docstrings(code))
  require_equal(actual, expected, "wrong docstring positions", code=code)
  return ["nontrivial"] if expected else []


def planted_strategy():
  item = st.fixed_dictionaries({
      "level": st.integers(0, 3),
      "head": st.sampled_from(
          ["def f(x):", "def g():", "class A:", "if x:", "def h(a, b):", "for i in y:"]),
      "doc": st.sampled_from(["", "Doc.", "Doc (", "Two\n  lines.", "d"]),
      "quote": st.sampled_from(['"""', "'''"]),
      "body": st.sampled_from(["pass", "return x", "y = (1,\n  2)", "'''no'''.foo()"[9:] or "z"]),
  })
  # one program in eight is nested deeply
  deep = st.lists(item.map(lambda d: dict(d, level=20)), min_size=8, max_size=14)
  return st.fixed_dictionaries({
      "unit": st.sampled_from([2, 3, 4]),
      "items": st.integers(0, 7).flatmap(lambda k: deep if k == 7 else gen_code.sized(item, 5, 1)),
      "newline": st.booleans(),
  })


def doc_strategy():
  content = st.sampled_from([
      "def f(x):", "def g():", "class A:", "if x:", '"""doc"""', "'''doc'''", '"""d\n e"""',
      "x = 1", "pass", "def f(x): return 1", "# c", "def", "async def f():", '"s"', "",
      "'''d''' + x"])
  doc = st.sampled_from(['"""doc"""', "'''d'''", '"""d\n e"""', "x = 1", "# c", '"""open', "'s'"])
  head = st.sampled_from(["def f(x):", "def g():", "def f(x,\n  y):", "class A:", "def",
                          "async def f():", "if x:", "def f(x): return 1"])

  def program(u):
    plain = st.tuples(st.integers(0, 3), content).map(lambda t: [" " * (u * t[0]) + t[1]])
    unit = st.tuples(
        st.integers(0, 2), head, st.sampled_from([1, 1, 1, 1, 0, 2]), doc,
        st.sampled_from([[], [], [""], ["# c"]]),
    ).map(lambda t: [" " * (u * t[0]) + t[1]] + t[4] + [" " * (u * (t[0] + t[2])) + t[3]])
    return gen_code.sized(st.one_of(plain, unit, unit), 5, 1).map(
        lambda ls: "\n".join(x for l in ls for x in l))

  return st.fixed_dictionaries({
      "code": st.one_of(
          st.sampled_from([1, 2, 3, 4]).flatmap(program),
          st.sampled_from([1, 2, 3, 4]).flatmap(program),
          gen_code.code_for("python")),
  })


CHECK = Check(
    property="P07",
    targets=[
        Target("indent", indent_strategy, run_indent, quick=12000, thorough=150000,
               rule="an indentation width above one is inferred"),
        Target("docstrings", doc_strategy, run_docstrings, quick=12000, thorough=150000,
               rule="at least one docstring is found"),
        Target("planted", planted_strategy, run_docstrings_planted, quick=4000,
               thorough=60000, rule="at least one function docstring is planted"),
    ],
    assumptions=["candidate widths are given in ascending order, as in the default"],
)
