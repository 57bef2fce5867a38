"""Strategies for source code (shrink towards short, simple text)."""

from hypothesis import strategies as st

from vp import corpus

WORDS = ["x", "foo", "Bar9", "def", "return", "if", "a_b", "FOOBar"]
COMMON = ["(", ")", "[", "]", "{", "}", ";", "\n", " ", "  ", "\t", ",", ".",
          ":", "=", "+", "-", "*", "/", "<", ">", "\\", '"', "'", "0", "12",
          "3.", "4.56", "é", "\r", "\r\n", "\x0c", "$", "!", "@", "|", "&", "٣",
          "\u2028", "\xa0", "😀", "_", "7x", "Z", "#", "//", "/*", "*/"]
PY = ['"""', "'''", "# hi (", "#\n", "def f(a,\n  b):\n", "'s'", '"t;{"',
      '"""doc (\n"""', "'''\n  x'''", "\\'", '\\"', "\\\\", "'a\\'b'", "lambda x: x",
      "\n  ", "\n    ", "\n\n", "\n \n", "if x:\n", "else:\n", "\"'\"",
      "'''a''b'''", "''", '""', '""" \\""" x"""', "[\n1,\n2]", "{\n 1: 2}\n"]
C = ["// c ;\n", "/* ; { */", "/* a\n b */", '"s;{"', "'c'", "'\\''", '"\\""',
     "#include <x>\n", "#define A \\\n  b\n", "#if", "#ifdef X", "#ifndef", "#error",
     "#endif\n", "#line 3", "#undef Q", "int x = 1;\n", "for (i=0;i<n;) {\n", "}\n",
     "if (x) { y; }", "#define F(x) y", "#pragma", "a / b", "x *= 2;", "//", "/* open",
     "#include \"a/b.h\"\n", "/**/", "/*/", "#define A // c"]


def sized(element, max_size, min_size=0):
  """Lists whose length is roughly uniform (Hypothesis's own lists are short)."""
  return st.integers(min_size, max_size).flatmap(
      lambda n: st.lists(element, min_size=n, max_size=n))


def text(language, max_size=28, min_size=0):
  pool = list(COMMON) + WORDS
  if language == "python":
    pool = pool + PY * 2
  elif language in ("cpp", "java", "javascript"):
    pool = pool + C * 2
  piece = st.one_of(
      st.sampled_from(pool), st.sampled_from(pool), st.sampled_from(pool),
      st.text(alphabet="()[]{};\n ax1\"'#/*\\.", max_size=4),
      st.text(max_size=3),
  )
  return sized(piece, max_size, min_size).map("".join)


def brackety(max_size=24, min_size=0):
  return sized(
      st.sampled_from(["(", ")", "[", "]", "{", "}", "(", ")", "x", ";", "\n", " "]),
      max_size, min_size,
  ).map("".join)


OPEN = ["(", "[", "{", "f(", "x = [", "if (a) {\n", "{ b;"]
CLOSE = [")", "]", "}", ");", "],", "}\n", "; }"]


def nested():
  """Deeply nested brackets with text on the way down and up."""
  word = st.sampled_from(WORDS + [";", "\n", " ", ", ", "'s'", " = 1;\n"])

  def join(parts):
    body = ""
    for kind, before, after, right in parts:
      close = CLOSE[kind] if right else CLOSE[(kind + 1) % len(CLOSE)]
      body = before + OPEN[kind] + body + close + after
    return body

  return sized(
      st.tuples(st.integers(0, len(OPEN) - 1), word, word,
                st.sampled_from([True] * 15 + [False])), 16, 6).map(join)


def long_python():
  """Long Python-like code with many block levels."""
  content = st.sampled_from([
      "x = 1", "if a:", "def f(x):", "def g(a,\n   b):", "foo([1,\n2])", "'''doc'''", "# c", "",
      "return (x)", "class A:", "while 1:", '"""d\n  e"""', "y = {'a': [1]}", "x; y"])
  step = st.sampled_from([1, 1, 1, 0, 0, -1, -2, 1, -5, 0, 2])

  def join(t):
    unit, lines = t
    level, out = 0, []
    for move, line in lines:
      out.append(" " * (unit * level) + line)
      level = max(0, min(12, level + move))
    return "\n".join(out)

  return st.tuples(st.sampled_from([2, 4, 1, 3]), sized(st.tuples(step, content), 40, 15)).map(join)


def realistic(language, max_lines=14, min_lines=1):
  """A slice of an ordinary program, with a little damage."""
  pieces = corpus.lines(language)
  pool = list(COMMON) + ['"""', "'''", "\\\n", "\n\n", "\n    ", "x" * 40]

  def join(t):
    start, count, cut, edits = t
    code = "".join(pieces[start:start + count])
    for where, what, drop in edits:
      at = where % (len(code) + 1)
      code = code[:at] + what + code[at + drop:]
    return code[:len(code) - cut] if cut else code

  return st.tuples(
      st.integers(0, len(pieces) - 1), st.integers(min_lines, max_lines),
      st.sampled_from([0, 0, 1, 2, 9]),
      st.lists(st.tuples(st.integers(0, 700), st.sampled_from(pool), st.sampled_from([0, 0, 1, 3])),
               max_size=2)).map(join)


def large(language):
  """Longer and deeper code than the main generators make."""
  options = [text(language, 140, 50), nested(), brackety(120, 40),
             realistic(language, 60, 15)]
  if language == "python":
    options += [long_python(), long_python()]
  return st.one_of(*options)


def sometimes_large(small, language, share=16):
  big = large(language)
  return st.integers(0, share - 1).flatmap(lambda i: big if i == share - 1 else small)


def python_program():
  """Indented Python-like code."""
  content = st.sampled_from([
      "x = 1", "if a:", "def f(x):", "def g(a,\n   b):", "return (", ")", "for i in y:",
      "class A:", "foo([1,\n2])", "'''doc'''", '"""d\n  e"""', "# c", "", "", "x", "}",
      "{\n  1\n}", "pass", "'s", "y = {", "z]", "    ", "\\", "async def h():",
      '"""open', "x;y", "\t", "def  q():",
  ])
  indent = st.sampled_from(
      ["", "", "", "  ", "  ", "    ", "    ", "      ", "        ", " ", "   ", "\t", "\r",
       " \t", "\x0c "])
  line = st.tuples(indent, content).map("".join)
  sep = st.sampled_from(["\n", "\n", "\n", "\n", "\n\n", " \n", "\r\n"])
  return st.tuples(
      sized(st.tuples(line, sep), 10, 1), st.booleans()
  ).map(lambda t: "".join(a + b for a, b in t[0])[: None if t[1] else -1])


def code_for(language):
  if language == "python":
    small = st.one_of(python_program(), python_program(), text("python"), brackety(),
                      realistic("python"))
  else:
    small = st.one_of(text(language), text(language), text(language), brackety(),
                      realistic(language))
  return sometimes_large(small, language)


def case(languages=("simple", "cpp", "java", "javascript", "python")):
  def build(language):
    return st.fixed_dictionaries({
        "language": st.just(language),
        "code": code_for(language),
        "spaces": st.sampled_from([1, 2, 4, 3, 8]) if language == "python" else st.just(1),
    })

  return st.sampled_from(list(languages)).flatmap(build)
