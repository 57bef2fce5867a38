"""Independent reference model of the pseudo parser (no code from /repo used).

Trees are plain tuples (kind, lo, hi, children); kinds are the annotation names
of the parser's public node type.
"""

from __future__ import annotations

OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}
INDENT = "PYTHON_INDENT"
DEDENT = "PYTHON_DEDENT"
LANGUAGES = ("simple", "cpp", "java", "javascript", "python")

_ASCII_WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")


# ---------------------------------------------------------------- lexing
def _match_basic(code, i):
  c = code[i]
  n = len(code)
  if c.isdecimal():  # \d matches any Unicode decimal digit
    j = i
    while j < n and code[j].isdecimal():
      j += 1
    if j < n and code[j] == ".":
      j += 1
      while j < n and code[j].isdecimal():
        j += 1
    return "NUMBER", j
  if c in _ASCII_WORD:
    j = i
    while j < n and code[j] in _ASCII_WORD:
      j += 1
    return "ID", j
  if c in "+-*/":
    return "OP", i + 1
  if c in ",.;:=><":
    return "PUNC", i + 1
  if c in "()[]{}":
    return "BRACE", i + 1
  if c == "\n":
    return "NEWLINE", i + 1
  if c == "\t":
    return "TAB", i + 1
  if c == " ":
    j = i
    while j < n and code[j] == " ":
      j += 1
    return "WHITE_SPACE", j
  return "OTHER", i + 1


def _line_end(code, i):
  j = code.find("\n", i)
  return len(code) if j < 0 else j


def _python_string_end(code, i):
  """End of the Python string literal starting at i, or None."""
  if code.startswith('"""', i) or code.startswith("'''", i):
    quotes = [code[i] * 3, code[i]]
  elif code[i] in "\"'":
    quotes = [code[i]]
  else:
    return None
  n = len(code)
  for quote in quotes:
    # Prefer reading an escaped quote as part of the contents; a literal that
    # then never closes may instead be closed by that quote.
    choice = []  # positions of escaped quotes we skipped, for backtracking
    j = i + len(quote)
    while True:
      if j > n:
        j = None
      elif code.startswith(quote, j):
        return j + len(quote)
      elif j < n:
        if code[j] == "\\" and code[j - 1] != "\\" and code.startswith(quote, j + 1):
          choice.append(j)
          j = j + 1 + len(quote)
        else:
          j = j + 1
        continue
      else:
        j = None
      if j is None:
        if not choice:
          break
        j = choice.pop() + 1
    # try the next (shorter) quote
  return None


def _c_quoted_end(code, i):
  """End of a C-style quoted literal ('..' or "..") starting at i, or None."""
  quote = code[i]
  if quote not in "\"'":
    return None
  j = i + 1
  n = len(code)
  while j < n:
    if code[j] == "\\":
      if j + 1 >= n:
        return None
      j += 2
    elif code[j] == quote:
      return j + 1
    else:
      j += 1
  return None


_DIRECTIVES = (
    "#include", "#define", "#undef", "#ifdef", "#ifndef", "#line", "#if",
    "#endif", "#error",
)


def _directive_end(code, i):
  for d in _DIRECTIVES:
    if code.startswith(d, i):
      j = i + len(d)
      n = len(code)
      while j < n:
        if code.startswith("\\\n", j):
          j += 2
        elif code[j] not in "(\n|/*)":
          j += 1
        else:
          break
      return j
  return None


def lex(language, code):
  """Returns a list of (type name, text)."""
  out = []
  i = 0
  while i < len(code):
    kind, j = None, None
    if language in ("python", "python_preprocessor"):
      end = _python_string_end(code, i)
      if end is not None:
        kind, j = "STRING", end
      elif code[i] == "#":
        kind, j = "COMMENT_HASH", _line_end(code, i)
    elif language in ("cpp", "java", "javascript"):
      if language == "cpp" and code[i] == "#":
        end = _directive_end(code, i)
        if end is not None:
          kind, j = "C_PREPROCESSOR", end
      if kind is None:
        if code.startswith("//", i):
          kind, j = "COMMENT_SLASHSLASH", _line_end(code, i)
        elif code.startswith("/*", i):
          end = code.find("*/", i + 2)
          if end >= 0:
            kind, j = "COMMENT_SLASHSTAR", end + 2
        else:
          end = _c_quoted_end(code, i)
          if end is not None:
            kind, j = "COMMENT_SLASHSTAR", end
    if kind is None:
      kind, j = _match_basic(code, i)
    out.append((kind, code[i:j]))
    i = j
  return out


# ------------------------------------------------------- bracket structure
def correction(texts):
  """(openers to prepend, closers to append), in order."""
  stack, prefix = [], []
  for t in texts:
    if t in OPEN:
      stack.append(t)
    elif t in CLOSE:
      if stack:
        if stack[-1] == CLOSE[t]:
          stack.pop()
        # otherwise: a closer that cannot match is an ordinary token
      else:
        prefix.append(CLOSE[t])
  return prefix[::-1], [OPEN[t] for t in reversed(stack)]


def pair_up(symbols, opener_to_closer):
  """Matches brackets; returns {left index: right index}."""
  pairs = {}
  stack = []
  for i, s in enumerate(symbols):
    if s in opener_to_closer:
      stack.append((s, i))
    elif stack and opener_to_closer[stack[-1][0]] == s:
      pairs[stack.pop()[1]] = i
  return pairs


def build(symbols, pairs):
  """Tree from matched pairs: a pair node has left, middle and right children."""

  def seq(lo, hi):
    children = []
    i = lo
    while i < hi:
      if i in pairs:
        j = pairs[i]
        children.append((
            "paired", i, j + 1,
            [("left", i, i + 1, []), ("middle", i + 1, j, seq(i + 1, j)),
             ("right", j, j + 1, [])],
        ))
        i = j + 1
      else:
        children.append(("sibling", i, i + 1, []))
        i += 1
    return children

  return ("root", 0, len(symbols), seq(0, len(symbols)))


# --------------------------------------------------------- python indents
def indent_python(texts, pairs, spaces_per_indent):
  """Inserts INDENT/DEDENT markers; returns a list of indices or markers."""
  n = len(texts)
  # Depth-one items, grouped into logical lines ended by a top-level newline.
  lines = []
  cur = []
  i = 0
  while i < n:
    if i in pairs:
      cur.extend(range(i, pairs[i] + 1))
      i = pairs[i] + 1
    else:
      cur.append(i)
      i += 1
      if texts[cur[-1]] == "\n":
        lines.append(cur)
        cur = []
  if cur:
    lines.append(cur)
  out = []
  level = 0

  def set_level(new):
    nonlocal level
    if new > level:
      out.extend([INDENT] * (new - level))
    elif new < level:
      newline = out.pop()
      out.extend([DEDENT] * (level - new))
      out.append(newline)
    level = new

  for line in lines:
    text = "".join(texts[k] for k in line)
    if not text.isspace():
      leading = len(text) - len(text.lstrip())
      set_level(leading // spaces_per_indent)
    out.extend(line)
  set_level(0)
  return out


# -------------------------------------------------------------- splitting
def split(tree, is_splitter, is_unsplittable_pair, is_block=None):
  """Groups siblings into runs ended by splitters."""

  def visit(node):
    kind, lo, hi, children = node
    if kind == "paired" and is_unsplittable_pair(node):
      return node
    new = [visit(c) if c[2] - c[1] > 1 else c for c in children]
    if kind == "paired":
      return (kind, lo, hi, new)
    groups = [[]]
    for child in new:
      groups[-1].append(child)
      if child[2] - child[1] == 1 and is_splitter(child[1]):
        groups.append([])
    if len(groups) == 1:
      return (kind, lo, hi, new)
    groups = [("split", g[0][1], g[-1][2], g) for g in groups if g]
    if is_block is not None:
      nested = []
      for g in groups:
        if nested and any(is_block(c) for c in g[3]):
          head = nested.pop()
          nested.append(("split", head[1], g[2], [head, g]))
        else:
          nested.append(g)
      groups = nested
    return (kind, lo, hi, groups)

  return visit(tree)


# ------------------------------------------------------------- full parse
class Parsed:
  pass


_SPLIT_TYPES = {
    "simple": (),
    "cpp": ("C_PREPROCESSOR", "COMMENT_SLASHSLASH", "COMMENT_SLASHSTAR"),
    "java": ("COMMENT_SLASHSLASH", "COMMENT_SLASHSTAR"),
    "javascript": ("COMMENT_SLASHSLASH", "COMMENT_SLASHSTAR"),
}


def parse(language, code, spaces_per_indent=1):
  """Reference result of parsing `code`."""
  r = Parsed()
  appended_newline = False
  if language == "python" and not code.endswith("\n"):
    code = code + "\n"
    appended_newline = True
  lexed = lex(language, code)
  texts = [t for _, t in lexed]
  types = [k for k, _ in lexed]
  raw = list(texts)
  if appended_newline:
    raw[-1] = ""
  prefix, suffix = correction(texts)
  if language == "python" and suffix:
    suffix = suffix + ["\n"]
  texts = prefix + texts + suffix
  raw = [""] * len(prefix) + raw + [""] * len(suffix)
  kind_of = lambda t: "NEWLINE" if t == "\n" else "BRACE"
  types = [kind_of(t) for t in prefix] + types + [kind_of(t) for t in suffix]
  pairs = pair_up(texts, OPEN)
  if language != "python":
    r.symbols = texts
    r.tokens, r.types, r.raw = texts, types, raw
    r.pairs = pairs
    r.unsplit = build(texts, pairs)
    split_texts = {";"} | {
        t for t, k in zip(texts, types) if k in _SPLIT_TYPES[language]
    }
    unsplittable = ("(", "[") if language == "simple" else ()
    r.tree = split(
        r.unsplit,
        lambda i: texts[i] in split_texts,
        lambda node: texts[node[1]] in unsplittable,
    )
  else:
    order = indent_python(texts, pairs, spaces_per_indent)
    symbols = [k if isinstance(k, str) else texts[k] for k in order]
    r.symbols = symbols
    r.tokens = ["" if isinstance(k, str) else texts[k] for k in order]
    r.types = [k if isinstance(k, str) else types[k] for k in order]
    r.raw = ["" if isinstance(k, str) else raw[k] for k in order]
    r.pairs = pair_up(symbols, dict(OPEN, **{INDENT: DEDENT}))
    r.unsplit = build(symbols, r.pairs)
    r.tree = split(
        r.unsplit,
        lambda i: symbols[i] == "\n",
        lambda node: symbols[node[1]] in ("(", "["),
        lambda node: node[0] == "paired" and symbols[node[1]] == INDENT,
    )
  r.n_pre, r.n_post = len(prefix), len(suffix)
  return r


def tree_of(node):
  """The reference representation of a parser tree node."""
  return (node.annotation, node.lo, node.hi, [tree_of(c) for c in node.children])


def pairs_of(tree):
  out = {}

  def visit(t):
    if t[0] == "paired":
      out[t[1]] = t[2] - 1
    for c in t[3]:
      visit(c)

  visit(tree)
  return out


def leaves(tree):
  """Leaves in order, with the chain of ancestors (outermost first)."""
  out = []

  def visit(t, chain):
    if not t[3]:
      out.append((t, chain))
    for c in t[3]:
      visit(c, chain + [t])

  visit(tree, [])
  return out
