PROPERTY = "P04"
NEEDS = "a comment-only line whose indentation differs from the lines around it"
BREAKS = "Comment lines no longer open or close blocks, so the change of indentation at a comment is marked too late or not at all."
EDITS = [("r_u_sure/parsing/pseudo_parser/stack_parser.py",
'''    if ALL_WHITE_SPACE_REGEX.match(line_string):
      return None
    leading''',
'''    if ALL_WHITE_SPACE_REGEX.match(line_string):
      return None
    if line_string.lstrip().startswith('#'):
      return None
    leading''')]
DEMO = '''
from r_u_sure.parsing.pseudo_parser import stack_parser as s
_, _, types, raw, _ = s.PseudoParser.parse_and_maybe_preprocess("python", "if a:\\n  # c\\n  b\\n", 2)
T = s.TokenType
before = "".join(raw[:types.index(T.PYTHON_INDENT)])
assert before == "if a:\\n", before
'''
