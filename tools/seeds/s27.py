PROPERTY = "P03"
NEEDS = "strict mode, with exactly one bracket left open at the end"
BREAKS = "A single unclosed bracket is accepted in strict mode instead of being rejected."
EDITS = [("r_u_sure/parsing/pseudo_parser/stack_parser.py",
'''  if opener_stack and not error_tolerant:
    raise''',
'''  if len(opener_stack) > 1 and not error_tolerant:
    raise''')]
DEMO = '''
from r_u_sure.parsing.pseudo_parser import stack_parser as sp
pairs = [tuple("()"), tuple("[]")]
for code in ("(a", "((a", "([a]"):
  try:
    sp.stack_based_bracket_match(list(code), pairs, error_tolerant=False)
  except sp.ParseError:
    continue
  raise SystemExit(f"accepted {code}")
sp.stack_based_bracket_match(list("(a)[b]"), pairs, error_tolerant=False)
'''
