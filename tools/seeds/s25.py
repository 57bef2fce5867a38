PROPERTY = "P01"
NEEDS = "text with a carriage return, form feed or other unusual white space character outside strings and comments"
BREAKS = "Such characters are dropped from the token list."
EDITS = [("r_u_sure/parsing/pseudo_parser/stack_parser.py", "        ('OTHER', r'.'),\n", "        ('OTHER', r'\\S'),\n")]
DEMO = '''
from r_u_sure.parsing.pseudo_parser import stack_parser as sp
for language in ("simple", "cpp", "java"):
  for code in ("a\\r\\nb", "a;\\n", "x\\x0cy"):
    raw = sp.PseudoParser.parse_and_maybe_preprocess(language, code)[3]
    assert "".join(raw) == code, (language, code, raw)
'''
