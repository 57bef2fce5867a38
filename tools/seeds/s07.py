PROPERTY = "P06"
NEEDS = "a cursor inside a block whose closing brace is missing, in code that was repaired"
BREAKS = "A block with a repaired (missing) brace is not taken as enclosing block: the code is cut at the next statement instead of the end of the block."
EDITS = [("r_u_sure/parsing/pseudo_parser/utilities.py",
'''            if (tokens_raw[left.lo] == match_pair[0] or
                tokens_raw[right.lo] == match_pair[1]):''',
'''            if (tokens_raw[left.lo] == match_pair[0] and
                tokens_raw[right.lo] in (match_pair[1], match_pair[0])):''')]
DEMO = '''
from r_u_sure.parsing.pseudo_parser import utilities as u
code = "f() { a; b; c;"
assert u.infer_truncation_with_fallbacks(code, 6, "cpp") == len(code)
'''
