PROPERTY = "P02"
NEEDS = "C++ code with a #line directive"
BREAKS = "The directive falls apart into several tokens."
EDITS = [("r_u_sure/parsing/pseudo_parser/stack_parser.py", "#ifndef|#line|#if|", "#ifndef|#if|")]
DEMO = '''
from r_u_sure.parsing.pseudo_parser import stack_parser as sp
c = sp.RegexCodec.preset("cpp")
tokens, types = c.encode("#line 3\\nint x;\\n")
assert c.decode_token(tokens)[0].startswith("#line 3"), c.decode_token(tokens)
'''
