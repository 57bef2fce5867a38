PROPERTY = "P05"
NEEDS = "a block or bracket that contains exactly one token and its terminator"
BREAKS = "The statement of a two-token block is not grouped."
EDITS = [("r_u_sure/parsing/pseudo_parser/stack_parser.py",
'''      if len(child) > 1:
        _split(child)''',
'''      if len(child) > 2:
        _split(child)''')]
DEMO = '''
from r_u_sure.parsing.pseudo_parser import stack_parser as s
root, tokens, *_ = s.PseudoParser.parse_and_maybe_preprocess("cpp", "f{a;}")
found = [n for n, _ in s.Node.depth_first_traversal(root) if n.annotation == "split" and n.text(tokens) == "a;"]
assert found, root.human_readable_string(tokens)
'''
