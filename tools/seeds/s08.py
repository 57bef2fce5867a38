PROPERTY = "P07"
NEEDS = "a triple-quoted string that follows a function header more than one level deeper"
BREAKS = "Strings indented more than one level below the header are reported as docstrings."
EDITS = [("r_u_sure/parsing/pseudo_parser/utilities.py",
'''    if leading_indents(rhs_sibling_code) != (leading_indents(node_code) + 1):''',
'''    if leading_indents(rhs_sibling_code) <= leading_indents(node_code):''')]
DEMO = '''
from r_u_sure.parsing.pseudo_parser import utilities as u
code = "def f(x):\\n  return 1\\ndef f():\\n    'a'\\n  \\n"
code = 'if x:\\n  y\\ndef f():\\n      """doc"""\\n      z\\n'
assert list(u.find_python_function_docstrings(code)) == [], list(u.find_python_function_docstrings(code))
'''
