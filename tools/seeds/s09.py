PROPERTY = "P09"
NEEDS = "a run of tabs or spaces longer than twenty"
BREAKS = "Runs of white space are cut at 21 instead of 20 characters."
EDITS = [("r_u_sure/parsing/subtokenizer.py", "        if len(memory) >= 20:", "        if len(memory) > 20:")]
DEMO = '''
from r_u_sure.parsing import subtokenizer as s
assert [len(t) for t in s.code_to_tokens_simple_lossless(" " * 45)] == [20, 20, 5]
'''
