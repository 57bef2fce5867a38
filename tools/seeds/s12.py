PROPERTY = "P14"
NEEDS = "model text left over after the parsed text, followed by an empty last model token, when all model text must be consumed"
BREAKS = "Left-over model text is accepted silently."
EDITS = [("r_u_sure/tree_structure/token_prob_align.py",
'''    if not all(not token for token, _ in self.token_and_log_prob_stack):''',
'''    if any(token for token, _ in self.token_and_log_prob_stack[:1]):''')]
DEMO = '''
from r_u_sure.tree_structure import token_prob_align as a, packed_sequence_nodes as p, sequence_nodes as n
seq = p.pack([n.TextTokenNode("a", "k")])
try:
  a.align_token_log_probs([("a", -2.0), ("b", -1.0), ("", 0.0)], seq, must_consume_all_model_tokens=True)
except ValueError:
  pass
else:
  raise AssertionError("left-over text accepted")
'''
