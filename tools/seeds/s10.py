PROPERTY = "P10"
NEEDS = "a group inside a group, with a filter that depends on the group's children"
BREAKS = "The filter that decides where regions may go sees the group with markers already inserted instead of the caller's own node."
EDITS = [("r_u_sure/tree_structure/transforms.py", "      if node_filter(node):", "      if node_filter(processed_node):")]
DEMO = '''
from r_u_sure.tree_structure import transforms as t, sequence_nodes as n
tok = lambda x: n.TextTokenNode(x, "k")
seen = []
t.insert_region_options_around_subsequences([n.GroupNode([tok("a")], "g")], node_filter=lambda x: seen.append(x) or True)
assert n.GroupNode([tok("a")], "g") in seen, seen
'''
