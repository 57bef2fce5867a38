PROPERTY = "P13"
NEEDS = "an empty group"
BREAKS = "The walk reports an empty group as a leaf, even if groups are not to be visited."
EDITS = [("r_u_sure/tree_structure/sequence_node_helpers.py",
'''    path = prefix.extended_with(i)
    if isinstance(node, sequence_nodes.GroupNode):
''',
'''    path = prefix.extended_with(i)
    if isinstance(node, sequence_nodes.GroupNode) and node.children:
''')]
DEMO = '''
from r_u_sure.tree_structure import sequence_nodes as n, sequence_node_helpers as h
spec = [n.GroupNode([], "g"), n.TextTokenNode("a", "k")]
assert len(list(h.walk_with_paths(spec))) == 1
'''
