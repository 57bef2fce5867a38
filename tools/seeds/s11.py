PROPERTY = "P12"
NEEDS = "compiled mode, decorations stripped, and a decoration inside a group"
BREAKS = "The traversal keeps decorations that are inside groups."
EDITS = [("r_u_sure/tree_structure/packed_sequence_nodes.py",
'''        do_in_order_traversal(
            storage=storage,
            node_ids=node.children_ids,
            dest=dest,
            strip_decorations=strip_decorations,
        )''',
'''        do_in_order_traversal(
            storage=storage,
            node_ids=node.children_ids,
            dest=dest,
            strip_decorations=strip_decorations and not jit,
        )''')]
DEMO = '''
import numba
from r_u_sure.tree_structure import packed_sequence_nodes as p, sequence_nodes as n
packed = p.pack([n.GroupNode([n.TextDecorationNode(" "), n.TextTokenNode("a", "k")], "g")], as_numba_typed=True, match_type_numba_type=numba.types.unicode_type)
f = numba.njit(lambda s: p.in_order_traversal(s, strip_decorations=True))
assert len(f(packed)) == 3, f(packed)
'''
