PROPERTY = "P11"
NEEDS = "a cut that falls exactly at the end of the last text inside a group (so nothing of the group is left), or an empty group after the cut"
BREAKS = "The group that contains the cut is dropped, so later nodes lose their position relative to their siblings and the structure no longer shows that the cut was inside the group."
EDITS = [("r_u_sure/tree_structure/transforms.py",
'''        if past_start_point:
          # Part of this node is within the prefix.
          yield dataclasses.replace(
''',
'''        if past_start_point and processed_subsequence:
          # Part of this node is within the prefix.
          yield dataclasses.replace(
''')]
DEMO = '''
from r_u_sure.tree_structure import transforms, sequence_nodes as sn
tok = lambda t: sn.TextTokenNode(text_contents=t, match_type="t")
seq = [sn.GroupNode([tok("ab"), sn.GroupNode([tok("c")], "inner")], "outer"), tok("d")]
got = transforms.truncate_prefix_at_offset(seq, 3)
want = [sn.GroupNode([sn.GroupNode([], "inner")], "outer"), tok("d")]
assert got == want, got
'''
