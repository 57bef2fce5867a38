PROPERTY = "P23"
NEEDS = "a region whose only text is white space"
BREAKS = "The place holder for an empty region is shown in addition to the white space, so the shown text is not the suggestion's."
EDITS = [("r_u_sure/edit_distance_utility/region_decisions.py",
'''      node = prototype.text_decoration_nodes[node_id.index_in_category]
      yield TokenWithRegionMembership(node.text_contents, in_region)
      empty_region = False
''',
'''      node = prototype.text_decoration_nodes[node_id.index_in_category]
      yield TokenWithRegionMembership(node.text_contents, in_region)
      empty_region = empty_region and node.text_contents.isspace()
''')]
DEMO = '''
from r_u_sure.edit_distance_utility import region_decisions as rd
from r_u_sure.tree_structure import sequence_nodes as n, packed_sequence_nodes as psn
proto = psn.pack([n.RegionStartNode(), n.TextDecorationNode(" "), n.RegionEndNode(), n.TextTokenNode("a", "k")])
K, C, V = rd.DecisionKey, rd.DecisionCategory, rd.DecisionValue
a = {K(0, C.REGION_SHOULD_START): V.TRUE, K(2, C.REGION_SHOULD_END): V.TRUE, K(3, C.NODE_IN_REGION): V.FALSE}
got = [(t.token_or_decoration, t.in_annotated_region) for t in rd.extract_sequence_with_regions(proto, a, "#")]
assert got == [(" ", True), ("a", False)], got
'''
