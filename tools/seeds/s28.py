PROPERTY = "P08"
NEEDS = "an empty string literal"
BREAKS = "An empty string literal becomes a plain token instead of a group of subtokens."
EDITS = [("r_u_sure/parsing/sequence_from_pseudo_parse.py",
"  elif node_type in subtokenize_node_types:\n",
"  elif node_type in subtokenize_node_types and len(root.text(tokens)) > 2:\n")]
DEMO = '''
from r_u_sure.tree_structure import sequence_nodes as n, sequence_node_helpers as h
from r_u_sure.wrappers import parser_tools
nodes = parser_tools.ParserHelper("python").parse_to_nodes("x = ''\\n")
found = [x for x, _, _ in h.walk_with_paths(nodes, visit_groups_before=True)
         if getattr(x, "match_type", None) == "STRING_LITERAL"]
assert len(found) == 1 and isinstance(found[0], n.GroupNode), found
'''
