PROPERTY = "P27"
NEEDS = "a name that occurs for the first time on the line of the cursor, before the cursor, and again in a call after it"
BREAKS = "Names on the cursor's own line are not taken as seen, so such calls are scored as new."
EDITS = [("r_u_sure/wrappers/call_sequence_wrapper.py",
'''    expected_tokens = extract_context_tokens(
        context_and_suggestion, prediction_location
    )''',
'''    expected_tokens = extract_context_tokens(
        context_and_suggestion, adjusted_prediction_location
    )''')]
DEMO = '''
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.wrappers import parser_tools, call_sequence_wrapper as c
w = c.ApiCallSequenceWrapper(use_numba=False)
context = "import sys\\nqux = "
nodes = parser_tools.ParserHelper("python").parse_to_nodes(context + "zap\\nqux.run(1)\\n")
tree = w.process_prototype_and_context(nodes, len(context))[0]
kinds = {t.text_contents: t.match_type for t in tree.text_token_nodes}
assert kinds["qux"] == "EXPECTED" and kinds["run"] == "NOVEL", kinds
'''
