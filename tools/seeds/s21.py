PROPERTY = "P26"
NEEDS = "an empty token in the suggestion before a token whose probability lies between the thresholds for its two possible positions"
BREAKS = "The length-dependent threshold counts tokens without text, so the cut is made where the published rule would not cut."
EDITS = [("r_u_sure/wrappers/prefix_truncation_wrapper.py",
'''            else:
              should_exit_at_next_opportunity = True
          tokens_seen += 1
''',
'''            else:
              should_exit_at_next_opportunity = True
        tokens_seen += 1
''')]
DEMO = '''
import math
from r_u_sure.edit_distance_utility import region_decisions as rd
from r_u_sure.tree_structure import sequence_nodes as n, packed_sequence_nodes as psn
from r_u_sure.wrappers import prefix_truncation_wrapper as w
tok = lambda x: n.TextTokenNode(x, "k")
proto = psn.pack([tok("") for _ in range(6)] + [n.EarlyExitNode(), tok("a"), n.EarlyExitNode(), tok("b")])
b = w.PrefixByEditDistanceBaselineBuilder(proto, proto, {}, [("a", math.log(0.42)), ("b", 0.0)])
got = b.baseline_assignment_from_intellicode_compose()
exits = [v for k, v in sorted(got.items()) if k.category == rd.DecisionCategory.SHOULD_EARLY_EXIT]
assert exits == [rd.DecisionValue.FALSE] * 2, exits
'''
