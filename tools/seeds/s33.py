PROPERTY = "P14"
NEEDS = "two span helpers in use at the same time"
BREAKS = "They share one stack: the second one replaces the tokens of the first."
EDITS = [("r_u_sure/tree_structure/token_prob_align.py",
'''    return SpanProbHelper(tokens_and_log_probs[::-1])
''',
'''    _STACK[:] = tokens_and_log_probs[::-1]
    return SpanProbHelper(_STACK)
'''),
("r_u_sure/tree_structure/token_prob_align.py",
'''@dataclasses.dataclass
class SpanProbHelper:
''',
'''_STACK = []


@dataclasses.dataclass
class SpanProbHelper:
''')]
DEMO = '''
from r_u_sure.tree_structure import token_prob_align as t
one = t.SpanProbHelper.build([("ab", -1.0), ("c", -2.0)])
two = t.SpanProbHelper.build([("xyz", -3.0)])
assert one.advance_by_length(2) == ("ab", -1.0)
assert two.advance_by_length(3) == ("xyz", -3.0)
'''
