PROPERTY = "P15"
NEEDS = "a scratch table that an earlier graph with a different initial state left filled, used again for a graph whose states fall into its slots"
BREAKS = "The table is cleared only if the new graph's initial state finds its slot taken, so numbers of the earlier graph's states are taken for the new one's and states are mixed up or looked up out of range."
EDITS = [("r_u_sure/decision_diagrams/gated_state_dag.py",
'''  scratch_space_size = len(state_lookup_table)
  state_lookup_table[:] = -1
''',
'''  scratch_space_size = len(state_lookup_table)
  # The table is large: clear it only if it has been used before.
  if state_lookup_table[hash(dag.initial_state) % scratch_space_size] != -1:
    state_lookup_table[:] = -1
''')]
DEMO = '''
import numpy as np
from r_u_sure.decision_diagrams import gated_state_dag as g
E = g.Edge
table = np.full((64,), -1, dtype=np.int32)
first = g.CompleteStateDAG(0, [E(0, 1, 1.0), E(1, 2, 1.0), E(2, 3, 1.0)], 3)
second = g.CompleteStateDAG(10, [E(10, 2, 1.0), E(10, 11, 5.0), E(11, 2, 2.0), E(2, 12, 0.0)], 12)
for dag, states in ((first, 4), (second, 4)):
  out = g.prune_unreachable_and_rewrite_states(dag, table)
  assert [e.cost for e in out.edges] == [e.cost for e in dag.edges], out
  names = {}
  for old, new in zip(dag.edges, out.edges):
    for a, b in ((old.source, new.source), (old.dest, new.dest)):
      assert names.setdefault(a, int(b)) == int(b), (names, a, b)
  assert sorted(names.values()) == list(range(states)), names
  assert names[dag.final_state] == int(out.final_state)
'''
