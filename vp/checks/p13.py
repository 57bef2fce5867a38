"""P13: node-tree helpers (text, depth, walks, debug view)."""

from hypothesis import strategies as st

from vp import nodes
from vp.harness import Check, Target, require, require_equal
from r_u_sure.tree_structure import sequence_node_helpers as helpers
from r_u_sure.tree_structure import sequence_nodes as sn


def _walk(spec, before, after, path):
  out = []
  for k, item in enumerate(spec):
    here = path + (k,)
    if item[0] == "group":
      if before:
        out.append((item, here, "GROUP_BEFORE_CHILDREN"))
      out.extend(_walk(item[1], before, after, here))
      if after:
        out.append((item, here, "GROUP_AFTER_CHILDREN"))
    else:
      out.append((item, here, "LEAF"))
  return out


def _summary(text):
  return repr(text) if len(text) <= 80 else repr(text[:77]) + "..."


def _debug(spec, indent=""):
  out = []
  names = {"start": "RegionStartNode()", "end": "RegionEndNode()", "exit": "EarlyExitNode()"}
  for item in spec:
    kind = item[0]
    if kind in names:
      out.append(indent + names[kind])
      continue
    text = _summary(nodes.text_of([item]))
    if kind == "dec":
      out.append(f"{indent}DEC: {text}")
    else:
      head = {"tok": "TOK", "group": "GROUP"}[kind]
      typ = "" if item[2] is None else f"({item[2]})"
      out.append(f"{indent}{head}{typ}: {text}")
      if kind == "group":
        out.extend(_debug(item[1], indent + "  "))
  return out


def run(case):
  spec = case["spec"]
  seq = nodes.to_nodes(spec)
  require_equal(helpers.render_text_contents(seq), nodes.text_of(spec), "wrong text")
  require_equal(helpers.compute_depth(seq), nodes.depth(spec), "wrong depth")
  require_equal(helpers.render_debug(seq), "\n".join(_debug(spec)), "wrong debug view")
  for item, node in zip(spec, seq):
    require_equal(helpers.render_text_contents(node), nodes.text_of([item]), "wrong node text")
    require_equal(helpers.render_debug(node), "\n".join(_debug([item])), "wrong node debug view")
    if item[0] in ("tok", "dec"):
      require_equal(node.size_for_utility(), len(item[1]), "wrong size")
    elif item[0] == "group":
      require_equal(node.size_for_utility(), 0, "wrong group size")
  prefix = tuple(case["prefix"])
  for before in (False, True):
    for after in (False, True):
      got = [(nodes.to_spec([n])[0], p.path, t.name) for n, p, t in helpers.walk_with_paths(
          seq, visit_groups_before=before, visit_groups_after=after,
          prefix=sn.NestedNodePath(prefix))]
      require_equal(got, _walk(spec, before, after, prefix), "wrong walk",
                    before=before, after=after)
  walked = [p for _, p, _ in helpers.walk_with_paths(seq, visit_groups_before=True)]
  require_equal(walked, sorted(walked), "paths are not ordered like the walk")
  return ["nontrivial"] if nodes.depth(spec) >= 2 and nodes.size(spec) >= 4 else []


def strategy():
  return st.fixed_dictionaries({
      "spec": nodes.spec_strategy(
          texts=("a", "bb", "", "\n'", "x" * 40, "y" * 80, "z" * 81, "é\"", "\n" * 45, "w\t" * 40),
          types=nodes.TYPES + [""], large=True),
      "prefix": st.lists(st.integers(0, 5), max_size=2),
  })


CHECK = Check(
    property="P13",
    targets=[
        Target("helpers", strategy, run, quick=12000, thorough=150000,
               rule="at least four nodes with at least one group"),
    ],
    assumptions=[],
)
