"""Plain-data descriptions of node sequences and conversions (test-side only).

Spec items: ["tok", text, match_type], ["dec", text], ["start"], ["end"],
["exit"], ["group", [items], match_type].
"""

from hypothesis import strategies as st

from r_u_sure.tree_structure import sequence_nodes as sn


def to_nodes(spec):
  out = []
  for item in spec:
    kind = item[0]
    if kind == "tok":
      out.append(sn.TextTokenNode(item[1], item[2]))
    elif kind == "dec":
      out.append(sn.TextDecorationNode(item[1]))
    elif kind == "start":
      out.append(sn.RegionStartNode())
    elif kind == "end":
      out.append(sn.RegionEndNode())
    elif kind == "exit":
      out.append(sn.EarlyExitNode())
    elif kind == "group":
      out.append(sn.GroupNode(to_nodes(item[1]), item[2]))
    else:
      raise ValueError(kind)
  return out


def to_spec(nodes):
  out = []
  for node in nodes:
    if isinstance(node, sn.TextTokenNode):
      out.append(["tok", node.text_contents, node.match_type])
    elif isinstance(node, sn.TextDecorationNode):
      out.append(["dec", node.text_contents])
    elif isinstance(node, sn.RegionStartNode):
      out.append(["start"])
    elif isinstance(node, sn.RegionEndNode):
      out.append(["end"])
    elif isinstance(node, sn.EarlyExitNode):
      out.append(["exit"])
    elif isinstance(node, sn.GroupNode):
      out.append(["group", to_spec(node.children), node.match_type])
    else:
      raise AssertionError(f"not a sequence node: {node!r}")
  return out


def text_of(spec):
  out = []
  for item in spec:
    if item[0] in ("tok", "dec"):
      out.append(item[1])
    elif item[0] == "group":
      out.append(text_of(item[1]))
  return "".join(out)


def size(spec):
  return sum(1 + (size(i[1]) if i[0] == "group" else 0) for i in spec)


def depth(spec):
  return 1 + max([depth(i[1]) for i in spec if i[0] == "group"], default=0)


TYPES = [None, "A", "B"]


def spec_strategy(texts=("a", "b", "cc", "ddd", " ", "", "é\n"), kinds=("tok", "dec", "start", "end", "exit", "group"),
                  types=TYPES, max_leaves=14, max_children=5, sizes=None, large=False):
  leaf_options = []
  if "tok" in kinds:
    tok = st.tuples(st.just("tok"), st.sampled_from(list(texts)), st.sampled_from(list(types))).map(list)
    leaf_options += [tok, tok]
  if "dec" in kinds:
    leaf_options.append(st.tuples(st.just("dec"), st.sampled_from(list(texts))).map(list))
  for k in ("start", "end", "exit"):
    if k in kinds:
      leaf_options.append(st.just([k]))
  leaf = st.one_of(*leaf_options)
  if "group" not in kinds:
    return st.lists(leaf, max_size=max_leaves)

  def level(d):
    if d == 0:
      return leaf
    inner = level(d - 1)
    group = st.tuples(
        st.just("group"),
        st.integers(0, max_children).flatmap(lambda n: st.lists(inner, min_size=n, max_size=n)),
        st.sampled_from(list(types)),
    ).map(list)
    return st.one_of(leaf, leaf, group)

  top = level(3)
  count = st.integers(0, max_leaves // 2) if sizes is None else st.sampled_from(sizes)
  small = count.flatmap(
      lambda n: st.lists(top, min_size=n, max_size=n))
  if not large:
    return small

  # One case in sixteen is much longer, repeats itself, or nested much deeper.
  def wrap(t):
    inner, shells = t
    for before, after, kind in shells:
      inner = before + [["group", inner, kind]] + after
    return inner

  few = st.lists(leaf, max_size=2)
  long = st.integers(20, 40).flatmap(lambda n: st.lists(top, min_size=n, max_size=n))
  deep = st.tuples(
      small, st.integers(5, 12).flatmap(lambda n: st.lists(
          st.tuples(few, few, st.sampled_from(list(types))), min_size=n, max_size=n))).map(wrap)
  repeated = st.tuples(small, st.integers(8, 40)).map(lambda t: (t[0] * t[1])[:160])
  return st.integers(0, 47).flatmap(lambda i: {45: repeated, 46: long, 47: deep}.get(i, small))
