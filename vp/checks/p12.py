"""P12: packing a node tree is lossless and all its index structures agree."""

from hypothesis import strategies as st

import numba

from vp import nodes
from vp.harness import Check, Target, expect_raises, require, require_equal
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.tree_structure import sequence_node_helpers as helpers
from r_u_sure.tree_structure import sequence_nodes as sn

Cat = psn.PackedSequenceNodeCategory
_CATS = {"tok": Cat.TEXT_TOKEN_NODE, "dec": Cat.TEXT_DECORATION_NODE,
         "start": Cat.REGION_START_NODE, "end": Cat.REGION_END_NODE,
         "exit": Cat.EARLY_EXIT_NODE, "group": Cat.GROUP_NODE}


def preorder(spec, path=()):
  """[(path, item)] with groups before their children."""
  out = []
  for k, item in enumerate(spec):
    out.append((path + (k,), item))
    if item[0] == "group":
      out.extend(preorder(item[1], path + (k,)))
  return out


def check_storage(storage, spec):
  order = preorder(spec)
  index_of = {p: i for i, (p, _) in enumerate(order)}
  require_equal(len(storage.preorder_traversal), len(order), "wrong number of nodes")
  seen = {}
  for i, (path, item) in enumerate(order):
    node_id = storage.preorder_traversal[i]
    require_equal(node_id.preorder_index, i, "wrong preorder index", path=path)
    require_equal(node_id.category, _CATS[item[0]], "wrong category", path=path)
    if item[0] in ("tok", "dec", "group"):
      key = (item[0], node_id.index_in_category)
      require(key not in seen, "two nodes share their storage", path=path)
      seen[key] = path
      if item[0] == "tok":
        node = storage.text_token_nodes[node_id.index_in_category]
        require_equal((node.text_contents, node.match_type), (item[1], item[2]), "wrong token")
      elif item[0] == "dec":
        node = storage.text_decoration_nodes[node_id.index_in_category]
        require_equal(node.text_contents, item[1], "wrong decoration")
      else:
        node = storage.group_nodes[node_id.index_in_category]
        require_equal(node.match_type, item[2], "wrong group type")
        require_equal(
            [c.preorder_index for c in node.children_ids],
            [index_of[path + (k,)] for k in range(len(item[1]))], "wrong children")
        require_equal(list(node.children_ids),
                      [storage.preorder_traversal[c.preorder_index] for c in node.children_ids],
                      "child ids differ from the traversal")
    require_equal(storage.level_from_preorder[i], len(path) - 1, "wrong level", path=path)
    position = storage.parents_and_offsets_from_preorder[i]
    parent = index_of[path[:-1]] if len(path) > 1 else -1
    require_equal((position.parent_preorder_index, position.index_of_child_in_parent),
                  (parent, path[-1]), "wrong position in parent", path=path)
    require_equal(storage.path_from_preorder_index(i).path, path, "wrong path")
    require_equal(storage.node_id_from_node_path(sn.NestedNodePath(path)), node_id,
                  "wrong node for path", path=path)
    text = nodes.text_of([item])
    require_equal(psn.render_text_contents_of_node(node_id, storage), text, "wrong node text")
  require_equal(list(storage.root_sequence),
                [storage.preorder_traversal[index_of[(k,)]] for k in range(len(spec))],
                "wrong root sequence")
  require_equal(storage.depth, max([len(p) for p, _ in order], default=1), "wrong depth")
  require_equal(psn.render_text_contents_of_list(list(storage.root_sequence), storage),
                nodes.text_of(spec), "wrong text")


def _in_order(spec, strip, path=()):
  out = []
  for k, item in enumerate(spec):
    here = path + (k,)
    if item[0] == "group":
      out.append(("BEFORE_GROUP", here))
      out.extend(_in_order(item[1], strip, here))
      out.append(("AFTER_GROUP", here))
    elif not (strip and item[0] == "dec"):
      out.append(("LEAF", here))
  return out


@numba.njit
def _jitted_in_order(storage, strip):
  return psn.in_order_traversal(storage, strip)


def run(case):
  spec = case["spec"]
  original = nodes.to_nodes(spec)
  for typed in (False, True):
    if typed:
      storage = psn.pack(original, as_numba_typed=True,
                         match_type_numba_type=numba.typeof("x"))
    else:
      storage = psn.pack(original)
    check_storage(storage, spec)
    require_equal(nodes.to_spec(psn.unpack(storage)), spec, "unpack(pack(x)) != x")
    index_of = {p: i for i, (p, _) in enumerate(preorder(spec))}
    for strip in (False, True):
      want = [(c, index_of[p]) for c, p in _in_order(spec, strip)]
      got = [(i.category.name, i.node_id.preorder_index)
             for i in psn.in_order_traversal(storage, strip)]
      require_equal(got, want, "wrong in-order traversal", strip=strip)
      got = [(i.category.name, i.node_id.preorder_index)
             for i in _jitted_in_order(storage, strip)]
      require_equal(got, want, "wrong in-order traversal in compiled mode", strip=strip)
  require_equal(nodes.to_spec(original), spec, "the input was modified")
  # Paths that do not exist are rejected.
  bad = tuple(case["path"])
  paths = {p for p, _ in preorder(spec)}
  item_at = dict(preorder(spec))
  is_sequence = bad == () or (bad in paths and item_at[bad][0] == "group")
  if is_sequence:
    got = storage.subsequence_from_node_path(sn.NestedNodePath(bad))
    want = spec if bad == () else item_at[bad][1]
    require_equal(len(got), len(want), "wrong subsequence")
  else:
    with expect_raises(ValueError, f"invalid sequence path {bad} accepted"):
      storage.subsequence_from_node_path(sn.NestedNodePath(bad))
  return ["nontrivial"] if nodes.depth(spec) >= 2 and nodes.size(spec) >= 4 else []


def strategy():
  return st.fixed_dictionaries({
      "spec": nodes.spec_strategy(types=nodes.TYPES + [""], large=True),
      "path": st.lists(st.integers(-1, 4), max_size=3),
  })


CHECK = Check(
    property="P12",
    targets=[
        Target("pack", strategy, run, quick=10000, thorough=120000,
               rule="at least four nodes with at least one group"),
    ],
    assumptions=[
        "numba is not installable here: compiled mode runs the numba overloads as Python",
    ],
)
