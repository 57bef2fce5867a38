"""Reference semantics of region decisions and of the edit-distance utility.

Independent of the DAG construction: decisions are simulated as a walk over the
prototype, and costs are computed from chains of matched pairs and the gaps
between them.
"""

import itertools
import math

from hypothesis import strategies as st

from vp import nodes
from vp.harness import Discard
from r_u_sure.edit_distance_utility import region_decisions as rd

INF = math.inf
START = rd.DecisionCategory.REGION_SHOULD_START
END = rd.DecisionCategory.REGION_SHOULD_END
IN = rd.DecisionCategory.NODE_IN_REGION
EXIT = rd.DecisionCategory.SHOULD_EARLY_EXIT
TRUE, FALSE, NA = rd.DecisionValue.TRUE, rd.DecisionValue.FALSE, rd.DecisionValue.NOT_APPLICABLE
Key = rd.DecisionKey

_CATEGORY = {"tok": IN, "group": IN, "start": START, "end": END, "exit": EXIT}


class Item:

  def __init__(self, raw, index):
    self.kind = raw[0]
    self.text = raw[1] if self.kind in ("tok", "dec") else ""
    self.type = raw[2] if self.kind in ("tok", "group") else None
    self.index = index
    self.children = []

  @property
  def content(self):
    return self.kind in ("tok", "group")


def index_items(spec):
  """Items with their preorder indices."""
  counter = itertools.count()

  def go(level):
    out = []
    for raw in level:
      item = Item(raw, next(counter))
      if item.kind == "group":
        item.children = go(raw[1])
      out.append(item)
    return out

  return go(spec)


def all_keys(items):
  out = []
  for item in items:
    if item.kind in _CATEGORY:
      out.append(Key(item.index, _CATEGORY[item.kind]))
    out.extend(all_keys(item.children))
  return sorted(out)


def _events(items):
  for item in items:
    yield item, False
    if item.kind == "group":
      yield from _events(item.children)
      yield item, True


def walks(items, constrained, flip=0, budget=20000, regions=True):
  """Yields every valid assignment {key: value} (absent keys are not applicable).

  constrained: regions have to end in the sequence they started in.
  flip: bits that determine which option is tried first.
  """
  events = list(_events(items))
  steps = [0]

  def go(pos, depth, region, assignment, bits):
    # region: None, or the depth at which the current region started.
    steps[0] += 1
    if steps[0] > budget:
      raise Discard
    if pos == len(events):
      if region is None:
        yield dict(assignment)
      return
    item, closing = events[pos]
    if closing:
      if not (constrained and region == depth):
        yield from go(pos + 1, depth - 1, region, assignment, bits)
      return
    if item.kind == "dec":
      yield from go(pos + 1, depth, region, assignment, bits)
      return
    key = Key(item.index, _CATEGORY[item.kind])
    if item.kind in ("tok", "group"):
      options = [(FALSE if region is None else TRUE, region)]
    elif item.kind == "start":
      options = [(FALSE, None), (TRUE, depth)] if region is None else [(NA, region)]
    elif item.kind == "end":
      if region is None:
        options = [(NA, None)]
      elif constrained and region != depth:
        options = [(FALSE, region)]
      else:
        options = [(FALSE, region), (TRUE, None)]
    else:
      options = [(FALSE, region), (TRUE, "exit")]
    if len(options) == 2:
      if bits & 1:
        options.reverse()
      bits = (bits >> 1) | ((bits & 1) << 11)
    for value, after in options:
      assignment[key] = value
      if after == "exit":
        yield dict(assignment)
      else:
        yield from go(pos + 1, depth + (item.kind == "group"), after, assignment, bits)
      del assignment[key]

  yield from go(0, 0, None, {}, flip)


def sample_walks(items, constrained, flip, count=3):
  """A few valid, complete assignments that differ early on."""
  seen = []
  for k in range(count):
    bits = (flip * (2 * k + 1) + k * 1365) & 4095
    for assignment in itertools.islice(walks(items, constrained, bits), 1 + k % 2):
      assignment = complete(items, assignment)
      if assignment not in seen:
        seen.append(assignment)
  return seen


def complete(items, assignment):
  return {k: assignment.get(k, NA) for k in all_keys(items)}


def is_valid(items, assignment, constrained):
  """Whether a complete assignment is a valid walk."""
  depth, region, exited = 0, None, False
  for item, closing in _events(items):
    if closing:
      if not exited and constrained and region == depth:
        return False
      depth -= 1
      continue
    if item.kind == "dec":
      continue
    value = assignment[Key(item.index, _CATEGORY[item.kind])]
    if exited:
      if value != NA:
        return False
    elif item.kind in ("tok", "group"):
      if value != (FALSE if region is None else TRUE):
        return False
    elif item.kind == "start":
      if (region is None) != (value in (TRUE, FALSE)):
        return False
      if value == TRUE:
        region = depth
    elif item.kind == "end":
      if region is None:
        if value != NA:
          return False
      elif value == TRUE:
        if constrained and region != depth:
          return False
        region = None
      elif value != FALSE:
        return False
    else:
      if value == NA:
        return False
      exited = value == TRUE
    if item.kind == "group":
      depth += 1
  return exited or region is None


class Params:
  NAMES = ("high_match", "high_delete", "low_match", "low_delete", "insert", "region",
           "high_start", "low_start")

  def __init__(self, values):
    for name, value in zip(self.NAMES, values):
      setattr(self, name, value)


def edit_cost(items, assignment, target, params):
  """Cheapest cost of turning the decided prototype into a prefix of the target."""
  # Confidence before each position of each level; where the exit is.
  low_before = {}
  exit_chain = []  # [(level id, position)] from the root down to the exit
  regions = [0]

  class Stop(Exception):
    pass

  def scan(level_id, level, low):
    for i, item in enumerate(level):
      low_before[level_id, i] = low
      exit_chain.append((level_id, i))
      if item.kind == "start" and assignment[Key(item.index, START)] == TRUE:
        low = True
        regions[0] += 1
      elif item.kind == "end" and assignment[Key(item.index, END)] == TRUE:
        low = False
      elif item.kind == "exit" and assignment[Key(item.index, EXIT)] == TRUE:
        raise Stop
      elif item.kind == "group":
        low = scan(item.index, item.children, low)
      exit_chain.pop()
    low_before[level_id, len(level)] = low
    return low

  try:
    scan(-1, items, False)
  except Stop:
    pass
  exits = dict(exit_chain)

  def item_low(level_id, i):
    return low_before[level_id, i]

  def delete_all(level_id, level):
    """(cost of deleting everything up to the exit)"""
    total = 0.0
    for i, item in enumerate(level):
      if exits.get(level_id) == i and item.kind == "exit":
        return total
      total += delete_one(level_id, i, item)
      if exits.get(level_id) == i:
        return total
    return total

  def delete_one(level_id, i, item):
    if item.kind == "tok":
      rate = params.low_delete if item_low(level_id, i) else params.high_delete
      return rate * len(item.text)
    if item.kind == "group":
      return delete_all(item.index, item.children)
    return 0.0

  def insert_one(item):
    if item.kind == "tok":
      return params.insert * len(item.text)
    return sum(insert_one(c) for c in item.children)

  def gap(level_id, level, i1, i2, inserted, removed):
    """Cost of the edit between two matches: removing level[i1:i2], inserting `inserted`."""
    if not any(x.content for x in removed) and not any(x.content for x in inserted):
      return 0.0
    # The edit may start anywhere before the first removed content.
    last = next((i for i in range(i1, i2) if level[i].content), i2)
    start = min(params.low_start if low_before[level_id, i] else params.high_start
                for i in range(i1, last + 1))
    removal = sum(delete_one(level_id, i, level[i]) for i in range(i1, i2))
    return start + removal + sum(insert_one(x) for x in inserted)

  memo = {}

  def level_cost(level_id, level, t_id, t_level):
    key = (level_id, t_id)
    if key in memo:
      return memo[key]
    stop = exits.get(level_id)
    n = len(level) if stop is None else stop + 1
    # best[i, j]: everything before prototype item i and target item j is done,
    # and the last thing that happened was a match (or the start).
    best = {(0, 0): 0.0}
    answer = INF
    for i1 in range(n + 1):
      for j1 in range(len(t_level) + 1):
        so_far = best.get((i1, j1))
        if so_far is None:
          continue
        # Finish from here.
        if stop is None:
          end = gap(level_id, level, i1, n, t_level[j1:], level[i1:n])
          answer = min(answer, so_far + end)
        elif i1 <= stop:
          # Nothing has to be inserted after an early exit.
          upto = stop if level[stop].kind == "exit" else stop + 1
          end = gap(level_id, level, i1, upto, [], level[i1:upto])
          answer = min(answer, so_far + end)
        # Match one more pair.
        for i2 in range(i1, n):
          for j2 in range(j1, len(t_level)):
            a, b = level[i2], t_level[j2]
            if a.kind != b.kind or not a.content or a.type != b.type:
              continue
            if a.kind == "tok":
              if a.text != b.text:
                continue
              rate = params.low_match if item_low(level_id, i2) else params.high_match
              here = -rate * len(a.text)
            else:
              here = level_cost(a.index, a.children, b.index, b.children)
            total = so_far + here + gap(level_id, level, i1, i2, t_level[j1:j2], level[i1:i2])
            if a.kind == "group" and i2 == stop:
              answer = min(answer, total)  # exited inside the group
            else:
              best[i2 + 1, j2 + 1] = min(best.get((i2 + 1, j2 + 1), INF), total)
    memo[key] = answer
    return answer

  return level_cost(-1, items, -1, target) + params.region * regions[0]


# ---- generators ------------------------------------------------------------

TEXTS = ["a", "bb", "a", "ccc", ""]
# Texts whose length, case, script or white space could be taken for another's.
STRANGE = ["a", "A", " a", "a ", "\t", "\n", "é", "e\u0301", "漢字", "ß", "SS", "\U0001f600", "a\tb", ""]
LONG = ["abcdefghij_abcdefghij_abcdefghij_0", "abcdefghij_abcdefghij_abcdefghij_1", "a" * 12,
        "a" * 70, "bb", "longer_name"]
KINDS = ["A", "a", "A ", "", "BRACKETS", "BRACKETED", "UNBRACKETED"]


def content_strategy(max_leaves=8, decorations=True, max_children=4, large=False):
  kinds = ("tok", "dec", "group") if decorations else ("tok", "group")

  def of(texts, types, sizes):
    return nodes.spec_strategy(texts=texts, kinds=kinds, types=types,
                               max_leaves=max_leaves * 2, max_children=max_children, sizes=sizes)

  sizes = ([6, 8, 10, 12] if large else
           [2, 3, 4, max_leaves - 2, max_leaves, max_leaves - 1, 1, 3, 4, 5, 0, 2])
  plain = of(TEXTS, ["A", "A", "B"], sizes)
  named = of(TEXTS, ["BRACKETED", "BRACKETED", "B"], sizes)
  options = [plain] * 3 + [named] * 2 + [of(STRANGE, ["A", "A", "B"], sizes), of(LONG, ["A", "A", "B"], sizes),
                           of(TEXTS + STRANGE[:4], KINDS, sizes),
                           of(TEXTS[:2], KINDS[4:], sizes)]
  if large:
    flat = st.integers(13, 19).flatmap(lambda n: st.lists(
        st.one_of(*[st.tuples(st.just("tok"), st.sampled_from(TEXTS), st.sampled_from(["A", "B"])).map(list),
                    st.tuples(st.just("dec"), st.sampled_from(TEXTS)).map(list)]),
        min_size=n, max_size=n))

    def wrap(t):
      inner, shells = t
      for before, after, kind in shells:
        inner = before + [["group", inner, kind]] + after
      return inner

    few = of(TEXTS, ["A"], [0, 1, 1])
    deep = st.tuples(of(TEXTS, ["A", "A", "B"], [1, 2, 3]), st.integers(3, 7).flatmap(
        lambda n: st.lists(st.tuples(few, few, st.sampled_from(["A", "A", "B"])),
                           min_size=n, max_size=n))).map(wrap)
    options += [flat, deep]
  return st.sampled_from(range(len(options))).flatmap(lambda i: options[i])


def _levels(spec):
  yield spec
  for item in spec:
    if item[0] == "group":
      yield from _levels(item[1])


def copy_spec(spec):
  return [[i[0], copy_spec(i[1]), i[2]] if i[0] == "group" else list(i) for i in spec]


def insert_controls(spec, controls):
  """controls: [(kind, level choice, position choice)]; a "pair" is a start and a later end."""
  spec = copy_spec(spec)
  for kind, level, position in controls:
    levels = list(_levels(spec))
    seq = levels[level % len(levels)]
    if kind == "pair":
      first = position % (len(seq) + 1)
      room = len(seq) - first
      last = first + (1 + (position // 3 + level) % room if room else 0)
      if position == 11:
        last = first
      seq.insert(last, ["end"])
      seq.insert(first, ["start"])
    else:
      seq.insert(position % (len(seq) + 1), [kind])
  return spec


def other_kind(kind, choice):
  """A different kind, often one that has much in common with this one."""
  long = "LEAF_OF_A_TREE_" + kind
  return ["B" if kind == "A" else "A", "B" if kind == "A" else "A", kind + "_", "UN" + kind,
          kind.swapcase() if kind.swapcase() != kind else kind + "0", long][choice % 6]


def mutate(spec, ops):
  """ops: [(op, level choice, position choice, payload)]"""
  spec = copy_spec(spec)
  for op, level, position, payload in ops:
    levels = list(_levels(spec))
    seq = levels[level % len(levels)]
    if op == "add":
      seq.insert(position % (len(seq) + 1), list(payload))
      continue
    if not seq:
      continue
    i = position % len(seq)
    if op == "drop":
      del seq[i]
    elif op == "swap" and len(seq) > 1:
      j = (i + 1) % len(seq)
      seq[i], seq[j] = seq[j], seq[i]
    elif op == "text" and seq[i][0] in ("tok", "dec"):
      seq[i][1] = payload[1] + "x"
    elif op == "case" and seq[i][0] == "tok":
      seq[i][1] = seq[i][1].swapcase() if position % 2 else seq[i][1] + " "
    elif op == "type" and seq[i][0] in ("tok", "group"):
      seq[i][2] = other_kind(seq[i][2], level + position)
    elif op == "wrap":
      seq[i] = ["group", [seq[i]], payload[2]]
    elif op == "unwrap" and seq[i][0] == "group":
      seq[i:i + 1] = seq[i][1]
  return spec


def ops_strategy(max_size=4, reach=1):
  payload = st.tuples(st.just("tok"), st.sampled_from(TEXTS), st.sampled_from(["A", "B"])).map(list)
  return st.lists(
      st.tuples(st.sampled_from(["drop", "add", "text", "swap", "type", "wrap", "unwrap", "drop", "add", "case"]),
                st.integers(0, 6 * reach - 1), st.integers(0, 10 * reach - 1), payload).map(list),
      max_size=max_size)


def controls_strategy(kinds=("start", "end", "pair", "pair", "exit"), max_size=5, reach=1):
  sizes = [2, 3, 1, max_size, max_size - 1, 2, 3, 2, 1, 0]
  if reach > 1:
    sizes = [max_size - i for i in range(5)]
  return st.sampled_from(sizes).flatmap(lambda n: st.lists(
      st.tuples(st.sampled_from(list(kinds)), st.integers(0, 6 * reach - 1),
                st.integers(0, 12 * reach - 1)).map(list),
      min_size=n, max_size=n))


def params_strategy():
  c = st.sampled_from([0.0, 0.25, 0.5, 1.0, 2.0, 3.0])
  u = st.sampled_from([1.0, 0.5, 2.0, 0.0, -0.5])
  r = st.sampled_from([0.0, 0.25, 0.5, 1.0, 2.0, 3.0, -0.5])  # a reward per region is possible
  return st.tuples(u, c, u, c, c, r, c, c).map(list)
