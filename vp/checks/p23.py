"""P23: solutions are rendered faithfully (regions, edit scripts, metrics)."""

import html
import html.parser
import re

from hypothesis import strategies as st

from vp import nodes
from vp import region_ref as ref
from vp.checks import p20
from vp.harness import Check, Discard, Target, require, require_close, require_equal
from r_u_sure.decision_diagrams import gated_state_dag as gsd
from r_u_sure.decision_diagrams import packed_dags
from r_u_sure.edit_distance_utility import edit_dags
from r_u_sure.edit_distance_utility import region_decisions as rd
from r_u_sure.tree_structure import packed_sequence_nodes as psn

# Tokens and decorations use different characters, so that they can be told apart.
TOKENS = ["a", "bb", "a", "<c&", "'d\"", "é漢", "k" * 30, "&lt;"]
DECORATIONS = [" ", "\n", "  ", "_", "\t", "\n\n\t"]
DECO_CHARS = set(" \n\t_")


class Spans(html.parser.HTMLParser):
  """Collects (text, classes of the enclosing spans) outside <style>."""

  def __init__(self):
    super().__init__(convert_charrefs=True)
    self.stack, self.out = [], []

  def handle_starttag(self, tag, attrs):
    self.stack.append((tag, tuple((dict(attrs).get("class") or "").split())))

  def handle_endtag(self, tag):
    require(self.stack and self.stack[-1][0] == tag, "unbalanced HTML")
    self.stack.pop()

  def handle_data(self, data):
    if any(t == "style" for t, _ in self.stack):
      return
    self.out.append((data, [c for t, cs in self.stack for c in cs]))


def spans_of(text):
  parser = Spans()
  parser.feed(text)
  parser.close()
  require(not parser.stack, "unbalanced HTML", text=text)
  return parser.out


def pieces(items, assignment):
  """[(kind, text, in region, item)] up to an early exit; empty regions as ("empty", ...)."""
  out = []
  state = dict(region=False, empty=False)

  class Stop(Exception):
    pass

  def go(level):
    for item in level:
      if item.kind in ("tok", "dec"):
        out.append((item.kind, item.text, state["region"], item))
        state["empty"] = False
      elif item.kind == "group":
        go(item.children)
      elif item.kind == "start":
        if assignment[ref.Key(item.index, ref.START)] == ref.TRUE:
          state.update(region=True, empty=True)
      elif item.kind == "end":
        if assignment[ref.Key(item.index, ref.END)] == ref.TRUE:
          if state["empty"]:
            out.append(("empty", "", True, item))
          state.update(region=False, empty=False)
      elif item.kind == "exit":
        if assignment[ref.Key(item.index, ref.EXIT)] == ref.TRUE:
          raise Stop

  try:
    go(items)
  except Stop:
    pass
  return out


def content_strategy(max_leaves):
  def fix(spec):
    out = []
    for item in spec:
      if item[0] == "tok":
        out.append(["tok", TOKENS[len(item[1]) % len(TOKENS)], item[2]])
      elif item[0] == "dec":
        out.append(["dec", DECORATIONS[len(item[1]) % len(DECORATIONS)]])
      else:
        out.append(["group", fix(item[1]), item[2]])
    return out

  return nodes.spec_strategy(texts=["x" * n for n in (1, 2, 3, 4, 0, 5, 6, 7)], kinds=("tok", "dec", "group"),
                             types=["A", "A", "B"], max_leaves=max_leaves * 2, max_children=4,
                             sizes=[3, 4, 2, max_leaves, 1, 0, 3, 4, 5]).map(fix)


def run_regions(case):
  spec = ref.insert_controls(case["base"], case["controls"])
  items = ref.index_items(spec)
  prototype = psn.pack(nodes.to_nodes(spec))
  marker = case["marker"]
  labels = set()
  for assignment in ref.sample_walks(items, False, case["flip"], 4):
    want = pieces(items, assignment)
    got = list(rd.extract_sequence_with_regions(prototype, assignment, empty_region_marker=marker))
    require_equal(
        [(t.token_or_decoration, bool(t.in_annotated_region)) for t in got],
        [(marker if k == "empty" else t, r) for k, t, r, _ in want],
        "wrong extracted sequence", prototype=spec, assignment=assignment)
    default = [(t.token_or_decoration, bool(t.in_annotated_region))
               for t in rd.extract_sequence_with_regions(prototype, assignment)]
    require_equal(default, [(t, r) for _, t, r, _ in want], "wrong sequence without markers")
    rendered = rd.render_regions_to_html(prototype, assignment, region_text_color="red")
    require("color: red" in rendered, "the colour is ignored")
    got_chars = [(c, "in_region" in classes) for text, classes in spans_of(rendered) for c in text]
    want_chars = [(c, r) for k, t, r, _ in want for c in ("︙" if k == "empty" else t)]
    require_equal(got_chars, want_chars, "wrong rendering", html=rendered)
    labels.update("empty" if k == "empty" else "region" for k, _, r, _ in want if r)
    if ref.TRUE in [v for k, v in assignment.items() if k.category == ref.EXIT]:
      labels.add("exit")
  if "region" in labels and len(want_chars) >= 3:
    labels.add("nontrivial")
  return sorted(labels)


LINE = re.compile(r"(\w+), (\w+): (.*) => (\S+)$")


def tokens_only(text):
  return "".join(c for c in text if c not in DECO_CHARS)


def _literal(text):
  import ast
  return ast.literal_eval(text)


def run_edits(case):
  prototype, target = p20.make_pair(case)
  if any(i[0] == "dec" and not set(i[1]) <= DECO_CHARS or i[0] == "tok" and set(i[1]) & DECO_CHARS
         for spec in (prototype, target) for i in walk(spec)):
    raise Discard
  items, t_items = ref.index_items(prototype), ref.index_items(target)
  params = ref.Params(case["params"])
  dag, _ = p20.build(prototype, target, case["params"])
  packed, data = edit_dags.pack_dag(gsd.prune_to_reachable(dag))
  packed_p, packed_t = psn.pack(nodes.to_nodes(prototype)), psn.pack(nodes.to_nodes(target))
  labels = set()
  target_text = nodes.text_of(target)
  for assignment in ref.sample_walks(items, False, case["flip"], 2):
    want_cost = ref.edit_cost(items, assignment, t_items, params)
    path, _ = packed_dags.constrained_best_path(packed, data, assignment)
    want = pieces(items, assignment)
    exited = ref.TRUE in [v for k, v in assignment.items() if k.category == ref.EXIT]
    p_chars = [(c, r) for k, t, r, _ in want for c in t]
    regions = sum(v == ref.TRUE for k, v in assignment.items() if k.category == ref.START)

    # The text form.
    text = edit_dags.extract_edit_sequence_text(path, packed_p, packed_t)
    lines = text.split("\n")
    require(lines[-1].startswith("FINISH (total cost: "), "no total", text=text)
    total = float(lines[-1][len("FINISH (total cost: "):-1])
    require_close(total, want_cost, "the edit script has another total cost", text=text)
    groups = []
    for line in lines[:-1]:
      match = LINE.match(line)
      require(match is not None, "unreadable edit script", text=text)
      groups.append((match[1], match[2], _literal(match[3]), float(match[4])))
    require_close(sum(g[3] for g in groups), total, "group costs do not add up", text=text)
    check_script([(a, c, t) for a, c, t, _ in groups], p_chars, target_text, exited, text)
    shown = shown_steps(path, prototype, target)
    require_equal(merged((a, c, t) for a, c, t, _ in groups), merged(shown),
                  "the edit script does not show the steps of the path", text=text)

    # The HTML form.
    prefix, marker = case["prefix"], case["edit_marker"]
    rendered = edit_dags.extract_edit_sequence_html(
        path, packed_p, packed_t, prefix=prefix, start_editing_marker=marker)
    spans = spans_of(rendered)
    got_prefix = "".join(t for t, classes in spans if "prefix" in classes)
    require_equal(got_prefix, prefix, "the prefix is not shown")
    script, markers = [], 0
    for t, classes in spans:
      if "prefix" in classes:
        continue
      if "start_editing" in classes:
        require_equal(t, marker, "wrong marker")
        markers += 1
        continue
      action = {"keep": "KEEP", "delete": "DELETE", "insert": "INSERT"}
      actions = [action[c] for c in classes if c in action]
      require_equal(len(actions), 1, "a part without a single kind of edit", html=rendered)
      confidence = [c.upper() for c in classes if c in ("high_confidence", "low_confidence")]
      script.append((actions[0], confidence[0] if confidence else "NOT_APPLICABLE", t))
    check_script(script, p_chars, target_text, exited, rendered)
    require_equal(
        merged((a, c if a != "INSERT" else "NOT_APPLICABLE", t) for a, c, t in script),
        merged(x for x in shown if x[0] in ("KEEP", "DELETE", "INSERT")),
        "the rendering does not show the steps of the path", html=rendered)
    require_equal(markers, sum(a == "START_EDITING" for a, _, _, _ in groups), "wrong number of edits shown")
    override = edit_dags.extract_edit_sequence_html(
        path, packed_p, packed_t, style_override="<style>X</style>")
    require(override.startswith("<style>X</style>") and override.count("<style>") == 1,
            "the style is not overridden")

    # The metrics.
    metrics = edit_dags.extract_edit_summary_metrics(path, packed_p, packed_t)
    require_close(sum(v for k, v in metrics.items() if k.endswith("_cost")), want_cost,
                  "the metrics have another total cost", metrics=metrics)

    def total_of(kind, *names):
      out = 0
      for key, value in metrics.items():
        if key.endswith("_" + kind):
          stem = key[:-len(kind) - 1]
          for confidence in ("HIGH_CONFIDENCE", "LOW_CONFIDENCE", "NOT_APPLICABLE"):
            if stem.endswith("_" + confidence):
              if (stem[:-len(confidence) - 1] in names or
                  (stem[:-len(confidence) - 1], confidence) in names):
                out += value
      return out

    low, high = "LOW_CONFIDENCE", "HIGH_CONFIDENCE"
    for confidence, inside in ((low, True), (high, False)):
      require_equal(
          total_of("chars", ("KEEP", confidence), ("DELETE", confidence),
                   ("PROTOTYPE_DECORATION", confidence)),
          sum(r == inside for _, r in p_chars), "wrong number of characters", metrics=metrics)
    if exited:
      require(total_of("chars", "KEEP", "INSERT", "TARGET_DECORATION") <= len(target_text),
              "too many characters")
    else:
      require_equal(total_of("chars", "KEEP", "INSERT", "TARGET_DECORATION"),
                    len(target_text), "wrong number of characters", metrics=metrics)
    require_equal(total_of("edges", "START_LOW_CONFIDENCE"), regions, "wrong number of regions")
    require_equal(total_of("edges", "EARLY_EXIT"), int(exited), "wrong number of exits")
    for kind, names, rate in (
        ("chars", [("KEEP", high)], -params.high_match), ("chars", [("KEEP", low)], -params.low_match),
        ("chars", [("DELETE", high)], params.high_delete), ("chars", [("DELETE", low)], params.low_delete),
        ("chars", ["INSERT"], params.insert), ("edges", ["START_LOW_CONFIDENCE"], params.region),
        ("edges", [("START_EDITING", high)], params.high_start),
        ("edges", [("START_EDITING", low)], params.low_start),
        ("chars", ["PROTOTYPE_DECORATION", "TARGET_DECORATION", "EARLY_EXIT"], 0.0)):
      require_close(total_of("cost", *names), rate * total_of(kind, *names),
                    "costs and counts disagree", names=names, metrics=metrics)
    for action in ("KEEP", "DELETE", "INSERT"):
      if any(a == action for a, _, _ in script):
        labels.add(action)
    if regions:
      labels.add("region")
    if exited:
      labels.add("exit")
  if {"KEEP", "DELETE"} <= labels and ("INSERT" in labels or "region" in labels):
    labels.add("nontrivial")
  return sorted(labels)


def flat_texts(spec):
  """Texts of the nodes in preorder (groups have none of their own)."""
  return [i[1] if i[0] in ("tok", "dec") else "" for i in walk(spec)]


def shown_steps(path, prototype, target):
  """The steps of a path as they are shown: decorations follow the edit before them.

  White space of the prototype counts as deleted after a deletion and as kept
  otherwise; white space of the target is left out after kept text and counts as
  inserted otherwise.
  """
  texts, t_texts = flat_texts(prototype), flat_texts(target)
  out, previous = [], None
  for edge in path:
    info = edge.info
    if info is None:
      continue
    action, confidence = info.edit_action.name, info.confidence.name
    p, t = info.prototype_node_preorder_index, info.target_node_preorder_index
    if action == "PROTOTYPE_DECORATION":
      action = "DELETE" if previous == "DELETE" else "KEEP"
      text = texts[p]
    elif action == "TARGET_DECORATION":
      if previous == "KEEP":
        continue
      action, confidence, text = "INSERT", "NOT_APPLICABLE", t_texts[t]
    elif action in ("KEEP", "DELETE"):
      text = texts[p]
    elif action == "INSERT":
      text = t_texts[t]
    else:
      text = ""
    if action not in ("START_LOW_CONFIDENCE", "START_EDITING"):
      previous = action
    out.append((action, confidence, text))
  return out


def merged(steps):
  """Neighbouring steps of the same kind joined; steps that show nothing left out."""
  out = []
  for action, confidence, text in steps:
    if not text:
      continue
    if out and out[-1][:2] == (action, confidence):
      out[-1] = (action, confidence, out[-1][2] + text)
    else:
      out.append((action, confidence, text))
  return out


def check_script(script, p_chars, target_text, exited, context):
  """script: [(action, confidence, text)]"""
  source = [(c, conf) for a, conf, t in script if a in ("KEEP", "DELETE") for c in t]
  require_equal("".join(c for c, _ in source), "".join(c for c, _ in p_chars),
                "kept and deleted parts do not spell out the prototype", script=context)
  for (c, conf), (_, inside) in zip(source, p_chars):
    require_equal(conf, "LOW_CONFIDENCE" if inside else "HIGH_CONFIDENCE",
                  "wrong confidence of a character", char=c, script=context)
  result = tokens_only("".join(t for a, _, t in script if a in ("KEEP", "INSERT")))
  want = tokens_only(target_text)
  if exited:
    require_equal(result, want[:len(result)], "kept and inserted parts are no prefix of the target",
                  script=context)
  else:
    require_equal(result, want, "kept and inserted parts do not spell out the target", script=context)


def walk(spec):
  for item in spec:
    yield item
    if item[0] == "group":
      yield from walk(item[1])


def region_cases():
  return st.fixed_dictionaries({
      "base": content_strategy(7),
      "controls": ref.controls_strategy(),
      "flip": st.integers(0, 4095),
      "marker": st.sampled_from(["@", "", "<b>"]),
  })


def edit_cases():
  payload = st.tuples(st.just("tok"), st.sampled_from(TOKENS), st.sampled_from(["A", "B"])).map(list)
  ops = st.lists(
      st.tuples(st.sampled_from(["drop", "add", "swap", "type", "wrap", "unwrap", "add"]),
                st.integers(0, 5), st.integers(0, 9), payload).map(list), max_size=4)
  return st.fixed_dictionaries({
      "base": content_strategy(5),
      "controls": ref.controls_strategy(),
      "ops": ops,
      "other": st.one_of(st.none(), st.none(), st.none(), content_strategy(4)),
      "params": st.one_of(
          ref.params_strategy(),
          st.just([1.0, 1.0, 0.5, 0.25, 0.0, 0.75, 0.5, 0.25])),
      "flip": st.integers(0, 4095),
      "prefix": st.sampled_from(["", "x = <", "def f():\n  "]),
      "edit_marker": st.sampled_from(["፠", "@"]),
  })


CHECK = Check(
    property="P23",
    targets=[
        Target("regions", region_cases, run_regions, quick=5000, thorough=100000,
               rule="a non-empty region and at least three characters of text"),
        Target("edits", edit_cases, run_edits, quick=2500, thorough=40000,
               rule="kept and deleted text, and a region or inserted text"),
    ],
    assumptions=["edit, insertion and region costs are not negative", "token texts are not empty"],
)
