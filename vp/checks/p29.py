"""P29: drawings of decision graphs show the graph."""

import collections
import math
import re

from IPython import display as shown_by
from hypothesis import strategies as st

from vp import dags
from vp import gen_code
from vp import nodes
from vp import region_ref as ref
from vp import svg
from vp.checks import p15
from vp.checks import p20
from vp.harness import (Check, Discard, Target, expect_raises, require, require_close,
                        require_equal)
from r_u_sure.decision_diagrams import gated_state_dag as gsd
from r_u_sure.edit_distance_utility import constraint_dags
from r_u_sure.edit_distance_utility import edit_dags
from r_u_sure.edit_distance_utility import part_selection_dags as psd
from r_u_sure.rendering import dag_annotator
from r_u_sure.rendering import render_in_notebook
from r_u_sure.rendering import rendering
from r_u_sure.rendering import simple_dag_annotator
from r_u_sure.rendering import svg_renderer
from r_u_sure.tree_structure import packed_sequence_nodes as psn

INF = math.inf
EPS = 1e-6
Direction = rendering.PointDirection


def close(a, b):
  return all(abs(x - y) <= EPS * max(1, abs(x), abs(y)) for x, y in zip(a, b)) and len(a) == len(b)


# ---- primitives ---------------------------------------------------------------


def to_box(values):
  return rendering.BoundingBox(*values)


def draw(renderer, ops):
  for op in ops:
    kind, a = op["kind"], op
    tags, hover = tuple(a["tags"]), a["hover"]
    if kind == "box":
      renderer.label_in_box(to_box(a["box"]), a["text"], hover, a["size"], tags)
    elif kind == "label":
      renderer.label_at_point(rendering.Point(*a["point"]), a["text"], a["size"],
                              Direction[a["direction"]], hover, a["padding"], tags)
    elif kind == "container":
      renderer.container(to_box(a["box"]), tags)
    elif kind == "line":
      renderer.line([rendering.Point(*p) for p in a["points"]], hover, tags)
    elif kind == "dot":
      renderer.dot(rendering.Point(*a["point"]), hover, tags)
    else:
      with renderer.group(hover, tags):
        draw(renderer, a["inner"])


def judge_title(element, hover, with_hover):
  titles = [t.text for t in element.child("title")]
  require_equal(titles, [hover] if with_hover and hover is not None else [], "wrong hover text")


def judge_tags(element, tags):
  missing = [t for t in tags if t not in element.classes]
  require(not missing, "style tags lost", missing=missing, classes=element.classes)


def judge_label(op, texts):
  """Text on the given side of the point."""
  size = op["size"]
  x, y = op["point"]
  pad = op["padding"] * size
  ys = [t.number("y") for t in texts]
  for t in texts:
    require_close(t.number("font-size"), size, "wrong text size")
    require_equal(t.style.get("dominant-baseline"), "middle", "text is not centred on its line")
  for a, b in zip(ys, ys[1:]):
    require_close(b - a, size, "wrong line distance")
  top, bottom = ys[0] - size / 2, ys[-1] + size / 2
  name = op["direction"]
  if name.startswith("UP"):
    require_close(bottom, y - pad, "the text is not above its point", direction=name)
  elif name.startswith("DOWN"):
    require_close(top, y + pad, "the text is not below its point", direction=name)
  elif name in ("LEFT", "RIGHT"):
    require_close((top + bottom) / 2, y, "the text is not centred beside its point", direction=name)
  else:
    require(top <= y + EPS and bottom >= y - EPS, "the text is not around its point")
    require(abs((top + bottom) / 2 - y) <= size / 2 + EPS, "the text is not around its point")
  if name.endswith("LEFT"):
    want = "end", x - pad
  elif name.endswith("RIGHT"):
    want = "start", x + pad
  else:
    want = "middle", x
  for t in texts:
    require_equal(t.style.get("text-anchor"), want[0], "wrong anchor", direction=name)
    require_close(t.number("x"), want[1], "wrong side", direction=name)


def judge_drawn(elements, ops, with_hover):
  groups = [e for e in elements if e.tag == "g"]
  require_equal(len(groups), len(ops), "wrong number of items")
  for g, op in zip(groups, ops):
    kind, text = op["kind"], op.get("text")
    if kind == "group":
      judge_tags(g, op["tags"])
      judge_title(g, op["hover"], with_hover)
      judge_drawn(g.children, op["inner"], with_hover)
      continue
    shapes = g.child("rect") + g.child("path") + g.child("circle")
    texts = g.child("text")
    require_equal(len(shapes), 0 if kind == "label" else 1, "wrong shapes", op=op)
    for s in shapes:
      judge_tags(s, op["tags"])
    if kind != "container":
      judge_title(g, op["hover"], with_hover)
    if text is not None:
      require_equal([t.text for t in texts], text.split("\n"), "wrong text")
    else:
      require(not texts, "text where there is none")
    if kind in ("box", "container"):
      require(close(svg.box(shapes[0]), op["box"]), "wrong box", op=op)
    if kind == "box":
      left, top, width, height = op["box"]
      ys = [t.number("y") for t in texts]
      require_close(sum(ys) / len(ys), top + height / 2, "the text is not centred")
      for a, b in zip(ys, ys[1:]):
        require_close(b - a, op["size"], "wrong line distance")
      for t in texts:
        require_close(t.number("x"), left + width / 2, "the text is not centred")
        require_close(t.number("font-size"), op["size"], "wrong text size")
    elif kind == "label":
      for t in texts:
        judge_tags(t, op["tags"])
      judge_label(op, texts)
    elif kind == "line":
      got = svg.path_points(shapes[0])
      require(len(got) == len(op["points"]) and all(close(a, b) for a, b in zip(got, op["points"])),
              "wrong line", got=got, want=op["points"])
    elif kind == "dot":
      require(close((shapes[0].number("cx"), shapes[0].number("cy")), op["point"]), "wrong dot")


def flat_ops(ops):
  for op in ops:
    yield op
    yield from flat_ops(op.get("inner", []))


def judge_view(view, drawing, padding, extra=()):
  left, top, width, height = view
  for x, y in list(svg.extent(drawing)) + list(extra):
    require(left + padding <= x + EPS and x - EPS <= left + width - padding
            and top + padding <= y + EPS and y - EPS <= top + height - padding,
            "something is drawn outside the view", view=view, point=(x, y), padding=padding)


def run_draw(case):
  renderer = svg_renderer.SVGRenderer(case["styles"], case["hover"])
  draw(renderer, case["ops"])
  renderer.configure_style_css(".mine { fill: red; }")
  styles, drawing, view = svg.read(renderer.to_html(case["padding"]))
  require(".mine { fill: red; }" in styles, "a style is lost")
  inner = svg.drawn(drawing)
  while len(inner.children) == 1 and inner.children[0].tag == "g" and not inner.children[0].classes:
    # the group that holds everything
    inner = inner.children[0]
    break
  judge_drawn(inner.children, case["ops"], case["hover"])
  points = [op["point"] for op in flat_ops(case["ops"]) if op["kind"] == "label"]
  judge_view(view, inner, case["padding"], points)
  labels = sorted({op["kind"] for op in flat_ops(case["ops"])})
  if len(labels) >= 3:
    labels.append("nontrivial")
  return labels


def run_geometry(case):
  a, b = to_box(case["a"]), to_box(case["b"])
  for given, values in ((a, case["a"]), (b, case["b"])):
    left, top, width, height = values
    require_equal((given.right, given.bottom), (left + width, top + height), "wrong far corner")
    require_equal((given.center_point.x, given.center_point.y), (left + width / 2, top + height / 2),
                  "wrong centre")
    require_equal((given.horizontal_center, given.vertical_center),
                  (left + width / 2, top + height / 2), "wrong centre")
    again = rendering.BoundingBox.from_boundary(left=left, top=top, right=left + width,
                                                bottom=top + height)
    require_equal(again, given, "the boundary gives another box")
    u, v = case["t"]
    p = given.point_within(toward_right=u, toward_bottom=v)
    require(close((p.x, p.y), (left + u * width, top + v * height)), "wrong point within")
  u = a.union(b)
  corners = [(x, y) for v in (case["a"], case["b"])
             for x, y in ((v[0], v[1]), (v[0] + v[2], v[1] + v[3]))]
  require_equal((u.left, u.top, u.right, u.bottom),
                (min(c[0] for c in corners), min(c[1] for c in corners),
                 max(c[0] for c in corners), max(c[1] for c in corners)), "wrong union")
  require_equal(u, b.union(a), "the union depends on the order")
  first, second = rendering.Point(*case["a"][:2]), rendering.Point(*case["b"][:2])
  at = rendering.point_interpolator(first, second)
  require_equal((at(0, 0), at(1, 1)), (first, second), "wrong ends")
  p = at(*case["t"])
  require(close((p.x, p.y), (first.x + case["t"][0] * (second.x - first.x),
                             first.y + case["t"][1] * (second.y - first.y))), "wrong interpolation")
  moved = first.shift(dx=3, dy=-2)
  require_equal((moved, first.shift()), (rendering.Point(first.x + 3, first.y - 2), first), "wrong shift")
  count = case["count"]
  spread = [rendering.to_bounded_irrational(i) for i in range(count)]
  require(all(0 <= s < 1 for s in spread), "outside the unit interval", got=spread)
  gap = min((abs(x - y) for i, x in enumerate(spread) for y in spread[:i]), default=1)
  # Evenly spread numbers of a golden-ratio sequence keep about 1 / (2 * count) apart.
  require(gap >= 0.3 / count, "numbers are not spread", got=spread)
  return ["nontrivial"] if a != b else []


# ---- graphs ---------------------------------------------------------------------


class Given(dag_annotator.StateDAGAnnotator):
  """Places states and edges as the generated case says."""

  def __init__(self, dag, case):
    self.case = case
    self.states = {s: i for i, s in enumerate(gsd.extract_state_list(dag))}

  def annotate_state(self, state):
    i = self.states[state]
    spot = self.case["spots"][i % len(self.case["spots"])]
    return dag_annotator.StateAnnotation(
        to_box([spot[0] + 200 * i] + spot[1:]), f"<{state}>\n{i}", 7.0, f"state & {state}", (f"s{i}",))

  def annotate_edge(self, edge):
    kind, a, b, c, d, da, dt = self.case["shapes"][hash_of(edge) % len(self.case["shapes"])]
    return dag_annotator.ElbowEdgeAnnotation(
        primary_axis=dag_annotator.ElbowEdgeOrientation[kind], elbow_distance=a, start_alignment=b,
        text_alignment=c, end_alignment=d, display_text=label_of(edge), text_size=5.0,
        hover_text=f"edge {label_of(edge)}", style_tags=("e1", "e2"), elbow_distance_adjust=da,
        text_alignment_adjust=dt)

  def extra_annotations(self):
    for i, values in enumerate(self.case["extra"]):
      if i % 2:
        yield dag_annotator.RegionAnnotation(to_box(values), ("r",))
      else:
        yield dag_annotator.TextAnnotation(to_box(values), f"note {i} <&>", 6.0, f"hint {i}", ("t",))

  def renderer_specific_setup(self, renderer):
    renderer.configure_style_css(".setup { fill: blue; }")


def hash_of(edge):
  return sum(map(ord, label_of(edge)))


def label_of(edge):
  return f"{edge.source}-{edge.dest}:{edge.cost}{edge.required_assignment}"


class Simple(simple_dag_annotator.SimpleDAGAnnotator):

  def __init__(self, dag, case):
    self.states = {s: i for i, s in enumerate(gsd.extract_state_list(dag))}
    self.case = case

  def bounds_for_state(self, state):
    i = self.states[state]
    spot = self.case["spots"][i % len(self.case["spots"])]
    return to_box([spot[0] + 200 * (i // 2), spot[1] + 150 * (i % 2)] + spot[2:])


def key_of(edge):
  return edge.source, edge.dest, edge.cost, edge.required_assignment


def on_line(p, points):
  for (ax, ay), (bx, by) in zip(points, points[1:]):
    if (min(ax, bx) - EPS <= p[0] <= max(ax, bx) + EPS
        and min(ay, by) - EPS <= p[1] <= max(ay, by) + EPS):
      return True
  return False


def well_labelled(mark, points, dot, texts):
  """The dot is the given way along the middle segment, and the text starts next to it."""
  horizontal = mark.primary_axis == dag_annotator.ElbowEdgeOrientation.HORIZONTAL
  axis = 1 if horizontal else 0
  begin, end = points[1][axis], points[2][axis]
  size = mark.text_size
  # On a segment that is shorter than the text there is no choice.
  if abs(end - begin) > size + EPS:
    if abs(dot[axis] - (begin + mark.text_alignment * (end - begin))) > EPS * max(1, abs(dot[axis])):
      return False
  at = list(dot)
  at[axis] += mark.text_alignment_adjust
  ys = [t.number("y") for t in texts]
  return (all(abs(t.number("x") - at[0]) <= size + EPS for t in texts)
          and min(ys) - 1.5 * size - EPS <= at[1] <= max(ys) + 1.5 * size + EPS)


def judge_graph(source, dag, reachable, annotator, emphasized, with_hover, padding,
                want_lines=None):
  """The drawing shows every state and edge of the DAG once, as annotated."""
  styles, drawing, view = svg.read(source)
  everything = svg.drawn(drawing)
  judge_view(view, everything, padding)
  owner = [(g, r) for g in everything.all("g") for r in g.child("rect")]

  def summary(g, r):
    return (tuple(round(v, 6) for v in svg.box(r)), "\n".join(t.text for t in g.child("text")),
            tuple(t.text for t in g.child("title")))

  states = collections.Counter(
      summary(g, r) + ("reachable-state" in r.classes, "unreachable-state" in r.classes)
      for g, r in owner if "state-annotation" in r.classes)
  want = collections.Counter()
  all_states = []
  for e in dag.edges:
    for s in (e.source, e.dest):
      if s not in all_states:
        all_states.append(s)
  marks = {s: annotator.annotate_state(s) for s in all_states}
  for s, mark in marks.items():
    b = mark.bounds
    hover = (mark.hover_text,) if with_hover and mark.hover_text is not None else ()
    want[(tuple(round(v, 6) for v in (b.left, b.top, b.width, b.height)), mark.display_text, hover,
          s in reachable, s not in reachable)] += 1
  require_equal(states, want, "wrong states")

  lines = [g for g in everything.all("g") if "edge-annotation" in g.classes]
  require_equal(len(lines), len(dag.edges), "wrong number of edges")
  keys = None if not emphasized else {key_of(e) for e in emphasized}
  got, wanted = collections.Counter(), collections.Counter()
  spots = collections.defaultdict(list)
  for e in dag.edges:
    mark = annotator.annotate_edge(e)
    start, end = marks[e.source].bounds, marks[e.dest].bounds
    if mark.primary_axis == dag_annotator.ElbowEdgeOrientation.HORIZONTAL:
      a = start.right, start.top + mark.start_alignment * start.height
      d = end.left, end.top + mark.end_alignment * end.height
      x = a[0] + mark.elbow_distance * (d[0] - a[0]) + mark.elbow_distance_adjust
      b, c = (x, a[1]), (x, d[1])
    else:
      a = start.left + mark.start_alignment * start.width, start.bottom
      d = end.left + mark.end_alignment * end.width, end.top
      y = a[1] + mark.elbow_distance * (d[1] - a[1]) + mark.elbow_distance_adjust
      b, c = (a[0], y), (d[0], y)
    hover = (mark.hover_text,) if with_hover and mark.hover_text is not None else ()
    high = keys is not None and key_of(e) in keys
    both = e.source in reachable and e.dest in reachable
    spots[tuple((round(p[0], 4) + 0.0, round(p[1], 4) + 0.0) for p in (a, b, c, d)),
          mark.display_text].append(mark)
    # An edge of infinite cost between reachable states may be shown either way.
    wanted[(tuple((round(p[0], 4) + 0.0, round(p[1], 4) + 0.0) for p in (a, b, c, d)), mark.display_text, hover,
            tuple(sorted(mark.style_tags)), high, keys is not None and not high,
            None if both and e.cost == INF else both)] += 1
  open_lines = {k[:2] for k in wanted if k[-1] is None}
  for g in lines:
    paths, dots = g.all("path"), g.all("circle")
    require_equal((len(paths), len(dots)), (1, 1), "an edge without its line or dot")
    points = svg.path_points(paths[0])
    dot = dots[0].number("cx"), dots[0].number("cy")
    require(on_line(dot, points), "the dot is not on its line", dot=dot, points=points)
    text = "\n".join(t.text for t in g.all("text"))
    reach = "reachable-edge" in g.classes
    require(reach != ("unreachable-edge" in g.classes), "reachable and unreachable", classes=g.classes)
    line = tuple((round(p[0], 4) + 0.0, round(p[1], 4) + 0.0) for p in points)
    own = set(g.classes) - {"edge-annotation", "highlight", "lowlight", "reachable-edge",
                            "unreachable-edge", "hover_to_top"}
    key = (line, text, tuple(t.text for t in g.child("title")), tuple(sorted(own)),
           "highlight" in g.classes, "lowlight" in g.classes,
           None if (line, text) in open_lines else reach)
    got[key] += 1
    if spots.get(key[:2]):
      require(any(well_labelled(m, points, dot, g.all("text")) for m in spots[key[:2]]),
              "the label is not at its place on the line", dot=dot, points=points, text=text,
              marks=spots[key[:2]])
  require_equal(dict(got - wanted), {}, "edges drawn that are not there", missing=dict(wanted - got))
  require_equal(dict(wanted - got), {}, "edges not drawn")
  return styles, everything, owner, marks


def judge_scripts(limits, zoom):
  """The page limits the drawing's size as asked for, and zooms only if asked to."""
  scripts = [str(part) for shown in shown_by.SHOWN if isinstance(shown, shown_by.Javascript)
             for part in (shown.data, shown.url) if part]
  for name, want in zip(("maxWidth", "maxHeight"), limits or ("50em", "100em")):
    found = [v for script in scripts
             for v in re.findall(name + r"\s*=\s*[\"']([^\"']*)[\"']", script)]
    require_equal(found, [want] if want else [], "wrong size limit", name=name)
  require_equal(any("pan-zoom" in s or "svgPanZoom" in s for s in scripts), zoom,
                "wrong panning and zooming")


def run_graph(case):
  spec = case["dag"]
  dag = dags.to_dag(spec)
  reachable = dags.on_path(spec)
  if not dag.edges:
    raise Discard
  simple = case["simple"]
  if simple:
    dag = gsd.CompleteStateDAG(
        dag.initial_state,
        [e._replace(required_assignment=e.required_assignment and e.required_assignment._replace(
            value=e.required_assignment.value + case["shift"])) for e in dag.edges],
        dag.final_state)
    if case["color"]:
      colors = simple_dag_annotator.SimpleDAGAnnotator.known_colors
      dag = gsd.CompleteStateDAG(
          dag.initial_state,
          [e._replace(info={"color": colors[i % len(colors)]}) for i, e in enumerate(dag.edges)],
          dag.final_state)
    annotator = Simple(dag, case)
  else:
    annotator = Given(dag, case)
  picked = [dag.edges[i % len(dag.edges)] for i in case["emphasis"]]
  # Emphasis does not depend on the additional information.
  picked = [e._replace(info="other") for e in picked]
  given = list(dag.edges)
  if case["notebook"]:
    del shown_by.SHOWN[:]
    limits = case["limits"]
    render_in_notebook.render_dag_in_notebook(
        dag, annotator, hover_for_info=case["hover"], pan_and_zoom=case["zoom"],
        emphasized_edges=iter(picked) if picked else None,
        **({} if limits is None else {"max_width": limits[0], "max_height": limits[1]}))
    judge_scripts(limits, case["zoom"])
    pages = [s.data for s in shown_by.SHOWN if isinstance(s, shown_by.HTML)]
    require_equal(len(pages), 1, "not shown once")
    source, padding = pages[0], 0.0
  else:
    renderer = svg_renderer.SVGRenderer(with_hover_text=case["hover"])
    dag_annotator.render_dag(dag, annotator, renderer, picked if case["emphasis"] else None)
    source, padding = renderer.to_html(3.0), 3.0
  require_equal(list(dag.edges), given, "the graph was modified")
  styles, everything, owner, marks = judge_graph(
      source, dag, reachable, annotator, picked, case["hover"], padding)
  if simple:
    for s, mark in marks.items():
      require_equal((mark.display_text, mark.hover_text), (str(s), repr(s)), "wrong state text")
    for e in dag.edges:
      mark = annotator.annotate_edge(e)
      want = str(e.cost)
      if e.required_assignment:
        want += f" if {e.required_assignment.key} = {e.required_assignment.value}"
      require_equal((mark.display_text, mark.hover_text), (want, repr(e)), "wrong edge text")
      for name in ("start_alignment", "end_alignment", "elbow_distance", "text_alignment"):
        require(0 <= getattr(mark, name) <= 1, "outside its box", name=name, got=mark)
      horizontal = mark.primary_axis == dag_annotator.ElbowEdgeOrientation.HORIZONTAL
      gap = marks[e.dest].bounds.left - marks[e.source].bounds.right
      require_equal(horizontal, gap >= 0, "wrong orientation")
      if case["color"]:
        require_equal(mark.style_tags, (f"color_{e.info['color']}",), "wrong color")
        require(f".color_{e.info['color']} path" in styles, "a color without a style")
    with expect_raises(ValueError, "an unknown color was accepted"):
      annotator.annotate_edge(dag.edges[0]._replace(info={"color": "no such color"}))
  else:
    require(".setup { fill: blue; }" in styles, "the annotator's style is lost")
    notes = [(svg.box(r), "\n".join(t.text for t in g.child("text")), g.child("title"))
             for g, r in owner if "t" in r.classes or "r" in r.classes]
    require_equal(len(notes), len(case["extra"]), "wrong annotations")
    for i, ((b, text, titles), values) in enumerate(zip(notes, case["extra"])):
      require_equal([t.text for t in titles], [f"hint {i}"] if case["hover"] and not i % 2 else [],
                    "wrong hover text of an annotation")
      require(close(b, values), "wrong place of an annotation")
      require_equal(text, "" if i % 2 else f"note {i} <&>", "wrong annotation")
  labels = ["simple" if simple else "given"]
  if picked and len(dag.edges) >= 3 and len(reachable) < len(marks):
    labels.append("nontrivial")
  return labels


# ---- graphs of the utility functions ------------------------------------------------


def overlap(a, b):
  return (a.left < b.right - EPS and b.left < a.right - EPS
          and a.top < b.bottom - EPS and b.top < a.bottom - EPS)


def spec_of(dag):
  return {"initial": dag.initial_state, "final": dag.final_state,
          "edges": [[e.source, e.dest, e.cost, None, None] for e in dag.edges]}


CATEGORY_NAMES = {"REGION_SHOULD_START": "start", "REGION_SHOULD_END": "end",
                  "NODE_IN_REGION": "in", "SHOULD_EARLY_EXIT": "exit"}
VALUE_NAMES = {"TRUE": "true", "FALSE": "false", "NOT_APPLICABLE": "N/A"}


def tokens_shown(spec, part):
  """What the margin has to say about a sequence, in text order."""
  for item in spec:
    kind = item[0]
    if kind == "tok" or (kind == "dec" and not part):
      yield repr(item[1])[1:-1]
    elif kind == "group":
      if part:
        yield "Group Start"
      yield from tokens_shown(item[1], part)
      if part:
        yield "Group End"
    elif kind in ("start", "end"):
      yield {"start": "Region Start", "end": "Region End"}[kind] if part else {
          "start": "⟪", "end": "⟫"}[kind]
    elif kind == "exit":
      yield "➞|"


def judge_subproblems(data, marks, boxes):
  """One box around the states of each pair of compared sequences."""
  require_equal(len(boxes), len(data.subproblem_list), "wrong number of boxes")
  inside = collections.defaultdict(list)
  for state, mark in marks.items():
    inside[state.prototype_sequence_preorder_index, state.target_sequence_preorder_index].append(
        mark.bounds)
  for pair in data.subproblem_list:
    own = inside[pair.prototype_preorder_index, pair.target_preorder_index]
    require(any(all(x <= b.left + EPS and y <= b.top + EPS and b.right <= x + w + EPS
                    and b.bottom <= y + h + EPS for b in own) for x, y, w, h in boxes),
            "no box around a pair of sequences", pair=pair)


def run_utility(case):
  kind = case["kind"]
  controls = [c for c in case["controls"] if kind != "part" or c[0] != "exit"]
  prototype, target = p20.make_pair({**case, "controls": controls})
  packed_p, packed_t = (psn.pack(nodes.to_nodes(s)) for s in (prototype, target))
  context = gsd.adding_edge_tracebacks() if case["trace"] else None
  if context:
    context.__enter__()
  try:
    if kind == "edit":
      params = p20.parameters(case["costs"])
      dag, data = edit_dags.make_edit_dag_builder()(packed_p, packed_t, params)
      annotator = edit_dags.EditDagGraphAnnotator(
          packed_p, packed_t, data, edit_dags.EditDagRenderConfig(*case["config"]))
    elif kind == "constraint":
      dag = constraint_dags.make_constraint_dag_builder()(packed_p)
      annotator = constraint_dags.ConstraintDagGraphAnnotator(
          packed_p, constraint_dags.ConstraintDagRenderConfig(*case["config"]))
    else:
      parameters = psd.PartSelectionUtilityParameters(
          token_node_utility_fn=lambda t: psd.UtilitiesAndCostsForNode(*case["costs"][2:4]))
      dag = psd.make_selection_dag_builder(parameters)(packed_p, packed_t)
      annotator = psd.PartSelectionGraphAnnotator(
          packed_p, packed_t, psd.PartSelectionDagRenderConfig(*case["config"]))
  finally:
    if context:
      context.__exit__(None, None, None)
  if len(dag.edges) > case.get("limit", 700):
    raise Discard
  renderer = svg_renderer.SVGRenderer(with_hover_text=True)
  picked = [dag.edges[i % len(dag.edges)] for i in case["emphasis"]] if dag.edges else []
  dag_annotator.render_dag(dag, annotator, renderer, picked)
  reachable = dags.on_path(spec_of(dag))
  styles, everything, owner, marks = judge_graph(
      renderer.to_html(), dag, reachable, annotator, picked, True, 0.0)
  if kind == "edit":
    judge_subproblems(data, marks, [svg.box(r) for _, r in owner if "container" in r.classes])
  del styles, everything
  items = list(marks.items())
  for i, (s, a) in enumerate(items):
    require_equal(a.hover_text, repr(s), "wrong hover text")
    for t, b in items[:i]:
      require(not overlap(a.bounds, b.bounds), "two states in the same place", states=(s, t))
  for e in dag.edges:
    a, b = marks[e.source].bounds, marks[e.dest].bounds
    require(b.left >= a.left - EPS, "an edge that goes backwards", edge=e)
    text = annotator.annotate_edge(e).display_text
    lines = text.split("\n")
    require_close(float(lines[0]), float(e.cost), "wrong cost shown", text=text)
    want = []
    if e.required_assignment:
      want = [f"{CATEGORY_NAMES[e.required_assignment.key.category.name]}: "
              f"{VALUE_NAMES[e.required_assignment.value.name]}"]
    require_equal(lines[1:], want, "wrong assignment shown")
  # The margins show the sequences in order.
  notes = [(g.child("text"), svg.box(r), r.classes) for g, r in owner
           if "text-annotation" in r.classes and g.child("text")]
  require(not any("unexpected_node" in c for _, _, c in notes), "a node is not recognised")
  own = list(tokens_shown(prototype, kind == "part"))
  other = [] if kind == "constraint" else list(tokens_shown(target, kind == "part"))
  in_columns = min((m.bounds.left for m in marks.values()), default=0)
  across = sorted((b[0], t) for t, b, _ in ((t[0].text, b, c) for t, b, c in notes) if b[0] >= in_columns)
  down = sorted((b[1], t) for t, b, _ in ((t[0].text, b, c) for t, b, c in notes) if b[0] < in_columns)
  require_equal([t for _, t in across], own, "wrong prototype in the margin")
  require_equal([t for _, t in down], other, "wrong target in the margin")
  boxes = [rendering.BoundingBox(*b) for _, b, _ in notes]
  for i, a in enumerate(boxes):
    require(not any(overlap(a, m.bounds) for m in marks.values()), "a note hides a state")
    require(not any(overlap(a, b) for b in boxes[:i]), "two notes in the same place")
  labels = [kind]
  if len(own) >= 2 and picked and len(dag.edges) >= 6:
    labels.append("nontrivial")
  return labels


# ---- generators -----------------------------------------------------------------------


def draw_cases():
  number = st.sampled_from([0, 1, -3, 10, 2.5, 40, -7.25, 100])
  length = st.sampled_from([0, 1, 5, 12.5, 30])
  box = st.tuples(number, number, length, length).map(list)
  point = st.tuples(number, number).map(list)
  text = st.sampled_from(["a", "", "x\ny", "<b> & \"q\"", "one\ntwo\nthree", "l\n" * 9, "w" * 90, "é'", "\n", "&lt;"])
  hover = st.sampled_from([None, "h", "<i>", "a & b", ""])
  tags = st.lists(st.sampled_from(["t1", "t2", "t3"]), max_size=2, unique=True)
  size = st.sampled_from([1.0, 10.0, 12, 2.5])
  common = {"tags": tags, "hover": hover}
  leaf = st.one_of(
      st.fixed_dictionaries({"kind": st.just("box"), "box": box, "text": text, "size": size, **common}),
      st.fixed_dictionaries({
          "kind": st.just("label"), "point": point, "text": text, "size": size,
          "direction": st.sampled_from([d.name for d in Direction]),
          "padding": st.sampled_from([0.5, 0.0, 1.0, 2.0]), **common}),
      st.fixed_dictionaries({"kind": st.just("container"), "box": box, **common}),
      st.fixed_dictionaries({"kind": st.just("line"), "points": st.one_of(
          st.lists(point, min_size=1, max_size=4), st.lists(point, min_size=5, max_size=20)),
                             **common}),
      st.fixed_dictionaries({"kind": st.just("dot"), "point": point, **common}))

  def group(inner):
    return st.fixed_dictionaries({"kind": st.just("group"), "inner": inner, **common})

  level = gen_code.sized(leaf, 4)
  nested = st.one_of(leaf, leaf, group(level), group(st.lists(st.one_of(leaf, group(level)), max_size=3)))
  return st.fixed_dictionaries({
      "ops": gen_code.sized(nested, 6), "padding": st.sampled_from([0.0, 10, 2.5]),
      "hover": st.booleans(), "styles": st.booleans()})


def geometry_cases():
  number = st.integers(-40, 40).map(lambda k: k / 4)
  length = st.integers(0, 40).map(lambda k: k / 4)
  box = st.tuples(number, number, length, length).map(list)
  unit = st.integers(0, 8).map(lambda k: k / 8)
  return st.fixed_dictionaries({"a": box, "b": box, "t": st.tuples(unit, unit).map(list),
                                "count": st.integers(1, 60)})


def graph_cases(large=False):
  number = st.integers(-20, 20)
  height = st.one_of(st.integers(-100, 100), st.integers(-100, 100), st.sampled_from([-3000, 3000]))
  spot = st.tuples(number, height, st.integers(1, 60), st.integers(1, 40)).map(list)
  unit = st.integers(0, 10).map(lambda k: k / 10)
  small = st.sampled_from([0, 1, -4, 4, 30, -30])
  shape = st.tuples(st.sampled_from(["HORIZONTAL", "VERTICAL"]), unit, unit, unit, unit, small,
                    small).map(list)
  box = st.tuples(number, number, st.integers(1, 30), st.integers(1, 30)).map(list)
  return st.fixed_dictionaries({
      "dag": p15.dag_strategy(large),
      "spots": st.lists(spot, min_size=1, max_size=4),
      "shapes": st.lists(shape, min_size=1, max_size=4),
      "extra": st.lists(box, max_size=3),
      "emphasis": st.one_of(st.lists(st.integers(0, 119), max_size=5),
                            st.sampled_from([list(range(0, 120, k)) for k in (1, 2, 7)]))
                  if large else st.lists(st.integers(0, 20), max_size=5),
      "zoom": st.booleans(), "shift": st.sampled_from([0, 2, 3, 7, 50]),
      "limits": st.one_of(st.none(), st.tuples(
          st.sampled_from(["30em", "10px", None]), st.sampled_from(["20em", "7px", None])).map(list)),
      "hover": st.booleans(), "simple": st.booleans(), "color": st.booleans(),
      "notebook": st.booleans(),
  })


def utility_cases(large=False):
  if large:
    token = st.tuples(st.just("tok"), st.sampled_from(["a", "b" * 40, "<c" * 20, "'"]),
                      st.sampled_from(["A", "B"])).map(list)
    long = st.lists(token, min_size=25, max_size=60)

    def nest(t):
      inner, shells = t
      for before, after in shells:
        inner = before + [["group", inner, "A"]] + after
      return inner

    few = st.lists(token, max_size=1)
    deep = st.tuples(few, st.lists(st.tuples(few, few), min_size=4, max_size=8)).map(nest)
    base = st.sampled_from([long, deep]).flatmap(lambda s: s)
    other = st.one_of(st.lists(token, max_size=2), deep)
  else:
    base = small_base()
    other = st.one_of(st.none(), base)
  return st.fixed_dictionaries({
      "kind": st.sampled_from(["edit", "constraint", "part"]),
      "base": base,
      "controls": ref.controls_strategy(),
      "ops": ref.ops_strategy(),
      "other": other,
      "config": st.sampled_from([[], [12, 170, 20, 130, 60, 36], [5, 40, 10, 30, 20, 8]]),
      "costs": st.sampled_from([[1.0, 1.0, 0.5, 0.25, 0.0, 0.75, 5.0, 2.5],
                                [1.234567, 0.987654, 0.512345, 0.256789, 0.0, 0.751234, 1234.5678, 2.5]]),
      "emphasis": st.lists(st.integers(0, 60), max_size=6),
      "trace": st.booleans(),
      **({"limit": st.just(4000)} if large else {}),
  })


def small_base():
  return nodes.spec_strategy(texts=("a", "b", "<c", "é\n", "'", " "), kinds=("tok", "dec", "group"),
                             types=["A", "B"], max_leaves=8, max_children=3)


CHECK = Check(
    property="P29",
    targets=[
        Target("draw", draw_cases, run_draw, quick=4000, thorough=60000,
               rule="three or more kinds of drawing operation"),
        Target("geometry", geometry_cases, run_geometry, quick=3000, thorough=40000,
               rule="two different boxes"),
        Target("graph", graph_cases, run_graph, quick=2500, thorough=40000,
               rule="some edges emphasised, at least three edges, some states unreachable"),
        Target("utility", utility_cases, run_utility, quick=500, thorough=8000,
               rule="two or more tokens, six or more edges, some emphasised"),
        Target("largegraph", lambda: graph_cases(True), run_graph, quick=150, thorough=2500,
               rule="some edges emphasised, at least three edges, some states unreachable"),
        Target("largeutility", lambda: utility_cases(True), run_utility, quick=40, thorough=700,
               rule="two or more tokens, six or more edges, some emphasised"),
    ],
    assumptions=[
        "IPython is not installed: a stand-in records what is displayed",
        "the horizontal extent of text depends on fonts and is not judged",
    ],
)
