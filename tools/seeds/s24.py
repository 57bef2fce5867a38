PROPERTY = "P29"
NEEDS = "two parallel transitions between the same states, one of them emphasised"
BREAKS = "All transitions between the two states are emphasised instead of the requested one."
EDITS = [("r_u_sure/rendering/dag_annotator.py",
'''      emphasized_edges_set.add(
          Edge(
              source=edge.source,
              dest=edge.dest,
              cost=edge.cost,
              required_assignment=edge.required_assignment,
              info=None,
          )
      )
''',
'''      emphasized_edges_set.add((edge.source, edge.dest))
'''),
("r_u_sure/rendering/dag_annotator.py",
'''      infoless_edge = Edge(
          source=edge.source,
          dest=edge.dest,
          cost=edge.cost,
          required_assignment=edge.required_assignment,
          info=None,
      )
      highlight = infoless_edge in emphasized_edges_set
''',
'''      highlight = (edge.source, edge.dest) in emphasized_edges_set
''')]
DEMO = '''
import re
from r_u_sure.decision_diagrams import gated_state_dag as g
from r_u_sure.rendering import dag_annotator as d, rendering, simple_dag_annotator as s, svg_renderer
A = g.SharedVariableAssignment
edges = [g.Edge(0, 1, 1.0, A(0, 0)), g.Edge(0, 1, 2.0, A(0, 1))]
dag = g.CompleteStateDAG(0, edges, 1)
class Annotator(s.SimpleDAGAnnotator):
  def bounds_for_state(self, state):
    return rendering.BoundingBox.from_boundary(left=100.0 * state, right=100.0 * state + 50, top=0.0, bottom=50.0)
  def extra_annotations(self):
    return []
r = svg_renderer.SVGRenderer()
d.render_dag(dag=dag, annotator=Annotator(), renderer=r, emphasized_edges=[edges[0]])
text = r.to_html()
body = re.sub(r"<style.*?</style>", "", text, flags=re.S)
assert len(re.findall(r'class="[^"]*\\blowlight\\b', body)) >= 1, body
'''
