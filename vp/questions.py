"""Questions to the library and the answers a user sees (test-side only).

Every question is plain data; `made` holds the objects that a session keeps: parsers,
tasks, demo runners, scratch tables.  A question gives a function that looks at what the
library returned, so that the same result can be looked at again later.
"""

import contextlib
import io

from IPython import display as shown_by
import numpy as np

from vp import dags
from vp import nodes
from vp import packed_ref
from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver
from r_u_sure.decision_diagrams import gated_state_dag as gsd
from r_u_sure.parsing.pseudo_parser import stack_parser
from r_u_sure.parsing.pseudo_parser import utilities
from r_u_sure.parsing import subtokenizer
from r_u_sure.rendering import dag_annotator
from r_u_sure.rendering import rendering
from r_u_sure.rendering import simple_dag_annotator
from r_u_sure.rendering import svg_renderer
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.tree_structure import sequence_node_helpers
from r_u_sure.tree_structure import token_prob_align
from r_u_sure.tree_structure import transforms
from r_u_sure.wrappers import call_sequence_wrapper
from r_u_sure.wrappers import demo_runner
from r_u_sure.wrappers import parser_tools
from r_u_sure.wrappers import prefix_truncation_wrapper
from r_u_sure.wrappers import uncertainty_regions_wrapper


def kept(made, key, build):
  if key not in made:
    made[key] = build()
  return made[key]


def tree_picture(node):
  return [str(node.annotation), node.lo, node.hi, [tree_picture(c) for c in node.children]]


def ask_parse(q, made):
  root, tokens, types, raw, added = stack_parser.PseudoParser.parse_and_maybe_preprocess(
      q["language"], q["text"], q["spaces"])
  return lambda: [tree_picture(root), tokens, [str(t) for t in types], raw, added]


def helper(q, made):
  return kept(made, ("parser", q["language"], q["flatten"]), lambda: parser_tools.ParserHelper(
      q["language"], flatten=q["flatten"]))


def ask_nodes(q, made):
  tree = helper(q, made).parse_to_nodes(q["text"])
  return lambda: nodes.to_spec(tree)


def ask_utilities(q, made):
  del made
  text = q["text"]
  cursor = q["at"] % (len(text) + 1)
  root, _, types, raw, _ = stack_parser.PseudoParser.parse_and_maybe_preprocess(
      q["language"], text, q["spaces"])
  found = [utilities.infer_python_spaces_per_indent(text),
          utilities.find_python_function_docstrings(text),
          utilities.infer_truncation_with_fallbacks(text, cursor, q["language"]),
          utilities.infer_match_pair_truncation_index(root, raw, types, ("(", ")"), cursor),
          utilities.infer_split_truncation_index(root, raw, ("\n", ";"), cursor),
          utilities.infer_truncation_pydocstring('"""' + text, 3),
          subtokenizer.code_to_tokens_simple_lossless(text)]
  return lambda: found


def ask_transform(q, made):
  tree = helper(q, made).parse_to_nodes(q["text"])
  before = nodes.to_spec(tree)
  region = transforms.insert_region_options_around_subsequences(
      tree, allow_empty_regions=True,
      node_filter=parser_tools.allow_regions_around_pseudoparse_node)
  both = transforms.insert_early_exit(region)
  cut = transforms.truncate_prefix_at_offset(both, q["at"] % (len(q["text"]) + 1))
  packed = psn.pack(cut)
  tokens = [(t, -0.5 * i) for i, t in enumerate(q["text"].split("x"))]
  tokens = [(t + ("x" if i + 1 < len(tokens) else ""), p) for i, (t, p) in enumerate(tokens)]
  whole = psn.pack(tree)
  aligned = token_prob_align.align_token_log_probs(tokens, whole)
  return lambda: [nodes.to_spec(cut), nodes.to_spec(psn.unpack(packed)),
                  sequence_node_helpers.render_debug(cut), nodes.to_spec(tree) == before, aligned]


def ask_prune(q, made):
  dag = dags.to_dag(q["dag"])
  table = kept(made, ("table", q["scratch"]), lambda: np.full((q["scratch"],), -1, np.int32))
  if not gsd.compute_reachable_states(dag):
    return lambda: gsd.extract_state_list(dag)
  pruned = gsd.prune_to_reachable(dag)
  numbered = gsd.prune_unreachable_and_rewrite_states(dag, scratch_table=table)
  states, reachable = gsd.extract_state_list(dag), gsd.compute_reachable_states(dag)

  def look():
    # Which numbers the states get is the library's business.
    seen = {}
    for e in numbered.edges:
      for s in (e.source, e.dest):
        seen.setdefault(s, len(seen))
    renamed = [(seen[e.source], seen[e.dest]) + tuple(e)[2:] for e in numbered.edges]
    return [pruned, renamed, states, reachable]

  return look


def ask_solve(q, made):
  del made
  converted = [packed_ref.convert(spec, False, ordering=[0, 1, 2]) for spec in q["specs"]]
  system = solver.make_system(converted)
  if q["noise"] is not None:
    solver.break_symmetry_randomly(system, 0.01, random_seed=q["noise"])
  results = solver.solve_system_with_sweeps(system.data, soft_timeout=60.0)
  vector, cost = solver.greedy_extract(system.data, direction=solver.SweepDirection.FORWARD)
  mapping = solver.assignments_from_assignment_vector(system, vector)
  return lambda: [results.objective_at_step, results.variable_at_step, vector, cost, mapping]


def task(q, made):
  def build():
    if q["task"] == "calls":
      return call_sequence_wrapper.ApiCallSequenceWrapper(q["precision"], use_numba=q["compiled"])
    if q["task"] == "regions":
      return uncertainty_regions_wrapper.UncertaintyRegionsWrapper(
          effective_precision=q["precision"], use_numba=q["compiled"])
    return prefix_truncation_wrapper.PrefixByEditDistanceWrapper(
        also_insert_uncertainty_regions=q["task"] == "both",
        uncertainty_region_effective_precision=q["precision"], use_numba=q["compiled"])
  return kept(made, ("task", q["task"], q["precision"], q["compiled"]), build)


def runner(q, made):
  return kept(made, ("runner", q["task"], q["precision"], q["compiled"], q["language"]),
              lambda: demo_runner.DemoRunner(task(q, made), language=q["language"]))


def shown(fn, *args):
  del shown_by.SHOWN[:]
  out = io.StringIO()
  with contextlib.redirect_stdout(out):
    fn(*args)
  return [str(s.data) for s in shown_by.SHOWN], out.getvalue()


def ask_combine(q, made):
  run = runner(q, made)
  result = run.combine(q["context"], list(q["samples"]), prototype_index=q["at"] % len(q["samples"]))

  def look():
    answer = [nodes.to_spec(psn.unpack(result.packed_prototype)),
              [nodes.to_spec(psn.unpack(t)) for t in result.packed_targets],
              result.utility_dual_bound, result.solution_utility, result.assignment_vector,
              result.assignment_map, result.solution_info, result.opt_results.objective_at_step,
              run.get_extracted_parts(result)]
    for show in (run.show_suggestion, run.show_edits, run.show_utilities):
      answer.append(shown(show, result))
    return answer

  return look


def ask_baselines(q, made):
  run = runner(q, made)
  text = q["samples"][0]
  tokens = [(text[i:i + 3], -0.2 * (i % 5)) for i in range(0, len(text), 3)]
  results = run.build_baselines(q["context"], tokens)

  def look():
    answer = {}
    for name, result in results.items():
      answer[name] = [result.assignment_map, result.solution_info,
                      run.get_extracted_parts(result), shown(run.show_suggestion, result)]
    return [answer, shown(run.show_token_probs, q["context"], tokens, True)]

  return look


class Row(simple_dag_annotator.SimpleDAGAnnotator):

  def __init__(self, dag):
    self.states = {s: i for i, s in enumerate(gsd.extract_state_list(dag))}

  def bounds_for_state(self, state):
    return rendering.BoundingBox(100 * self.states[state], 10, 50, 20)


def ask_draw(q, made):
  del made
  dag = dags.to_dag(q["dag"])
  renderer = svg_renderer.SVGRenderer()
  dag_annotator.render_dag(dag, Row(dag), renderer, dag.edges[:2])
  return renderer.to_html


ASK = {name[4:]: fn for name, fn in list(globals().items()) if name.startswith("ask_")}


def answer(q, made):
  return ASK[q["ask"]](q, made)
