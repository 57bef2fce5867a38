"""P28: the demo runner answers from the user's own context and samples, end to end."""

import contextlib
import html
import io
import itertools
import math
import re

from IPython import display as shown_by
from hypothesis import strategies as st
from matplotlib import pyplot as plotted_by

from vp import corpus
from vp import nodes
from vp import region_ref as ref
from vp import wrap
from vp.checks import p11
from vp.checks import p14
from vp.checks import p23
from vp.checks import p26
from vp.checks import p27
from vp.harness import Check, Discard, Target, require, require_close, require_equal
from r_u_sure.wrappers import demo_runner

INF = math.inf


def made_for(case):
  if case["mode"] == "calls":
    return p27.wrapper(case["params"][0], False)
  return wrap.wrapper(case["mode"], *case["params"], False)


def runner_for(case):
  if case["language"] == "python":  # the default
    return demo_runner.DemoRunner(made_for(case))
  return demo_runner.DemoRunner(made_for(case), language=case["language"])


def expected(case, text, context):
  """(annotated prototype, target) that the text after the context stands for."""
  location = len(context)
  tree_spec = nodes.to_spec(wrap.parse(case["language"], context + text))
  if case["mode"] == "calls":
    spec = p27.expected_tree(tree_spec, location)
    return spec, p27.without_control(spec)
  return (wrap.expected_prototype(tree_spec, case["mode"], location),
          p11.ref_truncate(tree_spec, location))


def cost_of(case, items, assignment, target):
  if case["mode"] == "calls":
    return p27.selection_cost(items, assignment, target, case["params"][0])
  return ref.edit_cost(items, assignment, target, wrap.params_of(*case["params"]))


def observed(fn, *args, **kwargs):
  """(displayed HTML sources, printed text, figures) of a call."""
  del shown_by.SHOWN[:]
  del plotted_by.FIGURES[:]
  out = io.StringIO()
  with contextlib.redirect_stdout(out):
    fn(*args, **kwargs)
  return [s.data for s in shown_by.SHOWN], out.getvalue(), list(plotted_by.FIGURES)


def samples_of(case):
  context, prototype, targets = wrap.texts_of(case)
  samples = list(targets)
  index = case["at"] % (len(samples) + 1)
  samples.insert(index, prototype)
  return context, samples, index


def run_combine(case):
  context, samples, index = samples_of(case)
  wanted = [expected(case, s, context) for s in samples]
  spec = wanted[index][0]
  if nodes.size(spec) > 60:
    raise Discard
  runner = runner_for(case)
  given = list(samples)
  if index == 0 and case["default"]:
    result = runner.combine(context, samples)
  else:
    result = runner.combine(context, samples, prototype_index=index)
  require_equal(samples, given, "the samples were modified")
  require_equal(wrap.unpacked(result.packed_prototype), spec, "wrong prototype", samples=samples)
  require_equal([wrap.unpacked(t) for t in result.packed_targets], [t for _, t in wanted],
                "wrong targets", samples=samples)
  items = ref.index_items(spec)
  goals = [ref.index_items(t) for _, t in wanted]
  keys = ref.all_keys(items)
  labels = [case["mode"]]
  shows = [runner.show_suggestion, runner.show_edits, runner.show_utilities,
           runner.show_optimization_details]

  if result.assignment_map is None:
    require(len(keys) <= 1, "no answer for a suggestion with decisions", samples=samples)
    require(result.solution_info is None and result.assignment_vector is None,
            "an empty result with a solution")
    require(math.isnan(result.solution_utility) and math.isnan(result.utility_dual_bound),
            "an empty result with a utility")
    require(runner.get_extracted_parts(result) is None, "parts of an empty result")
    for show in shows:
      html_shown, text, figures = observed(show, result)
      require(not html_shown and not figures and text.strip(), "the user is not told")
      require_equal(text.strip(), demo_runner.EMPTY_RESULT_MESSAGE, "the user is not told")
    return labels + ["empty"]

  assignment = dict(result.assignment_map)
  require_equal(sorted(assignment), keys, "the solution does not decide everything")
  utility, bound = float(result.solution_utility), float(result.utility_dual_bound)
  require(utility > -INF, "the suggestion is impossible")
  require(ref.is_valid(items, assignment, True), "the suggestion is not valid", got=assignment)
  costs = [cost_of(case, items, assignment, g) for g in goals]
  mean = sum(costs) / len(costs)
  require_close(utility, -mean, "the reported utility is not the average over the samples",
                context=context, samples=samples, index=index)
  require(bound >= utility - 1e-6 * max(1, abs(utility)), "the bound is below the solution",
          bound=bound, utility=utility)
  for other in ref.sample_walks(items, True, case["flip"], 2):
    value = -sum(cost_of(case, items, other, g) for g in goals) / len(goals)
    require(bound >= value - 1e-6 * max(1, abs(value)), "the bound is below another suggestion",
            bound=bound, value=value, other=other)
  if abs(bound - utility) < 1e-6:
    labels.append("tight")
    if case["mode"] == "calls":
      require(utility >= -1e-6, "worse than suggesting nothing")
  vector = [int(v) for v in result.assignment_vector]
  require_equal(len(vector), len(keys), "wrong number of decisions")

  info = result.solution_info
  require_equal(len(info["sample_system_costs_unsorted"]), len(samples), "wrong number of samples")
  for a, b in zip(info["sample_system_costs_unsorted"], costs):
    require_close(float(a), b, "wrong cost of a sample")

  # What is shown.
  wanted_parts = p23.pieces(items, assignment)
  judge_parts(runner, result, wanted_parts)
  html_shown, text, _ = observed(runner.show_suggestion, result)
  require_equal((html_shown, text), ([runner.wrapper.render_solution_html(
      prototype=result.packed_prototype, context_info=result.context_info,
      assignments=assignment)], ""), "another suggestion is shown")
  judge_html(case, context, html_shown[0], wanted_parts)
  html_shown, text, _ = observed(runner.show_edits, result)
  require_equal(len(html_shown), 1, "not shown")
  require_equal(re.findall(r"Target (\d+)", re.sub("<[^>]*>", "", html_shown[0])),
                [str(i) for i in range(len(samples))], "wrong targets shown")
  require_equal(html_shown[0], runner.wrapper.render_pairwise_matching_html(
      prototype=result.packed_prototype, context_info=result.context_info,
      targets=result.packed_targets, system=result.sample_system, assignments=assignment),
                "other edits are shown")
  html_shown, text, _ = observed(runner.show_utilities, result)
  require(not html_shown, "utilities shown as HTML")
  lines = [re.fullmatch(r"Target (\d+): (\S+)", line) for line in text.strip().split("\n")]
  require(all(lines), "unreadable utilities", text=text)
  require_equal([int(m.group(1)) for m in lines], list(range(len(samples))), "wrong targets")
  for m, cost in zip(lines, costs):
    require_close(float(m.group(2)), -cost, "wrong utility shown", tol=2e-6)
  judge_plots(runner, result, bound, utility)

  if any(v == ref.TRUE for v in assignment.values()):
    labels.append("annotated")
    if len(set(samples)) >= 2:
      labels.append("nontrivial")
  return labels


def judge_parts(runner, result, wanted_parts):
  """Maximal groups of equal confidence, which together are the text that is kept."""
  groups = runner.get_extracted_parts(result)
  want = [("".join(t for _, t, _, _ in part), bool(r))
          for r, part in itertools.groupby(wanted_parts, lambda p: p[2])]
  require_equal([(t, bool(r)) for t, r in groups], want, "wrong parts")


def judge_html(case, context, source, wanted_parts):
  chars = [(c, "in_region" in classes)
           for text, classes in p23.spans_of(source.replace("<br>", "")) for c in text]
  want = [] if case["mode"] == "calls" else [(c, False) for c in context]
  want += [(c, r) for _, t, r, _ in wanted_parts for c in t]
  require_equal([c for c in chars if c[0] != "︙"], want, "another text is shown", html=source)


def judge_plots(runner, result, bound, utility):
  html_shown, text, figures = observed(runner.show_optimization_details, result)
  require(not html_shown and not text, "details printed")
  require_equal(len(figures), 1, "no figure")
  steps = [-float(v) for v in result.opt_results.objective_at_step]
  sweeps = [-float(v) for v in result.opt_results.objective_at_sweep]
  got = [line for axes in figures[0].axes for line in axes.lines]
  require_equal(got, [
      ([float(i) for i in range(len(steps))], steps),
      ([float(v) for v in result.opt_results.variable_at_step], steps),
      ([float(v) for v in result.opt_results.time_at_sweep], sweeps),
  ], "wrong curves")
  require_equal(steps[-1], bound, "the curve does not end in the bound")
  for axes in figures[0].axes:
    require_equal(axes.levels, [utility], "the solution's utility is not shown")
    require(axes.labels.get("x") and axes.labels.get("y"), "no labels")


# ---- baselines and token probabilities ----------------------------------------


def run_baselines(case):
  context, prototype, _ = wrap.texts_of(case)
  spec, target = expected(case, prototype, context)
  if nodes.size(spec) > 60:
    raise Discard
  runner = runner_for(case)
  tokens = p26.model_tokens(prototype, case["cuts"], case["probs"])
  results = runner.build_baselines(context, tokens)
  direct = runner.wrapper
  packed, info = direct.process_prototype_and_context(
      wrap.parse(case["language"], context + prototype), len(context))
  packed_target = direct.process_target(
      wrap.parse(case["language"], context + prototype), len(context))
  want = direct.build_baseline_assignments(packed, packed_target, info, tokens)
  require_equal(sorted(results), sorted(want), "wrong baselines")
  items = ref.index_items(spec)
  chosen = set()
  for name, result in results.items():
    require_equal(wrap.unpacked(result.packed_prototype), spec, "wrong prototype", name=name)
    require_equal(wrap.unpacked(result.packed_prototype_as_target), target, "wrong target")
    require_equal(dict(result.assignment_map), dict(want[name]), "wrong decisions", name=name)
    full = {k: result.assignment_map.get(k, ref.NA) for k in ref.all_keys(items)}
    wanted_parts = p23.pieces(items, full)
    require_equal([(t, bool(r)) for t, r in result.solution_info["extracted_parts"]],
                  [(t, r) for _, t, r, _ in wanted_parts], "wrong extracted parts", name=name)
    judge_parts(runner, result, wanted_parts)
    html_shown, text, _ = observed(runner.show_suggestion, result)
    require(len(html_shown) == 1 and not text, "not shown")
    judge_html(case, context, html_shown[0], wanted_parts)
    chosen.add("".join("[%s]" % t if r else t for _, t, r, _ in wanted_parts))
  return [case["mode"]] + (["nontrivial"] if len(chosen) >= 2 else [])


BACKGROUND = re.compile(
    r'<span style="background-color: rgb\(([^%]*)%, ([^%]*)%, ([^%]*)%\)">(.*?)</span>', re.DOTALL)


def run_probs(case):
  context, prototype, _ = wrap.texts_of(case)
  runner = runner_for(case)
  tokens = p26.model_tokens(prototype, case["cuts"], case["probs"])
  given = list(tokens)
  labels = []
  for realign in (False, True):
    html_shown, text, _ = observed(runner.show_token_probs, context, tokens, realign)
    require(len(html_shown) == 1 and not text, "not shown")
    source = html_shown[0]
    plain = "".join(t for t, _ in p23.spans_of(source)).replace("↩\n", "\n")
    require_equal(plain, context + prototype, "another text is shown", html=source)
    want = tokens
    if realign:
      spec = p11.ref_truncate(nodes.to_spec(wrap.parse(case["language"], context + prototype)),
                              len(context))
      spans = p14.RefSpans(tokens)
      want = []
      for item in p27.leaves(spec):
        _, lp = spans.advance(len(item[1]))
        want.append((item[1], lp if item[0] == "tok" else 0.0))
    got = [(html.unescape(t).replace("↩\n", "\n"), float(g))
           for _, g, _, t in BACKGROUND.findall(source)]
    require_equal([t for t, _ in got], [t for t, _ in want], "wrong tokens shown", realign=realign)
    for (token, green), (_, lp) in zip(got, want):
      require_close(green, 100 * math.exp(lp), "wrong probability shown", token=token,
                    realign=realign)
    if realign and [t for t, _ in want] != [t for t, _ in tokens] and len(want) >= 2:
      labels.append("nontrivial")
  require_equal(tokens, given, "the input was modified")
  return labels


# ---- generators ------------------------------------------------------------------

# Without names whose being built in depends on the Python version.
LINES = [re.sub(r"\b(open|exit|match|case|help|aiter|anext)\b", r"\1er", l)
         for l in corpus.lines("python")]

def case_strategy(modes, extra, max_size=5, max_targets=3, long=False):
  """long: contexts cut out of ordinary programs, and more samples."""
  def build(mode):
    if mode == "calls":
      base = p27.case_strategy(("python", "cpp"), max_size, max_targets=max_targets,
                                counts=[4, 6, 9] if long else None)
      params = st.sampled_from([0.3, 0.5, 0.7]).map(lambda p: [p])
    else:
      base = wrap.suggestion_case(("python", "cpp", "raw_simple_tokens"), max_size=max_size,
                                  max_targets=max_targets, counts=[4, 6, 9] if long else None)
      params = st.tuples(st.sampled_from([0.7, 0.5, 0.6837]), st.sampled_from([5.0, 1.0]),
                         st.sampled_from([0.5, 0.3271])).map(list)
    if long:
      extra_context = st.integers(0, len(LINES) - 1).flatmap(
          lambda i: st.integers(1, 40).map(lambda n: "".join(LINES[i:i + n])))
      base = st.tuples(base, extra_context).map(
          lambda p: {**p[0], "context": [p[1]] + p[0]["context"]})
    return st.tuples(base, st.fixed_dictionaries(
        {"mode": st.just(mode), "params": params, **extra})).map(lambda p: {**p[0], **p[1]})

  return st.sampled_from(modes).flatmap(build)


def combine_cases(long=False):
  return case_strategy(["both", "regions", "prefix", "calls"], {
      "at": st.integers(0, 9), "flip": st.integers(0, 4095), "default": st.booleans()}, long=long)


def baseline_cases():
  return case_strategy(["prefix", "regions", "calls"], p26.scored_fields(), max_targets=1)


def prob_cases(long=False):
  return case_strategy(["prefix"], p26.scored_fields(), max_size=7, max_targets=1, long=long)


CHECK = Check(
    property="P28",
    targets=[
        Target("combine", combine_cases, run_combine, quick=500, thorough=8000,
               rule="two or more different samples and at least one annotation in the answer"),
        Target("long", lambda: combine_cases(True), run_combine, quick=60, thorough=1200,
               rule="two or more different samples and at least one annotation in the answer"),
        Target("baselines", baseline_cases, run_baselines, quick=160, thorough=3000,
               rule="the baselines give two or more different suggestions"),
        Target("probs", prob_cases, run_probs, quick=2000, thorough=30000,
               rule="the parsed tokens differ from the model's tokens"),
        Target("longprobs", lambda: prob_cases(True), run_probs, quick=200, thorough=3000,
               rule="the parsed tokens differ from the model's tokens"),
    ],
    assumptions=[
        "IPython and matplotlib are not installed: stand-ins record what is displayed",
        "a suggestion with at most one decision may be reported as empty",
    ],
)
