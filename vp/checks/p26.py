"""P26: heuristic baselines truncate or mark exactly where their rule says."""

import math

from hypothesis import strategies as st

from vp import nodes
from vp import region_ref as ref
from vp import wrap
from vp.checks import p11
from vp.checks import p14
from vp.harness import Check, Discard, Target, require, require_close, require_equal
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.wrappers import prefix_truncation_wrapper
from r_u_sure.wrappers import uncertainty_regions_wrapper

INF = math.inf
TOKEN_PROBS = (0.3, 0.5, 0.7, 0.9, 0.0, 1.0, 0.0005)
PREFIX_PROBS = (0.02, 0.1, 0.3, 0.5, 0.7, 1e-9, 0.0)
REGION_PROBS = (0.3, 0.7, 0.0, 1e-9)
FRACTIONS = (0.0, 0.25, 0.5, 0.8, 1.0)
CUTOFFS = ((1, 1), (1, 2), (2, 1), (1, 3), (2, 2), (3, 1))
CHARACTERS = (1, 3, 6, 12, 30)
LINES = (1, 2, 4)
_MADE = {}


OPTIONS = {  # what is left out of the baselines
    "all": {},
    "no-average": {"baseline_max_avg_log_prob": False},
    "no-intellicode": {"baseline_intellicode": False},
    "lengths-only": {"baseline_token_prob_thresholds": (), "baseline_prefix_prob_thresholds": ()},
    "probabilities-only": {"baseline_max_characters": (), "baseline_max_lines": ()},
    "defaults": None,
}
OWN = dict(token=TOKEN_PROBS, prefix=PREFIX_PROBS, characters=CHARACTERS, lines=LINES)
# Of a task created without saying anything about baselines.
DEFAULTS = dict(token=(0.0, 0.3, 0.5, 0.7, 0.9),
                prefix=(0.01, 0.02, 0.05, 0.1, 0.2, 0.3, 0.5, 0.7, 0.9),
                characters=(20, 50, 100, 200, 500), lines=(1, 2, 4, 8, 16))
REGION_OWN = dict(probs=REGION_PROBS, fractions=FRACTIONS, cutoffs=CUTOFFS)
REGION_DEFAULTS = dict(probs=(0.3, 0.5, 0.7, 0.9), fractions=(0.0, 0.5, 1.0), cutoffs=())


def prefix_wrapper(regions=False, options="all"):
  key = "prefix", regions, options
  if key not in _MADE and options == "defaults":
    _MADE[key] = prefix_truncation_wrapper.PrefixByEditDistanceWrapper(use_numba=False)
  if key not in _MADE:
    _MADE[key] = prefix_truncation_wrapper.PrefixByEditDistanceWrapper(**dict(dict(
        also_insert_uncertainty_regions=regions,
        baseline_token_prob_thresholds=TOKEN_PROBS, baseline_prefix_prob_thresholds=PREFIX_PROBS,
        baseline_max_characters=CHARACTERS, baseline_max_lines=LINES, use_numba=False),
                                                           **OPTIONS[options]))
  return _MADE[key]


def left_out(name, options):
  return {
      "all": False, "no-average": name == "max_avg_log_prob",
      "no-intellicode": name == "intellicode", "lengths-only": "prob_threshold" in name,
      "probabilities-only": "_length_" in name, "defaults": False}[options]


def region_wrapper(params, defaults):
  key = tuple(params), defaults
  if key not in _MADE:
    own = {} if defaults else dict(
        baseline_token_prob_thresholds=REGION_PROBS,
        baseline_example_fractions=FRACTIONS, baseline_depth_cutoffs=CUTOFFS)
    _MADE[key] = uncertainty_regions_wrapper.UncertaintyRegionsWrapper(
        *params, use_numba=False, **own)
  return _MADE[key]


def model_tokens(text, cuts, probs):
  bounds = [0] + sorted({c % (len(text) + 1) for c in cuts}) + [len(text)]
  parts = [text[a:b] for a, b in zip(bounds, bounds[1:]) if b > a]
  return [(t, math.log(probs[i % len(probs)])) for i, t in enumerate(parts)]


def flat(items, depth=0):
  """[(item, depth)] in text order."""
  for item in items:
    yield item, depth
    yield from flat(item.children, depth + 1)


def log_probs(items, tokens):
  """{preorder index of a text token: log probability of the model tokens it overlaps}."""
  spans = p14.RefSpans(tokens)
  out = {}
  for item, _ in flat(items):
    if item.kind in ("tok", "dec"):
      _, lp = spans.advance(len(item.text))
      if item.kind == "tok":
        out[item.index] = lp
  return out


def surely_below(p, threshold):
  if threshold > 0 and abs(p - threshold) < 1e-9 * threshold:
    raise Discard  # decided by rounding
  return p < threshold


# ---- truncation -------------------------------------------------------------


def expected_exits(items, tokens, settings, alpha=None, kappa=None):
  """{baseline: set of acceptable exit positions (None: keep everything)}."""
  order = [i for i, _ in flat(items)]
  exits = [n for n, i in enumerate(order) if i.kind == "exit"]
  shown = [n for n, i in enumerate(order) if i.kind == "tok" and i.text]
  lp = {n: v for n, i in enumerate(order) for v in [log_probs_cached(items, tokens).get(i.index)]
        if v is not None}

  def before_or_after(stop):
    if stop is None:
      return {None}
    earlier = [e for e in exits if e < stop]
    later = [e for e in exits if e > stop]
    return {earlier[-1]} if earlier else {later[0]} if later else {None}

  def after(stop):
    later = [e for e in exits if stop is not None and e > stop]
    return {later[0]} if later else {None}

  out = {}
  for t in settings["token"]:
    out[f"prob_threshold_{t}"] = before_or_after(
        next((n for n in shown if surely_below(math.exp(lp[n]), t)), None))
  for t in settings["prefix"]:
    total, stop = 0.0, None
    for n in shown:
      total += lp[n]
      if surely_below(math.exp(total), t):
        stop = n
        break
    out[f"prefix_prob_threshold_{t}"] = before_or_after(stop)
  out["intellicode"] = before_or_after(next(
      (n for k, n in enumerate(shown)
       if surely_below(math.exp(lp[n]), 0.8 / (1 + math.exp(-k / 10.0)))), None))
  if alpha is not None:
    out["custom"] = before_or_after(next(
        (n for k, n in enumerate(shown)
         if surely_below(math.exp(lp[n]), alpha / (1 + math.exp(-k / kappa)))), None))
  averages = {}
  for e in exits:
    done = [lp[n] for n in shown if n < e]
    if done:
      averages[e] = sum(done) / len(done)
  best = max(averages.values(), default=None)
  out["max_avg_log_prob"] = {e for e, a in averages.items() if a >= best - 1e-9} or {None}
  for limit in settings["characters"]:
    total, stop = 0, None
    for n, item in enumerate(order):
      if item.kind == "tok":
        total += len(item.text)
        if total >= limit:
          stop = n
          break
    out[f"character_length_{limit}"] = after(stop)
  for limit in settings["lines"]:
    ends = [n for n, i in enumerate(order) if i.kind == "dec" and "\n" in i.text]
    out[f"line_length_{limit}"] = after(ends[limit - 1] if len(ends) >= limit else None)
  return out, order


def log_probs_cached(items, tokens, _last=[None, None]):
  if _last[0] is not items:
    _last[:] = [items, log_probs(items, tokens)]
  return _last[1]


def run_prefix(case):
  made = prefix_wrapper(options=case["options"])
  if case["spec"] is not None:
    spec = ref.insert_controls(case["spec"], case["controls"])
    packed, info = psn.pack(nodes.to_nodes(spec)), {}
    target = psn.pack(nodes.to_nodes(case["spec"]))
  else:
    context, prototype, _ = wrap.texts_of(case)
    tree = wrap.parse(case["language"], context + prototype)
    packed, info = made.process_prototype_and_context(tree, len(context))
    target = made.process_target(tree, len(context))
    spec = wrap.unpacked(packed)
  if nodes.size(spec) > 90:
    raise Discard
  items = ref.index_items(spec)
  tokens = model_tokens(nodes.text_of(spec), case["cuts"], case["probs"])
  alpha, kappa = case["compose"]
  want, order = expected_exits(items, tokens, DEFAULTS if case["options"] == "defaults" else OWN, alpha, kappa)
  got = made.build_baseline_assignments(packed, target, info, tokens)
  want = {name: w for name, w in want.items() if not left_out(name, case["options"])}
  got["custom"] = prefix_truncation_wrapper.PrefixByEditDistanceBaselineBuilder(
      prototype=packed, prototype_suggestion_as_target=target, context_info=info,
      model_tokens_and_log_probs=tokens,
  ).baseline_assignment_from_intellicode_compose(alpha=alpha, kappa=kappa)
  require_equal(sorted(got), sorted(want), "wrong baselines")
  disabled = prefix_wrapper(True).build_baseline_assignments(packed, target, info, tokens)
  require_equal(disabled, {}, "baselines together with regions")

  def kept(exit_at):
    stop = len(order) if exit_at is None else exit_at
    return "".join(i.text for i in order[:stop])

  exit_positions = [n for n, i in enumerate(order) if i.kind == "exit"]
  chosen = set()
  for name, assignment in got.items():
    values = [assignment.get(ref.Key(order[n].index, ref.EXIT)) for n in exit_positions]
    used = [n for n, v in zip(exit_positions, values) if v == ref.TRUE]
    require(len(used) <= 1, "several exits", name=name)
    at = used[0] if used else None
    shape = [ref.FALSE if at is None or n < at else ref.TRUE if n == at else ref.NA
             for n in exit_positions]
    require_equal(values, shape, "inconsistent exit decisions", name=name)
    starts = [i for i in order if i.kind == "start"]
    require(all(assignment.get(ref.Key(i.index, ref.START)) != ref.TRUE for i in starts),
            "a region starts", name=name)
    require(kept(at) in {kept(e) for e in want[name]} and
            (at is None) == (want[name] == {None}), "truncated at another place", name=name,
            kept=kept(at), expected=[kept(e) for e in want[name]], tokens=tokens)
    chosen.add(at)
    if case["spec"] is None:
      parts = made.solution_info(packed, None, info, None, assignment)["extracted_parts"]
      require_equal("".join(t for t, _ in parts), kept(at), "wrong extracted text", name=name)
      require(not any(r for _, r in parts), "text in a region", name=name)
  if case["spec"] is None and nodes.size(spec) <= 40:
    # The decisions suffice: the system completes them consistently.
    system = made.build_system(packed, info, [target])
    for name in list(got)[case["pick"] % len(got)::7]:
      used, cost = wrap.cost_under(system, got[name])
      require(cost < INF, "the decisions are impossible", name=name)
      require(ref.is_valid(items, used, True), "the decisions are not valid", name=name)
  labels = ["spec" if case["spec"] is not None else case["language"]]
  if len(chosen) >= 3:
    labels.append("nontrivial")
  return labels


# ---- regions ----------------------------------------------------------------


def expected_marks(items, tokens, offset, settings):
  """{baseline: preorder indices of the tokens to be marked}."""
  lp = log_probs(items, tokens)
  texts = {i.index: i.text for i, _ in flat(items) if i.kind == "tok"}
  out = {}
  for t in settings["probs"]:
    out[f"prob_threshold_{t}_nonempty"] = {
        i for i, v in lp.items() if texts[i] and surely_below(math.exp(v), t)}
    marked, total = set(), 0.0
    for i, v in lp.items():
      total += v
      if texts[i] and surely_below(math.exp(total), t):
        marked.add(i)
    out[f"prob_threshold_{t}_cumulative"] = marked
  any_token, any_cumulative, total = set(), set(), 0.0
  for i, v in lp.items():
    total += v
    if surely_below(math.exp(v), 0.5):
      any_token.add(i)
    if surely_below(math.exp(total), 0.5):
      any_cumulative.add(i)
  out["any"], out["any_cumulative"] = any_token, any_cumulative
  out["offset"] = marked = set()
  at = 0
  for i, _ in flat(items):
    at += len(i.text)
    if i.kind == "tok" and i.text and at > offset:
      marked.add(i.index)
  length = sum(len(i.text) for i, _ in flat(items))
  for fraction in settings["fractions"]:
    marked, at = set(), 0
    for i, _ in flat(items):
      at += len(i.text)
      if i.kind == "tok" and i.text and at > fraction * length:
        marked.add(i.index)
    out[f"example_fraction_{fraction}"] = marked
  depths = [(i.index, d) for i, d in flat(items) if i.kind == "tok"]
  for up, down in settings["cutoffs"]:
    out[f"cutoff_anc_{up}_child_{down}"] = {
        i for i, d in depths[1:] if depths[0][1] - d >= up or d - depths[0][1] >= down}
  return out


def best_marking(items, wanted, params):
  """(wanted tokens that cannot be marked, least loss of utility) over all valid annotations."""

  def loss_inside(item):
    if item.kind == "tok":
      return (params.high_match - params.low_match) * len(item.text)
    return sum(loss_inside(c) for c in item.children)

  def add(a, b):
    return a[0] + b[0], a[1] + b[1]

  def level(sequence):
    outside, inside = (0, 0.0), None
    for item in sequence:
      if item.kind == "tok":
        outside = add(outside, (int(item.index in wanted), 0.0))
        inside = inside and add(inside, (0, loss_inside(item)))
      elif item.kind == "group":
        outside = add(outside, level(item.children))
        inside = inside and add(inside, (0, loss_inside(item)))
      elif item.kind == "start":
        entered = add(outside, (0, params.region))
        inside = entered if inside is None else min(inside, entered)
      elif item.kind == "end" and inside is not None:
        outside = min(outside, inside)
    return outside

  return level(items)


def run_regions(case):
  defaults = case["options"] == "defaults"
  made = region_wrapper(case["params"], defaults)
  if case["pad"]:
    case = dict(case, pieces=case["pieces"][:1] + ["y" * case["pad"]] + case["pieces"][1:])
  context, prototype, _ = wrap.texts_of(case)
  tree = wrap.parse(case["language"], context + prototype)
  packed, info = made.process_prototype_and_context(tree, len(context))
  target = made.process_target(tree, len(context))
  spec = wrap.unpacked(packed)
  if nodes.size(spec) > 60:
    raise Discard
  items = ref.index_items(spec)
  tokens = model_tokens(nodes.text_of(spec), case["cuts"], case["probs"])
  want = expected_marks(items, tokens, case["offset"],
                        REGION_DEFAULTS if defaults else REGION_OWN)
  got = made.build_baseline_assignments(packed, target, info, tokens)
  builder = uncertainty_regions_wrapper.UncertaintyRegionsBaselineBuilder(
      wrapper=made, prototype=packed, prototype_suggestion_as_target=target, context_info=info,
      model_tokens_and_log_probs=tokens)
  for name, cumulative in (("any", False), ("any_cumulative", True)):
    got[name] = builder.baseline_assignment_from_token_probabilities(
        0.5, only_constrain_nonempty=False, cumulative=cumulative)
  got["offset"] = builder.baseline_assignment_from_character_offset(case["offset"])
  require_equal(sorted(got), sorted(want), "wrong baselines")
  params = wrap.params_of(*case["params"])
  goal = ref.index_items(p11.ref_truncate(nodes.to_spec(tree), len(context)))
  every = -sum(len(i.text) for i, _ in flat(goal) if i.kind == "tok")
  labels = [case["language"]]
  for name, assignment in got.items():
    require(ref.is_valid(items, assignment, True), "not a valid annotation", name=name)
    missing = {i for i in want[name] if assignment[ref.Key(i, ref.IN)] != ref.TRUE}
    unmarkable, loss = best_marking(items, want[name], params)
    require_equal(len(missing), unmarkable, "tokens that should be marked are not", name=name,
                  wanted=want[name], missing=missing, tokens=tokens)
    # Apart from that, as little as possible is marked.
    cost = ref.edit_cost(items, assignment, goal, params)
    require_close(cost, every + loss, "more is marked than needed", name=name, tol=1e-5,
                  wanted=want[name])
    if want[name] and len(missing) < len(want[name]) and len(want[name]) < len(lp_count(items)):
      labels.append("nontrivial")
    if missing:
      labels.append("unmarkable")
  return sorted(set(labels))


def lp_count(items):
  return [i for i, _ in flat(items) if i.kind == "tok" and i.text]


def scored_fields():
  prob = st.sampled_from([0.95, 0.81, 0.99, 0.6, 0.4, 0.2, 0.05, 0.97, 0.75, 1.0, 0.0001])
  return {
      "cuts": st.lists(st.integers(0, 60), max_size=8),
      "probs": st.lists(prob, min_size=1, max_size=7),
      "pick": st.integers(0, 6),
      "options": st.sampled_from(["all", "all", *OPTIONS]),
      "compose": st.sampled_from([[0.8, 10.0], [0.5, 2.0], [1.0, 0.5], [1.5, 3.0], [0.3, 1.0]]),
  }


def prefix_cases():
  spec = nodes.spec_strategy(texts=("a", "bb", "ccc", "", "dddddd", " ", "\n"),
                             kinds=("tok", "dec", "group"), types=["A"], max_leaves=16)
  controls = st.lists(st.tuples(st.just("exit"), st.integers(0, 5), st.integers(0, 11)).map(list),
                      max_size=6)
  # Long enough for the thresholds that depend on the position.
  likely = st.sampled_from([0.95, 0.99, 0.97, 0.9])
  fields = scored_fields()
  fields.update(
      cuts=st.just(list(range(1, 80))),
      probs=st.tuples(st.lists(likely, min_size=5, max_size=35),
                      st.lists(st.sampled_from([0.75, 0.78, 0.72, 0.6, 0.81, 0.0001]), max_size=3)).map(
                          lambda t: t[0] + t[1]))
  leaf = st.one_of(*[st.tuples(st.just("tok"), st.just("a"), st.just("A")).map(list)] * 4,
                   st.just(["dec", "\n"]))
  long_spec = st.integers(20, 50).flatmap(lambda n: st.lists(leaf, min_size=n, max_size=n))
  many = st.lists(st.tuples(st.just("exit"), st.just(0), st.integers(0, 60)).map(list),
                  min_size=4, max_size=12)
  from_long = st.fixed_dictionaries({"spec": long_spec, "controls": many, **fields})
  from_spec = st.fixed_dictionaries({"spec": spec, "controls": controls, **scored_fields()})
  from_code = wrap.suggestion_case(("python", "cpp"), max_size=9, max_targets=1,
                                   extra={"spec": st.none(), **scored_fields()})
  return st.one_of(from_code, from_spec, from_code, from_spec, from_long)


def region_cases():
  return wrap.suggestion_case(
      ("python", "cpp", "raw_simple_tokens"), max_size=7, max_targets=1,
      extra={"params": st.sampled_from([[0.7, 5.0, 0.5], [0.5, 1.0, 0.25], [0.9, 2.5, 0.75]]),
             "offset": st.integers(0, 24),
             "pad": st.sampled_from([0, 0, 0, 150, 400]),
             **scored_fields()})


CHECK = Check(
    property="P26",
    targets=[
        Target("truncation", prefix_cases, run_prefix, quick=2500, thorough=40000,
               rule="the baselines truncate at three or more different places"),
        Target("regions", region_cases, run_regions, quick=300, thorough=6000,
               rule="a baseline wants to mark some but not all tokens"),
    ],
    assumptions=[
        "a probability within one part in 1e9 of a threshold is decided by rounding and not judged",
        "line breaks are decorations, as in all parsed languages",
    ],
)
