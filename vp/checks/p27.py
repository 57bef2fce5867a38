"""P27: the call-sequence task extracts, scores and reports calls as documented."""

import builtins
import keyword
import math
import re
import token

from hypothesis import strategies as st
import numpy as np

from vp import nodes
from vp import region_ref as ref
from vp import wrap
from vp.checks import p11
from vp.checks import p22
from vp.checks import p23
from vp.harness import Check, Discard, Target, require, require_close, require_equal
from r_u_sure.decision_diagrams import consistent_path_dual_solver as solver
from r_u_sure.wrappers import call_sequence_wrapper

INF = math.inf
_MADE = {}
# The generated code uses none of the names that differ between Python versions.
BUILTIN = (set(keyword.kwlist) | set(dir(builtins)) | set(token.EXACT_TOKEN_TYPES)) - {
    "_", "!", "open", "case", "match", "exit", "help"}


def wrapper(precision, compiled, rewrite=True):
  key = precision, compiled, rewrite
  if key not in _MADE:
    if compiled:
      for other in [k for k in _MADE if k[1]]:
        del _MADE[other]
    _MADE[key] = call_sequence_wrapper.ApiCallSequenceWrapper(
        effective_precision=precision, use_numba=compiled,
        **({} if rewrite else {"rewrite_states": False}))
  return _MADE[key]


# ---- reference: which calls there are -----------------------------------------


def leaves(spec, path=()):
  for k, item in enumerate(spec):
    if item[0] == "group":
      yield from leaves(item[1], path + (k,))
    elif item[0] in ("tok", "dec"):
      yield item


def seen_in_context(spec, location):
  at, out = 0, set()
  for item in leaves(spec):
    if item[0] == "tok" and at < location:
      out.add(item[1])
    at += len(item[1])
  return out


def is_parenthesis(item):
  return (item[0] == "group" and item[2] == "MATCH" and len(item[1]) == 3
          and item[1][0] == ["tok", "(", "MATCH_LEFT"])


def calls_in(sequence, known):
  """The first group of a sequence, if it is a call's parenthesis, makes one call."""
  first = next((i for i, x in enumerate(sequence) if x[0] == "group"), None)
  if first is None:
    return
  begin = next(i for i, x in enumerate(sequence) if x[0] != "dec")
  head = sequence[begin:first]
  is_call = (
      head and head[-1][0] == "tok" and is_parenthesis(sequence[first])
      and head[0] not in (["tok", "def", "CONTENT_LEAF"], ["tok", "class", "CONTENT_LEAF"]))
  if is_call:
    yield annotate(head, nodes.text_of([sequence[first][1][1]]), known)
  else:
    yield from calls_in(sequence[first][1], known)
  for item in sequence[first + 1:]:
    if item[0] == "group":
      yield from calls_in(item[1], known)


def annotate(head, arguments, known):
  out = [["start"]]
  for item in head:
    if item[0] == "dec":
      out.append(item)
      if item[1] and item[1].isspace():
        out.append(["start"])
    elif item[0] == "tok":
      if item == ["tok", ".", "CONTENT_LEAF"]:
        out += [["start"], ["tok", ".", "ATTRIBUTE_DOT"]]
      else:
        out.append(["tok", item[1], "EXPECTED" if item[1] in known else "NOVEL"])
  out += [["tok", "(", "START_CALL"], ["end"],
          ["tok", arguments, "ARGS" if arguments else "EMPTY_ARGS"],
          ["tok", ")", "END_CALL"], ["end"]]
  return out


def expected_tree(tree_spec, location):
  text = nodes.text_of(tree_spec)
  line = text[:location].rfind("\n")
  known = seen_in_context(tree_spec, location) | BUILTIN
  out = []
  for call in calls_in(p11.ref_truncate(tree_spec, max(line, 0)), known):
    out += [["group", call, "API_CALL"], ["dec", "\n"]]
  return out


def without_control(spec):
  return [["group", without_control(i[1]), i[2]] if i[0] == "group" else i
          for i in spec if i[0] not in ("start", "end", "exit")]


# ---- reference: what a selection is worth --------------------------------------

WORTH = {"ARGS": 1.0, "EMPTY_ARGS": 1.0, "EXPECTED": 1.0, "NOVEL": 10.0}


def worth(symbol):
  return WORTH.get(symbol[2], 0.0) if symbol[0] == "tok" else 0.0


def selection_cost(items, assignment, target, precision):
  haystack = [s for _, s in p22.symbols(target)]
  best = {0: 0.0}
  for part in p22.parts_of(items, assignment):
    needle = [s for _, s in part]
    total = sum(worth(s) for s in needle)
    after = {}
    for pos, cost in best.items():
      after[pos] = min(after.get(pos, INF), cost + precision * total)
      for i in range(pos, len(haystack) - len(needle) + 1):
        if haystack[i:i + len(needle)] == needle:
          end = i + len(needle)
          after[end] = min(after.get(end, INF), cost - (1 - precision) * total)
    best = after
  return min(best.values())


# ---- checks --------------------------------------------------------------------


def redecorated(spec, texts, state):
  """Another code style: every decoration gets one of the texts."""
  out = []
  for item in spec:
    if item[0] == "group":
      out.append(["group", redecorated(item[1], texts, state), item[2]])
    elif item[0] == "dec":
      out.append(["dec", texts[state[0] % len(texts)]])
      state[0] += 1
    else:
      out.append(item)
  return out


def parse(case, text):
  tree = wrap.parse(case["language"], text)
  if case.get("decorations"):
    tree = nodes.to_nodes(redecorated(nodes.to_spec(tree), case["decorations"], [0]))
  return tree


def prepare(case, compiled):
  context, prototype, targets = wrap.texts_of(case)
  made = wrapper(case["precision"], compiled, case.get("rewrite", True))
  location = len(context)
  tree = parse(case, context + prototype)
  tree_spec = nodes.to_spec(tree)
  packed, info = made.process_prototype_and_context(tree, location)
  require_equal(nodes.to_spec(tree), tree_spec, "the parsed prototype was modified")
  spec = wrap.unpacked(packed)
  require_equal(spec, expected_tree(tree_spec, location), "wrong calls",
                context=context, prototype=prototype)
  packed_targets, target_specs = [], []
  for text in targets:
    target_spec = nodes.to_spec(parse(case, context + text))
    want = without_control(expected_tree(target_spec, location))
    packed_target = made.process_target(parse(case, context + text), location)
    require_equal(wrap.unpacked(packed_target), want, "wrong calls of a target")
    packed_targets.append(packed_target)
    target_specs.append(want)
  return made, packed, info, spec, packed_targets, target_specs


def run_extract(case):
  """Extraction alone, on larger programs."""
  *_, spec, _, target_specs = prepare(case, False)
  kinds = {i[2] for group in spec if group[0] == "group" for i in group[1] if i[0] == "tok"}
  labels = sorted(kinds)
  if sum(i[0] == "group" for i in spec) >= 2:
    labels.append("nontrivial")
  return labels


def run_solve(case):
  made, packed, info, spec, packed_targets, target_specs = prepare(case, False)
  if nodes.size(spec) > 70:
    raise Discard
  items = ref.index_items(spec)
  t_items = [ref.index_items(t) for t in target_specs]
  p = case["precision"]
  given = None if case["weights"] is None else case["weights"][:len(t_items)]
  weights = [1.0 / len(t_items)] * len(t_items) if given is None else given
  system = made.build_system(packed, info, packed_targets, target_utility_scale_factors=given)
  keys = ref.all_keys(items)
  labels = []

  def true_cost(assignment):
    return sum(w * selection_cost(items, assignment, t, p) for w, t in zip(weights, t_items))

  for assignment in ref.sample_walks(items, True, case["flip"], 2):
    used, cost = wrap.cost_under(system, assignment)
    require_equal({k: used[k] for k in keys}, assignment, "the system decides otherwise")
    require_close(cost, true_cost(assignment), "wrong weighted cost")
    judge_information(made, case, packed, info, items, assignment, packed_targets, t_items, system,
                      labels)
  results = solver.solve_system_with_sweeps(system.data, soft_timeout=20.0)
  vector, cost = solver.greedy_extract(system.data, direction=solver.SweepDirection.FORWARD)
  solution = solver.assignments_from_assignment_vector(system, vector)
  require_equal(sorted(solution), keys, "the solution does not decide everything")
  if cost < INF:
    require(ref.is_valid(items, solution, True), "the solution is not valid")
    require_close(float(cost), true_cost(solution), "the solution has another cost")
  if len(results.objective_at_step):
    bound = float(results.objective_at_step[-1])
    require(bound <= cost + 1e-6, "the bound exceeds the solution's cost", bound=bound, cost=cost)
    for assignment in ref.sample_walks(items, True, case["flip"] ^ 2730, 2):
      other = true_cost(assignment)
      require(bound <= other + 1e-6 * max(1, abs(other)),
              "the bound exceeds the cost of a valid solution", assignment=assignment)
    labels.append("solved")
    if abs(bound - cost) <= 1e-6:
      labels.append("tight")
      # Showing nothing is always possible, at cost zero.
      require(cost <= 1e-6, "worse than showing nothing")
  labels = sorted(set(labels))
  if "matched" in labels and keys:
    labels.append("nontrivial")
  return labels


def judge_information(made, case, packed, info, items, assignment, packed_targets, t_items, system,
                      labels):
  p = case["precision"]
  which = case["pick"] % len(packed_targets)
  evaluation = made.build_system(packed, info, [packed_targets[which]])
  got = made.solution_info(packed, packed_targets[which], info, evaluation, assignment,
                           sample_system=system)
  pieces = p23.pieces(items, assignment)
  require_equal([(t, bool(r)) for t, r in got["extracted_parts"]], [(t, r) for _, t, r, _ in pieces],
                "wrong extracted parts")
  costs = [selection_cost(items, assignment, t, p) for t in t_items]
  require_close(float(got["total_cost"]), costs[which], "wrong total cost")
  require_equal(len(got["sample_system_costs_unsorted"]), len(costs), "wrong number of samples")
  for a, b in zip(got["sample_system_costs_unsorted"], costs):
    require_close(float(a), b, "wrong cost of a sample")
  require_close(float(got["sample_system_cost_average"]), float(np.mean(costs)), "wrong average")
  require_equal(int(got["true_cost_rank_in_sample_system"]),
                sum(c < got["total_cost"] for c in got["sample_system_costs_unsorted"]), "wrong rank")
  # Every selected token is either correct or deleted, and they make up the cost.
  symbols = [s for part in p22.parts_of(items, assignment) for _, s in part if s[0] == "tok"]
  explained = 0.0
  for name, kind in (("novel", "NOVEL"), ("not_novel", "EXPECTED"), ("args", "ARGS")):
    correct, deleted = got[f"correct_{name}"], got[f"deleted_{name}"]
    require(correct >= 0 and deleted >= 0, "negative counts", name=name)
    require_equal(correct + deleted, sum(s[2] == kind for s in symbols), "wrong count", name=name)
    explained += WORTH[kind] * (p * deleted - (1 - p) * correct)
  empty = sum(s[2] == "EMPTY_ARGS" for s in symbols)
  rest = [p * (empty - k) - (1 - p) * k for k in range(empty + 1)]
  require(any(abs(explained + r - costs[which]) < 1e-6 for r in rest),
          "the counts do not explain the cost", counts=got)
  alone = made.solution_info(packed, None, info, None, assignment)
  require_equal(alone["extracted_parts"], got["extracted_parts"], "wrong extracted parts")
  require("total_cost" not in alone and "correct_novel" not in alone, "counts without a target")

  rendered = made.render_solution_html(packed, info, assignment).replace("<br>", "")
  chars = [(c, "in_region" in classes) for text, classes in p23.spans_of(rendered) for c in text]
  want_chars = [(c, r) for k, t, r, _ in pieces for c in ("︙" if k == "empty" else t)]
  if all(t for _, t, _, _ in pieces):
    require_equal(chars, want_chars, "wrong rendering of the suggestion", html=rendered)
  else:
    require_equal([c for c in chars if c[0] != "︙"], [c for c in want_chars if c[0] != "︙"],
                  "wrong rendering of the suggestion", html=rendered)

  rendered = made.render_pairwise_matching_html(packed, packed_targets, info, system, assignment)
  chunks = re.split(r"========== Target (\d+) ==========<br>", rendered)
  require_equal(chunks[0], "", "text before the first target")
  require_equal(chunks[1::2], [str(i) for i in range(len(packed_targets))], "wrong targets shown")
  parts = p22.parts_of(items, assignment)
  for chunk, cost in zip(chunks[2::2], costs):
    lines = []
    plain = "".join(t for t, _ in p23.spans_of(chunk.replace("<br>", "\x01")))
    for text in plain.split("\x01"):
      if text.startswith(("MATCHED: ", "WRONG: ")):
        lines.append(text)
      elif text and lines:
        lines[-1] += text
    shown = " ".join(line.split(": ", 1)[1] for line in lines)
    want = " ".join(" ".join(s[1] for _, s in part if s[0] == "tok") for part in parts)
    require_equal(shown.split(), want.split(), "wrong parts shown", chunk=chunk)
    if len(lines) == len(parts):
      total = sum((-(1 - p) if line.startswith("MATCHED") else p) * sum(worth(s) for _, s in part)
                  for line, part in zip(lines, parts))
      require_close(total, cost, "wrong parts are shown as matched", chunk=chunk)
    if any(line.startswith("MATCHED") for line in lines):
      labels.append("matched")
    if any(line.startswith("WRONG") for line in lines):
      labels.append("wrong")


def run_baselines(case):
  made, packed, info, spec, packed_targets, _ = prepare(case, False)
  if nodes.size(spec) > 90:
    raise Discard
  items = ref.index_items(spec)
  groups = [i for i in items if i.kind == "group"]
  assignments = made.build_baseline_assignments(packed, packed_targets[0], info, [])
  require_equal(sorted(assignments),
                ["all_calls_full", "all_calls_shorter", "novel_calls_shorter"], "wrong baselines")
  system = made.build_system(packed, info, packed_targets)
  labels = []
  for name, assignment in assignments.items():
    used, cost = wrap.cost_under(system, assignment)
    require(cost < INF, "the decisions are impossible", name=name)
    require(ref.is_valid(items, used, True), "the decisions are not valid", name=name)
    want = []
    for group in groups:
      texts = [i for i in group.children if i.kind in ("tok", "dec")]
      if name != "all_calls_full":
        texts = texts[:-2]  # up to the opening parenthesis
        spaces = [n for n, i in enumerate(texts) if i.kind == "dec"]
        texts = texts[spaces[-1] + 1:] if spaces else texts
        if name == "novel_calls_shorter" and all(i.type != "NOVEL" for i in texts):
          continue
        if name == "novel_calls_shorter":
          labels.append("novel")
      want.append([i.text for i in texts if i.kind == "tok"])
    got = [[s[1] for _, s in part if s[0] == "tok"] for part in p22.parts_of(items, used)]
    require_equal(got, want, "wrong parts", name=name)
  if len(groups) >= 2 and "novel" in labels:
    labels.append("nontrivial")
  return sorted(set(labels))


def run_compiled(case):
  a, b = prepare(case, False), prepare(case, True)
  if nodes.size(a[3]) > 60:
    raise Discard
  systems = [m.build_system(p, i, t) for m, p, i, _, t, _ in (a, b)]
  outcomes = []
  for system in systems:
    results = solver.solve_system_with_sweeps(system.data, soft_timeout=30.0)
    _, cost = solver.greedy_extract(system.data, direction=solver.SweepDirection.FORWARD)
    bound = float(results.objective_at_step[-1]) if len(results.objective_at_step) else 0.0
    outcomes.append((float(cost), bound))
  require_close(outcomes[1][1], outcomes[0][1], "different bounds")
  require_close(outcomes[1][0], outcomes[0][0], "different costs")
  return ["nontrivial"] if nodes.size(a[3]) >= 6 else []


# ---- generators ------------------------------------------------------------------

PIECES = {
    "python": ["foo(x)", "a.foo(x)\n", "foo.bar(1, y)", "\n", "x = ", "len(foo)", "print()", " ",
               "foo", ".", "(", ")", "bar()", "if foo(a):\n  ", "def foo(x):\n  ", "class A(B):\n",
               "return ", "foo . bar(z)\n", "  ", "baz(qux(1))\n", "[foo(1) for a in b(2)]", "y",
               "import foo\n", "not foo(\n", "lambda: q()", "foo(x)(y)\n", "foo (x)\n", "a.b.c(d)\n",
               "f(<&>)\n", ", ", "bar", "isinstance(a, int)\n",
               "a=b+foo(x)\n", "await range(3)\n", "str.join(y)"],
    "cpp": ["foo(x);", "a.foo(x);", "std::bar(1, y);", "\n", "int x = ", " ", "foo", "(", ")", ";",
            "{", "}", "bar();", "if (foo(a)) {", "class A(B)", "return ", "/*c*/", "a->b(c);",
            "baz(qux(1));", "// foo(x)\n", "x", "."],
}


DECORATIONS = st.lists(st.sampled_from([" ", " #c", "", "\t", "/* */", "\n ", "\u00a0", "\\\n"]),
                       min_size=1, max_size=5)


def case_strategy(languages, max_size, max_targets=3, extra=None, counts=None):
  def build(language):
    piece = st.sampled_from(PIECES[language])
    op = st.tuples(st.sampled_from(["set", "drop", "add", "cut"]), st.integers(0, 9), piece).map(list)
    sizes = st.sampled_from([3, 2, max_size, 4, max_size - 1, 1, 5, 0])
    return st.fixed_dictionaries({
        "language": st.just(language),
        "precision": st.sampled_from([0.3, 0.5, 0.7, 0.1]),
        "trim": st.sampled_from([0, 0, 0, 1, 2]),
        "context": st.sampled_from([2, 1, 3, 0, 4]).flatmap(
            lambda n: st.lists(piece, min_size=n, max_size=n)),
        "pieces": sizes.flatmap(lambda n: st.lists(piece, min_size=n, max_size=n)),
        "targets": st.sampled_from(counts or [1, 2, max_targets]).flatmap(
            lambda n: st.lists(st.lists(op, max_size=3), min_size=n, max_size=n)),
        **(extra or {}),
    })

  return st.sampled_from(list(languages)).flatmap(build)


CHECK = Check(
    property="P27",
    targets=[
        Target("extract", lambda: case_strategy(("python", "python", "cpp"), 10), run_extract,
               quick=4000, thorough=60000, rule="at least two calls"),
        Target("realistic", lambda: wrap.realistic_case(
            ("python", "python", "cpp"), 500, max_lines=30, extra={"precision": st.just(0.5)}), run_extract,
               quick=1500, thorough=20000, rule="at least two calls"),
        Target("long", lambda: wrap.realistic_case(
            ("python", "python", "cpp"), 500, max_lines=200, max_context=6000,
            extra={"precision": st.just(0.5)}), run_extract,
               quick=300, thorough=5000, rule="at least two calls"),
        Target("decorated", lambda: case_strategy(("python", "cpp"), 8, extra={
            "decorations": DECORATIONS}), run_extract,
               quick=1000, thorough=15000, rule="at least two calls"),
        Target("solve", lambda: case_strategy(("python",), 5, extra={
            "weights": st.one_of(st.none(), st.lists(
                st.sampled_from([0.5, 0.25, 1.0, 2.0]), min_size=9, max_size=9)),
            "flip": st.integers(0, 4095), "pick": st.integers(0, 5)}, counts=[1, 2, 3, 2, 3, 3, 1, 2, 3, 9]), run_solve,
               quick=600, thorough=10000, rule="a selected part is found in a target"),
        Target("baselines", lambda: case_strategy(("python", "cpp"), 8, max_targets=1),
               run_baselines, quick=1500, thorough=20000,
               rule="at least two calls, one of them with an unseen identifier"),
        Target("compiled", lambda: case_strategy(("python",), 4, max_targets=2, extra={
            "rewrite": st.sampled_from([True, True, False])}), run_compiled,
               quick=200, thorough=2500, rule="at least six nodes"),
    ],
    assumptions=[
        "numba is not installable here: compiled mode runs the numba overloads as Python",
        "weights are positive; costs are compared up to a relative error of 1e-6",
    ],
)
