"""P30: an answer depends on nothing but the question."""

import atexit

from hypothesis import strategies as st

from vp import gen_code
from vp import packed_ref
from vp import reruns
from vp import systems
from vp import wrap
from vp.checks import p15
from vp.harness import Check, Target, require_equal

LANGUAGES = ("python", "cpp", "java", "javascript", "simple")
# The solver stops early when it has run for ten seconds.
LONG_S = 4.0
# Another hash seed for the process that answers each question alone.
SEEDS = {"session": 0, "alone": 20231}
_SERVERS = {}


def ask(name, questions):
  if name not in _SERVERS:
    _SERVERS[name] = reruns.Server(SEEDS[name])
  try:
    return _SERVERS[name].ask(questions)
  except BaseException:  # including a case that ran out of time
    close()
    raise


def close():
  for server in _SERVERS.values():
    server.close()
  _SERVERS.clear()


atexit.register(close)


def run_session(case):
  """One process answers all questions in a row, then the first again; others one each."""
  questions = case["questions"]
  again = questions + questions[:1]
  session = ask("session", again)
  if session[0][0] == "late":
    return ["slow"]
  labels = []
  for i, (q, (got, seconds, later)) in enumerate(zip(again, session)):
    if i < len(questions):
      alone, more, _ = ask("alone", [q])[0]
      labels.append(q["ask"])
      if got[:1] == ["raised"] or got == "died":
        labels.append("raised")
    else:
      alone, more, _ = session[0]
    require_equal(later, got, f"the result of question {i} changed after it was given",
                  question=q)
    if max(seconds, more) > LONG_S:
      return ["slow"]
    require_equal(got, alone, f"question {i} has another answer after the ones before it, "
                  "or in a process with another hash seed", question=q)
  if len({str(q) for q in questions}) >= 2 and "raised" not in labels:
    labels.append("nontrivial")
  return sorted(set(labels))


# ---- generators ---------------------------------------------------------------


def code_question(language):
  """Questions about one of a few related texts."""
  kinds = ["parse", "nodes", "transform", "utilities"]
  return st.fixed_dictionaries({
      "ask": st.sampled_from(kinds), "language": st.just(language),
      "text": gen_code.code_for(language), "at": st.integers(0, 40),
      "flatten": st.booleans(), "spaces": st.sampled_from([2, 4, 1])})


@st.composite
def code_session(draw):
  language = draw(st.sampled_from(LANGUAGES))
  questions = [draw(code_question(language))]
  for _ in range(draw(st.sampled_from([1, 2, 3, 1]))):
    how = draw(st.sampled_from(["new", "other", "swap", "extend", "language", "option", "reindent", "same"]))
    if how == "new":
      questions.append(draw(code_question(draw(st.sampled_from(LANGUAGES)))))
      continue
    q = dict(draw(st.sampled_from(questions)))
    if how == "other":
      q["ask"] = draw(st.sampled_from(["parse", "nodes", "transform", "utilities"]))
    elif how == "swap" and q["text"]:
      # The same length, start and end, with something else in between.
      text, at = q["text"], draw(st.integers(0, 60)) % len(q["text"])
      q["text"] = text[:at] + draw(st.sampled_from(list("a( \n)\"{};:.0"))) + text[at + 1:]
    elif how == "extend":
      # The same start, with something else after it.
      q["text"] += draw(gen_code.code_for(q["language"]))
    elif how == "reindent":
      q["text"] = q["text"].replace("  ", draw(st.sampled_from([" ", "    ", "   "])))
    elif how == "language":
      q["language"] = draw(st.sampled_from(LANGUAGES))
    elif how == "option":
      q["flatten"] = not q["flatten"]
      q["spaces"] = draw(st.sampled_from([2, 4, 1, 3]))
      q["at"] = draw(st.integers(0, 40))
    questions.append(q)
  return {"questions": questions}


@st.composite
def dag_question(draw):
  kind = draw(st.sampled_from(["prune", "solve", "draw"]))
  if kind == "solve":
    return {"ask": kind, "specs": draw(systems.specs_strategy(3, 4)),
            "noise": draw(st.sampled_from([None, 0, 1, 7]))}
  if kind == "draw":
    return {"ask": kind, "dag": draw(packed_ref.dag_spec(max_states=6, max_edges=9))}
  spec = draw(p15.dag_strategy())
  return {"ask": kind, "dag": spec, "scratch": draw(st.sampled_from([1, 3, 8, 64, 1000]))}


@st.composite
def dag_session(draw):
  questions = [draw(dag_question()) for _ in range(draw(st.sampled_from([2, 3, 1, 4])))]
  if draw(st.booleans()):
    q = dict(draw(st.sampled_from(questions)))
    if q["ask"] == "solve":
      q["noise"] = draw(st.sampled_from([None, 0, 1, 7]))
    questions.append(q)
  return {"questions": questions}


@st.composite
def task_session(draw, compiled=False):
  """Suggestions from several models for one or two contexts, with reused runners."""
  language = draw(st.sampled_from(["python", "python", "cpp"]))
  task = draw(st.sampled_from(["regions", "both", "prefix", "calls", "calls"]))
  case = draw(wrap.suggestion_case((language,), max_size=4, max_targets=2))
  context, prototype, targets = wrap.texts_of(case)
  if task == "calls":
    context += draw(st.sampled_from(["", "import foo\n", "a = foo\n", "bar = 1\n"]))
    prototype += draw(st.sampled_from(["foo.bar(x)", "f(g(x))\n", "a.foo()\nbar(1)"]))
  first = {"ask": draw(st.sampled_from(["combine", "combine", "baselines"])), "task": task, "precision": draw(st.sampled_from([0.5, 0.7])),
           "compiled": compiled, "language": language,
           "context": context, "samples": [prototype] + targets, "at": draw(st.integers(0, 3))}
  questions = [first]
  for _ in range(draw(st.sampled_from([1, 2, 1]))):
    q = dict(draw(st.sampled_from(questions)))
    how = draw(st.sampled_from(
        ["samples", "tweak", "context", "tweak", "prototype", "baselines", "task", "precision"]))
    if how == "samples":
      more = draw(wrap.suggestion_case((language,), max_size=4, max_targets=2))
      _, other, targets = wrap.texts_of(more)
      q["samples"] = [other] + targets
    elif how == "tweak" and q["samples"][0]:
      # Other texts of the same size.
      at, now = draw(st.integers(0, 13)), draw(st.sampled_from(list("y7 .(")))
      q["samples"] = [t[:at % len(t)] + now + t[at % len(t) + 1:] if t else t
                      for t in q["samples"]]
    elif how == "context":
      q["context"] = draw(st.sampled_from(
          ["", "x = 1\n", "def foo(bar):\n", "foo = f(x)\n", q["context"] + " ",
           q["context"][:-1]]))
    elif how == "prototype":
      q["at"] += 1
    elif how == "baselines":
      q["ask"] = "combine" if q["ask"] == "baselines" else "baselines"
    elif how == "task":
      q["task"] = draw(st.sampled_from(["regions", "both", "prefix", "calls"]))
    elif how == "precision":
      q["precision"] = draw(st.sampled_from([0.3, 0.5, 0.7]))
    questions.append(q)
  for q in questions:  # long samples take long
    q["samples"] = [t[:40 if q["task"] == "calls" else 14] for t in q["samples"]]
  return {"questions": questions}


CHECK = Check(
    property="P30",
    targets=[
        Target("code", code_session, run_session, 1600, 20000,
               "at least two different questions, all of which have an answer"),
        Target("dags", dag_session, run_session, 1000, 12000,
               "at least two different questions, all of which have an answer"),
        Target("tasks", task_session, run_session, 200, 7000,
               "at least two different questions, all of which have an answer"),
        Target("compiled", lambda: task_session(True), run_session, 16, 400,
               "at least two different questions, all of which have an answer"),
    ],
    assumptions=[
        "a new process is a copy of one that has imported the library and done nothing else",
        "floating-point answers are compared to nine digits",
    ],
)
