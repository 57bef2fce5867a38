"""Runs one property's targets with Hypothesis, sharded over processes.

A *target* pairs a strategy with a checking function.  Strategies produce plain
JSON-able data ("cases"); the checking function builds the real objects, runs the
code under test, compares with the oracle and returns the labels that hold for
the case.  Any exception is a violation of the property on that case, except
`Discard` (the case is outside the property's domain) and `HarnessError`.
"""

from __future__ import annotations

import collections
import dataclasses
import hashlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback
from typing import Any, Callable, Iterable

from vp import boot

NPROC = max(1, min(8, os.cpu_count() or 1))


class Discard(Exception):
  """The generated case is outside the property's domain."""


class HarnessError(Exception):
  """Something is wrong with the check, not with the code under test."""


class Violation(AssertionError):
  """The property does not hold on this case."""


def require(condition, message="", **context):
  if not condition:
    extra = "".join(f"\n    {k} = {v!r}" for k, v in context.items())
    raise Violation(f"{message}{extra}")


def require_equal(actual, expected, message="", **context):
  if actual != expected:
    extra = "".join(f"\n    {k} = {v!r}" for k, v in context.items())
    raise Violation(
        f"{message}\n    actual   = {actual!r}\n    expected = {expected!r}{extra}"
    )


def require_close(actual, expected, message="", tol=1e-6, **context):
  import math

  ok = False
  if actual == expected:
    ok = True
  elif math.isnan(actual) or math.isnan(expected):
    ok = False
  elif math.isinf(actual) or math.isinf(expected):
    ok = False
  else:
    ok = abs(actual - expected) <= tol * max(1.0, abs(actual), abs(expected))
  if not ok:
    extra = "".join(f"\n    {k} = {v!r}" for k, v in context.items())
    raise Violation(
        f"{message}\n    actual   = {actual!r}\n    expected = {expected!r}{extra}"
    )


class expect_raises:
  """Context manager: the block must raise one of the given exceptions."""

  def __init__(self, exceptions, message):
    self.exceptions = exceptions
    self.message = message

  def __enter__(self):
    return self

  def __exit__(self, exc_type, exc, tb):
    if exc_type is None:
      raise Violation(f"{self.message}: no exception was raised")
    if issubclass(exc_type, self.exceptions):
      return True
    return False


@dataclasses.dataclass
class Target:
  """One generated-input search.

  Attributes:
    name: Name, used in replay files.
    strategy: Zero-argument function building the Hypothesis strategy (called in
      the worker).
    run: Checking function; returns an iterable of labels.  The label
      "nontrivial" marks a case counted as non-trivial.
    quick: Number of cases in the quick tier, over all shards.
    thorough: Number of cases in the thorough tier, over all shards.
    rule: What "nontrivial" means for this target.
  """

  name: str
  strategy: Callable[[], Any]
  run: Callable[[Any], Iterable[str]]
  quick: int
  thorough: int
  rule: str


@dataclasses.dataclass
class Check:
  property: str
  targets: list[Target]
  assumptions: list[str]
  note: str = ""


def _digest(case) -> str:
  return hashlib.blake2b(
      json.dumps(case, sort_keys=True, default=repr).encode("utf-8", "replace"),
      digest_size=8,
  ).hexdigest()


def _size(case) -> int:
  return len(json.dumps(case, default=repr))


# A single case normally takes milliseconds; one that runs this long has no answer.
CASE_LIMIT_S = 60.0
CASE_LIMIT_SHRINKING_S = 5.0


class NoAnswer(BaseException):
  """The code under test did not finish a case in time."""


def _on_alarm(signum, frame):
  del signum, frame
  raise NoAnswer()


def run_case(target, case, limit=CASE_LIMIT_S):
  """Runs a case, turning a case that never ends into a violation."""
  signal.signal(signal.SIGALRM, _on_alarm)
  signal.setitimer(signal.ITIMER_REAL, limit)
  try:
    return list(target.run(case) or ())
  except NoAnswer:
    raise Violation(f"no answer within {limit} s") from None
  finally:
    signal.setitimer(signal.ITIMER_REAL, 0)


# Set once a target has failed: its other shards stop generating.
_FAILED: dict[str, Any] = {}


def _run_shard(args):
  (module_name, target_name, seed, n_cases, time_cap, shrink_cap) = args
  boot.setup()
  import importlib
  import warnings

  warnings.simplefilter("ignore")
  import hypothesis
  from hypothesis import HealthCheck, Phase, given, settings

  check = importlib.import_module(module_name).CHECK
  target = next(t for t in check.targets if t.name == target_name)

  start = time.time()
  state = dict(
      evaluations=0, discards=0, labels=collections.Counter(),
      nontrivial=set(), samples=[], truncated=False,
      best=None, first_fail=None, harness_error=None,
  )
  rng = random.Random(seed)
  failed = _FAILED.get(target_name)

  def body(case):
    now = time.time()
    if state["first_fail"] is not None:
      if now > state["first_fail"] + shrink_cap:
        return  # stop shrinking: everything "passes" from here on
    elif now > start + time_cap or (failed is not None and failed.is_set()):
      state["truncated"] = True
      return
    state["evaluations"] += 1
    try:
      slow = state["first_fail"] is not None and "no answer" in state["best"][2]
      labels = run_case(
          target, case, CASE_LIMIT_SHRINKING_S if slow else CASE_LIMIT_S)
    except Discard:
      state["discards"] += 1
      return
    except HarnessError:
      state["harness_error"] = traceback.format_exc()
      return
    except (KeyboardInterrupt, SystemExit, MemoryError):
      raise
    except BaseException as e:  # any error in the code under test
      if state["first_fail"] is None:
        state["first_fail"] = time.time()
        if failed is not None:
          failed.set()
      size = _size(case)
      if state["best"] is None or size <= state["best"][0]:
        state["best"] = (
            size, case, f"{type(e).__name__}: {e}", traceback.format_exc()
        )
      raise
    for label in labels:
      state["labels"][label] += 1
    if "nontrivial" in labels:
      state["nontrivial"].add(_digest(case))
      if len(state["samples"]) < 3 and rng.random() < 0.05:
        state["samples"].append(case)
      elif len(state["samples"]) == 0:
        state["samples"].append(case)

  wrapped = settings(
      max_examples=n_cases,
      deadline=None,
      database=None,
      derandomize=False,
      print_blob=False,
      report_multiple_bugs=False,
      phases=(Phase.generate, Phase.target, Phase.shrink),
      suppress_health_check=list(HealthCheck),
      verbosity=hypothesis.Verbosity.quiet,
  )(hypothesis.seed(seed)(given(target.strategy())(body)))
  error = None
  devnull = open(os.devnull, "w")
  stdout = sys.stdout
  try:
    sys.stdout = devnull
    wrapped()
  except BaseException:  # Hypothesis re-raises (or reports Flaky)
    if state["best"] is None:
      error = traceback.format_exc()
  finally:
    sys.stdout = stdout
    devnull.close()
  if state["harness_error"]:
    error = state["harness_error"]
  return dict(
      target=target_name, seed=seed, evaluations=state["evaluations"],
      discards=state["discards"], labels=dict(state["labels"]),
      nontrivial=list(state["nontrivial"]), samples=state["samples"],
      truncated=state["truncated"], best=state["best"], error=error,
      wall=time.time() - start,
  )


def _shard_seed(base_seed: int, prop: str, target: str, shard: int) -> int:
  text = f"{base_seed}/{prop}/{target}/{shard}".encode()
  return int.from_bytes(hashlib.blake2b(text, digest_size=6).digest(), "big")


def load(prop: str):
  import importlib

  boot.setup()
  module_name = f"vp.checks.{prop.lower()}"
  return module_name, importlib.import_module(module_name).CHECK


def run(prop: str, tier: str, base_seed: int, only_target=None, scale=1.0) -> int:
  start = time.time()
  try:
    module_name, check = load(prop)
  except Exception as e:  # pylint: disable=broad-except
    return _import_failed(prop, tier, base_seed, e)
  time_cap = 240.0 if tier == "quick" else 3000.0
  shrink_cap = 30.0 if tier == "quick" else 120.0
  shrink_cap = float(os.environ.get("VP_SHRINK_S", shrink_cap))
  jobs = []
  for target in check.targets:
    if only_target and target.name != only_target:
      continue
    total = target.quick if tier == "quick" else target.thorough
    total = max(1, int(total * scale))
    shards = min(NPROC, max(1, total // 20)) if total >= 40 else 1
    if tier == "thorough":
      shards *= 4
    per = -(-total // shards)
    for shard in range(shards):
      jobs.append((
          module_name, target.name, _shard_seed(base_seed, prop, target.name, shard),
          per, time_cap, shrink_cap,
      ))
  ctx = multiprocessing.get_context("fork")
  for target in check.targets:
    _FAILED[target.name] = ctx.Event()
  results = []
  with ctx.Pool(min(NPROC, len(jobs)), maxtasksperchild=4) as pool:
    for result in pool.imap_unordered(_run_shard, jobs, chunksize=1):
      results.append(result)
  return _report(check, tier, base_seed, results, time.time() - start)


def _import_failed(prop, tier, base_seed, error) -> int:
  """Code that cannot be imported violates every property it is to provide."""
  traceback.print_exc()
  frames = traceback.extract_tb(error.__traceback__)
  own = [f for f in frames if "importlib" not in f.filename]
  inside = bool(own) and os.path.abspath(own[-1].filename).startswith(
      os.path.abspath(boot.REPO) + os.sep)
  if isinstance(error, SyntaxError) and error.filename:
    inside = os.path.abspath(error.filename).startswith(
        os.path.abspath(boot.REPO) + os.sep)
  if not inside:
    return 2
  path = os.path.join(boot.VERIF, "replays", f"{prop}-import.json")
  os.makedirs(os.path.dirname(path), exist_ok=True)
  message = f"{type(error).__name__}: {error}"
  with open(path, "w") as f:
    json.dump(dict(property=prop, target=None, case=None, message=message,
                   traceback=traceback.format_exc(), seed=base_seed, tier=tier),
              f, indent=1)
  print(f"-- {prop}: the code under test cannot be imported: {message}")
  print(f"VIOLATION property={prop} replay={path}")
  return 1


def _report(check, tier, base_seed, results, wall) -> int:
  prop = check.property
  by_target = {}
  samples = []
  distinct = set()
  evaluations = 0
  violations = []
  errors = []
  for target in check.targets:
    mine = [r for r in results if r["target"] == target.name]
    if not mine:
      continue
    labels = collections.Counter()
    digests = set()
    for r in mine:
      labels.update(r["labels"])
      digests.update(r["nontrivial"])
    n = sum(r["evaluations"] for r in mine)
    evaluations += n
    distinct.update(f"{target.name}/{d}" for d in digests)
    by_target[target.name] = dict(
        evaluations=n,
        discarded=sum(r["discards"] for r in mine),
        distinct_nontrivial=len(digests),
        rule=target.rule,
        labels=dict(sorted(labels.items())),
        shards=len(mine),
        shards_stopped_by_time_cap=sum(r["truncated"] for r in mine),
    )
    picked = [s for r in sorted(mine, key=lambda r: r["seed"]) for s in r["samples"]]
    for s in picked[:2]:
      text = json.dumps(s, ensure_ascii=True)
      samples.append(dict(target=target.name, case=text if len(text) < 1500 else text[:1500] + "..."))
    errors.extend(r["error"] for r in mine if r["error"])
    failing = [r["best"] for r in mine if r["best"]]
    if failing:
      size, case, message, tb = min(failing, key=lambda b: b[0])
      violations.append((target.name, case, message, tb))

  replay_dir = os.path.join(boot.VERIF, "replays")
  found = []
  for name, case, message, tb in violations:
    os.makedirs(replay_dir, exist_ok=True)
    path = os.path.join(replay_dir, f"{prop}-{name}.json")
    with open(path, "w") as f:
      json.dump(dict(property=prop, target=name, case=case, message=message,
                     traceback=tb, seed=base_seed, tier=tier), f, indent=1)
      f.write("\n")
    found.append(dict(target=name, message=message[:2000], replay=path))

  evidence = dict(
      property=prop,
      tier=tier,
      seed=base_seed,
      level="exploration",
      coverage=dict(
          evaluations=evaluations,
          distinct_nontrivial=len(distinct),
          rule="; ".join(f"{k}: {v['rule']}" for k, v in by_target.items()),
          samples=samples,
          by_target=by_target,
      ),
      wall_s=round(wall, 2),
      violations=len(found),
      assumptions=list(check.assumptions),
  )
  if found:
    evidence["coverage"]["violations_found"] = found
  os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
  with open(os.path.join(boot.VERIF, "evidence", f"{prop}.json"), "w") as f:
    json.dump(evidence, f, indent=1)
    f.write("\n")

  for name, info in by_target.items():
    print(f"{prop}/{name}: {info['evaluations']} cases, "
          f"{info['distinct_nontrivial']} distinct non-trivial, labels {info['labels']}")
  if found:
    for (name, case, message, _), item in zip(violations, found):
      print(f"-- {prop}/{name} fails on {json.dumps(case)[:1500]}")
      print("   " + message[:3000])
      print(f"VIOLATION property={prop} replay={item['replay']}")
    return 1
  if errors:
    print("HARNESS ERROR", errors[0], file=sys.stderr)
    return 2
  if not evaluations or not distinct:
    print("HARNESS ERROR: nothing non-trivial was explored", file=sys.stderr)
    return 2
  print(f"{prop}: held on {evaluations} cases ({len(distinct)} distinct non-trivial), {wall:.1f}s")
  return 0


def replay(path: str) -> int:
  with open(path) as f:
    data = json.load(f)
  if data["target"] is None:
    try:
      load(data["property"])
    except Exception:  # pylint: disable=broad-except
      traceback.print_exc()
      print(f"VIOLATION property={data['property']} replay={path}")
      return 1
    print("held; the code can be imported")
    return 0
  _, check = load(data["property"])
  target = next(t for t in check.targets if t.name == data["target"])
  try:
    labels = run_case(target, data["case"])
  except Discard:
    print("case discarded: outside the property's domain")
    return 0
  except Exception:  # pylint: disable=broad-except
    traceback.print_exc()
    print(f"VIOLATION property={data['property']} replay={path}")
    return 1
  print(f"held; labels {labels}")
  return 0
