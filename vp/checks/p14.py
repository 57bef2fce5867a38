"""P14: aligning model token log-probabilities with parsed tokens."""

import html
import math
import re

from hypothesis import strategies as st

from vp import gen_code
from vp import nodes
from vp.harness import (Check, Target, expect_raises, require, require_close,
                        require_equal)
from r_u_sure.tree_structure import packed_sequence_nodes as psn
from r_u_sure.tree_structure import token_prob_align as tpa


class RefSpans:
  """Character-interval model of a stream of model tokens."""

  def __init__(self, tokens):
    self.intervals = []
    at = 0
    for text, log_prob in tokens:
      self.intervals.append((at, at + len(text), log_prob))
      at += len(text)
    self.text = "".join(t for t, _ in tokens)
    self.at = 0
    self.next = 0  # first token not completely consumed

  def advance(self, length):
    end = self.at + length
    total = 0.0
    k = self.next
    while k < len(self.intervals):
      total += self.intervals[k][2]
      stop = self.intervals[k][1]
      if stop <= end:
        k += 1
        # a span is complete as soon as its characters are; a token without
        # characters right after it belongs to the next span
        if stop == end:
          break
      else:
        break
    self.next = k
    span = self.text[self.at:end]
    self.at = min(end, len(self.text))
    return span, total

  def rest(self):
    return self.text[self.at:]


def run_spans(case):
  tokens = [tuple(t) for t in case["tokens"]]
  given = list(tokens)
  helper = tpa.SpanProbHelper.build(tokens)
  # Another one in use at the same time.
  others = [(t.upper() + "Z", lp - 1.0) for t, lp in tokens[::-1]]
  other, other_ref = tpa.SpanProbHelper.build(others), RefSpans(others)
  ref = RefSpans(tokens)
  for i, length in enumerate(case["lengths"]):
    if i % 3 == 2:
      span, log_prob = other.advance_by_length(length)
      want_span, want = other_ref.advance(length)
      require_equal(span, want_span, "wrong characters", length=length)
      require_close(log_prob, want, "wrong log probability", length=length)
    span, log_prob = helper.advance_by_length(length)
    want_span, want = ref.advance(length)
    require_equal(span, want_span, "wrong characters", length=length)
    require_close(log_prob, want, "wrong log probability", length=length)
  require_equal(tokens, given, "the input was modified")
  if ref.rest():
    with expect_raises(ValueError, "unconsumed tokens accepted"):
      helper.assert_consumed()
  else:
    helper.assert_consumed()
  return ["nontrivial"] if len(case["tokens"]) > 2 and len(case["lengths"]) > 2 else []


def spans_strategy():
  token = st.tuples(st.sampled_from(["a", "bb", "ccc", "", "dddd", "é", "e" * 9, "f" * 40]),
                    st.integers(-40, 0).map(lambda k: k / 8)).map(list)
  return st.fixed_dictionaries({
      "tokens": gen_code.sized(token, 10),
      "lengths": gen_code.sized(st.sampled_from([0, 1, 2, 3, 4, 5, 1, 2, 9, 17, 33]), 10),
  })


def run_align(case):
  spec = case["spec"]
  storage = psn.pack(nodes.to_nodes(spec))
  text = nodes.text_of(spec)
  model_text = text + case["extra"]
  # Cut the model's text into tokens.
  cuts = sorted(c % (len(model_text) + 1) for c in case["cuts"])
  bounds = [0] + cuts + [len(model_text)]
  tokens = []
  for k, (a, b) in enumerate(zip(bounds, bounds[1:])):
    tokens.append((model_text[a:b], -((k * 7) % 11 + 1) / 4))
  given = list(tokens)
  consume = case["consume"]
  if case["corrupt"] and text:
    # A disagreement at one character must be reported.
    at = case["corrupt"] % len(text)
    changed = model_text[:at] + ("~" if model_text[at] != "~" else "!") + model_text[at + 1:]
    bad = [(changed[a:b], lp) for (a, b), (_, lp) in zip(zip(bounds, bounds[1:]), tokens)]
    with expect_raises(ValueError, "different text accepted"):
      tpa.align_token_log_probs(bad, storage, must_consume_all_model_tokens=consume)
  if case["extra"] and consume:
    with expect_raises(ValueError, "left-over model tokens accepted"):
      tpa.align_token_log_probs(tokens, storage, must_consume_all_model_tokens=True)
    return ["left-over"]
  if consume:
    actual = tpa.align_token_log_probs(tokens, storage, must_consume_all_model_tokens=True)
  else:  # by default, the parsed code may be only the beginning of the model's text
    actual = tpa.align_token_log_probs(tokens, storage)
  require_equal(tokens, given, "the input was modified")
  ref = RefSpans(tokens)
  expected = {}
  flat = []
  for i, item in enumerate(_preorder_items(spec)):
    if item[0] in ("tok", "dec"):
      _, lp = ref.advance(len(item[1]))
      if item[0] == "tok":
        expected[i] = lp
      flat.append((item[1], lp if item[0] == "tok" else 0.0))
  require_equal(sorted(actual), sorted(expected), "wrong set of nodes")
  for i in expected:
    require_close(actual[i], expected[i], "wrong log probability", node=i)
  got_flat = list(tpa.flatten_token_log_probs_from_parsed(storage, actual))
  require_equal([t for t, _ in got_flat], [t for t, _ in flat], "wrong flattened tokens")
  for (_, a), (_, b) in zip(got_flat, flat):
    require_close(a, b, "wrong flattened log probability")
  # Spans aligned with token boundaries get exactly their tokens' probability.
  labels = []
  if len(expected) >= 2 and len(tokens) >= 2:
    labels.append("nontrivial")
  return labels


def _preorder_items(spec):
  for item in spec:
    yield item
    if item[0] == "group":
      yield from _preorder_items(item[1])


def align_strategy():
  return st.fixed_dictionaries({
      "spec": nodes.spec_strategy(texts=("a", "bb", "ccc", "", " ", "dddd", "e" * 20), sizes=(0, 1, 2, 3, 4, 6, 8, 12), large=True),
      "cuts": st.one_of(
          gen_code.sized(st.integers(0, 20), 8), gen_code.sized(st.integers(0, 60), 8),
          gen_code.sized(st.integers(0, 400), 30)),
      "extra": st.sampled_from(["", "", "z", "zz top"]),
      "consume": st.booleans(),
      "corrupt": st.sampled_from([0, 0, 0, 1, 2, 3, 5, 8, 13]),
  })


def run_html(case):
  tokens = [tuple(t) for t in case["tokens"]]
  out = tpa.render_tokens_and_log_probs_to_html(tokens)
  m = re.fullmatch(r"<span[^>]*>(.*)</span>", out, re.DOTALL)
  require(m, "no enclosing span", out=out)
  parts = re.findall(
      r'<span style="background-color: rgb\(([^%]*)%, ([^%]*)%, ([^%]*)%\)">(.*?)</span>',
      m.group(1), re.DOTALL)
  require_equal(len(parts), len(tokens), "wrong number of spans", out=out)
  require_equal(re.sub(r"<[^>]*>", "", m.group(1)), "".join(p[3] for p in parts),
                "text outside of token spans")
  for (r, g, b, text), (token, lp) in zip(parts, tokens):
    require_equal(html.unescape(text).replace("↩\n", "\n"), token, "wrong text")
    require("<" not in text and '"' not in text, "unescaped text", text=text)
    require_close(float(r), 100.0, "red")
    require_close(float(g), 100 * math.exp(lp), "green")
    require_close(float(b), 100 * math.exp(lp), "blue")
  return ["nontrivial"] if len(tokens) >= 2 else []


def html_strategy():
  token = st.tuples(
      st.sampled_from(["a", "<b>", "&amp;", "\"q'", "\n", "x\ny", "", "</span>", "é"]),
      st.integers(-40, 0).map(lambda k: k / 8)).map(list)
  return st.fixed_dictionaries({"tokens": st.lists(token, max_size=6)})


CHECK = Check(
    property="P14",
    targets=[
        Target("spans", spans_strategy, run_spans, quick=10000, thorough=100000,
               rule="at least three model tokens and three spans"),
        Target("align", align_strategy, run_align, quick=10000, thorough=100000,
               rule="at least two parsed tokens and two model tokens"),
        Target("html", html_strategy, run_html, quick=2000, thorough=20000,
               rule="at least two tokens"),
    ],
    assumptions=["log probabilities are finite"],
)
