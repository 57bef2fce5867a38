"""P02: lexical units (strings, comments, directives, numbers...) are recognised."""

from hypothesis import strategies as st

from vp import gen_code
from vp import ref_parse
from vp.harness import Check, Target, require, require_equal
from r_u_sure.parsing.pseudo_parser import stack_parser


def run_lex(case):
  language, code = case["language"], case["code"]
  preset = "python_preprocessor" if language == "python" else language
  codec = stack_parser.RegexCodec.preset(preset)
  ids, types = codec.encode(code)
  texts = codec.decode_token(ids)
  actual = [(k.name, t) for k, t in zip(types, texts)]
  expected = ref_parse.lex(language, code)
  require_equal(actual, expected, "wrong lexical units")
  require_equal([k.name for k in codec.decode_type(ids)], [k for k, _ in expected],
                "decoded types differ from encoded types")
  labels = [language] + sorted({k for k, _ in expected})
  if any(k in ("STRING", "COMMENT_HASH", "COMMENT_SLASHSLASH", "COMMENT_SLASHSTAR",
               "C_PREPROCESSOR") for k, _ in expected):
    labels.append("nontrivial")
  return labels


def run_parse_types(case):
  """The types the parser reports are those of the lexical units."""
  language, code = case["language"], case["code"]
  _, tokens, types, _, _ = stack_parser.PseudoParser.parse_and_maybe_preprocess(
      language, code, case["spaces"])
  ref = ref_parse.parse(language, code, case["spaces"])
  strip = lambda toks, kinds: [
      (k, t) for t, k in zip(toks, kinds) if k not in (ref_parse.INDENT, ref_parse.DEDENT)]
  require_equal(strip(tokens, [k.name for k in types]), strip(ref.tokens, ref.types),
                "wrong token types in the parse")
  return [language] + (["nontrivial"] if len(set(ref.types)) >= 3 else [])


def run_history(case):
  """One codec used for a history of encodings."""
  codec = stack_parser.RegexCodec.preset(case["preset"])
  language = "python" if case["preset"] == "python_preprocessor" else case["preset"]
  known = {}
  issued = {}
  repeats = 0
  markers = 0
  texts = set()
  for code in case["codes"]:
    if isinstance(code, list):  # a marker that may share its text with other tokens
      text, kind = code
      i = codec.add_token(text, stack_parser.TokenType[kind], non_unique=True)
      require(i not in issued, "the index of a marker was in use already", text=text, index=i)
      issued[i] = (text, kind)
      texts.add(text)
      markers += 1
      order = list(issued)
      require_equal(codec.decode_token(order), [issued[i][0] for i in order],
                    "decoding earlier indices changed")
      require_equal([k.name for k in codec.decode_type(order)],
                    [issued[i][1] for i in order], "types of earlier indices changed")
      continue
    ids, types = codec.encode(code)
    expected = ref_parse.lex(language, code)
    require_equal(len(ids), len(expected), "wrong number of tokens", code=code)
    for i, k, (kind, text) in zip(ids, types, expected):
      require_equal(k.name, kind, "wrong type", code=code, text=text)
      if text in known:
        repeats += 1
        require_equal(i, known[text], "the index of a token changed", text=text)
      else:
        require(i not in issued, "an index was issued for two tokens", text=text, index=i)
        known[text] = i
        issued[i] = (text, kind)
    require_equal(len(codec), len(set(known) | texts), "wrong number of known tokens")
    order = list(issued)
    require_equal(codec.decode_token(order), [issued[i][0] for i in order],
                  "decoding earlier indices changed")
    require_equal([k.name for k in codec.decode_type(order)],
                  [issued[i][1] for i in order], "types of earlier indices changed")
  return [case["preset"]] + (["markers"] if markers > 1 else []) + (["nontrivial"] if repeats and len(case["codes"]) > 1 else [])


def history_strategy():
  def build(preset):
    language = "python" if preset == "python_preprocessor" else preset
    return st.fixed_dictionaries({
        "preset": st.just(preset),
        "codes": st.lists(st.one_of(
            gen_code.text(language, 10), gen_code.text(language, 10),
            st.tuples(st.just(""), st.sampled_from(["PYTHON_INDENT", "PYTHON_DEDENT"])).map(list),
        ), min_size=1, max_size=7),
    })

  return st.sampled_from(
      ["simple", "cpp", "java", "javascript", "python_preprocessor"]).flatmap(build)


CHECK = Check(
    property="P02",
    targets=[
        Target("lex", gen_code.case, run_lex, quick=24000, thorough=300000,
               rule="the code contains a string, comment or preprocessor unit"),
        Target("parse_types", gen_code.case, run_parse_types, quick=10000, thorough=100000,
               rule="at least three different token types"),
        Target("codec_history", history_strategy, run_history, quick=2000, thorough=60000,
               rule="several encodings on one codec, with a repeated token"),
    ],
    assumptions=[
        "lexical rules are those of the five presets, restated in a hand-written scanner",
    ],
)
