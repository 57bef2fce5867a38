"""Mutation lab: how many small changes of the code do the checks notice?

  mutlab.py gen OUT.jsonl [--per-file N] [--seed S]
  mutlab.py run IN.jsonl OUT.jsonl [--workers W]

Every mutant is made in a scratch copy under /tmp; mutants that fail the repository's
own tests are skipped.  Not used by any check.
"""
import ast, concurrent.futures, json, os, pathlib, random, shutil, subprocess, sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
D = "r_u_sure/"
MAP = {
    D + "parsing/pseudo_parser/stack_parser.py": "P03 P01 P02 P04 P05 P08",
    D + "parsing/pseudo_parser/utilities.py": "P07 P06",
    D + "parsing/subtokenizer.py": "P09 P08",
    D + "parsing/sequence_from_pseudo_parse.py": "P08",
    D + "parsing/python_builtin_tokens.py": "P27",
    D + "tree_structure/sequence_nodes.py": "P13 P12 P10 P11",
    D + "tree_structure/sequence_node_helpers.py": "P13 P10 P11",
    D + "tree_structure/transforms.py": "P10 P11",
    D + "tree_structure/packed_sequence_nodes.py": "P12",
    D + "tree_structure/token_prob_align.py": "P14",
    D + "decision_diagrams/gated_state_dag.py": "P15 P16",
    D + "decision_diagrams/packed_dags.py": "P16 P17",
    D + "decision_diagrams/consistent_path_dual_solver.py": "P19 P18",
    D + "edit_distance_utility/edit_dags.py": "P20 P23 P29",
    D + "edit_distance_utility/constraint_dags.py": "P21 P29 P24",
    D + "edit_distance_utility/part_selection_dags.py": "P22 P29 P27",
    D + "edit_distance_utility/region_decisions.py": "P23 P21 P20 P26 P29",
    D + "wrappers/demo_runner.py": "P28",
    D + "wrappers/uncertainty_regions_wrapper.py": "P24 P25 P26",
    D + "wrappers/edit_distance_wrapper_base.py": "P24 P26",
    D + "wrappers/parser_tools.py": "P08 P10 P24 P27",
    D + "wrappers/prefix_truncation_wrapper.py": "P24 P26",
    D + "wrappers/wrapper_base.py": "P24 P27 P28",
    D + "wrappers/call_sequence_wrapper.py": "P27 P25",
    D + "rendering/dag_annotator.py": "P29",
    D + "rendering/svg_renderer.py": "P29",
    D + "rendering/rendering.py": "P29",
    D + "rendering/simple_dag_annotator.py": "P29",
    D + "rendering/render_in_notebook.py": "P29 P28",
}
CMP = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"],
       ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"],
       ast.In: ["not in"], ast.NotIn: ["in"]}
SCALE = os.environ.get("MUT_SCALE", "1.0")
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "//"}


def mutants_of(path):
  src = (pathlib.Path("/repo") / path).read_text()
  tree = ast.parse(src)
  starts = [0]
  for line in src.splitlines(keepends=True):
    starts.append(starts[-1] + len(line.encode()))
  data = src.encode()
  off = lambda l, c: starts[l - 1] + c
  span = lambda n: (off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset))
  text = lambda n: data[slice(*span(n))].decode()
  out = []

  def add(kind, node, new, a=None, b=None):
    s, e = span(node) if a is None else (a, b)
    old = data[s:e].decode()
    if old != new:
      out.append(dict(file=path, line=node.lineno, kind=kind, start=s, end=e, old=old, new=new))

  def visit(node, in_func):
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
      in_func = True
    for field, value in ast.iter_fields(node):
      if field in ("annotation", "returns", "decorator_list", "type_comment"):
        continue
      for child in (value if isinstance(value, list) else [value]):
        if isinstance(child, ast.AST):
          visit_child(child, in_func)

  def visit_child(n, f):
    if isinstance(n, (ast.Assert, ast.Raise, ast.Import, ast.ImportFrom)):
      return
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
      return
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
      l, r = n.left, n.comparators[0]
      for op in CMP.get(type(n.ops[0]), []):
        add("cmp", n, f"({text(l)} {op} {text(r)})")
    if isinstance(n, ast.BinOp) and type(n.op) in BIN:
      add("bin", n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})")
    if isinstance(n, ast.BoolOp):
      for v in n.values:
        rest = [x for x in n.values if x is not v]
        j = " and " if isinstance(n.op, ast.And) else " or "
        add("bool-drop", n, "(" + j.join(f"({text(x)})" for x in rest) + ")")
      j = " or " if isinstance(n.op, ast.And) else " and "
      add("bool-op", n, "(" + j.join(f"({text(x)})" for x in n.values) + ")")
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
      add("not", n, f"({text(n.operand)})")
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
      add("neg", n, f"({text(n.operand)})")
    if isinstance(n, ast.Constant) and f:
      if n.value is True or n.value is False:
        add("const", n, str(not n.value))
      elif isinstance(n.value, int):
        add("const", n, str(n.value + 1))
        if n.value > 0:
          add("const", n, str(n.value - 1))
      elif isinstance(n.value, float):
        add("const", n, repr(n.value + 1.0))
    if isinstance(n, (ast.If, ast.IfExp)) and f:
      add("if", n.test, "True")
      add("if", n.test, "False")
    if isinstance(n, ast.IfExp) and f:
      pass
    if f and isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)):
      add("del", n, "pass")
    if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add):
      add("aug", n, f"{text(n.target)} -= {text(n.value)}")
    if isinstance(n, ast.Continue):
      add("flow", n, "break")
    if isinstance(n, ast.Break):
      add("flow", n, "continue")
    if isinstance(n, ast.Call) and f and len(n.args) >= 2 and not n.keywords:
      a, b = n.args[0], n.args[1]
      if not isinstance(a, ast.Starred) and not isinstance(b, ast.Starred):
        add("swap", n, f"{text(b)}, {text(a)}", span(a)[0], span(b)[1])
    if isinstance(n, ast.Attribute) and f and n.attr.isupper() and isinstance(n.value, ast.Attribute):
      pass
    if isinstance(n, ast.Slice) and f:
      if n.lower is not None: add("slice", n.lower, f"{text(n.lower)} + 1")
      if n.upper is not None: add("slice", n.upper, f"({text(n.upper)}) - 1")
    visit(n, f)

  visit(tree, False)
  good = []
  for m in out:
    mutated = data[:m["start"]] + m["new"].encode() + data[m["end"]:]
    try:
      compile(mutated, path, "exec")
    except Exception:
      continue
    good.append(m)
  return good


def gen(out, per_file, seed):
  rng = random.Random(seed)
  n = 0
  with open(out, "w") as f:
    items = []
    for path in MAP:
      ms = mutants_of(path)
      k = len(ms) if per_file is None else min(per_file, len(ms))
      print(path, len(ms), k)
      items += rng.sample(ms, k)
    rng.shuffle(items)
    for m in items:
      f.write(json.dumps(m) + "\n")


def sh(cmd, **kw):
  return subprocess.run(cmd, capture_output=True, text=True, **kw)


def one(args):
  m, slot_dir, verif = args
  scratch = pathlib.Path(slot_dir)
  target = scratch / m["file"]
  orig = (pathlib.Path("/repo") / m["file"]).read_bytes()
  target.write_bytes(orig[:m["start"]] + m["new"].encode() + orig[m["end"]:])
  try:
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    if not m["file"].startswith((D + "decision", D + "wrappers", D + "edit")):
      try:
        r = sh(["timeout", "120", "/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
              "--ignore=r_u_sure/decision_diagrams", "--ignore=r_u_sure/numba_helpers",
              "--ignore=r_u_sure/wrappers",
              "--ignore=r_u_sure/tree_structure/token_prob_align_test.py", "r_u_sure"],
             cwd=scratch, env=env)
        if "83 passed" not in r.stdout:
          return dict(m, result="tests")
      except Exception as e:
        return dict(m, result="tests")
    for p in MAP[m["file"]].split():
      try:
        r = sh(["timeout", "600", "python3", str(verif / "run.py"), p, "--scale", SCALE],
             env=dict(os.environ, VERIF_REPO=str(scratch), VERIF_SEED="1", VP_SHRINK_S="1"))
      except Exception as e:
        return dict(m, result="error", detail=str(e))
      if r.returncode == 1:
        lines = r.stdout.splitlines()
        return dict(m, result="caught", by=p, detail=[l for l in lines if l.startswith("-- ")][:1])
      if r.returncode != 0:
        return dict(m, result="noanswer", by=p, detail=(r.stdout[-500:], r.stderr[-1500:]))
    return dict(m, result="SURVIVED")
  finally:
    target.write_bytes(orig)


def run(inp, out, workers):
  base = pathlib.Path(f"/tmp/mutlab{os.getpid()}")
  base.mkdir()
  done = set()
  key = lambda m: (m["file"], m["start"], m["end"], m["new"])
  if os.path.exists(out):
    done = {key(json.loads(l)) for l in open(out)}
  ms = [m for m in map(json.loads, open(inp)) if key(m) not in done]
  verif = base / "verif"
  shutil.copytree(ROOT, verif, ignore=shutil.ignore_patterns(".git", "evidence", "replays", "seeded", "__pycache__"))
  import queue
  q = queue.Queue()
  for w in range(workers):
    d = base / f"w{w}"
    d.mkdir()
    v = base / f"v{w}"
    shutil.copytree(verif, v)
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {d}", shell=True, check=True)
    q.put((d, v))

  def job(m):
    d, v = q.get()
    try:
      return one((m, d, v))
    finally:
      q.put((d, v))

  try:
    with concurrent.futures.ThreadPoolExecutor(workers) as ex, open(out, "a") as f:
      for fut in concurrent.futures.as_completed([ex.submit(job, m) for m in ms]):
        r = fut.result()
        f.write(json.dumps(r) + "\n")
        f.flush()
  finally:
    shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
  if sys.argv[1] == "gen":
    a = sys.argv
    gen(a[2], int(a[a.index("--per-file") + 1]) if "--per-file" in a else None,
        int(a[a.index("--seed") + 1]) if "--seed" in a else 0)
  else:
    a = sys.argv
    run(a[2], a[3], int(a[a.index("--workers") + 1]) if "--workers" in a else 2)
