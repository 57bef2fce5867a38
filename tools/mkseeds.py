"""Builds and confirms planted bugs: tools/mkseeds.py [ID ...] [--check].

Each tools/seeds/<id>.py defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)]
and DEMO (a Python program that fails iff the property is broken).  The bug is made in
a scratch copy of /repo; nothing in /repo changes.  Not used by any check.
"""
import json, os, pathlib, shutil, subprocess, sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
SCRATCH = pathlib.Path("/tmp/vp_seed")
DEMO_SH = '''#!/bin/bash
# Run with cwd /repo.  Exit 0: behaves as it should.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD:$here/stub"
exec timeout 120 /opt/venv/bin/python "$here/demo.py"
'''
PRE = '''import os, sys
import r_u_sure
assert os.path.realpath(r_u_sure.__file__).startswith(os.path.realpath(os.getcwd())), r_u_sure.__file__
'''


def sh(cmd, **kw):
  return subprocess.run(cmd, capture_output=True, text=True, **kw)


def fresh():
  shutil.rmtree(SCRATCH, ignore_errors=True)
  SCRATCH.mkdir()
  subprocess.run(f"git -C /repo archive HEAD | tar x -C {SCRATCH}", shell=True, check=True)
  sh(["git", "init", "-q"], cwd=SCRATCH)
  sh(["git", "add", "-A"], cwd=SCRATCH)
  sh(["git", "-c", "user.name=x", "-c", "user.email=x@x", "commit", "-qm", "x"], cwd=SCRATCH)


def run_tests():
  env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
  r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider",
          "--ignore=r_u_sure/decision_diagrams", "--ignore=r_u_sure/numba_helpers",
          "--ignore=r_u_sure/wrappers",
          "--ignore=r_u_sure/tree_structure/token_prob_align_test.py", "r_u_sure"],
         cwd=SCRATCH, env=env)
  return r.stdout.strip().splitlines()[-1]


def main():
  ids = [a for a in sys.argv[1:] if not a.startswith("-")]
  check = "--check" in sys.argv
  ids = ids or sorted(p.stem for p in (ROOT / "tools/seeds").glob("*.py"))
  for seed in ids:
    spec = {}
    exec((ROOT / f"tools/seeds/{seed}.py").read_text(), spec)
    out = ROOT / "seeded" / seed
    shutil.rmtree(out, ignore_errors=True)
    out.mkdir(parents=True)
    fresh()
    demo = PRE + spec["DEMO"]
    (out / "demo.py").write_text(demo)
    (out / "demo.sh").write_text(DEMO_SH)
    os.chmod(out / "demo.sh", 0o755)
    shutil.copytree(ROOT / "stubs", out / "stub", ignore=shutil.ignore_patterns("__pycache__"))
    good = sh(["bash", str(out / "demo.sh")], cwd=SCRATCH)
    for name, old, new in spec["EDITS"]:
      path = SCRATCH / name
      text = path.read_text()
      assert text.count(old) == 1, (seed, name, text.count(old))
      path.write_text(text.replace(old, new))
    (out / "patch.diff").write_text(sh(["git", "diff"], cwd=SCRATCH).stdout)
    (out / "meta.json").write_text(json.dumps(
        dict(property=spec["PROPERTY"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]),
        indent=1) + "\n")
    bad = sh(["bash", str(out / "demo.sh")], cwd=SCRATCH)
    tests = run_tests()
    ok = good.returncode == 0 and bad.returncode != 0 and "83 passed" in tests
    print(seed, spec["PROPERTY"], "OK" if ok else "BAD", "| good", good.returncode, "| bad", bad.returncode, "|", tests)
    if good.returncode:
      print(good.stdout[-1500:], good.stderr[-1500:])
    if "-v" in sys.argv:
      print(bad.stdout[-600:], bad.stderr[-600:])
    if check:
      r = sh(["python3", str(ROOT / "run.py"), spec["PROPERTY"]],
             env=dict(os.environ, VERIF_REPO=str(SCRATCH), VERIF_SEED="1"))
      caught = r.returncode == 1 and f"VIOLATION property={spec['PROPERTY']} " in r.stdout
      print("   check:", "CAUGHT" if caught else f"MISSED rc={r.returncode}")
      shutil.rmtree(ROOT / "replays", ignore_errors=True)
  shutil.rmtree(SCRATCH, ignore_errors=True)


main()
