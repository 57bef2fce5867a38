#!/usr/bin/env python3
"""Entry point: run.py PROPERTY [--tier quick|thorough] [--seed N] | --replay FILE."""

import argparse
import os
import sys

PY = "/opt/venv/bin/python"
WANT = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}


def main():
  # Re-execute with the repository's interpreter and a fixed hash seed.
  if any(os.environ.get(k) != v for k, v in WANT.items()) or (
      os.path.exists(PY) and os.path.realpath(sys.prefix) != "/opt/venv"
      and not os.environ.get("VP_REEXEC")
  ):
    env = dict(os.environ, **WANT, VP_REEXEC="1")
    env.pop("PYTHONPATH", None)
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

  sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
  parser = argparse.ArgumentParser()
  parser.add_argument("property", nargs="?")
  parser.add_argument("--tier", default=None, choices=["quick", "thorough"])
  parser.add_argument("--seed", type=int, default=None)
  parser.add_argument("--target", default=None)
  parser.add_argument("--scale", type=float, default=1.0)
  parser.add_argument("--replay", default=None)
  args = parser.parse_args()
  from vp import harness

  if args.replay:
    return harness.replay(args.replay)
  tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
  if tier not in ("quick", "thorough"):
    tier = "quick"
  seed = args.seed
  if seed is None:
    try:
      seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
      seed = 1
  return harness.run(args.property, tier, seed, args.target, args.scale)


if __name__ == "__main__":
  sys.exit(main())
