"""Sets up sys.path so that r_u_sure comes from /repo's working tree.

Order matters: /repo first, then the numba stand-in (unless a real numba is
importable), then the interpreter's own site-packages (numpy, absl), and LAST the
tool venv, which supplies hypothesis only.
"""

import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True


def setup():
  for path in (os.path.join(VERIF, "stubs"), REPO):
    while path in sys.path:
      sys.path.remove(path)
    sys.path.insert(0, path)
  if TOOL_SITE not in sys.path:
    sys.path.append(TOOL_SITE)
  sys.setrecursionlimit(max(sys.getrecursionlimit(), 6000))
  import r_u_sure  # pylint: disable=import-outside-toplevel

  origin = os.path.realpath(r_u_sure.__file__)
  if not origin.startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit(f"r_u_sure imported from {origin}, not from {REPO}")
  import numba  # pylint: disable=import-outside-toplevel

  if not getattr(numba, "IS_VERIF_STUB", False):
    raise SystemExit("expected the numba stand-in of /verif/stubs")
