"""Runs questions in fresh copies of a process that has answered none yet (test-side only).

As a script: reads jobs (lists of questions) from standard input, one JSON line each, and
answers each job in a forked child.  The parent never answers anything itself, so every
child starts from the state right after importing the library.
"""

import json
import math
import os
import signal
import subprocess
import sys
import time

# All questions of a job together.
LIMIT_S = 20
HERE = os.path.dirname(os.path.abspath(__file__))


class Server:
  """A waiting process with its own hash seed."""

  def __init__(self, hash_seed):
    env = dict(os.environ, PYTHONHASHSEED=str(hash_seed), PYTHONDONTWRITEBYTECODE="1")
    self.process = subprocess.Popen(
        [sys.executable, os.path.abspath(__file__)], env=env, text=True,
        stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
        start_new_session=True)

  def ask(self, questions):
    """A list of [answer, seconds it took, the same result looked at after all questions]."""
    self.process.stdin.write(json.dumps(questions) + "\n")
    self.process.stdin.flush()
    line = self.process.stdout.readline()
    if not line:
      raise EOFError("no answer")
    return json.loads(line)

  def close(self):
    try:
      os.killpg(self.process.pid, signal.SIGKILL)  # with the child that is answering
    except ProcessLookupError:
      pass
    self.process.wait()
    self.process.stdin.close()
    self.process.stdout.close()


# ---- in the server ------------------------------------------------------------


def plain(value):
  """A comparable picture of a result; floats to nine digits."""
  import numpy as np

  if isinstance(value, dict):
    return sorted(([plain(k), plain(v)] for k, v in value.items()), key=json.dumps)
  if isinstance(value, (set, frozenset)):
    return sorted((plain(v) for v in value), key=json.dumps)
  if isinstance(value, (list, tuple)):
    return [plain(v) for v in value]
  if isinstance(value, np.ndarray):
    return plain(value.tolist())
  if isinstance(value, (bool, np.bool_, type(None), str)):
    return bool(value) if isinstance(value, np.bool_) else value
  if isinstance(value, (int, np.integer)):
    return int(value)
  if isinstance(value, (float, np.floating)):
    return float(f"{float(value):.9g}") if math.isfinite(value) else str(float(value))
  return repr(value)


def answer_all(questions):
  from vp import questions as library

  made = {}
  out, looks = [], []
  for q in questions:
    start = time.monotonic()
    looks.append(None)
    try:
      looks[-1] = library.answer(q, made)
      got = plain(looks[-1]())
    except Exception as e:  # pylint: disable=broad-except
      got = ["raised", type(e).__name__]
      looks[-1] = None
    out.append([got, time.monotonic() - start])
  for result, look in zip(out, looks):
    try:
      result.append(plain(look()) if look else result[0])
    except Exception as e:  # pylint: disable=broad-except
      result.append(["raised", type(e).__name__])
  return out


def serve():
  sys.path.insert(0, os.path.dirname(HERE))
  from vp import boot

  boot.setup()
  from vp import questions as library  # imports the code under test

  del library
  reply = os.dup(1)
  null = os.open(os.devnull, os.O_WRONLY)
  os.dup2(null, 1)
  for line in sys.stdin:
    questions = json.loads(line)
    read, write = os.pipe()
    child = os.fork()
    if child == 0:
      status = 1
      try:
        signal.alarm(LIMIT_S)
        os.close(read)
        with os.fdopen(write, "w") as out:
          json.dump(answer_all(questions), out)
        status = 0
      finally:
        os._exit(status)  # pylint: disable=protected-access
    os.close(write)
    with os.fdopen(read) as answers:
      text = answers.read()
    _, status = os.waitpid(child, 0)
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
      text = json.dumps([["late", LIMIT_S, "late"]] * len(questions))
    elif not text:
      text = json.dumps([["died", 0, "died"]] * len(questions))
    write_all(reply, text)


def write_all(fd, text):
  data = text.encode() + b"\n"
  while data:
    data = data[os.write(fd, data):]


if __name__ == "__main__":
  serve()
