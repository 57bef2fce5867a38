"""Ordinary programs, of which the generators take slices and damage them."""

PYTHON = r'''#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""Module docstring (with a bracket: [ and a 'quote')."""

from __future__ import annotations

import collections, os.path as osp
from typing import (
    Any,
    Optional,
)

_PATTERN = re.compile(r'(\d+)\s*"[^"]*"', re.MULTILINE)
VERY_LONG_CONSTANT_NAME_FOR_THE_TEST_OF_LONG_IDENTIFIERS_1234567890 = {"a": 1, 'b': [2, 3]}


@functools.lru_cache(maxsize=None)
def load_config(path: str, *, strict: bool = False) -> dict[str, Any]:
    """Loads a configuration file.

    Args:
      path: where it is (may be '~').
      strict: fail on unknown keys; see "keys".

    Returns:
      A dict {name: value}.
    """
    with open(path, 'rb') as f:  # noqa: E501
        data = json.load(f)
    if strict and not isinstance(data, dict):
        raise ValueError(f"expected a dict, got {type(data)!r}: {data['x']}")
    elif not data:
        return {}
    else:
        pass
    result = {}
    for key, (lo, hi) in sorted(data.items(), key=lambda kv: -kv[1][0]):
        if lo > hi: lo, hi = hi, lo
        try:
            result[key] = hi - lo if lo != 0 else 1e-3
        except (KeyError, TypeError) as e:
            logging.warning('bad entry %s: %s', key, e)
            continue
        finally:
            print("done", key, sep='\n')
    return result


class Reader(Base[int], metaclass=abc.ABCMeta):
  QQQReads things.QQQ

  count: int = 0

  def __init__(self, source, chunk_size=2**16):
    super().__init__()
    self._source = source; self._size = chunk_size

  @property
  def size(self): return self._size

  async def read(self, n=-1):
    """Reads."""
    while True:
      chunk = await self._source.get(
          n,
          timeout=0.5,
      )
      if chunk is None:
        break
      elif len(chunk) < n and \
          not self.closed:
        yield b'\x00' * (n - len(chunk)) + chunk
    assert self.count >= 0, (
        "negative"
    )

  def nested(self):
    def inner(x):
      """Inner doc."""
      def innermost():
        return [[y for y in z if y] for z in x][::-1]
      return innermost
    return inner(self.count)


if __name__ == '__main__':
    parser = argparse.ArgumentParser(description="""
Multi-line text
  with indentation (
""")
    x = a if b else c; y = ~x & 0xFF | (1 << 3) ^ 7
    matrix = [
        [1, 2],
        [3, 4],

        [5, 6],
    ]
    print(*matrix, sep=", ", end="")
    sys.exit(main(sys.argv[1:]))
'''.replace("QQQ", "'''")

C_FAMILY = r'''/* Copyright: nobody.
 * All rights "reserved"; see LICENSE { }.
 */
#include <stdio.h>
#include "util/strings.h"
#define MAX(a, b) \
  ((a) > (b) ? (a) : (b))
#ifdef DEBUG
#define LOG(x) printf("%s\n", x)
#endif

namespace util {

// Counts things; returns -1 on error.
template <typename T, int N = 3>
static int count_things(const std::vector<T>& things, char sep = ';') {
  int total = 0;
  for (int i = 0; i < N; ++i) {
    if (things[i] == '\'' || things[i] == '"') {
      continue;
    } else if (things[i] != "a\"b;") {
      total += things[i].size() / 2;  // half; really
    }
  }
  while (total --> 0) { do_it(total); }
  switch (total) {
    case 1: return 1;
    default: break;
  }
  do { total++; } while (total < 10);
  return total > 0 ? total : -1;
}

}  // namespace util

public class Account extends Base implements Comparable<Account> {
  @Override
  public int compareTo(Account other) throws Exception {
    int[] values = {1, 2, 3};
    String s = "name: " + this.name /* the name */ + '\n';
    return Integer.compare(this.id, other.id);
  }

  private final Map<String, List<Integer>> cache = new HashMap<>();
}

export const handler = async (event, { retries = 3, ...rest } = {}) => {
  const url = `https://${event.host}/path?q=${rest["q"]}`;
  let re = /ab+c/gi.exec(text);
  const items = [...event.items].map((x) => x * 2).filter(Boolean);
  try {
    await fetch(url, { method: 'POST', body: JSON.stringify({ a: 1, b: [2, 3] }) });
  } catch (err) {
    console.error(err);
  }
  return { status: 200, items };
};

int main(int argc, char** argv) {
  double x = 1.5, y = .25, z = 3.;
  unsigned long big = 0xFFUL;
  for (;;) { break; }
  if (argc > 1) puts(argv[1]); else puts("none");
  auto very_long_variable_name_that_goes_on_and_on_0123456789 = [&](int q) { return q; };
  return 0;
}
'''


def lines(language):
  return (PYTHON if language == "python" else C_FAMILY).splitlines(keepends=True)
