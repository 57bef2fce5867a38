"""Reads a drawing back from its HTML/SVG source (test-side only)."""

import html.parser
import re

from vp.harness import require


class Element:

  def __init__(self, tag, attrs):
    self.tag = tag
    self.attrs = {k: v or "" for k, v in attrs}
    self.children = []
    self.texts = []

  @property
  def classes(self):
    return self.attrs.get("class", "").split()

  @property
  def text(self):
    return "".join(self.texts)

  def all(self, tag):
    out = [self] if self.tag == tag else []
    for c in self.children:
      out += c.all(tag)
    return out

  def child(self, tag):
    return [c for c in self.children if c.tag == tag]

  def number(self, name):
    return float(self.attrs[name])

  @property
  def style(self):
    out = dict(self.attrs)
    for part in self.attrs.get("style", "").split(";"):
      if ":" in part:
        k, v = part.split(":", 1)
        out[k.strip()] = v.strip()
    return out


class _Reader(html.parser.HTMLParser):

  def __init__(self):
    super().__init__(convert_charrefs=True)
    self.root = Element("root", [])
    self.stack = [self.root]

  def handle_starttag(self, tag, attrs):
    names = [k for k, _ in attrs]
    require(len(set(names)) == len(names), "an attribute given twice", tag=tag, attrs=attrs)
    element = Element(tag, attrs)
    self.stack[-1].children.append(element)
    self.stack.append(element)

  def handle_startendtag(self, tag, attrs):
    self.handle_starttag(tag, attrs)
    self.stack.pop()

  def handle_endtag(self, tag):
    require(len(self.stack) > 1 and self.stack[-1].tag == tag, "unbalanced tags", tag=tag)
    self.stack.pop()

  def handle_data(self, data):
    self.stack[-1].texts.append(data)


def read(source):
  """(style sheet, drawing element, [left, top, width, height])."""
  reader = _Reader()
  reader.feed(source)
  reader.close()
  require(len(reader.stack) == 1, "unbalanced tags")
  svgs = reader.root.all("svg")
  require(len(svgs) == 1, "not exactly one drawing")
  styles = "".join(s.text for s in reader.root.all("style"))
  # html.parser lower-cases attribute names.
  view = [float(v) for v in svgs[0].attrs["viewbox"].split()]
  require(len(view) == 4, "no view box")
  return styles, svgs[0], view


def box(element):
  return tuple(element.number(k) for k in ("x", "y", "width", "height"))


def path_points(element):
  numbers = [float(v) for v in re.findall(r"[-+0-9.e]+", element.attrs["d"].replace("M", " ").replace("L", " "))]
  return list(zip(numbers[::2], numbers[1::2]))


def drawn(svg):
  """The drawing without its definitions."""
  out = Element("g", [])
  out.children = [c for c in svg.children if c.tag not in ("defs", "style")]
  return out


def extent(element):
  """Points that the boxes, lines and dots of a drawing touch."""
  for r in element.all("rect"):
    x, y, w, h = box(r)
    yield x, y
    yield x + w, y + h
  for p in element.all("path"):
    yield from path_points(p)
  for c in element.all("circle"):
    yield c.number("cx"), c.number("cy")
