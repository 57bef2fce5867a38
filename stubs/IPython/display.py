"""Stand-in for IPython.display: records what would be displayed."""

SHOWN = []


class HTML:

  def __init__(self, data=None):
    self.data = data


class Javascript:

  def __init__(self, data=None, url=None, **_):
    self.data = data
    self.url = url


class SVG(HTML):
  pass


def display(*objects, **_):
  SHOWN.extend(objects)
