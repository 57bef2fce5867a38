"""Stand-in for matplotlib.pyplot: records what would be plotted."""

FIGURES = []


class Axes:

  def __init__(self):
    self.lines = []  # (xs, ys)
    self.levels = []  # horizontal lines
    self.labels = {}

  def plot(self, xs, ys, *_, **__):
    self.lines.append(([float(x) for x in xs], [float(y) for y in ys]))

  def axhline(self, y=0, *_, **__):
    self.levels.append(float(y))

  def set_xlabel(self, text, **_):
    self.labels["x"] = text

  def set_ylabel(self, text, **_):
    self.labels["y"] = text

  def __getattr__(self, name):
    return lambda *args, **kwargs: None


class Figure:

  def __init__(self, axes):
    self.axes = axes

  def __getattr__(self, name):
    return lambda *args, **kwargs: None


def subplots(nrows=1, ncols=1, **_):
  axes = [Axes() for _ in range(nrows * ncols)]
  figure = Figure(axes)
  FIGURES.append(figure)
  if nrows == ncols == 1:
    return figure, axes[0]
  if nrows == 1 or ncols == 1:
    return figure, axes
  return figure, [axes[r * ncols:(r + 1) * ncols] for r in range(nrows)]


def __getattr__(name):
  if name.startswith("__"):
    raise AttributeError(name)
  return lambda *args, **kwargs: None
