"""Stand-in for matplotlib: records what would be plotted."""

from matplotlib import pyplot
