"""Stand-in for IPython: records what would be displayed."""

from IPython import display
