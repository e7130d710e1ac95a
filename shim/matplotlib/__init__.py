"""Stand-in for the part of matplotlib the visualizations use."""
from matplotlib import animation, collections, patches, pyplot
