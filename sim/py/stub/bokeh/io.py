"""Stand-in."""
from bokeh._rec import missing, save  # noqa: F401
from bokeh.plotting import curdoc  # noqa: F401

__getattr__ = missing('io')
