"""Stand-in."""
from bokeh._rec import Thing as Theme, missing  # noqa: F401

__getattr__ = missing('themes')
