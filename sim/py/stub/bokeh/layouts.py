"""Stand-in."""
from bokeh._rec import Group, missing

__getattr__ = missing('layouts')


def layout(*a, **k):
    return Group(*a, **k)


row = column = gridplot = layout
