"""Stand-in."""
from bokeh._rec import missing

__getattr__ = missing('embed')


def components(*a, **k):
    from pandas import Unsupported
    raise Unsupported('components')
