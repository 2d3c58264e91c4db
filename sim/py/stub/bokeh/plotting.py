"""Stand-in."""
from bokeh._rec import Source as ColumnDataSource, _Any, figure, missing, save  # noqa: F401

_DOC = _Any()
__getattr__ = missing('plotting')


def curdoc():
    return _DOC
