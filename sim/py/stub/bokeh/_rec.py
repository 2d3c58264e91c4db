"""What the stand-in keeps of a document."""
import json
import os

import numpy as np
from pandas import Unsupported


class Thing:
    """A model without content of its own."""

    def __init__(self, *a, **k):
        self.args = a
        self.__dict__.update(k)


class Source:
    def __init__(self, data=None, **k):
        self.data = dict(data or {})

    def add(self, data, name=None):
        self.data[name] = data
        return name


class _Any:
    """An object on which attributes may be set and read."""

    def __init__(self):
        self.__dict__['d'] = {}

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return self.d.setdefault(n, _Any())

    def __setattr__(self, n, v):
        self.d[n] = v

    def __bool__(self):
        return True

    def __getitem__(self, i):
        return self

    def __call__(self, *a, **k):
        return self


def vec(v):
    if hasattr(v, 'to_numpy'):
        v = v.to_numpy()
    return [float(x) for x in np.asarray(v, dtype=float).ravel()]


class Title(str):
    text = property(lambda s: str(s))


class figure:
    def __init__(self, *a, **k):
        self.glyphs, self.bands = [], []
        self.title = Title(k.pop('title', '') or '')
        self.x_axis_label, self.y_axis_label = k.pop('x_axis_label', ''), k.pop('y_axis_label', '')
        self.toolbar, self.legend, self.xaxis, self.yaxis = _Any(), _Any(), _Any(), _Any()
        self.tools = []
        self.__dict__.update(k)

    def _add(self, kind, a, k, names):
        k = dict(k)
        for n, v in zip(names, a):
            k[n] = v
        src = k.get('source')
        g = {'kind': kind, 'label': k.get('legend_label')}
        for n in names:
            v = k.get(n)
            if isinstance(v, str) and src is not None:
                v = src.data[v]
            if v is not None:
                g[n] = [float(v)] if np.ndim(v) == 0 else vec(v)
        self.glyphs.append(g)
        return _Any()

    def line(self, *a, **k):
        return self._add('line', a, k, ('x', 'y'))

    def step(self, *a, **k):
        return self._add('line', a, k, ('x', 'y'))

    def scatter(self, *a, **k):
        return self._add('scatter', a, k, ('x', 'y'))

    def circle(self, *a, **k):
        return self._add('scatter', a, k, ('x', 'y'))

    def multi_line(self, xs, ys, **k):
        for x, y in zip(xs, ys):
            self._add('line', (x, y), k, ('x', 'y'))
        return _Any()

    def quad(self, *a, **k):
        return self._add('quad', a, k, ('left', 'right', 'top', 'bottom'))

    def varea(self, *a, **k):
        return self._band(k)

    def hspan(self, *a, **k):
        return _Any()

    vspan = hstrip = vstrip = hspan

    def add_layout(self, obj, place='center'):
        if getattr(obj, 'is_band', False):
            self._band(obj.__dict__)

    def add_tools(self, *a):
        self.tools += list(a)

    def _band(self, k):
        src = k.get('source')
        b = {}
        for n in ('base', 'lower', 'upper'):
            v = k.get(n)
            if isinstance(v, str) and src is not None:
                v = src.data[v]
            if v is None or np.ndim(v) == 0:
                return
            b[n] = vec(v)
        self.bands.append(b)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('figure.' + n)


class Group(Thing):
    """Rows and columns; children as given, lists become groups."""

    def __init__(self, *a, **k):
        if 'children' in k:
            a = k.pop('children')
        elif len(a) == 1 and isinstance(a[0], (list, tuple)):
            a = a[0]
        Thing.__init__(self, **k)
        self.args = a
        self.children = [Group(list(x)) if isinstance(x, (list, tuple)) else x for x in a]


def figures(x):
    if isinstance(x, figure):
        return [x]
    return [f for y in getattr(x, 'children', []) for f in figures(y)]


def save(obj, filename=None, *a, **k):
    doc = {'filename': os.path.abspath(filename), 'tabs': []}
    for t in obj.tabs:
        doc['tabs'].append({'title': str(t.title), 'figs': [
            {'title': str(f.title), 'x': str(f.x_axis_label), 'y': str(f.y_axis_label), 'glyphs': f.glyphs, 'bands': f.bands} for f in figures(t.child)]})
    with open(filename, 'w') as f:
        json.dump(doc, f)
    return filename


def missing(module):
    def __getattr__(n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('bokeh.%s.%s' % (module, n))
    return __getattr__
