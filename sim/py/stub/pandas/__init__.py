"""A small stand-in for pandas, as far as reading logs needs it.

What it does not know raises Unsupported, which the simulator does not take for a violation.
"""
import builtins
import os
import re

import numpy as np


class Unsupported(BaseException):
    """The stand-in has no such function."""


class errors:
    class EmptyDataError(ValueError):
        pass

    class ParserError(ValueError):
        pass


nan = np.nan
NA = np.nan
_NAN = {'', 'nan', 'NaN', 'NA', 'N/A', 'NULL', 'null', 'None', '#N/A', '-nan', '-NaN', '<NA>', 'n/a', '#NA'}
_NUM = re.compile(r'^[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?|inf|Inf|INF|infinity|Infinity)$')


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    raise Unsupported('pandas.' + name)


def _isna(v):
    if isinstance(v, np.ndarray) and v.dtype != object:
        return np.isnan(v) if v.dtype.kind == 'f' else np.zeros(len(v), bool)
    return np.array([x is None or (isinstance(x, (float, np.floating)) and x != x) for x in v], bool)


class _Base:
    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        raise Unsupported('%s.%s' % (type(self).__name__, name))


def _other(o):
    return o._v if isinstance(o, Series) else o


class _ILoc(_Base):
    def __init__(self, obj):
        self.o = obj

    def __getitem__(self, i):
        o = self.o
        if isinstance(i, Series):
            i = i._v
        if isinstance(o, Series):
            if isinstance(i, (int, np.integer)):
                if not -len(o) <= i < len(o):
                    raise IndexError('single positional indexer is out-of-bounds')
                return o._v[i]
            return Series(o._v[i], o._i[i], o.name)
        if isinstance(i, tuple):
            rows, cols = i
            if isinstance(cols, (int, np.integer)):
                return o[o.columns[cols]].iloc[rows]
            if isinstance(cols, slice):
                return o[o.columns[cols]].iloc[rows]
            return o[[o.columns[c] for c in cols]].iloc[rows]
        if isinstance(i, (int, np.integer)):
            if not -len(o) <= i < len(o):
                raise IndexError('single positional indexer is out-of-bounds')
            return Series(np.array([o._c[c][i] for c in o.columns], dtype=object), np.array(o.columns, dtype=object), o._i[i])
        return o._rows(np.arange(len(o))[i])


class _Loc(_Base):
    def __init__(self, obj):
        self.o = obj

    def __getitem__(self, i):
        o = self.o
        if isinstance(o, Series):
            return o[i]
        if isinstance(i, tuple):
            r, c = i
            if isinstance(r, slice) and r == slice(None):
                return o[c]
            if isinstance(r, (Series, np.ndarray, list)):
                return o[r][c]
            if isinstance(r, slice):
                raise Unsupported('loc of a slice')
            return o[c][r] if isinstance(c, str) else o[c].loc[r]
        if isinstance(i, (Series, np.ndarray, list)):
            return o[i]
        hit = np.nonzero(o._i == i)[0]
        if len(hit) == 0:
            raise KeyError(i)
        return o.iloc[int(hit[0])]


class Series(_Base):
    ndim = 1

    def __init__(self, data=(), index=None, name=None, dtype=None):
        if isinstance(data, Series):
            index = data._i if index is None else index
            data = data._v
        v = np.asarray(data if isinstance(data, np.ndarray) else list(data), dtype=dtype)
        if v.dtype.kind in 'US':
            v = v.astype(object)
        self._v = v
        self._i = np.arange(len(v)) if index is None else np.asarray(index)
        self.name = name

    iloc = property(lambda s: _ILoc(s))
    loc = property(lambda s: _Loc(s))
    values = property(lambda s: s._v)
    index = property(lambda s: s._i)
    dtype = property(lambda s: s._v.dtype)
    size = property(lambda s: len(s._v))
    shape = property(lambda s: s._v.shape)
    empty = property(lambda s: len(s._v) == 0)

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v.tolist())

    def __array__(self, dtype=None, copy=None):
        return np.array(self._v, dtype=dtype)

    def __array_ufunc__(self, f, method, *a, **k):
        x = [b for b in a if isinstance(b, Series)]
        if any(not np.array_equal(b._i, x[0]._i) for b in x[1:]):
            raise Unsupported('operation between series with different rows')
        if method != '__call__':
            return getattr(f, method)(*[_other(x) for x in a], **k)
        r = f(*[_other(x) for x in a], **k)
        return Series(r, self._i, self.name) if isinstance(r, np.ndarray) and r.shape == self._v.shape else r

    def __getitem__(self, i):
        if isinstance(i, slice):
            return Series(self._v[i], self._i[i], self.name)
        if isinstance(i, (Series, np.ndarray, list)):
            m = np.asarray(i._v if isinstance(i, Series) else i)
            if m.dtype == bool:
                return Series(self._v[m], self._i[m], self.name)
            raise Unsupported('Series[list]')
        hit = np.nonzero(self._i == i)[0]
        if len(hit) == 0:
            raise KeyError(i)
        return self._v[int(hit[0])]

    def get(self, i, default=None):
        try:
            return self[i]
        except KeyError:
            return default

    def to_list(self):
        return self._v.tolist()

    tolist = to_list

    def to_numpy(self, dtype=None, copy=False):
        return np.array(self._v, dtype=dtype)

    def copy(self, deep=True):
        return Series(self._v.copy(), self._i.copy(), self.name)

    def astype(self, t):
        return Series(self._v.astype(t), self._i, self.name)

    def isna(self):
        return Series(_isna(self._v), self._i)

    isnull = isna

    def notna(self):
        return Series(~_isna(self._v), self._i)

    notnull = notna

    def dropna(self):
        m = ~_isna(self._v)
        return Series(self._v[m], self._i[m], self.name)

    def reset_index(self, drop=False):
        if not drop:
            raise Unsupported('reset_index')
        return Series(self._v, None, self.name)

    def head(self, n=5):
        return self.iloc[:n]

    def tail(self, n=5):
        return self.iloc[-n:] if n else self.iloc[:0]

    def items(self):
        return zip(self._i.tolist(), self._v.tolist())

    def _num(self):
        return self._v[~_isna(self._v)]

    def mean(self, *a, **k):
        v = self._num()
        return float(np.mean(v)) if len(v) else np.nan

    def std(self, axis=None, dtype=None, out=None, ddof=1, **k):
        v = self._num()
        return float(np.std(v, ddof=ddof)) if len(v) > ddof else np.nan

    def sum(self, *a, **k):
        return self._num().sum()

    def min(self, *a, **k):
        return self._num().min() if len(self._num()) else np.nan

    def max(self, *a, **k):
        return self._num().max() if len(self._num()) else np.nan

    def any(self, *a, **k):
        return bool(np.any(self._v))

    def all(self, *a, **k):
        return bool(np.all(self._v))

    def abs(self, *a, **k):
        return Series(np.abs(self._v), self._i, self.name)

    def apply(self, f, *a, **k):
        return Series(np.array([f(x, *a, **k) for x in self._v.tolist()]), self._i, self.name)

    map = apply

    def pow(self, o):
        return self ** o

    def sub(self, o):
        return self - o

    def add(self, o):
        return self + o

    def mul(self, o):
        return self * o

    def to_dict(self):
        return dict(zip(self._i.tolist(), self._v.tolist()))

    def nonzero(self):
        return np.nonzero(self._v)

    def unique(self):
        return np.array(list(dict.fromkeys(self._v.tolist())))

    def fillna(self, x):
        v = self._v.copy()
        v[_isna(v)] = x
        return Series(v, self._i, self.name)

    def cumsum(self):
        return Series(np.cumsum(self._v), self._i, self.name)

    def round(self, decimals=0, *a, **k):
        return Series(np.round(self._v, decimals), self._i, self.name)

    def clip(self, lower=None, upper=None, *a, **k):
        return Series(np.clip(self._v, -np.inf if lower is None else lower, np.inf if upper is None else upper), self._i, self.name)

    def diff(self, periods=1):
        if periods != 1:
            raise Unsupported('diff')
        v = np.asarray(self._v, float)
        return Series(np.concatenate([[np.nan], np.diff(v)])[:len(v)], self._i, self.name)

    def shift(self, periods=1):
        if periods not in (1, -1):
            raise Unsupported('shift')
        v = np.asarray(self._v, float)
        return Series((np.concatenate([[np.nan], v[:-1]]) if periods == 1 else np.concatenate([v[1:], [np.nan]]))[:len(v)], self._i, self.name)

    def median(self, *a, **k):
        v = self._num()
        return float(np.median(v)) if len(v) else np.nan

    def var(self, axis=None, ddof=1, **k):
        v = self._num()
        return float(np.var(v, ddof=ddof)) if len(v) > ddof else np.nan

    def isin(self, values):
        return Series(np.isin(self._v, list(values)), self._i, self.name)

    def between(self, left, right, inclusive='both'):
        if inclusive != 'both':
            raise Unsupported('between')
        return Series((self._v >= left) & (self._v <= right), self._i, self.name)

    def drop_duplicates(self, keep='first', **k):
        if keep != 'first' or k:
            raise Unsupported('drop_duplicates')
        m = np.sort(np.unique(self._v, return_index=True)[1])
        return Series(self._v[m], self._i[m], self.name)

    def argsort(self, *a, **k):
        return Series(np.argsort(self._v, kind='stable'), self._i, self.name)

    def sort_values(self, ascending=True, **k):
        if k or ascending is not True:
            raise Unsupported('sort_values')
        m = np.argsort(self._v, kind='stable')
        return Series(self._v[m], self._i[m], self.name)

    def searchsorted(self, value, side='left', sorter=None):
        return np.searchsorted(self._v, _other(value), side)

    def eq(self, o):
        return self == o

    def ne(self, o):
        return self != o

    def idxmax(self):
        if len(self._v) == 0:
            raise ValueError('attempt to get argmax of an empty sequence')
        return self._i[int(np.argmax(self._v))]

    def argmax(self):
        return int(np.argmax(self._v))

    def count(self):
        return int(len(self._num()))

    def __neg__(self):
        return Series(-self._v, self._i, self.name)

    def __invert__(self):
        return Series(~self._v, self._i, self.name)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise ValueError('The truth value of a Series is ambiguous.')


def _op(n):
    def f(self, o):
        if isinstance(o, Series) and not (len(o._i) == len(self._i) and np.array_equal(o._i, self._i)):
            raise Unsupported('operation between series with different rows')
        r = getattr(self._v, n)(_other(o))
        if r is NotImplemented:
            return r
        return Series(r, self._i, self.name)
    return f


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'pow', 'mod', 'and', 'or', 'lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(Series, '__%s__' % _n, _op('__%s__' % _n))


class DataFrame(_Base):
    def __init__(self, data=None, index=None, columns=None):
        data = {} if data is None else data
        if not isinstance(data, dict):
            raise Unsupported('DataFrame from %s' % type(data).__name__)
        self._c = {k: (np.asarray(v._v if isinstance(v, Series) else v)) for k, v in data.items()}
        if columns is not None:
            self._c = {k: self._c.get(k, np.array([], dtype=object)) for k in columns}
        n = len(next(iter(self._c.values()))) if self._c else 0
        self._i = np.arange(n) if index is None else np.asarray(index)
        self.attrs = {}

    ndim = 2
    columns = property(lambda s: list(s._c))
    index = property(lambda s: s._i)
    shape = property(lambda s: (len(s._i), len(s._c)))
    size = property(lambda s: len(s._i) * len(s._c))
    empty = property(lambda s: len(s._i) == 0 or not s._c)
    iloc = property(lambda s: _ILoc(s))
    loc = property(lambda s: _Loc(s))
    values = property(lambda s: s.to_numpy())

    def __getattr__(self, name):
        c = self.__dict__.get('_c', {})
        if name in c:
            return self[name]
        return _Base.__getattr__(self, name)

    def _rows(self, m):
        d = DataFrame({k: v[m] for k, v in self._c.items()}, self._i[m])
        d.attrs = dict(self.attrs)
        return d

    def __len__(self):
        return len(self._i)

    def __iter__(self):
        return iter(list(self._c))

    def __contains__(self, k):
        return k in self._c

    def keys(self):
        return list(self._c)

    def items(self):
        return [(k, self[k]) for k in self._c]

    def __getitem__(self, k):
        if isinstance(k, str):
            return Series(self._c[k], self._i, k)
        if isinstance(k, slice):
            return self._rows(k)
        if isinstance(k, (Series, np.ndarray, list)):
            m = np.asarray(k._v if isinstance(k, Series) else k)
            if m.dtype == bool:
                return self._rows(m)
            for x in k:
                if x not in self._c:
                    raise KeyError(x)
            d = DataFrame({x: self._c[x] for x in k}, self._i)
            d.attrs = dict(self.attrs)
            return d
        raise KeyError(k)

    def __setitem__(self, k, v):
        v = v._v if isinstance(v, Series) else v
        self._c[k] = np.asarray(v) if hasattr(v, '__len__') and not isinstance(v, str) else np.array([v] * len(self._i))

    def get(self, k, default=None):
        return self[k] if k in self._c else default

    def copy(self, deep=True):
        return self._rows(slice(None))

    def to_numpy(self, dtype=None):
        return np.array([self._c[k] for k in self._c], dtype=dtype).T

    def head(self, n=5):
        return self._rows(slice(0, n))

    def tail(self, n=5):
        return self._rows(slice(-n, None)) if n else self._rows(slice(0, 0))

    def isna(self):
        return DataFrame({k: _isna(v) for k, v in self._c.items()}, self._i)

    def notna(self):
        return DataFrame({k: ~_isna(v) for k, v in self._c.items()}, self._i)

    isnull, notnull = isna, notna

    def __invert__(self):
        return DataFrame({k: ~v for k, v in self._c.items()}, self._i)

    def _along(self, f, axis):
        if axis in (0, 'index'):
            return Series(np.array([f(v) for v in self._c.values()]), np.array(list(self._c), dtype=object))
        if axis in (1, 'columns'):
            return Series(f(np.array(list(self._c.values())), axis=0), self._i)
        raise Unsupported('axis')

    def all(self, axis=0):
        return self._along(np.all, axis)

    def any(self, axis=0):
        return self._along(np.any, axis)

    def sum(self, axis=0):
        return self._along(np.nansum, axis)

    def mean(self, axis=0):
        return self._along(np.nanmean, axis)

    def pow(self, n):
        return DataFrame({k: v ** n for k, v in self._c.items()}, self._i)

    __pow__ = pow

    def transform(self, f, **k):
        return self.apply(f, **k)

    def map(self, f):
        return DataFrame({k: np.array([f(x) for x in v.tolist()]) for k, v in self._c.items()}, self._i)

    applymap = map

    def round(self, decimals=0):
        d = DataFrame({k: np.round(v, decimals) for k, v in self._c.items()}, self._i)
        d.attrs = dict(self.attrs)
        return d

    def sort_values(self, by, ascending=True, ignore_index=False, **k):
        if k or ascending is not True or not isinstance(by, str):
            raise Unsupported('sort_values')
        d = self._rows(np.argsort(self._c[by], kind='stable'))
        return d.reset_index(drop=True) if ignore_index else d

    def drop_duplicates(self, subset=None, keep='first', **k):
        if keep not in ('first', 'last') or k:
            raise Unsupported('drop_duplicates')
        cols = [subset] if isinstance(subset, str) else list(subset or self._c)
        rows = list(zip(*(self._c[c].tolist() for c in cols)))
        at = {}
        for n, r in enumerate(rows):
            if keep == 'last' or r not in at:
                at[r] = n
        return self._rows(np.array(sorted(at.values()), dtype=int))

    def set_index(self, key, drop=True):
        if not isinstance(key, str):
            raise Unsupported('set_index')
        d = DataFrame({k: v for k, v in self._c.items() if not (drop and k == key)}, self._c[key])
        d.attrs = dict(self.attrs)
        return d

    def rename(self, columns=None, **k):
        if k or not isinstance(columns, dict):
            raise Unsupported('rename')
        d = DataFrame({columns.get(c, c): v for c, v in self._c.items()}, self._i)
        d.attrs = dict(self.attrs)
        return d

    def assign(self, **k):
        d = self._rows(slice(None))
        for c, v in k.items():
            d[c] = v(d) if callable(v) else v
        return d

    def to_dict(self, orient='dict'):
        if orient == 'list':
            return {k: v.tolist() for k, v in self._c.items()}
        if orient == 'records':
            return [{k: self._c[k][i].item() if hasattr(self._c[k][i], 'item') else self._c[k][i] for k in self._c} for i in range(len(self._i))]
        raise Unsupported('to_dict')

    def itertuples(self, index=True, name='Pandas'):
        import collections
        if not builtins.all(k.isidentifier() for k in self._c):
            raise Unsupported('itertuples')
        t = collections.namedtuple(name or 'Pandas', (['Index'] if index else []) + list(self._c))
        for n, i in enumerate(self._i.tolist()):
            yield t(*(([i] if index else []) + [v[n].item() if hasattr(v[n], 'item') else v[n] for v in self._c.values()]))

    def dropna(self, axis=0, how='any', subset=None, inplace=False, ignore_index=False):
        if axis not in (0, 'index') or inplace:
            raise Unsupported('dropna')
        m = np.zeros(len(self._i), bool)
        cols = [_isna(self._c[k]) for k in (subset or self._c)]
        if cols:
            m = np.all(cols, axis=0) if how == 'all' else np.any(cols, axis=0)
        d = self._rows(~m)
        return d.reset_index(drop=True) if ignore_index else d

    def reset_index(self, drop=False, inplace=False):
        if not drop or inplace:
            raise Unsupported('reset_index')
        d = self._rows(slice(None))
        d._i = np.arange(len(d._i))
        return d

    def drop(self, labels=None, index=None, columns=None, axis=0):
        if columns is not None:
            columns = [columns] if isinstance(columns, str) else list(columns)
            return self[[c for c in self._c if c not in columns]]
        lab = index if index is not None else labels
        lab = list(lab) if hasattr(lab, '__len__') and not isinstance(lab, str) else [lab]
        return self._rows(~np.isin(self._i, lab))

    def apply(self, f, axis=0, **k):
        if axis not in (0, 'index'):
            raise Unsupported('apply')
        out = {}
        for c in self._c:
            r = f(self[c], **k)
            if not isinstance(r, Series):
                raise Unsupported('apply')
            out[c] = r._v
        d = DataFrame(out, self._i)
        d.attrs = dict(self.attrs)
        return d

    def astype(self, t):
        d = DataFrame({k: v.astype(t) for k, v in self._c.items()}, self._i)
        d.attrs = dict(self.attrs)
        return d

    def iterrows(self):
        for n, i in enumerate(self._i):
            yield i, self.iloc[n]


def to_numeric(arg, errors='raise', downcast=None):
    v = np.asarray(arg._v if isinstance(arg, Series) else arg)
    if v.dtype == object:
        out = np.full(len(v), np.nan)
        for i, x in enumerate(v):
            if isinstance(x, str):
                t = x.strip()
                if _NUM.match(t):
                    out[i] = float(t)
                elif t in _NAN or errors == 'coerce':
                    pass
                else:
                    raise ValueError('Unable to parse string "%s"' % x)
            elif x is not None:
                out[i] = float(x)
        v = out
    return Series(v, arg._i, arg.name) if isinstance(arg, Series) else v


def isna(x):
    if isinstance(x, (Series, DataFrame)):
        return x.isna()
    return x is None or x != x


def notna(x):
    return ~isna(x) if isinstance(x, (Series, DataFrame)) else not isna(x)


isnull, notnull = isna, notna


def concat(objs, ignore_index=False, axis=0):
    objs = list(objs)
    if axis != 0 or not objs:
        raise Unsupported('concat')
    if isinstance(objs[0], Series):
        return Series(np.concatenate([o._v for o in objs]), None if ignore_index else np.concatenate([o._i for o in objs]))
    cols = objs[0].columns
    if any(o.columns != cols for o in objs):
        raise Unsupported('concat')
    return DataFrame({c: np.concatenate([o._c[c] for o in objs]) for c in cols}, None if ignore_index else np.concatenate([o._i for o in objs]))


def _column(t):
    if builtins.all(x is None or x in _NAN or _NUM.match(x) for x in t):
        if t and builtins.all(x is not None and re.match(r'^[+-]?\d+$', x) and len(x) < 18 for x in t):
            return np.array([int(x) for x in t])
        return np.array([np.nan if x is None or x in _NAN else float(x) for x in t], dtype=float if t else object)
    return np.array([np.nan if x is None or x in _NAN else x for x in t], dtype=object)


def read_csv(path, sep=',', header='infer', dtype=None, on_bad_lines='error', usecols=None, engine=None, skipinitialspace=False,
             nrows=None, encoding=None, index_col=None, low_memory=True, memory_map=False, delimiter=None, float_precision=None):
    if sep != ',' or header not in ('infer', 0) or dtype not in (None, float) or index_col not in (None, False) or delimiter not in (None, ','):
        raise Unsupported('read_csv')
    if hasattr(path, 'read'):
        text = path.read()
        text = text.decode('utf-8') if isinstance(text, bytes) else text
    else:
        with open(os.fspath(path), encoding=encoding or 'utf-8', newline='') as f:
            text = f.read()
    lines = [x for x in text.replace('\r\n', '\n').split('\n') if x.strip() != '']
    if not lines:
        raise errors.EmptyDataError('No columns to parse from file')
    names = lines[0].split(',')
    seen = {}
    for i, n in enumerate(names):
        k = seen.get(n, 0)
        seen[n] = k + 1
        if k:
            names[i] = '%s.%d' % (n, k)
    rows = []
    for ln, line in enumerate(lines[1:]):
        v = [x.strip() for x in line.split(',')]
        if len(v) > len(names):
            if on_bad_lines == 'skip' or on_bad_lines == 'warn':
                continue
            raise errors.ParserError('Error tokenizing data. C error: Expected %d fields in line %d, saw %d' % (len(names), ln + 2, len(v)))
        rows.append(v + [None] * (len(names) - len(v)))
        if nrows is not None and len(rows) >= nrows:
            break
    cols = {n: _column([r[i] for r in rows]) for i, n in enumerate(names)}
    if usecols is not None:
        keep = [n for n in names if (usecols(n) if callable(usecols) else n in usecols)]
        if not callable(usecols) and len(keep) != len(list(usecols)):
            raise ValueError('Usecols do not match columns')
        cols = {n: cols[n] for n in keep}
    if dtype is float:
        cols = {n: v.astype(float) for n, v in cols.items()}
    return DataFrame(cols)
