"""A small reference model of pandas (labelled series and frames), written
in Python and interpreted like harness code.  Labels are concrete, values may
be symbolic.  Anything outside the model is 'unsupported' and leaves the
obligation that needs it undecided."""

SRC = '''
import numpy as np

_U = np._unsupported


class _NAType(object):
    pass


NA = _NAType()
_NONE = object()


def isna(x):
    if isinstance(x, (Series, DataFrame)):
        return x.isna()
    return x is NA or x is None or (isinstance(x, float) and x != x)


isnull = isna


def notna(x):
    if isinstance(x, (Series, DataFrame)):
        return x.notna()
    return not isna(x)


notnull = notna


class _Base(object):
    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('_'):
            raise AttributeError(name)
        return _U('pandas attribute ' + name)


def _uniq(xs):
    out = []
    seen = set()
    for x in xs:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


def _listof(x):
    if isinstance(x, Index):
        return list(x._labels)
    if isinstance(x, Series):
        return list(x._v)
    if isinstance(x, np.ndarray):
        return [x[k] for k in range(len(x))]
    return list(x)


class Index(_Base):
    def __new__(cls, data=None, dtype=None, copy=False, name=None,
                tupleize_cols=True):
        labels = _listof(data) if data is not None else []
        if cls is Index and tupleize_cols and labels and all(
                isinstance(x, tuple) for x in labels):
            return MultiIndex.from_tuples(labels)
        return object.__new__(cls)

    def __init__(self, data=None, dtype=None, copy=False, name=None,
                 tupleize_cols=True):
        if isinstance(self, MultiIndex):
            return
        if name is None and isinstance(data, (Index, Series)):
            name = data.name
        self._labels = _listof(data) if data is not None else []
        self.name = name

    @property
    def names(self):
        return [self.name]

    @property
    def nlevels(self):
        return 1

    @property
    def size(self):
        return len(self._labels)

    @property
    def shape(self):
        return (len(self._labels),)

    @property
    def ndim(self):
        return 1

    @property
    def empty(self):
        return len(self._labels) == 0

    @property
    def values(self):
        return list(self._labels) if any(
            isinstance(x, str) for x in self._labels) \\
            else np.array(list(self._labels))

    def to_numpy(self):
        return self.values

    @property
    def is_unique(self):
        return len(set(self._labels)) == len(self._labels)

    @property
    def has_duplicates(self):
        return not self.is_unique

    @property
    def is_monotonic_increasing(self):
        return all(a <= b for a, b in zip(self._labels[:-1],
                                          self._labels[1:]))

    def _like(self, labels):
        return Index(labels, name=self.name)

    def __len__(self):
        return len(self._labels)

    def __iter__(self):
        return iter(list(self._labels))

    def __contains__(self, x):
        return x in self._labels

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self._like(self._labels[k])
        if isinstance(k, (list, np.ndarray)):
            k = _listof(k)
            if k and all(isinstance(x, bool) for x in k):
                return self._like([x for x, m in zip(self._labels, k) if m])
            return self._like([self._labels[int(j)] for j in k])
        return self._labels[k]

    def tolist(self):
        return list(self._labels)

    to_list = tolist

    def unique(self, level=None):
        if level is not None:
            return self.get_level_values(level).unique()
        return self._like(_uniq(self._labels))

    def drop_duplicates(self):
        return self.unique()

    def nunique(self):
        return len(set(self._labels))

    def sort_values(self, ascending=True, return_indexer=False):
        if return_indexer:
            return _U('return_indexer')
        return self._like(sorted(self._labels, reverse=not ascending))

    def argsort(self):
        return np.array(sorted(range(len(self._labels)),
                               key=lambda k: self._labels[k]))

    def copy(self, name=None):
        return Index(self._labels, name=name or self.name)

    def rename(self, name, inplace=False):
        if inplace:
            return _U('inplace')
        return Index(self._labels, name=name)

    set_names = rename

    def astype(self, dtype):
        return self

    def append(self, other):
        return self._like(self._labels + _listof(other))

    def union(self, other, sort=None):
        name = self.name if not isinstance(other, Index) or \\
            other.name == self.name else None
        out = _uniq(self._labels + _listof(other))
        return Index(out if sort is False else sorted(out), name=name)

    def intersection(self, other):
        o = _listof(other)
        return self._like([x for x in _uniq(self._labels) if x in o])

    def difference(self, other):
        o = _listof(other)
        return self._like(sorted(x for x in _uniq(self._labels)
                                 if x not in o))

    def isin(self, values):
        o = _listof(values)
        return np.array([x in o for x in self._labels])

    def equals(self, other):
        return isinstance(other, Index) and _listof(other) == self._labels

    def get_level_values(self, level):
        return self

    def get_indexer(self, target):
        pos = {x: k for k, x in enumerate(self._labels)}
        return np.array([pos.get(x, -1) for x in _listof(target)])

    get_indexer_for = get_indexer

    def get_loc(self, x):
        if self._labels.count(x) != 1:
            if x in self._labels:
                return _U('get_loc of a repeated label')
            raise KeyError(x)
        return self._labels.index(x)

    def searchsorted(self, x):
        return len([y for y in self._labels if y < x])

    def map(self, f):
        g = f if not isinstance(f, dict) else (lambda x: f.get(x, NA))
        return Index([g(x) for x in self._labels], name=self.name)

    def to_series(self):
        return Series(list(self._labels), index=self, name=self.name)

    def to_frame(self, index=True, name=None):
        return _U('to_frame of an index')

    def min(self):
        return min(self._labels)

    def max(self):
        return max(self._labels)

    def factorize(self, sort=False):
        u = sorted(set(self._labels)) if sort else _uniq(self._labels)
        return (np.array([u.index(x) for x in self._labels]), self._like(u))

    def _eachwise(self, other, f):
        if isinstance(other, (Index, list, np.ndarray, Series)):
            return np.array([f(a, b) for a, b in zip(self._labels,
                                                     _listof(other))])
        return np.array([f(a, other) for a in self._labels])

    def __eq__(self, other):
        return self._eachwise(other, lambda a, b: a == b)

    def __ne__(self, other):
        return self._eachwise(other, lambda a, b: a != b)

    def __lt__(self, other):
        return self._eachwise(other, lambda a, b: a < b)

    def __gt__(self, other):
        return self._eachwise(other, lambda a, b: a > b)

    def __array__(self, dtype=None):
        return np.array(list(self._labels))


class RangeIndex(Index):
    pass


class MultiIndex(Index):
    def __new__(cls, levels=None, codes=None, sortorder=None, names=None,
                **kw):
        return object.__new__(cls)

    def __init__(self, levels=None, codes=None, sortorder=None, names=None,
                 **kw):
        if codes is None:
            return          # made by Index(list of tuples)
        ls = []
        names = list(names) if names is not None else None
        for k, l in enumerate(levels):
            nm = names[k] if names is not None else (
                l.name if isinstance(l, Index) else None)
            ls.append(Index(_listof(l), name=nm))
        self.levels = ls
        self.codes = [[int(c) for c in _listof(cs)] for cs in codes]
        self._labels = [tuple(l._labels[c] for l, c in zip(ls, cs))
                        for cs in zip(*self.codes)]
        self._names = [l.name for l in ls]
        self.name = None

    @property
    def names(self):
        return list(self._names)

    @staticmethod
    def from_arrays(arrays, sortorder=None, names=_NONE):
        levels, codes, ns = [], [], []
        for a in arrays:
            xs = _listof(a)
            u = sorted(set(xs))
            pos = {x: k for k, x in enumerate(u)}
            levels.append(u)
            codes.append([pos[x] for x in xs])
            ns.append(a.name if isinstance(a, (Index, Series)) else None)
        return MultiIndex(levels, codes, names=ns if names is _NONE or
                          names is None else names)

    @staticmethod
    def from_tuples(tuples, sortorder=None, names=None):
        ts = _listof(tuples)
        if names is None and isinstance(tuples, MultiIndex):
            names = tuples.names
        if not ts:
            return _U('empty list of tuples')
        return MultiIndex.from_arrays([list(c) for c in zip(*ts)],
                                      names=names)

    @staticmethod
    def from_product(iterables, sortorder=None, names=_NONE):
        its = list(iterables)
        cols = [_listof(i) for i in its]
        if names is _NONE or names is None:
            names = [i.name if isinstance(i, (Index, Series)) else None
                     for i in its]
        rows = [()]
        for c in cols:
            rows = [r + (x,) for r in rows for x in c]
        return MultiIndex.from_arrays(
            [list(c) for c in zip(*rows)] if rows else cols, names=names)

    @property
    def nlevels(self):
        return len(self.levels)

    @property
    def levshape(self):
        return tuple(len(l) for l in self.levels)

    @property
    def values(self):
        return list(self._labels)

    def _like(self, labels):
        # levels are kept, used or not
        pos = [{x: k for k, x in enumerate(l._labels)} for l in self.levels]
        return MultiIndex([list(l._labels) for l in self.levels],
                          [[p[t[k]] for t in labels]
                           for k, p in enumerate(pos)], names=self.names)

    def copy(self, names=None):
        return MultiIndex([list(l._labels) for l in self.levels], self.codes,
                          names=names or self.names)

    def _level(self, level):
        if isinstance(level, int):
            if level < -len(self.levels) or level >= len(self.levels):
                raise IndexError('Too many levels')
            return level % len(self.levels)
        if level not in self.names:
            raise KeyError(level)
        return self.names.index(level)

    def _get_level_number(self, level):
        return self._level(level)

    def get_level_values(self, level):
        k = self._level(level)
        return Index([t[k] for t in self._labels], name=self.names[k])

    def remove_unused_levels(self):
        return MultiIndex(
            [[x for k, x in enumerate(l._labels) if k in set(cs)]
             for l, cs in zip(self.levels, self.codes)],
            [[sorted(set(cs)).index(c) for c in cs] for cs in self.codes],
            names=self.names)

    def rename(self, names, inplace=False):
        if inplace:
            return _U('inplace')
        return MultiIndex([list(l._labels) for l in self.levels], self.codes,
                          names=names)

    def set_names(self, names, level=None):
        if level is not None:
            return _U('set_names of one level')
        return self.rename(names)

    def droplevel(self, level=0):
        k = self._level(level)
        rest = [j for j in range(self.nlevels) if j != k]
        if len(rest) == 1:
            return self.get_level_values(rest[0])
        return MultiIndex([list(self.levels[j]._labels) for j in rest],
                          [self.codes[j] for j in rest],
                          names=[self.names[j] for j in rest])

    def swaplevel(self, i=-2, j=-1):
        p = list(range(self.nlevels))
        i, j = self._level(i), self._level(j)
        p[i], p[j] = p[j], p[i]
        return self.reorder_levels(p)

    def reorder_levels(self, order):
        o = [self._level(k) for k in order]
        return MultiIndex([list(self.levels[j]._labels) for j in o],
                          [self.codes[j] for j in o],
                          names=[self.names[j] for j in o])

    def to_flat_index(self):
        i = Index([0] * len(self._labels))
        i._labels = list(self._labels)
        return i

    def union(self, other, sort=None):
        out = _uniq(self._labels + _listof(other))
        return MultiIndex.from_tuples(out if sort is False else sorted(out),
                                      names=self.names)

    def append(self, other):
        return MultiIndex.from_tuples(self._labels + _listof(other),
                                      names=self.names)


def _index(x):
    if isinstance(x, Index):
        return x
    if isinstance(x, Series):
        return Index(x)
    return Index(_listof(x))


def _lift(op):
    def f(a, b):
        if a is NA or b is NA:
            return NA
        return op(a, b)
    return f


class _Ops(_Base):
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a)
    def __pow__(self, o): return self._bin(o, lambda a, b: a ** b)
    def __eq__(self, o): return self._bin(o, lambda a, b: a == b)
    def __ne__(self, o): return self._bin(o, lambda a, b: a != b)
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b)
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b)
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b)
    def __and__(self, o): return self._bin(o, lambda a, b: a & b)
    def __or__(self, o): return self._bin(o, lambda a, b: a | b)
    def __invert__(self): return self._un(lambda a: not a)
    def __neg__(self): return self._un(lambda a: -a)
    def __abs__(self): return self._un(abs)
    def abs(self): return self._un(abs)
    def mul(self, o, **k):
        return _U('keywords') if k else self * o
    def add(self, o, **k):
        return _U('keywords') if k else self + o
    def sub(self, o, **k):
        return _U('keywords') if k else self - o
    def div(self, o, **k):
        return _U('keywords') if k else self / o
    multiply = mul
    truediv = div
    def eq(self, o): return self == o


class Series(_Ops):
    def __init__(self, data=None, index=None, dtype=None, name=None,
                 copy=False):
        if isinstance(data, dict):
            if index is not None:
                return _U('series of a dict with an index')
            index, data = list(data.keys()), list(data.values())
        if isinstance(data, Series):
            if index is not None and not _index(index).equals(data.index):
                data = data.reindex(index)
            index = data.index if index is None else index
            name = data.name if name is None else name
            data = data._v
        if data is not None and not isinstance(
                data, (list, tuple, np.ndarray, Index)):
            data = [data] * len(index)
        self._v = _listof(data)
        self.index = _index(index) if index is not None else \\
            RangeIndex(list(range(len(self._v))))
        if len(self._v) != len(self.index):
            raise ValueError('Length of values (%d) does not match length '
                             'of index (%d)' % (len(self._v),
                                                len(self.index)))
        self.name = name

    @property
    def values(self):
        return np.array([np.nan if x is NA else x for x in self._v])

    def to_numpy(self, dtype=None, copy=False, na_value=None):
        return self.values

    def __array__(self, dtype=None):
        return self.values

    def tolist(self):
        return list(self._v)

    to_list = tolist

    @property
    def array(self):
        return self.values

    @property
    def size(self):
        return len(self._v)

    @property
    def shape(self):
        return (len(self._v),)

    @property
    def ndim(self):
        return 1

    @property
    def empty(self):
        return not self._v

    @property
    def dtype(self):
        return self.values.dtype

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(list(self._v))

    def items(self):
        return iter(list(zip(self.index, self._v)))

    iteritems = items

    def _new(self, v):
        return Series(v, index=self.index, name=self.name)

    def _un(self, f):
        return self._new([NA if x is NA else f(x) for x in self._v])

    def _bin(self, o, f):
        f = _lift(f)
        if isinstance(o, Series):
            if not self.index.equals(o.index):
                if self.index.is_unique and o.index.is_unique:
                    ix = self.index.union(o.index)
                    a, b = self.reindex(ix), o.reindex(ix)
                    return Series([f(x, y) for x, y in zip(a._v, b._v)],
                                  index=ix, name=self.name if
                                  self.name == o.name else None)
                return _U('alignment of repeated labels')
            return Series([f(a, b) for a, b in zip(self._v, o._v)],
                          index=self.index, name=self.name
                          if self.name == o.name else None)
        if isinstance(o, DataFrame):
            return _U('series and frame')
        if isinstance(o, (list, tuple, np.ndarray)) and np.ndim(o):
            o = _listof(o)
            return self._new([f(a, b) for a, b in zip(self._v, o)])
        return self._new([f(a, o) for a in self._v])

    def _live(self):
        return [x for x in self._v if not isna(x)]

    def sum(self, axis=None, dtype=None, out=None, skipna=True):
        r = 0
        for x in self._live():
            r = r + x
        return r

    def count(self):
        return len(self._live())

    def mean(self, axis=None, dtype=None, out=None, skipna=True):
        n = self._live()
        return self.sum() / len(n) if n else np.nan

    def prod(self, axis=None, dtype=None, out=None):
        r = 1
        for x in self._live():
            r = r * x
        return r

    def max(self, axis=None, dtype=None, out=None):
        return np.max(np.array(self._live()))

    def min(self, axis=None, dtype=None, out=None):
        return np.min(np.array(self._live()))

    def var(self, axis=None, ddof=1):
        m, n = self.mean(), self.count()
        return sum((x - m) ** 2 for x in self._live()) / (n - ddof)

    def std(self, axis=None, ddof=1):
        return self.var(ddof=ddof) ** .5

    def any(self):
        return any(self._v)

    def all(self):
        return all(self._v)

    def nunique(self):
        return len(set(self._live()))

    def unique(self):
        return np.array(_uniq(self._v))

    def isna(self):
        return self._new([isna(x) for x in self._v])

    isnull = isna

    def notna(self):
        return self._new([not isna(x) for x in self._v])

    notnull = notna

    def fillna(self, value=None, inplace=False):
        if inplace or isinstance(value, (Series, dict)):
            return _U('fillna')
        return self._new([value if isna(x) else x for x in self._v])

    def dropna(self):
        k = [j for j, x in enumerate(self._v) if not isna(x)]
        return Series([self._v[j] for j in k], index=self.index[k],
                      name=self.name)

    def astype(self, dtype, copy=True):
        if dtype in (float, 'float', np.float64):
            return self._un(lambda x: x * 1.)
        if dtype in (int, 'int'):
            return self._un(lambda x: int(x) if isinstance(
                x, (bool, int, float)) else x)
        return self

    def copy(self, deep=True):
        return self._new(list(self._v))

    def map(self, f):
        return self._un(f) if not isinstance(f, (dict, Series)) \\
            else _U('map of a table')

    def apply(self, f):
        return self._un(f)

    def clip(self, lower=None, upper=None):
        return self._un(lambda x: np.clip(x, lower, upper))

    def rename(self, name):
        return Series(self._v, index=self.index, name=name)

    def to_frame(self, name=_NONE):
        nm = self.name if name is _NONE else name
        return DataFrame({0 if nm is None else nm: self})

    def set_axis(self, labels, axis=0):
        return Series(self._v, index=labels, name=self.name)

    def reset_index(self, drop=False):
        return _U('reset_index')

    def sort_index(self, level=None):
        if level is not None:
            return _U('sort_index of a level')
        ks = sorted(range(len(self._v)), key=lambda k: self.index._labels[k])
        return Series([self._v[k] for k in ks], index=self.index[ks],
                      name=self.name)

    def sort_values(self):
        return _U('sort_values')

    def groupby(self, by=None, axis=0, level=None, as_index=True, sort=True,
                group_keys=True, observed=False, dropna=True):
        return SeriesGroupBy(self, _groups(self, by, level, sort))

    def reindex(self, index=None, fill_value=NA, level=None):
        if level is not None:
            return _U('reindex of a level')
        ix = _index(index)
        if not self.index.is_unique:
            raise ValueError('cannot reindex on an axis with duplicate '
                             'labels')
        pos = {x: k for k, x in enumerate(self.index._labels)}
        return Series([self._v[pos[x]] if x in pos else fill_value
                       for x in ix._labels], index=ix, name=self.name)

    def unstack(self, level=-1, fill_value=NA):
        ix = self.index
        if not isinstance(ix, MultiIndex):
            raise ValueError('index must be a MultiIndex to unstack')
        k = ix._level(level)
        cols = [x for x in ix.levels[k]._labels
                if x in [t[k] for t in ix._labels]]
        rest = ix.droplevel(k)
        rows = Index(sorted(set(rest._labels))) if not isinstance(
            rest, MultiIndex) else MultiIndex.from_tuples(
                sorted(set(rest._labels)))
        rows = rows.rename(rest.name) if not isinstance(rest, MultiIndex) \\
            else rows.rename(rest.names)
        pos = {}
        for t, v in zip(ix._labels, self._v):
            r = t[:k] + t[k + 1:]
            pos[(r if len(r) > 1 else r[0], t[k])] = v
        return DataFrame({c: [pos.get((r, c), fill_value)
                              for r in rows._labels] for c in cols},
                         index=rows, columns=Index(cols,
                                                   name=ix.names[k]))

    @property
    def iloc(self):
        return _ILoc(self)

    @property
    def loc(self):
        return _Loc(self)

    def __getitem__(self, k):
        if isinstance(k, Series) and len(k) == len(self) and all(
                isinstance(x, bool) for x in k._v):
            k = [j for j, m in enumerate(k._v) if m]
            return _ILoc(self)[k]
        if isinstance(k, (slice, list, np.ndarray)):
            return _U('selection')
        return _Loc(self)[k]

    def get(self, k, default=None):
        if k in self.index._labels:
            return _Loc(self)[k]
        return default

    def __setitem__(self, k, v):
        if self.index._labels.count(k) != 1:
            return _U('assignment')
        self._v[self.index._labels.index(k)] = v

    def __contains__(self, k):
        return k in self.index

    def transform(self, f):
        return _U('transform')

    def agg(self, f):
        return _apply(f, self)

    aggregate = agg

    def value_counts(self):
        return _U('value_counts')

    def dot(self, other):
        return (self * other).sum()

    def where(self, cond, other=NA):
        return self._new([x if c else other
                          for x, c in zip(self._v, cond._v)])


class _ILoc(object):
    def __init__(self, o):
        self.o = o

    def __getitem__(self, k):
        o = self.o
        if isinstance(o, DataFrame):
            if isinstance(k, tuple):
                return _U('iloc of a frame')
            return DataFrame({c: _ILoc(o[c])[k] for c in o.columns})
        if isinstance(k, slice):
            return Series(o._v[k], index=o.index[k], name=o.name)
        if isinstance(k, (list, np.ndarray)):
            ks = [int(x) for x in _listof(k)]
            return Series([o._v[x] for x in ks], index=o.index[ks],
                          name=o.name)
        return o._v[k]


class _Loc(object):
    def __init__(self, o):
        self.o = o

    def __getitem__(self, k):
        o = self.o
        if isinstance(o, DataFrame):
            if isinstance(k, (Index, list)):
                return DataFrame({c: _Loc(o[c])[k] for c in o.columns})
            return _U('loc of a frame')
        if isinstance(k, (Index, list)):
            ks = _listof(k)
            for x in ks:
                if x not in o.index._labels:
                    raise KeyError(x)
            if not o.index.is_unique:
                return _U('loc of repeated labels')
            return o.reindex(Index(ks) if not isinstance(k, Index) else k)
        hits = [j for j, x in enumerate(o.index._labels) if x == k]
        if len(hits) == 1:
            return o._v[hits[0]]
        if hits:
            return _ILoc(o)[hits]
        if isinstance(o.index, MultiIndex):
            return _U('partial label')
        raise KeyError(k)


class DataFrame(_Ops):
    def __init__(self, data=None, index=None, columns=None, dtype=None,
                 copy=False):
        cols = _index(columns) if columns is not None else None
        if isinstance(data, DataFrame):
            data = dict(zip(data.columns, data._cols))
        if isinstance(data, dict):
            names = list(data.keys())
            if cols is not None:
                names = [c for c in cols]
            ix = _index(index) if index is not None else None
            if ix is None:
                for c in names:
                    if isinstance(data.get(c), Series):
                        ix = data[c].index if ix is None else (
                            ix if ix.equals(data[c].index)
                            else ix.union(data[c].index))
            out = []
            for c in names:
                v = data.get(c, NA)
                if isinstance(v, Series):
                    v = v._v if v.index.equals(ix) else v.reindex(ix)._v
                elif isinstance(v, (list, tuple, np.ndarray, Index)):
                    v = _listof(v)
                else:
                    v = [v] * len(ix)
                out.append(list(v))
            if cols is None:
                cols = Index(names)
            if ix is None:
                ix = RangeIndex(list(range(len(out[0]) if out else 0)))
        elif data is None:
            ix = _index(index) if index is not None else Index([])
            out = [[NA] * len(ix) for _ in (cols or [])]
            cols = cols if cols is not None else Index([])
        else:
            a = np.asarray(data)
            if a.ndim == 0 and index is not None and cols is not None:
                a = np.full((len(_index(index)), len(cols)), data)
            if a.ndim == 1:
                a = a[:, None]
            if a.ndim != 2:
                raise ValueError('Must pass 2-d input')
            n, m = a.shape
            ix = _index(index) if index is not None else \\
                RangeIndex(list(range(n)))
            if cols is None:
                cols = RangeIndex(list(range(m)))
            out = [[a[i, j] for i in range(n)] for j in range(m)]
        for v in out:
            if len(v) != len(ix):
                raise ValueError('Shape of passed values')
        if len(out) != len(cols):
            raise ValueError('Shape of passed values')
        self._cols = out
        self.columns = cols
        self.index = ix

    @property
    def shape(self):
        return (len(self.index), len(self.columns))

    @property
    def ndim(self):
        return 2

    @property
    def size(self):
        return len(self.index) * len(self.columns)

    @property
    def empty(self):
        return self.size == 0

    @property
    def values(self):
        return np.array([[np.nan if c[i] is NA else c[i]
                          for c in self._cols]
                         for i in range(len(self.index))])

    def to_numpy(self, dtype=None):
        return self.values

    def __array__(self, dtype=None):
        return self.values

    def __len__(self):
        return len(self.index)

    def __iter__(self):
        return iter(list(self.columns))

    def __contains__(self, c):
        return c in self.columns

    def keys(self):
        return self.columns

    def items(self):
        return iter([(c, self[c]) for c in self.columns])

    def _pos(self, c):
        if c not in self.columns._labels:
            raise KeyError(c)
        if self.columns._labels.count(c) > 1:
            return _U('repeated column')
        return self.columns._labels.index(c)

    def __getitem__(self, c):
        if isinstance(c, (list, Index)):
            return DataFrame({x: self._cols[self._pos(x)] for x in c},
                             index=self.index)
        if isinstance(c, (slice, Series, np.ndarray)):
            return _U('selection')
        return Series(self._cols[self._pos(c)], index=self.index, name=c)

    def get(self, c, default=None):
        return self[c] if c in self.columns else default

    def __setitem__(self, c, v):
        if isinstance(v, Series):
            v = v._v if v.index.equals(self.index) else \\
                v.reindex(self.index)._v
        elif isinstance(v, (list, tuple, np.ndarray)):
            v = _listof(v)
            if len(v) != len(self.index):
                raise ValueError('Length of values')
        else:
            v = [v] * len(self.index)
        if c in self.columns._labels:
            self._cols[self._pos(c)] = v
        else:
            self._cols.append(v)
            self.columns = Index(self.columns._labels + [c],
                                 name=self.columns.name)

    def __delitem__(self, c):
        k = self._pos(c)
        del self._cols[k]
        self.columns = self.columns[[j for j in range(len(self.columns))
                                     if j != k]]

    def drop(self, labels=None, axis=0, columns=None):
        if columns is None and axis in (1, 'columns'):
            columns = labels
        if columns is None:
            return _U('drop of rows')
        cs = columns if isinstance(columns, list) else [columns]
        for c in cs:
            self._pos(c)
        return self[[c for c in self.columns if c not in cs]]

    def assign(self, **kw):
        r = self.copy()
        for k, v in kw.items():
            r[k] = v(r) if callable(v) else v
        return r

    def copy(self, deep=True):
        r = DataFrame({}, index=self.index)
        r.columns = self.columns
        r._cols = [list(c) for c in self._cols]
        return r

    def _each(self, f):
        r = self.copy()
        r._cols = [f(Series(c, index=self.index))._v for c in self._cols]
        return r

    def _un(self, f):
        return self._each(lambda s: s._un(f))

    def _bin(self, o, f):
        if isinstance(o, (DataFrame, Series)) or np.ndim(o):
            return _U('arithmetic of frames')
        return self._each(lambda s: s._bin(o, f))

    def mul(self, o, axis=1, **k):
        if isinstance(o, Series) and axis in (0, 'index') and not k:
            return self._each(lambda s: s * o)
        return self * o

    multiply = mul

    def fillna(self, value=None, inplace=False):
        return self._each(lambda s: s.fillna(value, inplace))

    def astype(self, dtype, copy=True):
        if isinstance(dtype, dict):
            return _U('astype')
        return self._each(lambda s: s.astype(dtype))

    def isna(self):
        return self._each(lambda s: s.isna())

    def notna(self):
        return self._each(lambda s: s.notna())

    def reindex(self, labels=None, index=None, columns=None, axis=0,
                fill_value=NA):
        if axis in (1, 'columns') and columns is None:
            labels, columns = None, labels
        index = labels if index is None else index
        r = self
        if columns is not None:
            r = DataFrame({c: self._cols[self._pos(c)] if c in self.columns
                           else [fill_value] * len(self.index)
                           for c in columns}, index=self.index)
        if index is not None:
            ix = _index(index)
            cols = [Series(c, index=r.index).reindex(
                ix, fill_value=fill_value)._v for c in r._cols]
            q = DataFrame({}, index=ix)
            q._cols, q.columns = cols, r.columns
            r = q
        return r

    def rename(self, columns=None):
        r = self.copy()
        r.columns = Index([columns.get(c, c) for c in self.columns],
                          name=self.columns.name)
        return r

    def sum(self, axis=0):
        if axis in (1, 'columns'):
            return Series([Series([c[i] for c in self._cols]).sum()
                           for i in range(len(self.index))],
                          index=self.index)
        return Series([Series(c).sum() for c in self._cols],
                      index=self.columns)

    def prod(self, axis=0):
        if axis in (1, 'columns'):
            return Series([Series([c[i] for c in self._cols]).prod()
                           for i in range(len(self.index))],
                          index=self.index)
        return Series([Series(c).prod() for c in self._cols],
                      index=self.columns)

    def groupby(self, by=None, axis=0, level=None, as_index=True, sort=True,
                group_keys=True, observed=False, dropna=True):
        if not as_index:
            return _U('as_index')
        return DataFrameGroupBy(self, _groups(self, by, level, sort))

    def stack(self, level=-1, dropna=True):
        if isinstance(self.columns, MultiIndex):
            return _U('stack')
        def fact(ix):
            u = list(ix._labels) if ix.is_unique else \
                sorted(set(ix._labels))
            return u, [u.index(x) for x in ix._labels]
        old = self.index
        if isinstance(old, MultiIndex):
            levels = [list(l._labels) for l in old.levels]
            rows = old.codes
        else:
            u, c = fact(old)
            levels, rows = [u], [c]
        u, cc = fact(self.columns)
        levels = levels + [u]
        codes, v = [[] for _ in levels], []
        for i in range(len(old)):
            for j, col in zip(cc, self._cols):
                if dropna and col[i] is NA:
                    continue
                for k, r in enumerate(rows):
                    codes[k].append(r[i])
                codes[-1].append(j)
                v.append(col[i])
        ix = MultiIndex(levels, codes, names=list(old.names) +
                        [self.columns.name])
        return Series(v, index=ix)

    @property
    def iloc(self):
        return _ILoc(self)

    @property
    def loc(self):
        return _Loc(self)

    @property
    def T(self):
        return _U('transpose')

    def join(self, other):
        r = self.copy()
        if isinstance(other, Series):
            other = other.to_frame()
        for c in other.columns:
            r[c] = other[c]
        return r

    def apply(self, f, axis=0):
        if axis in (1, 'columns'):
            return _U('apply')
        return Series([f(self[c]) for c in self.columns],
                      index=self.columns)


def _apply(f, s):
    if isinstance(f, str):
        return getattr(s, f) if f == 'size' else getattr(s, f)()
    return f(s)


def _groups(obj, by, level, sort):
    """keys, positions of every group, index of the result"""
    ix = obj.index
    if level is not None and by is not None:
        return _U('groupby of values and levels')
    names = None
    if level is not None:
        ls = level if isinstance(level, (list, tuple)) else [level]
        if not isinstance(ix, MultiIndex):
            if list(ls) not in ([0], [-1], [ix.name]):
                raise ValueError('level')
            labels, names = list(ix._labels), [ix.name]
        else:
            ls = [ix._level(x) for x in ls]
            names = [ix.names[k] for k in ls]
            labels = [tuple(t[k] for k in ls) if isinstance(
                level, (list, tuple)) and len(ls) > 1 else t[ls[0]]
                for t in ix._labels]
    elif isinstance(by, Index):
        labels = list(by._labels)
        names = list(by.names)
    elif isinstance(by, Series):
        if not by.index.equals(ix):
            return _U('alignment of group keys')
        labels, names = list(by._v), [by.name]
    elif isinstance(by, (list, tuple)) and all(
            isinstance(x, (Index, Series, np.ndarray)) for x in by):
        cols = [_listof(x) for x in by]
        names = [x.name if isinstance(x, (Index, Series)) else None
                 for x in by]
        labels = list(zip(*cols)) if len(cols) > 1 else cols[0]
    elif isinstance(by, (list, str)):
        cs = by if isinstance(by, list) else [by]
        cols = []
        for c in cs:
            if isinstance(obj, DataFrame) and c in obj.columns._labels:
                cols.append(obj[c]._v)
            elif c in list(ix.names):
                cols.append(ix.get_level_values(c)._labels)
            elif isinstance(obj, Series) and len(cs) == len(obj) and \\
                    isinstance(by, list):
                return _U('list of keys')
            else:
                raise KeyError(c)
        names = cs
        labels = list(zip(*cols)) if len(cols) > 1 else list(cols[0])
    else:
        return _U('groupby of this key')
    if len(labels) != len(ix):
        raise ValueError('Grouper and axis must be same length')
    pos = {}
    order = []
    for k, l in enumerate(labels):
        if l not in pos:
            pos[l] = []
            order.append(l)
        pos[l].append(k)
    if sort:
        order = sorted(order)
    if order and isinstance(order[0], tuple):
        gi = MultiIndex.from_tuples(order, names=names)
    else:
        gi = Index(order, name=names[0] if names else None)
    return order, pos, gi


class _GroupBy(_Base):
    def __init__(self, obj, g):
        self.obj = obj
        self.order, self.pos, self.gi = g

    def __len__(self):
        return len(self.order)

    @property
    def ngroups(self):
        return len(self.order)

    @property
    def groups(self):
        return {k: self.obj.index[self.pos[k]] for k in self.order}

    @property
    def indices(self):
        return {k: np.array(self.pos[k]) for k in self.order}

    def __iter__(self):
        return iter([(k, _ILoc(self.obj)[self.pos[k]]) for k in self.order])

    def size(self):
        return Series([len(self.pos[k]) for k in self.order], index=self.gi)


class SeriesGroupBy(_GroupBy):
    def _one(self, f):
        return Series([_apply(f, _ILoc(self.obj)[self.pos[k]])
                       for k in self.order], index=self.gi,
                      name=self.obj.name)

    def agg(self, func=None, *args, **kw):
        if args:
            return _U('agg arguments')
        if func is None:
            return DataFrame({k: self._one(f) for k, f in kw.items()},
                             index=self.gi)
        if kw:
            return _U('agg arguments')
        if isinstance(func, dict):
            raise TypeError('nested renamer is not supported')
        if isinstance(func, (list, tuple)):
            if all(isinstance(f, tuple) for f in func):
                return DataFrame({k: self._one(f) for k, f in func},
                                 index=self.gi)
            if all(isinstance(f, str) for f in func):
                return DataFrame({f: self._one(f) for f in func},
                                 index=self.gi)
            return _U('agg of a list')
        return self._one(func)

    aggregate = agg

    def apply(self, f):
        return self._one(f)

    def sum(self, **k): return self._one('sum')
    def mean(self): return self._one('mean')
    def count(self): return self._one('count')
    def max(self): return self._one('max')
    def min(self): return self._one('min')
    def prod(self): return self._one('prod')

    def first(self):
        return self._one(lambda s: s._v[0])

    def last(self):
        return self._one(lambda s: s._v[-1])


class DataFrameGroupBy(_GroupBy):
    def __getitem__(self, c):
        g = (self.order, self.pos, self.gi)
        if isinstance(c, (list, Index)):
            return DataFrameGroupBy(self.obj[c], g)
        return SeriesGroupBy(self.obj[c], g)

    def _each(self, f):
        return DataFrame({c: self[c]._one(f) for c in self.obj.columns},
                         index=self.gi, columns=self.obj.columns)

    def agg(self, func=None, *args, **kw):
        if args:
            return _U('agg arguments')
        if func is None:
            return DataFrame({k: self[c]._one(f)
                              for k, (c, f) in kw.items()}, index=self.gi)
        if isinstance(func, dict):
            if any(isinstance(f, (list, tuple, dict))
                   for f in func.values()):
                return _U('agg of lists')
            return DataFrame({c: self[c]._one(f) for c, f in func.items()},
                             index=self.gi)
        if isinstance(func, (list, tuple)):
            return _U('agg of a list')
        return self._each(func)

    aggregate = agg

    def sum(self, **k): return self._each('sum')
    def mean(self): return self._each('mean')
    def count(self): return self._each('count')

    def apply(self, f):
        return Series([f(_ILoc(self.obj)[self.pos[k]]) for k in self.order],
                      index=self.gi)


class NamedAgg(tuple):
    def __new__(cls, column, aggfunc):
        return tuple.__new__(cls, (column, aggfunc))


def concat(objs, axis=0, keys=None, **kw):
    if kw:
        return _U('concat')
    if isinstance(objs, dict):
        keys, objs = list(objs.keys()), list(objs.values())
    objs = list(objs)
    if axis in (1, 'columns'):
        cols, data = [], []
        for n, o in enumerate(objs):
            if not o.index.equals(objs[0].index):
                return _U('concat of different indices')
            if isinstance(o, Series):
                cols.append(keys[n] if keys is not None else
                            (n if o.name is None else o.name))
                data.append(o._v)
            elif keys is None:
                for c in o.columns:
                    cols.append(c)
                    data.append(o[c]._v)
            else:
                return _U('concat')
        r = DataFrame({}, index=objs[0].index)
        r._cols, r.columns = [list(v) for v in data], Index(cols)
        return r
    if keys is None and all(isinstance(o, Series) for o in objs):
        ix = objs[0].index
        v = list(objs[0]._v)
        for o in objs[1:]:
            ix = ix.append(o.index)
            v = v + o._v
        return Series(v, index=ix)
    return _U('concat')


def unique(x):
    return np.array(_uniq(_listof(x)))


def factorize(x, sort=False):
    return Index(_listof(x)).factorize(sort)
'''


def module(interp):
    m = interp.modules.get('pandas_model')
    if m is None:
        m = interp.load_source('pandas_model', SRC)
        m.d['__name__'] = 'pandas'
    return m
