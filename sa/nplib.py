"""Library functions of numpy written in terms of the modelled ones; the
source below is interpreted like harness code, on first use."""

SRC = '''
import numpy as np


def pad(array, pad_width, mode='constant', constant_values=0):
    if mode != 'constant' or isinstance(constant_values, (tuple, list)):
        return np._unsupported('pad mode')
    a = np.asarray(array)
    if isinstance(pad_width, (int, np.integer)):
        widths = [(pad_width, pad_width)] * a.ndim
    else:
        widths = [tuple(w) if isinstance(w, (tuple, list)) else w
                  for w in pad_width]
        if len(widths) == 2 and not isinstance(widths[0], tuple):
            widths = [tuple(widths)] * a.ndim
        elif len(widths) == 1 and a.ndim != 1:
            widths = widths * a.ndim
    for k, (lo, hi) in enumerate(widths):
        for n, at in ((lo, 0), (hi, None)):
            for _ in range(n):
                shape = a.shape[:k] + (1,) + a.shape[k + 1:]
                z = np.full(shape, constant_values).astype(a.dtype)
                a = np.concatenate([z, a] if at == 0 else [a, z], k)
    return a


def atleast_2d(a):
    a = np.asarray(a)
    if a.ndim == 0:
        return a.reshape(1, 1)
    return a[None, :] if a.ndim == 1 else a


def column_stack(xs):
    return np.concatenate([np.asarray(x)[:, None] if np.ndim(x) == 1
                           else np.asarray(x) for x in xs], 1)


def dstack(xs):
    return np.stack([np.asarray(x) for x in xs], -1)


def hypot(x, y):
    return (np.asarray(x) ** 2 + np.asarray(y) ** 2) ** .5


def logaddexp(x, y):
    return np.log(np.exp(x) + np.exp(y))


def exp2(x):
    return np.power(2., x)


def sinh(x):
    return (np.exp(x) - np.exp(np.negative(x))) / 2


def cosh(x):
    return (np.exp(x) + np.exp(np.negative(x))) / 2


def tan(x):
    return np.sin(x) / np.cos(x)


def around(x, decimals=0):
    return np.floor(np.asarray(x) * 10. ** decimals + .5) / 10. ** decimals


round = rint = round_ = around


def trunc(x):
    return np.where(np.asarray(x) < 0, -np.floor(np.negative(x)), np.floor(x))


fix = trunc


def average(a, axis=None, weights=None):
    a = np.asarray(a)
    if weights is None:
        return a.mean(axis)
    w = np.asarray(weights)
    if w.ndim != a.ndim:
        w = w.reshape((1,) * axis + (-1,) + (1,) * (a.ndim - 1 - axis))
    w = np.broadcast_to(w, a.shape)
    return (a * w).sum(axis) / w.sum(axis)


def var(a, axis=None, ddof=0):
    a = np.asarray(a)
    n = a.size if axis is None else a.shape[axis]
    m = a.mean() if axis is None else np.expand_dims(a.mean(axis), axis)
    return ((a - m) ** 2).sum(axis) / (n - ddof)


def std(a, axis=None, ddof=0):
    return var(a, axis, ddof) ** .5


def ptp(a, axis=None):
    return np.max(a, axis) - np.min(a, axis)


def split(a, indices_or_sections, axis=0):
    a = np.moveaxis(np.asarray(a), axis, 0)
    n = a.shape[0]
    if isinstance(indices_or_sections, (int, np.integer)):
        k = indices_or_sections
        if n % k:
            raise ValueError('array split does not result in an equal '
                             'division')
        cuts = [n // k * i for i in range(k + 1)]
    else:
        cuts = [0] + list(indices_or_sections) + [n]
    return [np.moveaxis(a[lo:hi], 0, axis)
            for lo, hi in zip(cuts[:-1], cuts[1:])]


def ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = shape[0]
    out = [()]
    for n in shape:
        out = [i + (k,) for i in out for k in range(n)]
    return iter(out)


def ndenumerate(a):
    a = np.asarray(a)
    return iter([(i, a[i]) for i in ndindex(*a.shape)])


def flatnonzero(a):
    return np.nonzero(np.ravel(a))[0]


def argwhere(a):
    return np.stack(np.nonzero(a), -1)


def isin(a, test, invert=False):
    a = np.asarray(a)
    r = np.zeros(a.shape, bool)
    for t in np.ravel(np.asarray(test)):
        r = r | (a == t)
    return ~r if invert else r


in1d = isin


def select(conds, values, default=0):
    r = default
    for c, v in reversed(list(zip(conds, values))):
        r = np.where(c, v, r)
    return r


def ediff1d(a):
    return np.diff(np.ravel(a))


def fill_diagonal(a, val):
    n = min(a.shape)
    k = np.arange(n)
    a[tuple([k] * a.ndim)] = val


def diag_indices(n, ndim=2):
    return (np.arange(n),) * ndim


def diagflat(v, k=0):
    return np.diag(np.ravel(v), k)


def tri(N, M=None, k=0, dtype=float):
    M = N if M is None else M
    return (np.arange(N)[:, None] + k >= np.arange(M)[None, :]).astype(dtype)


def tril_indices(n, k=0, m=None):
    return np.nonzero(tri(n, m, k, bool))


def triu_indices(n, k=0, m=None):
    return np.nonzero(~tri(n, m, k - 1, bool))


def kron(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.ndim != 2 or b.ndim != 2:
        return np._unsupported('kron')
    return (a[:, None, :, None] * b[None, :, None, :]).reshape(
        a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])


def cumprod(a, axis=None):
    a = np.asarray(a)
    if axis is None:
        a, axis = np.ravel(a), 0
    a = np.moveaxis(a, axis, 0)
    rows, r = [], 1
    for row in a:
        r = r * row
        rows.append(r)
    return np.moveaxis(np.stack(rows, 0), 0, axis)


def rollaxis(a, axis, start=0):
    n = np.ndim(a)
    axis = axis + n if axis < 0 else axis
    start = start + n if start < 0 else start
    if axis < start:
        start -= 1
    return np.moveaxis(a, axis, start)


def linspace(start, stop, num=50, endpoint=True):
    step = (stop - start) / ((num - 1) if endpoint else num)
    return start + step * np.arange(num)


def take_along_axis(a, indices, axis):
    ix = [np.arange(n).reshape((1,) * k + (-1,) + (1,) * (a.ndim - 1 - k))
          for k, n in enumerate(a.shape)]
    ix[axis] = indices
    return a[tuple(ix)]


def nansum(a, axis=None):
    a = np.asarray(a)
    return np.where(np.isnan(a), 0., a).sum(axis)


def nan_to_num(a, nan=0.):
    a = np.asarray(a)
    return np.where(np.isnan(a), nan, a)


def broadcast_shapes(*shapes):
    return np.broadcast_arrays(*[np.zeros(s) for s in shapes])[0].shape


def ravel_multi_index(multi, dims):
    r = 0
    for i, n in zip(multi, dims):
        r = r * n + i
    return r


def unravel_index(i, shape):
    out = []
    for n in reversed(shape):
        out.append(i % n)
        i = i // n
    return tuple(reversed(out))


def trapz(y, dx=1.0):
    y = np.asarray(y)
    return (dx * (y[..., 1:] + y[..., :-1]) / 2).sum(-1)


class _R(object):
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        parts = []
        for k in key:
            if isinstance(k, slice):
                k = np.arange(k.start or 0, k.stop, k.step or 1)
            parts.append(np.atleast_1d(k))
        return np.concatenate(parts)


class _C(object):
    def __getitem__(self, key):
        return column_stack(key)


class _S(object):
    def __getitem__(self, key):
        return key


r_, c_, s_, index_exp = _R(), _C(), _S(), _S()
'''

NAMES = '''pad atleast_2d column_stack dstack hypot logaddexp exp2 sinh cosh
tan around round rint round_ trunc fix average var std ptp split ndindex
ndenumerate flatnonzero argwhere isin in1d select ediff1d fill_diagonal
diag_indices diagflat tri tril_indices triu_indices kron cumprod rollaxis
linspace take_along_axis nansum nan_to_num broadcast_shapes
ravel_multi_index unravel_index trapz'''.split()
OBJECTS = 'r_ c_ s_ index_exp'.split()


def module(interp):
    m = interp.modules.get('numpy_prelude')
    if m is None:
        m = interp.load_source('numpy_prelude', SRC)
    return m
