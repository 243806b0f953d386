"""Models of the library functions the repository uses (numpy, scipy, six,
abc, enum, functools ...) over abstract arrays.  A call that has no model is
'unsupported' and leaves the obligation that needs it undecided."""
import array as _array
import itertools
import math
import operator as _op
import numpy as np
from . import terms as tt
from . import arr as A
from . import valnum
from .terms import T, tm
from .arr import AArr, Unsupported, AbsRaise, araise


class AttrObj(object):
    def getattr(self, interp, name):
        araise(AttributeError, name)

    def setattr(self, interp, name, v):
        araise(AttributeError, name)

    def getitem(self, interp, k):
        araise(TypeError, 'not subscriptable')

    def setitem(self, interp, k, v):
        araise(TypeError, 'no item assignment')

    def call(self, interp, args, kw):
        araise(TypeError, 'not callable')

    def len(self, interp):
        araise(TypeError, 'no len()')


class Later(AttrObj):
    def __init__(self, name):
        self.name = name

    def getitem(self, interp, k):
        from . import nplib
        return interp.getitem(nplib.module(interp).d[self.name], k)


class Flags(AttrObj):
    def __init__(self, arr):
        self.arr = arr

    def getitem(self, interp, k):
        if k in ('WRITEABLE', 'W'):
            return self.arr.writeable
        return True

    def setitem(self, interp, k, v):
        if k in ('WRITEABLE', 'W'):
            if v and not self.arr.writeable and \
                    self.arr.axes != tuple(('a', i, 0, 1) for i in
                                           range(self.arr.ndim)):
                raise Unsupported('making a view writeable')
            self.arr.writeable = bool(v)
            return
        raise Unsupported('array flag ' + str(k))

    def getattr(self, interp, name):
        if name == 'writeable':
            return self.arr.writeable
        return super(Flags, self).getattr(interp, name)

    def setattr(self, interp, name, v):
        if name == 'writeable':
            return self.setitem(interp, 'WRITEABLE', v)
        araise(AttributeError, name)


class MemView(AttrObj):
    def __init__(self, arr):
        self.arr = arr

    def getattr(self, interp, name):
        if name in ('shape', 'ndim', 'tolist'):
            return array_attr(interp, self.arr, name)
        if name == 'nbytes':
            raise Unsupported('nbytes')
        araise(AttributeError, "'memoryview' object has no attribute '%s'"
               % name)

    def getitem(self, interp, k):
        if isinstance(k, slice) or isinstance(k, int):
            r = A.getitem(self.arr, key(interp, k))
            return MemView(r) if isinstance(r, AArr) else r
        if isinstance(k, tuple) and all(isinstance(x, int) for x in k) and \
                len(k) == self.arr.ndim:
            return A.getitem(self.arr, k)
        raise Unsupported('memoryview index')

    def len(self, interp):
        return self.arr.shape[0]


class MaskedArr(AttrObj):
    def __init__(self, data, mask=None):
        self.data = data if isinstance(data, AArr) else A.scalar_arr(data)
        if mask is None or mask is False:
            mask = A.mk(self.data.shape, lambda idx: tt.FALSE, 'b')
        self.mask = mask

    def getattr(self, interp, name):
        if name == 'data':
            return self.data
        if name == 'mask':
            return self.mask
        if name in ('ndim', 'shape', 'size', 'dtype'):
            return array_attr(interp, self.data, name)
        if name == 'compressed':
            return M(lambda: A.getitem(self.data, (
                UF['logical_not'](interp, self.mask),)))
        if name == 'count':
            return M(lambda: _sum(interp, UF['logical_not'](
                interp, self.mask)))
        if name == 'filled':
            return M(lambda v=None: A.emap(
                lambda x, m, q: tt.ite(tt.tb(m), q, x),
                [self.data, self.mask, A.scalar_arr(v)], out_scalar=False))
        if name in ('reshape', 'transpose', 'copy'):
            def f(*a, **k):
                return MaskedArr(
                    interp.call(array_attr(interp, self.data, name), a, k),
                    interp.call(array_attr(interp, self.mask, name), a, k))
            return M(f)
        if name == 'T':
            return MaskedArr(A.transpose(self.data), A.transpose(self.mask))
        raise Unsupported('masked array attribute ' + name)

    def getitem(self, interp, k):
        kk = key(interp, k)
        d, m = A.getitem(self.data, kk), A.getitem(self.mask, kk)
        if isinstance(d, AArr):
            return MaskedArr(d, m)
        return d

    def len(self, interp):
        return self.data.shape[0]


class NpType(AttrObj):
    """numpy scalar type / dtype marker"""

    def __init__(self, name, kind, bits=64):
        self.name = name
        self.kind = kind
        self.bits = bits
        self.__name__ = name

    def check(self, v):
        # numpy scalars: representation shared with python numbers
        if self.name == 'ndarray':
            return isinstance(v, AArr) or isinstance(v, MaskedArr)
        if self.name == 'ufunc':
            return isinstance(v, UFunc)
        if isinstance(v, (T, float)) and not isinstance(v, bool):
            d = A.dtype_of(v)
            if self.name in ('generic', 'number'):
                return isinstance(v, T)
            if self.name in ('floating', 'float64', 'float_'):
                return d == 'f' and isinstance(v, T)
            if self.name in ('integer', 'int64', 'int_'):
                return d == 'i' and isinstance(v, T)
        return False

    def getattr(self, interp, name):
        if name in ('__name__', 'name'):
            return self.name
        if name == 'kind':
            return {'f': 'f', 'i': 'i', 'b': 'b', 'O': 'O'}[self.kind]
        if name == 'type':
            return self
        araise(AttributeError, name)

    def call(self, interp, args, kw):
        if not args:
            return {'f': 0.0, 'i': 0, 'b': False}[self.kind]
        v = coerce(interp, args[0])
        if isinstance(v, AArr):
            return cast(v, self.kind)
        return _castscalar(v, self.kind)

    def __eq__(self, o):
        return isinstance(o, NpType) and (o is self or (
            o.kind == self.kind and o.bits == self.bits and
            not set((o.name, self.name)) & {'ndarray', 'ufunc'}))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.kind, self.bits))


NDARRAY = NpType('ndarray', 'O')
DT = {'f': NpType('float64', 'f'), 'i': NpType('int64', 'i'),
      'b': NpType('bool_', 'b', 8), 'O': NpType('object_', 'O')}


def kind_of(d):
    if d is None:
        return None
    if isinstance(d, NpType):
        return d.kind
    if d is float:
        return 'f'
    if d is int:
        return 'i'
    if d is bool:
        return 'b'
    if d is object:
        return 'O'
    if isinstance(d, str):
        k = np.dtype(d).kind
        if k in 'fiub':
            return 'i' if k == 'u' else k
    raise Unsupported('dtype %r' % (d,))


def _castscalar(v, k):
    if isinstance(v, T):
        v = tt.numify(v)
        if k == 'i' and not v.isint:
            return A.unwrap(tt.fn('int', v), 'i')
        if k == 'b':
            return A.unwrap(tt.lnot(tt.eq(v, tt.ZERO)), 'b')
        return v
    return {'f': float, 'i': int, 'b': bool, 'O': lambda x: x}[k](v)


def cast(a, k):
    if k is None or k == a.dtype:
        return A.copy(a)
    if k == 'f' or k == 'O':
        r = a.reader()
        return A.mk(a.shape, lambda idx: tt.numify(r(idx)), k)
    if k == 'b':
        return A.emap(lambda x: tt.lnot(tt.eq(tt.numify(x), tt.ZERO)), [a],
                      'b', False)
    if a.dtype == 'b':
        return A.emap(tt.numify, [a], 'i', False)
    return A.emap(lambda x: tt.fn('int', x), [a], 'i', False)


class Model_(object):
    pass


def M(f, name=None):
    from .interp import Model
    return Model(f, name)


# ----------------------------------------------------------------- coercion

def coerce(interp, v):
    """anything array-like -> AArr, or scalar (number or term)"""
    from .interp import PyObj, Opaque
    if isinstance(v, (AArr, T, int, float, bool)):
        return v
    if isinstance(v, PyObj):
        f, _ = v.cls.lookup('__array__')
        if f is not None:
            r = interp.call(f, [v])
            return coerce(interp, r)
        if isinstance(v.native, (list, tuple)):
            return coerce(interp, v.native)
        raise Unsupported('array of objects')
    if isinstance(v, (list, tuple)):
        parts = [coerce(interp, x) for x in v]
        if not parts:
            return A.mk((0,), lambda idx: tt.ZERO, 'f')
        parts = [p if isinstance(p, AArr) else A.scalar_arr(p) for p in parts]
        return A.stack(parts, 0)
    if isinstance(v, MaskedArr):
        return v.data
    if isinstance(v, MemView):
        return v.arr
    if isinstance(v, (range, _array.array)):
        return A.from_np(np.array(list(v), dtype=int if isinstance(
            v, range) or v.typecode not in 'fd' else float))
    if isinstance(v, np.ndarray):
        return A.from_np(v)
    if isinstance(v, complex):
        raise Unsupported('complex numbers')
    if hasattr(v, '__next__'):
        raise Unsupported('array of iterator')
    if v is None:
        raise Unsupported('array of None')
    raise Unsupported('array of %s' % type(v).__name__)


def AR(interp, v):
    v = coerce(interp, v)
    return v if isinstance(v, AArr) else A.scalar_arr(v)


def asarray(interp, v, dtype=None, **kw):
    a = coerce(interp, v)
    k = kind_of(dtype)
    if not isinstance(a, AArr):
        a = A.scalar_arr(a)
        if k is not None and k != a.dtype:
            a = cast(a, k)
        return a
    if k is None or k == a.dtype:
        return a
    return cast(a, k)


def key(interp, k):
    if isinstance(k, tuple):
        return tuple(key1(interp, x) for x in k)
    return (key1(interp, k),)


def key1(interp, k):
    from .interp import PyObj
    if k is None or k is Ellipsis or isinstance(k, (AArr,)):
        return k
    if isinstance(k, slice):
        return slice(*[x.item() if isinstance(x, AArr) else x
                       for x in (k.start, k.stop, k.step)])
    if isinstance(k, bool):
        return A.from_np(np.array(k))
    if isinstance(k, int):
        return k
    if isinstance(k, T):
        if k.isint:
            return k
        araise(IndexError, 'only integers, slices ... are valid indices')
    if isinstance(k, (list, tuple, range, _array.array)) or \
            isinstance(k, PyObj) or isinstance(k, MaskedArr):
        r = coerce(interp, k)
        if isinstance(r, AArr) and r.ndim == 1 and r.size == 0 and \
                r.dtype == 'f' and isinstance(k, (list, tuple)):
            return A.copy(r, 'i')
        return r
    araise(IndexError, 'only integers, slices (`:`), ellipsis (`...`), '
           'numpy.newaxis (`None`) and integer or boolean arrays are valid '
           'indices')


# ------------------------------------------------------------------- ufuncs

def into(r, out):
    """result of an operation with an `out` argument"""
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    ra = r if isinstance(r, AArr) else A.scalar_arr(r)
    if not A.cast_ok(out.dtype, ra.dtype):
        araise(TypeError, 'Cannot cast ufunc output')
    A.setitem(out, (Ellipsis,), ra)
    return out


class UFunc(object):
    def __init__(self, name, nin, f, dt=None, cond=None):
        self.name = name
        self.__name__ = name
        self.nin = nin
        self.f = f
        self.dt = dt          # output dtype: None promote, or 'f','b', fn

    def __repr__(self):
        return '<ufunc %s>' % self.name

    def __call__(self, interp, *args, **kw):
        from .interp import PyObj, Opaque
        out = kw.pop('out', None)
        where = kw.pop('where', True)
        dtype = kw.pop('dtype', None)
        kw.pop('casting', None)
        if kw:
            raise Unsupported('ufunc keyword')
        if len(args) == self.nin + 1:
            out = args[-1]
            args = args[:-1]
        if isinstance(out, tuple):
            out = out[0]
        if len(args) != self.nin:
            araise(TypeError, '%s() takes %d positional arguments but %d were'
                   ' given' % (self.name, self.nin, len(args)))
        objs = [a for a in args if isinstance(a, PyObj) and
                a.cls.lookup('__array_ufunc__')[0] is not None]
        if objs:
            done = []
            for a in objs:
                if any(a.cls is c for c in done):
                    continue
                done.append(a.cls)
                f, _ = a.cls.lookup('__array_ufunc__')
                k2 = {}
                if out is not None:
                    k2['out'] = (out,)
                r = interp.call(f, [a, self, '__call__'] + list(args), k2)
                if r is not NotImplemented:
                    return r
            araise(TypeError, 'operand type(s) all returned NotImplemented '
                   'from __array_ufunc__')
        for a in args:
            if isinstance(a, Opaque):
                raise Unsupported('ufunc of unmodelled value')
            if isinstance(a, PyObj) and a.cls.lookup('__array__')[0] is None \
                    and not isinstance(a.native, (list, tuple)):
                # object arrays: defer to the operator
                raise Unsupported('ufunc %s of object' % self.name)
        ma = [a for a in args if isinstance(a, MaskedArr)]
        r = self.apply([coerce(interp, a) for a in args])
        if dtype is not None:
            r = cast(r, kind_of(dtype)) if isinstance(r, AArr) else r
        if where is not True:
            if out is None:
                raise Unsupported('ufunc where without out')
            w = AR(interp, where)
            old = A.copy(out)
            r = A.emap(lambda c, x, y: tt.ite(tt.tb(c), x, y),
                       [w, r if isinstance(r, AArr) else A.scalar_arr(r), old],
                       old.dtype, False)
        if out is not None:
            return into(r, out)
        return MaskedArr(r, ma[0].mask) if ma and isinstance(r, AArr) else r

    def apply(self, vs):
        ds = [A.dtype_of(v) for v in vs]
        f = self.f
        if callable(self.dt):
            dt = self.dt(*ds)
        elif self.dt is None:
            dt = A.promote(*ds)
        else:
            dt = self.dt
        if self.name == 'power' and ds == ['i', 'i']:
            c = A.to_np(vs[1])
            if c is not None and (np.asarray(c) < 0).any():
                araise(ValueError, 'Integers to negative integer powers are '
                       'not allowed.')
        return A.emap(f, vs, dt)

    def attr(self, interp, name):
        if name in ('__name__', '__qualname__'):
            return self.name
        if name == 'nin':
            return self.nin
        if name == 'outer':
            def outer(a, b):
                a, b = AR(interp, a), AR(interp, b)
                ds = (a.dtype, b.dtype)
                dt = self.dt(*ds) if callable(self.dt) else (
                    self.dt or A.promote(*ds))
                return A.outer(self.f, a, b, dt)
            return M(outer, self.name + '.outer')
        if name == 'reduce':
            def red(a, axis=0, **k):
                a = AR(interp, a)
                if set(k) - {'keepdims'}:
                    raise Unsupported('reduce keyword')
                if k.get('keepdims') and self.name not in ('add', 'multiply'):
                    raise Unsupported('reduce keepdims')
                if self.name == 'add':
                    return A.reduce_sum(a, axis, bool(k.get('keepdims')))
                if self.name == 'multiply':
                    return A.reduce_prod(a, axis, bool(k.get('keepdims')))
                if self.name in ('logical_and', 'logical_or'):
                    return A.reduce_all(a, axis, self.name == 'logical_or')
                return A.reduce_fold(a, axis, self.f)
            return M(red, self.name + '.reduce')
        if name == 'accumulate':
            def acc(a, axis=0):
                if self.name == 'add':
                    return A.cumsum(AR(interp, a), axis)
                raise Unsupported('accumulate')
            return M(acc)
        if name == 'at':
            raise Unsupported('ufunc.at')
        if name == '__call__':
            return self
        araise(AttributeError, name)


N = tt.numify
UF = {}


def uf(name, nin, f, dt=None, *aliases):
    u = UFunc(name, nin, f, dt)
    UF[name] = u
    for a in aliases:
        UF[a] = u
    return u


def _arith(f):
    return lambda x, y: f(N(x), N(y))


def _floatout(*ds):
    return 'O' if 'O' in ds else 'f'


def _noneg(*ds):
    return A.promote(*ds) if A.promote(*ds) != 'b' else 'i'


uf('add', 2, lambda x, y: N(x) + N(y))
uf('subtract', 2, _arith(lambda x, y: x - y), _noneg)
uf('multiply', 2, _arith(lambda x, y: x * y))
uf('true_divide', 2, _arith(lambda x, y: x / y), _floatout, 'divide')
uf('power', 2, _arith(tt.power), _noneg, 'float_power')
uf('floor_divide', 2, _arith(lambda x, y: tt.fn('floor', tt.div(x, y))),
   _noneg)
uf('remainder', 2, _arith(lambda x, y: tt.fn('mod', x, y)), _noneg, 'mod')
uf('negative', 1, lambda x: -N(x), _noneg)
uf('positive', 1, lambda x: N(x), _noneg)
uf('equal', 2, _arith(tt.eq), 'b')
uf('not_equal', 2, _arith(lambda x, y: tt.lnot(tt.eq(x, y))), 'b')
uf('less', 2, _arith(tt.lt), 'b')
uf('less_equal', 2, _arith(tt.le), 'b')
uf('greater', 2, _arith(lambda x, y: tt.lt(y, x)), 'b')
uf('greater_equal', 2, _arith(lambda x, y: tt.le(y, x)), 'b')


def _b(x):
    if x.op in tt.BOOLOPS or x.op == 'ite':
        return tt.tb(x)
    return tt.lnot(tt.eq(x, tt.ZERO))


uf('logical_not', 1, lambda x: tt.lnot(_b(x)), 'b')
uf('logical_and', 2, lambda x, y: tt.land(_b(x), _b(y)), 'b')
uf('logical_or', 2, lambda x, y: tt.lor(_b(x), _b(y)), 'b')


def _xor(x, y):
    return tt.lor(tt.land(x, tt.lnot(y)), tt.land(tt.lnot(x), y))


uf('logical_xor', 2, lambda x, y: _xor(_b(x), _b(y)), 'b')


class BitUF(UFunc):
    def apply(self, vs):
        ds = [A.dtype_of(v) for v in vs]
        if all(d == 'b' for d in ds):
            return A.emap(self.f, vs, 'b')
        if 'f' in ds:
            araise(TypeError, "ufunc '%s' not supported for the input types"
                   % self.name)
        cs = [A.to_np(v) for v in vs]
        if all(c is not None for c in cs):
            return A.from_np(getattr(np, self.name)(*[
                np.asarray(c).astype(int) for c in cs]))
        raise Unsupported('bitwise operation on integers')


for _n, _nin, _f in (
        ('bitwise_and', 2, lambda x, y: tt.land(_b(x), _b(y))),
        ('bitwise_or', 2, lambda x, y: tt.lor(_b(x), _b(y))),
        ('bitwise_xor', 2, lambda x, y: _xor(_b(x), _b(y))),
        ('invert', 1, lambda x: tt.lnot(_b(x)))):
    UF[_n] = BitUF(_n, _nin, _f, 'b')


class MatMul(UFunc):
    def apply(self, vs):
        vs = [v if isinstance(v, AArr) else A.scalar_arr(v) for v in vs]
        if any(v.ndim == 0 for v in vs):
            araise(ValueError, 'matmul: input operand does not have enough '
                   'dimensions')
        if all(v.ndim <= 2 for v in vs):
            return A.matmul(*vs)
        raise Unsupported('batched matmul')


UF['matmul'] = MatMul('matmul', 2, None)


def _fl(name):
    return lambda x: tt.fn(name, N(x))


uf('exp', 1, lambda x: tt.exp(N(x)), 'f')
uf('log', 1, lambda x: tt.log(N(x)), 'f')
uf('sqrt', 1, lambda x: tt.power(N(x), tt.HALF), 'f')
uf('square', 1, lambda x: tt.power(N(x), tm(2)), _noneg)
uf('reciprocal', 1, lambda x: tt.recip(N(x)), 'f')
uf('log1p', 1, lambda x: tt.log(tt.ONE + N(x)), 'f')
uf('expm1', 1, lambda x: tt.exp(N(x)) - 1, 'f')
uf('log2', 1, lambda x: tt.log(N(x)) / tt.log(tm(2)), 'f')
uf('log10', 1, lambda x: tt.log(N(x)) / tt.log(tm(10)), 'f')
uf('arctan', 1, _fl('arctan'), 'f')
uf('tanh', 1, _fl('tanh'), 'f')
uf('sin', 1, _fl('sin'), 'f')
uf('cos', 1, _fl('cos'), 'f')
uf('absolute', 1, _fl('abs'), _noneg, 'abs', 'fabs')
uf('sign', 1, _fl('sign'), _noneg)
uf('floor', 1, _fl('floor'), 'f')
uf('ceil', 1, lambda x: -tt.fn('floor', -N(x)), 'f')
uf('minimum', 2, _arith(lambda x, y: tt.fn('min', x, y)), None, 'fmin')
uf('maximum', 2, _arith(lambda x, y: tt.fn('max', x, y)), None, 'fmax')
def _isnan(x):
    if x.op == 'nan':
        return tt.TRUE
    if x.op in ('c', 'inf'):
        return tt.FALSE
    return tt.lnot(tt.eq(tt.fn('isnan', N(x)), tt.ZERO))


uf('isnan', 1, _isnan, 'b')
uf('isfinite', 1, lambda x: tt.FALSE if x.op in ('nan', 'inf') else
   (tt.TRUE if x.op == 'c' else tt.lnot(_isnan(x))), 'b')
uf('isinf', 1, lambda x: tt.TRUE if x.op == 'inf' else tt.FALSE, 'b')


def _expit(x):
    x = N(x)
    return tt.ONE / (tt.ONE + tt.exp(-x))


SUF = {}


def suf(name, nin, f, dt='f'):
    SUF[name] = UFunc(name, nin, f, dt)


suf('expit', 1, _expit)
suf('logit', 1, lambda x: tt.log(N(x) / (tt.ONE - N(x))))
suf('log_expit', 1, lambda x: -tt.log(tt.ONE + tt.exp(-N(x))))
suf('gammaln', 1, _fl('gammaln'))
suf('gamma', 1, lambda x: tt.exp(tt.fn('gammaln', N(x))))
suf('psi', 1, _fl('digamma'))
suf('digamma', 1, _fl('digamma'))
suf('ndtri', 1, _fl('ndtri'))
suf('ndtr', 1, _fl('ndtr'))
suf('xlogy', 2, lambda x, y: tt.ite(tt.eq(N(x), tt.ZERO), tt.ZERO,
                                    N(x) * tt.log(N(y))))
suf('binom', 2, lambda n, k: tt.fn('factorial', N(n)) /
    (tt.fn('factorial', N(k)) * tt.fn('factorial', N(n) - N(k))))


# keyword arguments that may be ignored: they do not change the value
HARMLESS = {
    None: {'subok', 'casting', 'like', 'check_finite', 'overwrite_a',
           'overwrite_b', 'order_c'},
    'astype': {'copy'}, 'array': {'copy', 'ndmin'}, 'allclose': {
        'rtol', 'atol', 'equal_nan'}, 'isclose': {'rtol', 'atol',
                                                  'equal_nan'},
    'vectorize': {'otypes', 'doc', 'cache'}, 'errstate': {
        'divide', 'invalid', 'over', 'under', 'all'},
    'seterr': {'divide', 'invalid', 'over', 'under', 'all'},
    'meshgrid': {'indexing', 'copy'}, 'arange': {'dtype'},
    'argsort': {'axis', 'kind'}, 'frompyfunc': set(),
    'ma.array': {'fill_value', 'copy'}, 'comb': {'exact'},
    'mvnun': {'maxpts', 'abseps', 'releps'}, 'flags': {'align', 'uic'},
}


def loose(f):
    f.loose = True
    return f


def strict(name, f):
    """reject keyword arguments a model would silently ignore"""
    import inspect
    if getattr(f, 'loose', False):
        return f
    try:
        ps = inspect.signature(f).parameters.values()
    except (TypeError, ValueError):
        return f
    if not any(p.kind is p.VAR_KEYWORD for p in ps):
        return f
    named = {p.name for p in ps if p.kind in (p.POSITIONAL_OR_KEYWORD,
                                              p.KEYWORD_ONLY)}
    ok = named | HARMLESS[None] | HARMLESS.get(name, set())

    def g(*a, **k):
        for n in list(k):
            if n == 'order':
                if k[n] not in ('C', 'K', 'A', None):
                    if n in named:
                        continue
                    raise Unsupported('memory order in ' + str(name))
                if n not in named:
                    del k[n]
            elif n not in ok:
                raise Unsupported('keyword %s of %s' % (n, name))
        return f(*a, **k)
    return g


def corder(o):
    if o in ('C', None):
        return True
    if o == 'F':
        return False
    raise Unsupported('memory order %s' % o)


def _flatten(interp, a, order='C'):
    a = AR(interp, a)
    return A.copy(A.reshape(a if corder(order) else A.transpose(a), (-1,)))


def _ravel(interp, a, order='C'):
    a = AR(interp, a)
    return A.reshape(a if corder(order) else A.transpose(a), (-1,))


def keep(interp, a, r, axis, keepdims):
    """put summed axes back with length one"""
    if not keepdims:
        return r
    ax = sorted(A.axes_tuple(_axis(interp, axis), a.ndim))
    r = r if isinstance(r, AArr) else A.scalar_arr(r)
    for k in ax:
        r = A.expand_dims(r, k)
    return r


# -------------------------------------------------------- array attributes

def _sum(interp, a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if isinstance(a, A.MaskSel):
        return a.sum()
    if out is not None:
        raise Unsupported('sum out')
    a = AR(interp, a)
    r = A.reduce_sum(a, _axis(interp, axis), bool(keepdims))
    if dtype is not None and isinstance(r, AArr):
        r = cast(r, kind_of(dtype))
    return r


def _axis(interp, ax):
    from .interp import PyObj
    if isinstance(ax, AArr) and ax.ndim == 0:
        return ax.item()
    if isinstance(ax, AArr):
        if ax.ndim == 1 and A.to_np(ax) is not None:
            araise(TypeError, 'only integer scalar arrays can be converted '
                   'to a scalar index')
    if isinstance(ax, list):
        araise(TypeError, "'list' object cannot be interpreted as an integer")
    if isinstance(ax, tuple):
        return tuple(x.item() if isinstance(x, AArr) else x for x in ax)
    return ax


def _mean(interp, a, axis=None, keepdims=False):
    a = AR(interp, a)
    s = A.reduce_sum(a, _axis(interp, axis), bool(keepdims))
    n = tt.ONE
    for k in A.axes_tuple(axis, a.ndim):
        n = n * tm(a.shape[k])
    return UF['true_divide'](interp, s, A.unwrap(n, 'i') if n.op == 'c'
                             else n)


def shape_args(interp, a):
    if len(a) == 1:
        a = a[0]
    if isinstance(a, AArr):
        return [A.ix(a.elem((k,))) for k in range(a.shape[0])] if a.ndim else \
            [a.item()]
    if not isinstance(a, (list, tuple)):
        return [a]
    return list(a)


def _argsort(interp, a, axis=-1, kind=None):
    c = A.to_np(AR(interp, a))
    if c is None:
        raise Unsupported('argsort of unknown values')
    return A.from_np(np.argsort(c, axis=axis, kind='stable'))


def _tolist(a):
    if a.ndim == 0:
        return a.item()
    n = a.shape[0]
    if not isinstance(n, int):
        raise Unsupported('tolist of unknown length')
    return [_tolist(A.getitem(a, (k,))) if a.ndim > 1 else
            A.getitem(a, (k,)) for k in range(n)]


def array_attr(interp, o, name):
    a = o if isinstance(o, AArr) else None
    if name == 'ndim':
        return a.ndim if a is not None else 0
    if name == 'shape':
        return tuple(a.shape) if a is not None else ()
    if name == 'size':
        return a.size if a is not None else 1
    if name == 'dtype':
        return DT[A.dtype_of(o)]
    if a is None and isinstance(o, (int, float)) and not isinstance(o, T):
        if name in ('real',):
            return o
        if name in ('is_integer', 'bit_length', 'as_integer_ratio', 'hex',
                    'conjugate'):
            from .interp import Native
            return Native(getattr(o, name), name)
    arr = a if a is not None else A.scalar_arr(o)
    if name == 'T':
        return A.transpose(arr)
    if name == 'flags':
        return Flags(arr)
    if name == 'data':
        return MemView(arr)
    if name == 'base':
        raise Unsupported('array base')
    if name == 'flat':
        return A.reshape(arr, (-1,))
    if name == 'real':
        return o
    if name == 'nbytes' or name == 'strides' or name == 'itemsize':
        raise Unsupported('array ' + name)
    f = METHODS.get(name)
    if f is not None:
        f = strict(name, f)
        return M(lambda *x, **k: f(interp, arr, *x, **k), 'ndarray.' + name)
    if name.startswith('__') and name.endswith('__') and \
            name[2:-2] in OPS:
        op = OPS[name[2:-2]]
        return M(lambda x: interp.binop(op, o, x), name)
    araise(AttributeError, "'%s' object has no attribute '%s'"
           % ('numpy.ndarray' if a is not None else 'float', name))


OPS = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div',
       'pow': 'Pow', 'matmul': 'MatMult'}


def _astype(interp, a, dtype, **kw):
    k = kind_of(dtype)
    if kw.get('copy', True) is False and k == a.dtype:
        return a
    return cast(a, k)


def _put(interp, a, *x, **k):
    raise Unsupported('put')


def _fill(interp, a, v):
    A.setitem(a, (Ellipsis,), v)


def _item(interp, a, *k):
    if k:
        return A.getitem(a, tuple(k[0]) if isinstance(k[0], tuple) else k)
    n = a.size
    if not (isinstance(n, int) and n == 1):
        araise(ValueError, 'can only convert an array of size 1 to a Python '
               'scalar')
    return A.unwrap(a.elem((0,) * a.ndim), a.dtype)


def _reshape(interp, a, *s, order='C'):
    if not corder(order):
        return A.transpose(A.reshape(A.transpose(a), shape_args(
            interp, s)[::-1]))
    return A.reshape(a, shape_args(interp, s))


def _transpose(interp, a, *p):
    if not p or (len(p) == 1 and p[0] is None):
        return A.transpose(a)
    return A.transpose(a, shape_args(interp, p))


def _dot(interp, a, b):
    b = coerce(interp, b)
    b = b if isinstance(b, AArr) else A.scalar_arr(b)
    return A.matmul(a if isinstance(a, AArr) else A.scalar_arr(a), b)


def _minmax(which):
    def f(interp, a, axis=None, keepdims=False):
        a = AR(interp, a)
        return keep(interp, a, A.reduce_fold(
            a, _axis(interp, axis), lambda x, y: tt.fn(which, x, y)),
            axis, keepdims)
    return f


def _nonzero(interp, a):
    c = A.to_np(AR(interp, a))
    if c is None:
        raise Unsupported('nonzero of unknown values')
    return tuple(A.from_np(x) for x in np.nonzero(c))


def _argm(which):
    def f(interp, a, axis=None):
        c = A.to_np(AR(interp, a))
        if c is None:
            raise Unsupported('arg' + which)
        return A.unwrap(tm(int(getattr(np, 'arg' + which)(c))), 'i') \
            if axis is None else A.from_np(getattr(np, 'arg' + which)(c, axis))
    return f


def _repeat(interp, a, n, axis=None):
    a = AR(interp, a)
    if a.concrete():
        o = A.to_obj(a)
        return A.from_obj(np.repeat(o, int(n) if not isinstance(n, AArr)
                                    else A.to_np(n), axis), a.dtype)
    raise Unsupported('repeat')


def _take(interp, a, idx, axis=None):
    a = AR(interp, a)
    if axis is None:
        return A.getitem(A.reshape(a, (-1,)), key(interp, idx))
    axis = A.norm_axis(axis, a.ndim)
    return A.getitem(a, tuple([slice(None)] * axis) + key(interp, (idx,)))


def _sort(interp, a, axis=-1):
    c = A.to_np(AR(interp, a))
    if c is None:
        raise Unsupported('sort of unknown values')
    return A.from_np(np.sort(c, axis))


METHODS = {
    'sum': _sum, 'mean': _mean,
    'prod': lambda i, a, axis=None, keepdims=False: keep(
        i, a, A.reduce_prod(a, _axis(i, axis)), axis, keepdims),
    'all': lambda i, a, axis=None, keepdims=False: keep(
        i, a, A.reduce_all(a, _axis(i, axis)), axis, keepdims),
    'any': lambda i, a, axis=None, keepdims=False: keep(
        i, a, A.reduce_all(a, _axis(i, axis), True), axis, keepdims),
    'max': _minmax('max'), 'min': _minmax('min'),
    'copy': lambda i, a, order='C': A.copy(a),
    'astype': _astype, 'reshape': _reshape,
    'flatten': _flatten, 'ravel': _ravel,
    'transpose': _transpose,
    'swapaxes': lambda i, a, p, q: A.swapaxes(a, p, q),
    'diagonal': lambda i, a, offset=0, axis1=0, axis2=1: A.diagonal(
        a, offset, axis1, axis2),
    'trace': lambda i, a: A.reduce_sum(A.diagonal(a)),
    'cumsum': lambda i, a, axis=None, dtype=None, out=None: into(
        A.cumsum(cast(a, kind_of(dtype)) if dtype is not None else a, axis),
        out),
    'dot': _dot, 'tolist': lambda i, a: _tolist(a), 'item': _item,
    'squeeze': lambda i, a, axis=None: A.squeeze(a, axis),
    'clip': lambda i, a, min=None, max=None: _clip(i, a, min, max),
    'nonzero': _nonzero, 'argsort': _argsort, 'fill': _fill,
    'repeat': _repeat, 'take': _take, 'argmax': _argm('max'),
    'argmin': _argm('min'),
    'conj': lambda i, a: a, 'view': lambda i, a, *x: A.getitem(
        a, (Ellipsis,)) if not x else _unsup('view'),
    'setflags': lambda i, a, write=None, **k: Flags(a).setitem(
        i, 'WRITEABLE', write),
    '__len__': lambda i, a: a.shape[0],
}


def _unsup(n):
    raise Unsupported(n)


def _clip(interp, a, lo, hi):
    r = a
    if hi is not None:
        r = UF['minimum'](interp, r, hi)
    if lo is not None:
        r = UF['maximum'](interp, r, lo)
    return r


# ------------------------------------------------------------ numpy module

def elementwise_call(interp, f, args, nout=1):
    """apply an interpreted scalar function at every position: once per
    position of axes of known length, once generically along the others"""
    arrs = [a if isinstance(a, AArr) else A.scalar_arr(a) for a in args]
    shape = A.bshape([a.shape for a in arrs])
    if shape == ():
        return interp.call(f, [A.unwrap(a.elem(()), a.dtype) for a in arrs])
    sy = [k for k, n in enumerate(shape) if not isinstance(n, int)]
    ivs = {k: tt.ivar(shape[k]) for k in sy}
    table = {}
    for pos in itertools.product(*[range(n) if isinstance(n, int) else (None,)
                                   for n in shape]):
        idx = tuple(ivs[k] if p is None else p for k, p in enumerate(pos))
        r = interp.call(f, [A.unwrap(a.elem(A.bidx(idx, a.shape)), a.dtype)
                            for a in arrs])
        r = r if not isinstance(r, AArr) else r.item()
        table[pos] = tm(r)

    def get(idx):
        pos = tuple(None if k in ivs else p for k, p in enumerate(idx))
        t = table[pos]
        if not sy:
            return t
        return tt.subst(t, {ivs[k]: tm(idx[k]) for k in sy})
    dt = 'f'
    if table and all(t.isint for t in table.values()):
        dt = 'i'
    return A.mk(shape, get, dt)


class Vectorized(AttrObj):
    def __init__(self, f):
        self.f = f

    def call(self, interp, args, kw):
        return elementwise_call(interp, self.f,
                                [coerce(interp, a) for a in args])

    def getattr(self, interp, name):
        if name == '__name__':
            return 'vectorized'
        araise(AttributeError, name)


def zeros(interp, shape, dtype=None, v=tt.ZERO, **kw):
    k = kind_of(dtype) or 'f'
    s = shape_args(interp, (shape,))
    if k == 'b':
        v = tt.TRUE if v is tt.ONE else tt.FALSE
    return A.mk(s, lambda idx: v, k)


def like(interp, a, dtype=None, v=tt.ZERO, **kw):
    a = AR(interp, a)
    k = kind_of(dtype) or a.dtype
    if k == 'b':
        v = tt.TRUE if v is tt.ONE else tt.FALSE
    return A.mk(a.shape, lambda idx: v, k)


def arange(interp, *a, **kw):
    k = kind_of(kw.get('dtype'))
    b = []
    for x in a:
        if isinstance(x, AArr):
            x = x.item()
        b.append(x)
    start, stop, step = 0, None, 1
    if len(b) == 1:
        stop = b[0]
    elif len(b) == 2:
        start, stop = b
    else:
        start, stop, step = b[:3]
    if all(isinstance(x, (int, float)) and not isinstance(x, T)
           for x in (start, stop, step)):
        r = np.arange(start, stop, step)
        return A.from_np(r.astype({'f': float, 'i': int}[k]) if k else r)
    if isinstance(step, int) and step == 1 and all(
            tm(x).isint for x in (start, stop)):
        n = A.dim(tm(stop) - tm(start))
        return A.mk((n,), lambda idx: tm(idx[0]) + tm(start), k or 'i')
    raise Unsupported('arange of unknown bounds')


def diag(interp, a, k=0):
    a = AR(interp, a)
    if a.ndim == 2 and k == 0:
        return A.diagonal(a)
    if a.ndim == 1 and k == 0:
        r = a.reader()
        n = a.shape[0]
        return A.mk((n, n), lambda idx: tt.ite(
            tt.eq(tm(idx[0]), tm(idx[1])), r((idx[0],)), tt.ZERO), a.dtype)
    raise Unsupported('diag')


def where(interp, c, *xy):
    c = coerce(interp, c)
    if not xy:
        return _nonzero(interp, c)
    x, y = (coerce(interp, v) for v in xy)
    dt = A.promote(A.dtype_of(x), A.dtype_of(y))
    return A.emap(lambda c, x, y: tt.ite(_b(c), x, y), [c, x, y], dt)


def seqarrs(interp, xs):
    return [AR(interp, x) for x in interp.iterate(xs)]


def hstack(interp, xs):
    xs = [x if x.ndim else A.reshape(x, (1,)) for x in seqarrs(interp, xs)]
    if not xs:
        araise(ValueError, 'need at least one array to concatenate')
    return A.concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def vstack(interp, xs):
    xs = [x if x.ndim else A.reshape(x, (1,)) for x in seqarrs(interp, xs)]
    if not xs:
        araise(ValueError, 'need at least one array to concatenate')
    xs = [A.expand_dims(x, 0) if x.ndim == 1 else x for x in xs]
    return A.concatenate(xs, 0)


def concatenate(interp, xs, axis=0, **kw):
    xs = seqarrs(interp, xs)
    if not xs:
        araise(ValueError, 'need at least one array to concatenate')
    if axis is None:
        xs = [A.reshape(x, (-1,)) for x in xs]
        axis = 0
    return A.concatenate(xs, axis)


def stack(interp, xs, axis=0):
    xs = seqarrs(interp, xs)
    if not xs:
        araise(ValueError, 'need at least one array to stack')
    return A.stack(xs, axis)


def append(interp, a, b, axis=None):
    a, b = AR(interp, a), AR(interp, b)
    if axis is None:
        a, b = A.reshape(a, (-1,)), A.reshape(b, (-1,))
        axis = 0
    return A.concatenate([a, b], axis)


def insert(interp, a, obj, values, axis=None):
    a, v = AR(interp, a), coerce(interp, values)
    o = coerce(interp, obj)
    if isinstance(o, AArr) and o.dtype == 'f' and o.size == 0:
        o = A.copy(o, 'i')
    return A.insert(a, o, v, axis)


def delete(interp, a, obj, axis=None):
    a = AR(interp, a)
    o = A.to_np(AR(interp, obj))
    if o is None or axis is None or not isinstance(a.shape[axis], int):
        raise Unsupported('delete')
    keep = np.delete(np.arange(a.shape[axis]), o.astype(int))
    k = [slice(None)] * a.ndim
    k[axis] = A.from_np(keep)
    return A.getitem(a, tuple(k))


def outer(interp, a, b):
    a, b = AR(interp, a), AR(interp, b)
    return A.outer(_arith(lambda x, y: x * y), A.reshape(a, (-1,)),
                   A.reshape(b, (-1,)))


def tensordot(interp, a, b, axes=2):
    a, b = AR(interp, a), AR(interp, b)
    if isinstance(axes, int):
        ax = (list(range(a.ndim - axes, a.ndim)), list(range(axes)))
    else:
        ax = [[x] if isinstance(x, int) else list(interp.iterate(x))
              for x in axes]
    aa = [A.norm_axis(x, a.ndim) for x in ax[0]]
    bb = [A.norm_axis(x, b.ndim) for x in ax[1]]
    ka = [k for k in range(a.ndim) if k not in aa]
    kb = [k for k in range(b.ndim) if k not in bb]
    a2 = A.transpose(a, ka + aa)
    b2 = A.transpose(b, bb + kb)
    n = len(aa)
    for _ in kb:
        a2 = A.expand_dims(a2, len(ka))
    # (ka, kb*, s) * (ka*, kb, s)
    b3 = A.transpose(b2, list(range(n, b2.ndim)) + list(range(n)))
    for _ in ka:
        b3 = A.expand_dims(b3, 0)
    p = A.emap(_arith(lambda x, y: x * y), [a2, b3], out_scalar=False)
    return A.reduce_sum(p, tuple(range(len(ka) + len(kb), p.ndim)))


def einsum(interp, spec, *ops):
    if not isinstance(spec, str) or '.' in spec:
        raise Unsupported('einsum form')
    spec = spec.replace(' ', '')
    lhs, _, rhs = spec.partition('->')
    ins = lhs.split(',')
    if '->' not in spec:
        raise Unsupported('implicit einsum')
    arrs = [AR(interp, o) for o in ops]
    sizes = {}
    for s, a in zip(ins, arrs):
        if len(s) != a.ndim:
            araise(ValueError, 'einsum: wrong number of subscripts')
        for c, n in zip(s, a.shape):
            if c in sizes and not A.dimeq(sizes[c], n):
                araise(ValueError, 'einsum: mismatch')
            sizes[c] = n
    letters = list(rhs) + [c for c in dict.fromkeys(''.join(ins))
                           if c not in rhs]
    rds = [a.reader() for a in arrs]

    def get(idx):
        d = dict(zip(letters, idx))
        return tt.mul(*[N(r(tuple(d[c] for c in s)))
                        for r, s in zip(rds, ins)])
    full = A.mk([sizes[c] for c in letters], get,
                A.promote(*[a.dtype for a in arrs]))
    return A.reduce_sum(full, tuple(range(len(rhs), len(letters))))


def norm(interp, a, *x, **k):
    if x or k:
        raise Unsupported('norm order')
    a = AR(interp, a)
    return UF['sqrt'](interp, A.reduce_sum(UF['square'](interp, a)
                      if a.ndim else A.scalar_arr(tm(a.item()) * a.item())))


def opaque_la(name, shapef):
    def f(interp, *args, check_finite=True):
        arrs = [AR(interp, a) for a in args]
        shp = shapef(*arrs)
        if A.Hooks.fault:
            A.Hooks.fault(name)
        return A.opaque(name, arrs, shp)
    return f


def _f64(f):
    return lambda *xs: f(*[np.asarray(x, dtype=np.float64) for x in xs])


def _pinvh(a):
    import scipy.linalg as sl
    # scipy's pinvh reads one triangle only
    return sl.pinvh(a)


valnum.OPQ['pinvh'] = _f64(_pinvh)
valnum.OPQ['inv'] = _f64(np.linalg.inv)
valnum.OPQ['pinv'] = _f64(np.linalg.pinv)
valnum.OPQ['solve'] = _f64(np.linalg.solve)
valnum.OPQ['det'] = _f64(np.linalg.det)


def square_check(a):
    if a.ndim != 2 or not A.dimeq(a.shape[0], a.shape[1]):
        araise(np.linalg.LinAlgError, 'Last 2 dimensions of the array must '
               'be square')
    return a.shape


def solve_shape(a, b):
    square_check(a)
    if not A.dimeq(a.shape[1], b.shape[0]):
        araise(ValueError, 'solve: mismatch in its core dimension')
    return b.shape


class ErrState(AttrObj):
    pass


def isscalar(interp, v):
    return isinstance(v, (int, float, bool, str, T, complex)) and \
        not isinstance(v, AArr)


def allclose(interp, a, b, *x, **k):
    a, b = coerce(interp, a), coerce(interp, b)
    r = A.emap(lambda x, y: tt.eq(N(x), N(y)), [a, b], 'b', False)
    return A.reduce_all(r)


def array_equal(interp, a, b):
    a, b = AR(interp, a), AR(interp, b)
    if a.ndim != b.ndim or not all(A.dimeq(x, y) for x, y in
                                   zip(a.shape, b.shape)):
        return False
    return A.reduce_all(A.emap(lambda x, y: tt.eq(N(x), N(y)), [a, b], 'b',
                               False))


def ma_array(interp, data, mask=None, **kw):
    d = AR(interp, data)
    if isinstance(data, MaskedArr) and mask is None:
        return data
    if mask is not None and mask is not False:
        mask = AR(interp, mask)
        if mask.ndim == 0:
            mask = A.broadcast_to(mask, d.shape)
    return MaskedArr(d, mask)


def ma_count(interp, v):
    if isinstance(v, MaskedArr):
        return _sum(interp, UF['logical_not'](interp, v.mask))
    n = AR(interp, v).size
    return n


def wrapfunc(name, f):
    """np.f(obj, ...) defers to obj.f(...) for foreign objects"""
    f = strict(name, f)

    def g(interp, a, *x, **k):
        from .interp import PyObj
        if isinstance(a, PyObj) and a.cls.lookup(name)[0] is not None:
            return interp.call(interp.getattr(a, name), list(x), k)
        if isinstance(a, MaskedArr) and name in ('transpose', 'reshape'):
            return interp.call(a.getattr(interp, name), list(x), k)
        return f(interp, AR(interp, a), *x, **k)
    return g


def _diff(interp, a, n=1, axis=-1):
    return A.ndiff(AR(interp, a), n, axis)


def np_array(interp, v, dtype=None, **k):
    r = asarray(interp, v, dtype)
    if isinstance(v, MaskedArr):
        return A.copy(r)
    r = A.copy(r)
    for _ in range(k.get('ndmin', 0) - r.ndim):
        r = A.expand_dims(r, 0)
    return r


def _broadcast_to(interp, a, shape):
    return A.broadcast_to(AR(interp, a), shape_args(interp, (shape,)))


def _full(interp, shape, v, dtype=None, **k):
    v = coerce(interp, v)
    k_ = kind_of(dtype) or A.dtype_of(v)
    r = A.mk(shape_args(interp, (shape,)), lambda idx: tt.ZERO, k_)
    A.setitem(r, (Ellipsis,), v if not isinstance(v, AArr) else v)
    return r


def _ix(interp, *xs):
    out = []
    n = len(xs)
    for k, x in enumerate(xs):
        x = AR(interp, x)
        if x.dtype == 'b':
            x = _nonzero(interp, x)[0]
        out.append(A.reshape(x, [1] * k + [-1] + [1] * (n - k - 1)))
    return tuple(out)


def _meshgrid(interp, *xs, **k):
    xs = [AR(interp, x) for x in xs]
    n = len(xs)
    ind = k.get('indexing', 'xy')
    shp = [A.reshape(x, [1] * j + [-1] + [1] * (n - j - 1))
           for j, x in enumerate(xs)]
    out = [A.broadcast_to(x, [y.shape[j] for j, y in enumerate(shp)])
           for x in shp]
    if ind == 'xy' and n >= 2:
        out = [A.swapaxes(x, 0, 1) for x in out]
    return [A.copy(x) for x in out]


def _tri(low):
    def f(interp, a, k=0):
        a = AR(interp, a)
        r = a.reader()

        def get(idx):
            i, j = tm(idx[-2]), tm(idx[-1])
            c = tt.le(j, i + k) if low else tt.le(i + k, j)
            return tt.ite(c, r(idx), tt.ZERO)
        return A.mk(a.shape, get, a.dtype)
    return f


def _unique(interp, a):
    c = A.to_np(AR(interp, a))
    if c is None:
        raise Unsupported('unique of unknown values')
    return A.from_np(np.unique(c))


def _indices(interp, shape):
    s = [A.dim(x) for x in shape_args(interp, (shape,))]
    return A.mk([len(s)] + s, lambda idx: tm(idx[1 + idx[0]]), 'i')


def _isclose(interp, a, b, *x, **k):
    return A.emap(lambda x, y: tt.eq(N(x), N(y)),
                  [coerce(interp, a), coerce(interp, b)], 'b')


def _tile(interp, a, reps):
    a = AR(interp, a)
    if a.concrete():
        return A.from_obj(np.tile(A.to_obj(a), tuple(
            shape_args(interp, (reps,)))), a.dtype)
    raise Unsupported('tile')


def _roll(interp, a, shift, axis=None):
    a = AR(interp, a)
    if axis is None or not isinstance(a.shape[axis], int):
        raise Unsupported('roll')
    n = a.shape[axis]
    k = [slice(None)] * a.ndim
    k[axis] = A.from_np(np.roll(np.arange(n), shift))
    return A.getitem(a, tuple(k))


def _count_nonzero(interp, a, axis=None):
    a = AR(interp, a)
    return A.reduce_sum(A.emap(lambda x: N(_b(x)), [a], 'i', False), axis)


def np_functions():
    W = wrapfunc
    d = {
        'array': np_array, 'asarray': asarray, 'asanyarray': lambda i, v, dtype=None:
            v if isinstance(v, MaskedArr) else asarray(i, v, dtype),
        'ascontiguousarray': asarray, 'copy': lambda i, a: A.copy(AR(i, a)),
        'asfarray': lambda i, v: asarray(i, v, float),
        'zeros': zeros, 'ones': lambda i, s, dtype=None, **k: zeros(
            i, s, dtype, tt.ONE),
        'empty': lambda i, s, dtype=None, **k: zeros(
            i, s, dtype, tt.sym('?uninitialised')),
        'full': _full,
        'zeros_like': like, 'ones_like': lambda i, a, dtype=None, **k: like(
            i, a, dtype, tt.ONE),
        'empty_like': lambda i, a, dtype=None, **k: like(
            i, a, dtype, tt.sym('?uninitialised')),
        'full_like': lambda i, a, v, dtype=None, **k: _full(
            i, AR(i, a).shape, v, dtype or DT[AR(i, a).dtype]),
        'arange': arange, 'eye': lambda i, n, m=None, k=0, dtype=None: A.eye(n, m) if
            k == 0 else _unsup('eye offset'),
        'identity': lambda i, n, dtype=None: A.eye(n),
        'diag': diag, 'stack': stack, 'concatenate': concatenate,
        'vstack': vstack, 'hstack': hstack, 'append': append,
        'insert': insert, 'delete': delete, 'outer': outer,
        'tensordot': tensordot, 'einsum': einsum, 'where': where,
        'clip': lambda i, a, a_min=None, a_max=None: _clip(i, a, a_min, a_max),
        'isscalar': isscalar,
        'ndim': lambda i, a: AR(i, a).ndim,
        'shape': lambda i, a: tuple(AR(i, a).shape),
        'size': lambda i, a: AR(i, a).size,
        'allclose': allclose, 'array_equal': array_equal,
        'isclose': _isclose,
        'moveaxis': lambda i, a, s, e: A.moveaxis(AR(i, a), s, e),
        'rollaxis': lambda i, a, s, e=0: _unsup('rollaxis'),
        'expand_dims': lambda i, a, axis: A.expand_dims(AR(i, a), axis),
        'flip': lambda i, a, axis=None: A.flip(AR(i, a), axis),
        'broadcast_to': _broadcast_to,
        'broadcast_arrays': lambda i, *xs: [A.broadcast_to(
            AR(i, x), A.bshape([AR(i, y).shape for y in xs])) for x in xs],
        'diff': _diff, 'dot': lambda i, a, b: _dot(i, AR(i, a), b),
        'inner': lambda i, a, b: _dot(i, AR(i, a), AR(i, b)) if
            AR(i, b).ndim == 1 else _unsup('inner'),
        'vdot': lambda i, a, b: A.matmul(A.reshape(AR(i, a), (-1,)),
                                         A.reshape(AR(i, b), (-1,))),
        'nonzero': _nonzero, 'unique': _unique,
        'ix_': _ix, 'meshgrid': _meshgrid, 'indices': _indices,
        'tril': _tri(True), 'triu': _tri(False), 'tile': _tile,
        'roll': _roll, 'count_nonzero': _count_nonzero,
        'atleast_1d': lambda i, a: AR(i, a) if AR(i, a).ndim else
            A.reshape(AR(i, a), (1,)),
        'vectorize': lambda i, f, *x, **k: Vectorized(f),
        'frompyfunc': lambda i, f, *x, **k: Vectorized(f),
        'errstate': lambda i, *a, **k: ErrState(),
        'fabs': lambda i, a: UF['absolute'](i, a),
        'nan_to_num': lambda i, a, **k: _unsup('nan_to_num'),
        'dtype': lambda i, d: DT[kind_of(d)],
        'iterable': lambda i, v: isinstance(v, (list, tuple, AArr, dict)),
        'column_stack': lambda i, xs: _unsup('column_stack'),
        'seterr': lambda i, *a, **k: {},
        'copyto': lambda i, d, v: A.setitem(AR(i, d), (Ellipsis,),
                                            AR(i, v)),
        'fliplr': lambda i, a: A.flip(AR(i, a), 1),
        'flipud': lambda i, a: A.flip(AR(i, a), 0),
        'linspace': lambda i, *a: _unsup('linspace'),
        'result_type': lambda i, *a: DT[A.promote(*[
            kind_of(x) if isinstance(x, NpType) else A.dtype_of(coerce(i, x))
            for x in a])],
    }
    for n in ('sum', 'mean', 'prod', 'all', 'any', 'reshape', 'ravel',
              'transpose', 'swapaxes', 'diagonal', 'trace', 'cumsum',
              'squeeze', 'argsort', 'repeat', 'take', 'argmax', 'argmin'):
        d[n] = loose(W(n, METHODS[n]))
    d['max'] = d['amax'] = loose(W('max', METHODS['max']))
    d['min'] = d['amin'] = loose(W('min', METHODS['min']))
    d['sort'] = _sort
    return d


def libs(interp):
    from .interp import (Module, Model, Native, Partial, WithMeta, EnumBase,
                         BoundMethod, PyFunc, PyClass, PyObj, Opaque)

    def mod(name, d):
        m = Module(name)
        m.d.update(d)
        return m

    def mm(f, name=None):
        f = strict((name or getattr(f, '__name__', '')).replace(
            'np.', ''), f)
        return Model(lambda *a, **k: f(interp, *a, **k), name)
    npd = {k: mm(f, 'np.' + k) for k, f in np_functions().items()}
    npd.update(UF)
    npd['abs'] = UF['absolute']
    npd['divide'] = UF['true_divide']
    npd['mod'] = UF['remainder']
    npd['bitwise_not'] = UF['invert']
    npd.update({
        'pi': tt.sym('pi', dom=(math.pi, math.pi)), 'e': math.e,
        'inf': math.inf,
        'nan': math.nan, 'newaxis': None,
        'bool': bool, 'int': int, 'float': float, 'object': object,
        'bool_': DT['b'], 'float64': DT['f'], 'float_': DT['f'],
        'double': DT['f'], 'int64': DT['i'], 'int_': DT['i'],
        'intp': DT['i'], 'float32': NpType('float32', 'f', 32),
        'int32': NpType('int32', 'i', 32), 'int8': NpType('int8', 'i', 8),
        'uint8': NpType('uint8', 'i', 8), 'object_': DT['O'],
        'longdouble': NpType('longdouble', 'f', 128),
        'ndarray': NDARRAY, 'ufunc': NpType('ufunc', 'O'),
        'generic': NpType('generic', 'O'), 'number': NpType('number', 'O'),
        'integer': NpType('integer', 'i', 0),
        'floating': NpType('floating', 'f', 0),
        'AxisError': np.AxisError if hasattr(np, 'AxisError') else
        np.exceptions.AxisError,
    })
    la = {
        'inv': mm(opaque_la('inv', square_check)),
        'pinv': mm(lambda i, a: A.opaque('pinv', [AR(i, a)], tuple(
            AR(i, a).shape[::-1]))),
        'solve': mm(opaque_la('solve', solve_shape)),
        'det': mm(opaque_la('det', lambda a: square_check(a)[:0])),
        'norm': mm(norm), 'LinAlgError': np.linalg.LinAlgError,
    }
    ma = {'array': mm(ma_array), 'masked_array': mm(ma_array),
          'count': mm(ma_count), 'nomask': False,
          'getmaskarray': mm(lambda i, v: v.mask if isinstance(
              v, MaskedArr) else like(i, v, bool)),
          'MaskedArray': NpType('MaskedArray', 'O')}
    from . import nplib

    def later(n):
        return Model(lambda *a, **k: interp.call(
            nplib.module(interp).d[n], list(a), k), 'np.' + n)
    for n in nplib.NAMES:
        npd[n] = later(n)
    for n in nplib.OBJECTS:
        npd[n] = Later(n)
    npd['_unsupported'] = Model(_unsup)
    npd['linalg'] = mod('numpy.linalg', la)
    npd['ma'] = mod('numpy.ma', ma)

    def factorial(i, a, exact=False):
        a = coerce(i, a)
        return A.emap(lambda x: tt.fn('factorial', N(x)), [a], 'f')

    def mvnun(i, lower, upper, means, cov, *x, **k):
        lo = A.to_np(AR(i, lower))
        me = A.to_np(AR(i, means))
        cv = AR(i, cov)
        up = AR(i, upper)
        if lo is None or me is None or np.any(me != 0) or \
                cv.shape != (2, 2):
            raise Unsupported('mvnun form')
        v1, v2 = cv.elem((0, 0)), cv.elem((1, 1))
        r1, r2 = cv.elem((0, 1)), cv.elem((1, 0))
        if v1 is not tt.ONE or v2 is not tt.ONE or r1 is not r2:
            raise Unsupported('mvnun covariance')
        x, y = up.elem((0,)), up.elem((1,))
        p, q = [tm(float(z)) if z > -100 else None for z in lo]
        v = bvn(x, y, r1)
        if p is not None:
            v = v - bvn(p, y, r1)
        if q is not None:
            v = v - bvn(x, q, r1)
        if p is not None and q is not None:
            v = v + bvn(p, q, r1)
        return (A.unwrap(v), 0)

    def comb(i, n, k, exact=False, **kw):
        return SUF['binom'](i, n, k)

    def polygamma(i, n, x):
        if n == 0:
            return SUF['psi'](i, x)
        if n == 1:
            return UFunc('polygamma', 1, _fl('trigamma'), 'f')(i, x)
        raise Unsupported('polygamma')

    def logsumexp(i, a, axis=None, **k):
        return UF['log'](i, A.reduce_sum(UF['exp'](i, AR(i, a)), axis))
    spd = dict(SUF)
    spd.update({'factorial': mm(factorial), 'comb': mm(comb),
                'polygamma': mm(polygamma), 'logsumexp': mm(logsumexp)})
    sld = {'pinvh': mm(opaque_la('pinvh', square_check)),
           'inv': la['inv'], 'solve': la['solve'], 'norm': la['norm'],
           'pinv': la['pinv'], 'det': la['det'],
           'LinAlgError': np.linalg.LinAlgError}

    def wraps(f, *x):
        def deco(g):
            if isinstance(g, PyFunc):
                if isinstance(f, PyFunc):
                    g.d.update(f.d)
                    g.name = f.name
                g.d['__wrapped__'] = f
            return g
        return Model(deco, 'wraps')

    def reduce_(f, xs, *init):
        xs = list(interp.iterate(xs))
        if init:
            r = init[0]
        else:
            if not xs:
                araise(TypeError, 'reduce() of empty iterable with no initial'
                       ' value')
            r = xs.pop(0)
        for x in xs:
            r = interp.call(f, [r, x])
        return r
    cnt = itertools.count(1)

    def mathf(name):
        def f(x):
            x = interp.b_float(x)
            r = UF[name](interp, x)
            return r
        return Model(f, 'math.' + name)

    class Cell(object):
        pass

    def with_metaclass(meta, *bases):
        return WithMeta(meta, list(bases))

    def chain(*xs):
        return iter([v for x in xs for v in interp.iterate(x)])

    def product(*xs, **k):
        return iter(list(itertools.product(
            *[list(interp.iterate(x)) for x in xs], **k)))

    def methodtype(f, obj):
        return BoundMethod(obj, f)

    def shallow(o):
        if isinstance(o, AArr):
            return A.copy(o)
        if isinstance(o, (list, dict, set)):
            return type(o)(o)
        if isinstance(o, PyObj):
            c = PyObj(o.cls)
            c.d.update(o.d)
            c.native = o.native if not isinstance(o.native, list) else \
                list(o.native)
            return c
        if isinstance(o, (int, float, str, tuple, T)) or o is None:
            return o
        raise Unsupported('copy')

    abstract = Model(lambda f: f, 'abstractmethod')
    L = {
        'numpy': mod('numpy', npd),
        'numpy.linalg': npd['linalg'], 'numpy.ma': npd['ma'],
        'scipy': mod('scipy', {}),
        'scipy.special': mod('scipy.special', spd),
        'scipy.linalg': mod('scipy.linalg', sld),
        'scipy.stats': mod('scipy.stats', {}),
        'scipy.stats.mvn': mod('scipy.stats.mvn', {'mvnun': mm(mvnun)}),
        'six': mod('six', {'with_metaclass': Model(with_metaclass),
                           'string_types': (str,)}),
        'six.moves': mod('six.moves', {
            'reduce': Model(reduce_), 'range': range, 'zip': zip,
            'map': map}),
        'abc': mod('abc', {
            'ABCMeta': Model(lambda *a: None, 'ABCMeta'),
            'abstractmethod': abstract, 'ABC': object,
            'abstractproperty': property}),
        'enum': mod('enum', {'Enum': EnumBase}),
        'functools': mod('functools', {
            'wraps': Model(wraps), 'reduce': Model(reduce_),
            'partial': Model(lambda f, *a, **k: Partial(f, a, k))}),
        'types': mod('types', {'MethodType': Model(methodtype)}),
        'array': mod('array', {'array': _array.array}),
        'collections': mod('collections', {'OrderedDict': dict}),
        'random': mod('random', {'getrandbits': Model(
            lambda n: 1000 + next(cnt))}),
        'itertools': mod('itertools', {
            'chain': Model(chain), 'product': Model(product),
            'repeat': Model(lambda x, n: iter([x] * n)),
            'count': Model(lambda *a: iter(range(a[0] if a else 0, 10000))),
            'islice': Model(lambda it, *a: iter(list(itertools.islice(
                iter(interp.iterate(it, True)), *a)))),
            'combinations': Model(lambda x, n: iter(list(
                itertools.combinations(list(interp.iterate(x)), n)))),
            'accumulate': Model(lambda x: _unsup('accumulate'))}),
        'operator': mod('operator', {
            'mul': Model(lambda a, b: interp.binop('Mult', a, b)),
            'add': Model(lambda a, b: interp.binop('Add', a, b)),
            'sub': Model(lambda a, b: interp.binop('Sub', a, b)),
            'truediv': Model(lambda a, b: interp.binop('Div', a, b)),
            'neg': Model(lambda a: interp.unary('USub', a)),
            'itemgetter': Model(lambda k: Model(
                lambda o: interp.getitem(o, k)))}),
        'math': mod('math', {
            'exp': mathf('exp'), 'log': mathf('log'), 'sqrt': mathf('sqrt'),
            'pi': npd['pi'], 'e': math.e, 'inf': math.inf, 'nan': math.nan,
            'floor': Model(lambda x: interp.b_int(UF['floor'](interp, x))),
            'ceil': Model(lambda x: interp.b_int(UF['ceil'](interp, x))),
            'factorial': Model(lambda x: tt.fn('factorial', tm(x)) if
                               isinstance(x, T) else math.factorial(x)),
            'fabs': mathf('absolute'), 'isnan': UF['isnan'],
            'lgamma': Model(lambda x: SUF['gammaln'](interp, x)),
            'prod': Model(lambda xs: reduce_(Model(
                lambda a, b: interp.binop('Mult', a, b)), xs, 1))}),
        'copy': mod('copy', {'copy': Model(shallow)}),
        '__future__': mod('__future__', {'division': None,
                                         'print_function': None,
                                         'annotations': None,
                                         'absolute_import': None}),
        'typing': mod('typing', {}),
    }
    return L


def bvn(x, y, r):
    """standard bivariate normal distribution function"""
    if x.op == 'inf':
        return tt.ZERO if x.a < 0 else tt.fn('ndtr', y)
    if y.op == 'inf':
        return tt.ZERO if y.a < 0 else tt.fn('ndtr', x)
    for p, q in ((x, y), (y, x)):
        if p.op == 'c' and p.a >= 40:
            return tt.fn('ndtr', q)
        if p.op == 'c' and p.a <= -40:
            return tt.ZERO
    return tt.fn('bvn', x, y, r)
