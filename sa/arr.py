"""Abstract arrays: shapes with known or unknown axis lengths, and for every
position a value-graph term.  Views share a base, so in-place updates are seen
through aliases exactly as in numpy."""
import itertools
import numpy as np
from . import terms as tt
from .terms import T, tm, const


class Unsupported(Exception):
    """the analysis cannot give a meaning to this construct (-> undecided)"""


class AbsRaise(Exception):
    """the analysed program raises"""

    def __init__(self, exc, note=None):
        Exception.__init__(self, exc)
        self.exc = exc
        self.note = note


class Hooks(object):
    on_write = None        # called with (base) before an in-place write
    journal = None         # callable(obj) for undo
    fault = None           # called with the name of a routine that may raise


def araise(cls, *args):
    raise AbsRaise(cls(*args))


def dim(x):
    """normalise an axis length: int or symbolic term"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, float) and x == int(x):
        raise AbsRaise(TypeError("'float' object cannot be interpreted as an integer"))
    if isinstance(x, T):
        if x.op == 'c':
            return int(x.a)
        return x
    if isinstance(x, AArr) and x.ndim == 0:
        return dim(x.item())
    raise AbsRaise(TypeError("not an axis length: %r" % (x,)))


def ix(x):
    if isinstance(x, T):
        return int(x.a) if x.op == 'c' and x.a.denominator == 1 else x
    return int(x)


def dimeq(a, b):
    if a is b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return tt.eq(tm(a), tm(b)) is tt.TRUE


class State(object):
    __slots__ = ('fn', 'memo', 'shape')

    def __init__(self, fn, shape):
        self.fn = fn
        self.memo = {}
        self.shape = shape

    def get(self, idx):
        r = self.memo.get(idx)
        if r is None:
            for k, (i, n) in enumerate(zip(idx, self.shape)):
                if isinstance(n, int) and isinstance(i, T):
                    # unknown position on an axis of known length
                    r = self.get(idx[:k] + (n - 1,) + idx[k + 1:])
                    for v in range(n - 2, -1, -1):
                        r = tt.ite(tt.eq(i, const(v)),
                                   self.get(idx[:k] + (v,) + idx[k + 1:]), r)
                    break
            else:
                r = tm(self.fn(idx))
            self.memo[idx] = r
        return r


class Base(object):
    __slots__ = ('shape', 'dtype', 'state', 'tag', 'name')

    def __init__(self, shape, dtype, fn, tag=None):
        self.shape = tuple(shape)
        self.dtype = dtype
        self.state = State(fn, self.shape)
        self.tag = tag


class AArr(object):
    __slots__ = ('base', 'axes', 'shape', 'writeable', '__weakref__')

    def __init__(self, base, axes=None, shape=None, writeable=True):
        self.base = base
        if axes is None:
            axes = tuple(('a', k, 0, 1) for k in range(len(base.shape)))
            shape = base.shape
        self.axes = tuple(axes)
        self.shape = tuple(shape)
        self.writeable = writeable

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return self.base.dtype

    @property
    def size(self):
        r = 1
        for n in self.shape:
            r = r * n if isinstance(r, int) and isinstance(n, int) else \
                dim(tm(r) * tm(n))
        return r

    def _bidx(self, idx):
        out = []
        for a in self.axes:
            if a[0] == 'f':
                out.append(a[1])
            else:
                i = idx[a[1]]
                if a[3] != 1:
                    i = i * a[3]
                if not (isinstance(a[2], int) and a[2] == 0):
                    i = i + a[2]
                out.append(ix(i))
        return tuple(out)

    def elem(self, idx):
        return self.base.state.get(self._bidx(idx))

    def reader(self):
        """snapshot: index -> term, unaffected by later writes"""
        st = self.base.state
        b = self._bidx
        return lambda idx: st.get(b(idx))

    def concrete(self):
        return all(isinstance(n, int) for n in self.shape)

    def positions(self):
        return itertools.product(*[range(n) for n in self.shape])

    def item(self):
        return unwrap(self.elem((0,) * self.ndim), self.dtype)

    def __repr__(self):
        return 'AArr(%s,%s)' % (self.shape, self.dtype)


def unwrap(t, dtype='f'):
    """numpy scalar -> python number when known, term otherwise"""
    if t.op == 'c':
        if dtype == 'b':
            return bool(t.a)
        if dtype == 'i':
            return int(t.a)
        if dtype == 'f':
            return float(t.a)
        return tt.cval(t)
    if t.op in ('nan', 'inf'):
        return tt.cval(t)
    if t.op == 'true':
        return True
    if t.op == 'false':
        return False
    return t


def mk(shape, fn, dtype='f', tag=None):
    shape = tuple(dim(n) for n in shape)
    return AArr(Base(shape, dtype, fn, tag))


def ivs_for(shape):
    """generic position: (index tuple, ivars, sizes of ivars) with known-length
    axes left out"""
    raise NotImplementedError


def symarr(name, shape, dtype='f', tag=None, **info):
    """array of arbitrary entries"""
    shape = tuple(dim(n) for n in shape)
    if info:
        tt.SYMINFO.setdefault(name, {}).update(info)
    return mk(shape, lambda idx: tt.sym(name, idx), dtype, tag)


def dtype_of(x):
    if isinstance(x, AArr):
        return x.dtype
    if isinstance(x, (bool, np.bool_)):
        return 'b'
    if isinstance(x, (int, np.integer)):
        return 'i'
    if isinstance(x, (float, np.floating)):
        return 'f'
    if isinstance(x, T):
        if x.op in tt.BOOLOPS:
            return 'b'
        return 'i' if x.isint else 'f'
    return 'O'


ORDER = {'b': 0, 'i': 1, 'f': 2, 'O': 3}


def promote(*ds):
    return max(ds, key=lambda d: ORDER[d])


def is_scalar(x):
    return isinstance(x, (int, float, bool, np.generic, T)) and \
        not isinstance(x, AArr)


def from_np(a):
    a = np.asarray(a)
    k = a.dtype.kind
    dt = {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f'}.get(k, 'O')
    a = a.copy()

    def get(idx):
        v = a[idx]
        return tm(v.item() if isinstance(v, np.generic) else v)
    return mk(a.shape, get, dt)


def to_np(a, dtype=None):
    """constant array -> numpy, else None"""
    if not isinstance(a, AArr):
        return np.asarray(a) if not isinstance(a, T) else (
            np.asarray(tt.cval(a)) if a.op == 'c' else None)
    if not a.concrete():
        return None
    out = np.empty(a.shape, dtype=object)
    for p in a.positions():
        t = a.elem(p)
        if t.op in ('true', 'false'):
            out[p] = t.op == 'true'
        elif t.op in ('c', 'nan', 'inf'):
            v = tt.cval(t)
            out[p] = bool(v) if a.dtype == 'b' else v
        else:
            return None
    return out.astype({'b': bool, 'i': int, 'f': float, 'O': object}[a.dtype])


def to_obj(a):
    """known shape -> numpy object array of terms"""
    if not a.concrete():
        raise Unsupported('array of unknown shape where a known one is needed')
    out = np.empty(a.shape, dtype=object)
    for p in a.positions():
        out[p] = a.elem(p)
    return out


def from_obj(o, dtype='f'):
    o = np.array(o, dtype=object, copy=True) if not isinstance(o, np.ndarray) \
        else o.copy()
    return mk(o.shape, lambda idx: o[idx], dtype)


def scalar_arr(x):
    t = tm(x)
    return mk((), lambda idx: t, dtype_of(x))


# ------------------------------------------------------------ elementwise

def bshape(shapes):
    n = max([len(s) for s in shapes] or [0])
    out = [1] * n
    for s in shapes:
        for k, d in enumerate(s):
            k = k + n - len(s)
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(out[k], int) and out[k] == 1:
                out[k] = d
            elif not dimeq(out[k], d):
                raise AbsRaise(ValueError(
                    'operands could not be broadcast together with shapes %s'
                    % ' '.join(str(tuple(s)) for s in shapes)))
    return tuple(out)


def bidx(idx, shape):
    k = len(idx) - len(shape)
    return tuple(0 if isinstance(n, int) and n == 1 else i
                 for i, n in zip(idx[k:], shape))


def emap(f, args, dtype=None, out_scalar=True):
    """elementwise map of a term function over array/scalar arguments"""
    arrs = [a if isinstance(a, AArr) else scalar_arr(a) for a in args]
    if dtype is None:
        dtype = promote(*[a.dtype for a in arrs])
    shape = bshape([a.shape for a in arrs])
    if shape == () and out_scalar:
        return unwrap(tm(f(*[a.elem(()) for a in arrs])), dtype)
    rs = [(a.reader(), a.shape) for a in arrs]
    return mk(shape, lambda idx: f(*[r(bidx(idx, s)) for r, s in rs]), dtype)


def broadcast_to(a, shape):
    shape = tuple(dim(n) for n in shape)
    k = len(shape) - a.ndim
    if k < 0:
        araise(ValueError, 'input operand has more dimensions than allowed')
    for n, m in zip(a.shape, shape[k:]):
        if not (isinstance(n, int) and n == 1) and not dimeq(n, m):
            araise(ValueError, 'could not be broadcast')
    axes = []
    for x in a.axes:
        if x[0] == 'f':
            axes.append(x)
        elif isinstance(a.shape[x[1]], int) and a.shape[x[1]] == 1:
            axes.append(('f', x[2]))
        else:
            axes.append(('a', x[1] + k, x[2], x[3]))
    return AArr(a.base, axes, shape, False)


def copy(a, dtype=None):
    r = a.reader()
    return mk(a.shape, r, dtype or a.dtype)


# ----------------------------------------------------------------- indexing

def _slice(s, n):
    """-> (offset, length, step) for axis length n (int or term)"""
    start, stop, step = s.start, s.stop, s.step

    def num(v):
        if v is None:
            return None
        if isinstance(v, AArr):
            v = v.item()
        if isinstance(v, T):
            return ix(v)
        if isinstance(v, float):
            araise(TypeError, 'slice indices must be integers')
        return int(v)
    start, stop = num(start), num(stop)
    step = 1 if step is None else int(step)
    if isinstance(n, int) and not isinstance(start, T) and \
            not isinstance(stop, T):
        a, b, c = slice(start, stop, step).indices(n)
        return a, len(range(a, b, c)), c
    n_ = tm(n)
    if step == 1:
        def norm(v, default):
            if v is None:
                return tm(default)
            v = tm(v)
            l = tt.lo(v)
            if l is not None and l >= 0:
                return v
            h = tt.hi(v)
            if h is not None and h < 0:
                return v + n_
            raise Unsupported('slice bound of unknown sign')
        a, b = norm(start, 0), norm(stop, n_)
        # clip: sizes are generic (>= 2); bounds beyond are not modelled
        ln = b - a
        l = tt.lo(n_ - a)
        if l is not None and l < 0 and a.op == 'c':
            raise Unsupported('slice start beyond generic length')
        over = n_ - b
        lo_ = tt.lo(over)
        if lo_ is None or lo_ < 0:
            raise Unsupported('slice stop beyond generic length')
        return ix(a), dim(ln), 1
    if step == -1 and start is None and stop is None:
        return ix(n_ - 1), n, -1
    raise Unsupported('strided slice of axis of unknown length')


def expand_key(key, ndim):
    if not isinstance(key, tuple):
        key = (key,)
    n = 0
    hasell = False
    for k in key:
        if k is None:
            continue
        if k is Ellipsis:
            if hasell:
                araise(IndexError, 'an index can only have a single ellipsis')
            hasell = True
            continue
        if isinstance(k, AArr) and k.dtype == 'b':
            n += k.ndim
        else:
            n += 1
    if n > ndim:
        araise(IndexError, 'too many indices for array: array is '
               '%d-dimensional, but %d were indexed' % (ndim, n))
    out = []
    for k in key:
        if k is Ellipsis:
            out += [slice(None)] * (ndim - n)
        else:
            out.append(k)
    if not hasell:
        out += [slice(None)] * (ndim - n)
    return out


def isint(k):
    if isinstance(k, (bool, np.bool_)):
        return False
    if isinstance(k, (int, np.integer)):
        return True
    if isinstance(k, T):
        return k.isint
    if isinstance(k, AArr):
        return k.ndim == 0 and k.dtype == 'i'
    return False


def basic(key):
    return all(k is None or isinstance(k, slice) or isint(k) for k in key)


def view(a, key):
    """basic indexing (key already expanded)"""
    sel = []           # per source view axis
    shape = []
    ax = 0
    for k in key:
        if k is None:
            shape.append(1)
            continue
        n = a.shape[ax]
        if isinstance(k, slice):
            off, ln, st = _slice(k, n)
            sel.append(('a', len(shape), off, st))
            shape.append(ln)
        else:
            if isinstance(k, AArr):
                k = k.item()
            k = ix(k)
            if isinstance(n, int) and isinstance(k, int):
                if not -n <= k < n:
                    araise(IndexError, 'index %d is out of bounds for axis %d '
                           'with size %d' % (k, ax, n))
                k = k % n
            elif isinstance(k, int):
                if k < 0:
                    k = tm(n) + k
                elif k >= 2:
                    # generic length: assume long enough
                    pass
            sel.append(('f', k))
        ax += 1
    return compose(a, sel, shape)


def _madd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return ix(tm(a) + tm(b))


def compose(a, sel, shape):
    """view of view: sel maps each axis of `a` to fixed or new axis"""
    axes = []
    for x in a.axes:
        if x[0] == 'f':
            axes.append(x)
        else:
            s = sel[x[1]]
            if s[0] == 'f':
                v = s[1]
                if isinstance(v, int):
                    v = v * x[3]
                else:
                    v = tm(v) * x[3]
                axes.append(('f', _madd(v, x[2])))
            else:
                off = s[2] * x[3] if isinstance(s[2], int) else \
                    tm(s[2]) * x[3]
                axes.append(('a', s[1], _madd(off, x[2]), s[3] * x[3]))
    return AArr(a.base, axes, tuple(shape), a.writeable)


class MaskSel(object):
    """a[mask] for a mask with unknown entries: only reductions make sense"""

    def __init__(self, arr, mask):
        self.arr = arr
        self.mask = mask

    def sum(self):
        m = emap(lambda x, c: tt.ite(c, x, tt.ZERO), [self.arr, self.mask],
                 self.arr.dtype)
        return reduce_sum(m if isinstance(m, AArr) else scalar_arr(m), None)


def fancy(a, key):
    """advanced indexing; returns a fresh array"""
    # split boolean masks with known entries into integer arrays
    newkey = []
    src = 0
    for k in key:
        if k is None:
            newkey.append(None)
            continue
        if isinstance(k, (list, np.ndarray)) or (isinstance(k, AArr)):
            kk = k if isinstance(k, AArr) else asarray_list(k)
            if kk.dtype == 'b':
                c = to_np(kk)
                if c is None:
                    if len([q for q in key if q is not None]) == 1 and \
                            kk.ndim == a.ndim:
                        return MaskSel(a, kk)
                    raise Unsupported('mask with unknown entries')
                for d, (n, m) in enumerate(zip(c.shape, a.shape[src:])):
                    if isinstance(m, int) and n != m:
                        araise(IndexError, 'boolean index did not match')
                for z in np.nonzero(c):
                    newkey.append(from_np(z))
                src += kk.ndim
                continue
            if kk.dtype not in ('i',):
                if kk.size == 0 and isinstance(kk.size, int):
                    kk = copy(kk, 'i')
                else:
                    araise(IndexError, 'arrays used as indices must be of '
                           'integer (or boolean) type')
            newkey.append(kk)
            src += 1
            continue
        if isint(k):
            newkey.append(k)
        else:
            newkey.append(k)
        src += 1
    adv = [i for i, k in enumerate(newkey) if isinstance(k, AArr) or
           (isint(k))]
    arrpos = [i for i, k in enumerate(newkey)
              if isinstance(k, AArr) and not isint(k)]
    if not arrpos:
        return view(a, newkey)
    adv = [i for i, k in enumerate(newkey)
           if isinstance(k, AArr) or isint(k)]
    advarr = [k if isinstance(k, AArr) else scalar_arr(ix(k))
              for k in (newkey[i] for i in adv)]
    bs = bshape([k.shape for k in advarr])
    contiguous = adv == list(range(adv[0], adv[-1] + 1))
    # result axes
    shape = []
    plan = []     # per source axis: how to compute its index
    advstart = None
    pre = []
    if not contiguous:
        advstart = 0
        shape += list(bs)
    src = 0
    for i, k in enumerate(newkey):
        if i in adv:
            if contiguous and advstart is None:
                advstart = len(shape)
                shape += list(bs)
            plan.append(('v', advarr[adv.index(i)], a.shape[src]))
            src += 1
        elif k is None:
            shape.append(1)
        else:
            off, ln, st = _slice(k, a.shape[src])
            plan.append(('s', len(shape), off, st))
            shape.append(ln)
            src += 1
    nb = len(bs)
    rd = a.reader()
    vr = [p[1].reader() if p[0] == 'v' else None for p in plan]

    # bounds check for known indices
    for p in plan:
        if p[0] == 'v' and isinstance(p[2], int):
            c = to_np(p[1])
            if c is not None and c.size and (
                    c.max() >= p[2] or c.min() < -p[2]):
                araise(IndexError, 'index out of bounds')

    def get(idx):
        out = []
        bi = idx[advstart:advstart + nb]
        for p, r in zip(plan, vr):
            if p[0] == 'v':
                v = r(bidx(bi, p[1].shape))
                v = ix(v)
                if isinstance(v, int) and v < 0:
                    v = ix(tm(p[2]) + v)
                out.append(v)
            else:
                i = idx[p[1]]
                if p[3] != 1:
                    i = i * p[3]
                if not (isinstance(p[2], int) and p[2] == 0):
                    i = i + p[2]
                out.append(ix(i))
        return rd(tuple(out))
    return mk(shape, get, a.dtype)


def asarray_list(k):
    """nested list of scalars -> AArr"""
    return stack_nested(list(k))


def stack_nested(x):
    if isinstance(x, AArr):
        return x
    if isinstance(x, np.ndarray):
        return from_np(x)
    if is_scalar(x):
        return scalar_arr(x)
    parts = [stack_nested(e) for e in x]
    if not parts:
        return mk((0,), lambda idx: tt.ZERO, 'f')
    return stack(parts, 0)


def lift_bool0(a, key):
    """a truth value as an index is an advanced index along a new axis"""
    if not any(isinstance(k, AArr) and k.dtype == 'b' and k.ndim == 0
               for k in key):
        return a, key
    ins, out = [], []
    for k in key:
        if isinstance(k, AArr) and k.dtype == 'b' and k.ndim == 0:
            c = to_np(k)
            if c is None:
                raise Unsupported('unknown truth value as an index')
            ins.append(None)
            out.append(from_np(np.arange(1 if bool(c) else 0)))
            continue
        out.append(k)
        if k is not None:
            n = k.ndim if isinstance(k, AArr) and k.dtype == 'b' else 1
            ins += [slice(None)] * n
    return view(a, ins), out


def getitem(a, key):
    # an ellipsis makes the result an array, of rank 0 if need be
    dots = key is Ellipsis or isinstance(key, tuple) and any(
        k is Ellipsis for k in key)
    if key is Ellipsis:
        key = (key,)
    a, key = lift_bool0(a, expand_key(key, a.ndim))
    if basic(key):
        if not dots and len(key) == a.ndim and \
                all(isint(k) for k in key):
            v = view(a, key)
            return unwrap(v.elem(()), a.dtype)
        return view(a, key)
    return fancy(a, key)


def write(v, valfn):
    """assign through a structured view; valfn: view index -> term"""
    if not v.writeable:
        araise(ValueError, 'assignment destination is read-only')
    b = v.base
    if Hooks.on_write:
        Hooks.on_write(b)
    if Hooks.journal:
        Hooks.journal(b)
    old = b.state
    axes, shape = v.axes, v.shape

    def fnew(idx):
        conds = []
        vidx = [0] * len(shape)
        for x, i, n in zip(axes, idx, b.shape):
            if x[0] == 'f':
                c = tt.eq(tm(i), tm(x[1]))
                if c is tt.FALSE:
                    return old.get(idx)
                if c is not tt.TRUE:
                    conds.append(c)
            else:
                k, off, st = x[1], x[2], x[3]
                j = ix(tm(i) - tm(off))
                if st == -1:
                    j = ix(-tm(j))
                elif st != 1:
                    if isinstance(j, int):
                        if j % st:
                            return old.get(idx)
                        j = j // st
                    else:
                        raise Unsupported('strided write')
                full = isinstance(off, int) and off == 0 and st == 1 and \
                    dimeq(shape[k], n)
                if not full:
                    c = tt.land(tt.le(tt.ZERO, tm(j)),
                                tt.lt(tm(j), tm(shape[k])))
                    if c is tt.FALSE:
                        return old.get(idx)
                    if c is not tt.TRUE:
                        conds.append(c)
                vidx[k] = j
        new = valfn(tuple(vidx))
        if not conds:
            return new
        return tt.ite(tt.land(*conds), new, old.get(idx))
    b.state = State(fnew, b.shape)


def cast_ok(dst, src):
    return ORDER[src] <= ORDER[dst]


def setitem(a, key, value):
    a, key = lift_bool0(a, expand_key(key, a.ndim))
    if not basic(key):
        return set_fancy(a, key, value)
    v = view(a, key)
    val = value if isinstance(value, AArr) else scalar_arr(value) \
        if is_scalar(value) else stack_nested(value)
    k = val.ndim - v.ndim
    vs = val.shape
    if k > 0:
        if any(not (isinstance(n, int) and n == 1) for n in val.shape[:k]):
            araise(ValueError, 'could not broadcast input array')
        vs = val.shape[k:]
    for n, m in zip(vs[::-1], v.shape[::-1]):
        if not (isinstance(n, int) and n == 1) and not dimeq(n, m):
            araise(ValueError, 'could not broadcast input array from shape '
                   '%s into shape %s' % (val.shape, v.shape))
    rd = val.reader()
    vshape = val.shape

    def valfn(idx):
        full = (0,) * max(0, k) + tuple(idx)
        return rd(bidx(full, vshape))
    if a.dtype == 'b' and val.dtype != 'b':
        f0 = valfn
        valfn = lambda idx: tt.lnot(tt.eq(f0(idx), tt.ZERO))
    elif a.dtype == 'i' and val.dtype == 'f':
        f1 = valfn
        valfn = lambda idx: tt.fn('int', f1(idx))
    write(v, valfn)


def set_fancy(a, key, value):
    if not a.writeable:
        araise(ValueError, 'assignment destination is read-only')
    ks = [k for k in key if k is not None]
    if len(ks) == 1 or (isinstance(ks[0], AArr) and ks[0].dtype == 'b'
                        and ks[0].ndim == a.ndim):
        m = ks[0] if isinstance(ks[0], AArr) else stack_nested(ks[0])
        if m.dtype == 'b' and m.ndim == a.ndim:
            c = to_np(m)
            if is_scalar(value) or c is None:
                val = value if isinstance(value, AArr) else scalar_arr(value)
                if val.ndim != 0:
                    raise Unsupported('masked store of array under unknown mask')
                mr, vr = m.reader(), val.reader()
                rd = a.reader()
                ms = m.shape
                write(a, lambda idx: tt.ite(mr(bidx(idx, ms)), vr(()),
                                            rd(idx)))
                return
    # known positions
    if not a.concrete():
        raise Unsupported('fancy store into array of unknown shape')
    pos = np.arange(int(np.prod(a.shape))).reshape(a.shape)
    npkey = []
    for k in key:
        if isinstance(k, (AArr, list)):
            c = to_np(k if isinstance(k, AArr) else stack_nested(k))
            if c is None:
                raise Unsupported('fancy store at unknown positions')
            npkey.append(c)
        elif isinstance(k, T):
            raise Unsupported('fancy store at unknown positions')
        else:
            npkey.append(k)
    try:
        tgt = pos[tuple(npkey)]
    except IndexError as e:
        raise AbsRaise(IndexError(str(e)))
    val = value if isinstance(value, AArr) else scalar_arr(value) \
        if is_scalar(value) else stack_nested(value)
    try:
        ov = np.broadcast_to(to_obj(val), tgt.shape)
    except ValueError as e:
        raise AbsRaise(ValueError(str(e)))
    table = {}
    for p, v in zip(tgt.reshape(-1).tolist(), ov.reshape(-1)):
        table[tuple(int(q) for q in np.unravel_index(p, a.shape))] = v
    rd = a.reader()
    write(a, lambda idx: table[idx] if idx in table else rd(idx))


# --------------------------------------------------------------- reductions

def norm_axis(ax, n):
    if isinstance(ax, AArr):
        ax = ax.item()
    if isinstance(ax, T) and ax.op == 'c':
        ax = ix(ax)
    if isinstance(ax, T):
        raise Unsupported('unknown axis')
    if isinstance(ax, float):
        araise(TypeError, 'float axis')
    ax = int(ax)
    if not -n <= ax < n:
        araise(np.AxisError, ax, n) if hasattr(np, 'AxisError') else \
            araise(np.exceptions.AxisError, ax, n)
    return ax % n


def axes_tuple(axis, n):
    if axis is None:
        return tuple(range(n))
    if isinstance(axis, AArr) and axis.ndim == 1:
        axis = tuple(to_np(axis).tolist())
    if isinstance(axis, (list, tuple)):
        r = tuple(norm_axis(a, n) for a in axis)
        if len(set(r)) != len(r):
            araise(ValueError, "duplicate value in 'axis'")
        return r
    return (norm_axis(axis, n),)


def reduce_gen(a, axis, combine, keepdims=False, dtype=None):
    """combine(list of (ivar,size)|int..., body)"""
    axs = axes_tuple(axis, a.ndim)
    keep = [k for k in range(a.ndim) if k not in axs]
    if keepdims:
        shape = [1 if k in axs else a.shape[k] for k in range(a.ndim)]
    else:
        shape = [a.shape[k] for k in keep]
    rd = a.reader()
    src = a.shape

    def get(idx):
        full = [None] * len(src)
        for p, k in enumerate(keep):
            full[k] = idx[k] if keepdims else idx[p]
        return combine(rd, full, axs, src)
    if not shape:
        return unwrap(get(()), dtype or a.dtype)
    return mk(shape, get, dtype or a.dtype)


def _sum_comb(rd, full, axs, src):
    conc = [k for k in axs if isinstance(src[k], int)]
    symb = [k for k in axs if not isinstance(src[k], int)]
    ivs = []
    full = list(full)
    for k in symb:
        v = tt.ivar(src[k])
        ivs.append((v, src[k]))
        full[k] = v
    out = []
    for combo in itertools.product(*[range(src[k]) for k in conc]):
        for k, v in zip(conc, combo):
            full[k] = v
        out.append(tt.numify(rd(tuple(full))))
    body = tt.add(*out) if out else tt.ZERO
    for v, s in reversed(ivs):
        body = tt.ssum(v, s, body)
    return body


def reduce_sum(a, axis=None, keepdims=False):
    dt = 'i' if a.dtype == 'b' else a.dtype
    return reduce_gen(a, axis, _sum_comb, keepdims, dt)


def reduce_fold(a, axis, f, keepdims=False, dtype=None):
    def comb(rd, full, axs, src):
        full = list(full)
        for k in axs:
            if not isinstance(src[k], int):
                raise Unsupported('fold over axis of unknown length')
        r = None
        for combo in itertools.product(*[range(src[k]) for k in axs]):
            for k, v in zip(axs, combo):
                full[k] = v
            e = rd(tuple(full))
            r = e if r is None else f(r, e)
        if r is None:
            araise(ValueError, 'zero-size array to reduction operation')
        return r
    return reduce_gen(a, axis, comb, keepdims, dtype)


def reduce_prod(a, axis=None, keepdims=False):
    def comb(rd, full, axs, src):
        full = list(full)
        r = tt.ONE
        ivs = []
        for k in axs:
            if not isinstance(src[k], int):
                raise Unsupported('product over axis of unknown length')
        for combo in itertools.product(*[range(src[k]) for k in axs]):
            for k, v in zip(axs, combo):
                full[k] = v
            r = tt.mul(r, tt.numify(rd(tuple(full))))
        return r
    return reduce_gen(a, axis, comb, keepdims, a.dtype)


def reduce_all(a, axis=None, any_=False):
    def comb(rd, full, axs, src):
        full = list(full)
        conc = [k for k in axs if isinstance(src[k], int)]
        symb = [k for k in axs if not isinstance(src[k], int)]
        tot = tt.FALSE if any_ else tt.TRUE
        for combo in itertools.product(*[range(src[k]) for k in conc]):
            for k, v in zip(conc, combo):
                full[k] = v
            ivs = []
            for k in symb:
                v = tt.ivar(src[k])
                ivs.append((v, src[k]))
                full[k] = v
            c = tt.tb(rd(tuple(full)))
            # quantifier as a counting sum
            if ivs and c.op not in ('true', 'false'):
                body = tt.numify(c if any_ else tt.lnot(c))
                for v, s in reversed(ivs):
                    body = tt.ssum(v, s, body)
                c = tt.lnot(tt.eq(body, tt.ZERO))
                if not any_:
                    c = tt.lnot(c)
            tot = tt.lor(tot, c) if any_ else tt.land(tot, c)
        return tot
    return reduce_gen(a, axis, comb, dtype='b')


# ------------------------------------------------------------- restructuring

def transpose(a, perm=None):
    n = a.ndim
    if perm is None:
        perm = list(range(n))[::-1]
    perm = [norm_axis(p, n) for p in perm]
    if len(perm) != n or sorted(perm) != list(range(n)):
        araise(ValueError, "axes don't match array")
    inv = [perm.index(k) for k in range(n)]
    sel = [('a', inv[k], 0, 1) for k in range(n)]
    return compose(a, sel, [a.shape[p] for p in perm])


def swapaxes(a, i, j):
    n = a.ndim
    i, j = norm_axis(i, n), norm_axis(j, n)
    p = list(range(n))
    p[i], p[j] = p[j], p[i]
    return transpose(a, p)


def moveaxis(a, src, dst):
    n = a.ndim
    s = [norm_axis(x, n) for x in (src if isinstance(src, (list, tuple))
                                   else [src])]
    d = [norm_axis(x, n) for x in (dst if isinstance(dst, (list, tuple))
                                   else [dst])]
    order = [k for k in range(n) if k not in s]
    for dd, ss in sorted(zip(d, s)):
        order.insert(dd, ss)
    return transpose(a, order)


def expand_dims(a, axis):
    axs = axis if isinstance(axis, (list, tuple)) else [axis]
    n = a.ndim + len(axs)
    axs = sorted(norm_axis(x, n) for x in axs)
    key = []
    for k in range(n):
        key.append(None if k in axs else slice(None))
    return view(a, key)


def squeeze(a, axis=None):
    n = a.ndim
    if axis is None:
        axs = [k for k in range(n) if a.shape[k] == 1]
    else:
        axs = list(axes_tuple(axis, n))
        for k in axs:
            if not (isinstance(a.shape[k], int) and a.shape[k] == 1):
                araise(ValueError, 'cannot select an axis to squeeze out')
    key = [0 if k in axs else slice(None) for k in range(n)]
    return view(a, key)


def flip(a, axis=None):
    axs = axes_tuple(axis, a.ndim)
    key = [slice(None, None, -1) if k in axs else slice(None)
           for k in range(a.ndim)]
    return view(a, key)


def diagonal(a, offset=0, a1=0, a2=1):
    if offset != 0:
        raise Unsupported('diagonal offset')
    n = a.ndim
    a1, a2 = norm_axis(a1, n), norm_axis(a2, n)
    if a1 == a2:
        araise(ValueError, 'axis1 and axis2 cannot be the same')
    keep = [k for k in range(n) if k not in (a1, a2)]
    s1, s2 = a.shape[a1], a.shape[a2]
    if not dimeq(s1, s2):
        if isinstance(s1, int) and isinstance(s2, int):
            m = min(s1, s2)
        elif isinstance(s1, int) and s1 == 1:
            m = 1
        elif isinstance(s2, int) and s2 == 1:
            m = 1
        else:
            raise Unsupported('diagonal of non-square axes')
    else:
        m = s1
    sel = [None] * n
    for p, k in enumerate(keep):
        sel[k] = ('a', p, 0, 1)
    sel[a1] = sel[a2] = ('a', len(keep), 0, 1)
    r = compose(a, sel, [a.shape[k] for k in keep] + [m])
    r.writeable = False
    return r


def eye(n, m=None):
    n = dim(n)
    m = n if m is None else dim(m)
    return mk((n, m), lambda idx: tt.delta(idx[0], idx[1]))


def reshape(a, shape):
    if isinstance(shape, AArr):
        shape = [shape.elem((k,)) for k in range(shape.shape[0])] \
            if shape.ndim else [shape.item()]
    if not isinstance(shape, (list, tuple)):
        shape = (shape,)
    shape = [dim(s) for s in shape]
    if any(isinstance(s, int) and s == -1 for s in shape):
        p = tt.ONE
        for s in shape:
            if not (isinstance(s, int) and s == -1):
                p = p * tm(s)
        tot = tm(a.size)
        if tot.op == 'c' and p.op == 'c':
            m = int(tot.a) // int(p.a) if p.a else 0
        else:
            m = dim(tt.div(tot, p))
        shape = [m if isinstance(s, int) and s == -1 else s for s in shape]
    tot = tm(1)
    for s in shape:
        tot = tot * tm(s)
    if tt.eq(tot, tm(a.size)) is not tt.TRUE:
        araise(ValueError, 'cannot reshape array of size %s into shape %s'
               % (a.size, tuple(shape)))
    ns = [s for s in shape if not (isinstance(s, int) and s == 1)]
    os_ = [s for s in a.shape if not (isinstance(s, int) and s == 1)]
    if len(ns) == len(os_) and all(dimeq(x, y) for x, y in zip(ns, os_)):
        # only unit axes inserted / removed
        sel = []
        tgt = [k for k, s in enumerate(shape)
               if not (isinstance(s, int) and s == 1)]
        it = iter(tgt)
        for s in a.shape:
            if isinstance(s, int) and s == 1:
                sel.append(('f', 0))
            else:
                sel.append(('a', next(it), 0, 1))
        return compose(a, sel, shape)
    if a.concrete() and all(isinstance(s, int) for s in shape):
        rd = a.reader()
        osh = a.shape

        def get(idx):
            flat = 0
            for i, n in zip(idx, shape):
                flat = flat * n + i
            out = []
            for n in reversed(osh):
                out.append(flat % n)
                flat //= n
            return rd(tuple(reversed(out)))
        return mk(shape, get, a.dtype)
    rd = a.reader()
    osh = a.shape

    def get2(idx):
        flat = tt.ZERO
        for i, n in zip(idx, shape):
            flat = flat * tm(n) + tm(i)
        out = []
        for n in reversed(osh):
            out.append(ix(tt.fn('mod', flat, tm(n))))
            flat = tt.fn('floor', tt.div(flat, tm(n)))
        return rd(tuple(reversed(out)))
    return mk(shape, get2, a.dtype)


def concatenate(arrs, axis=0):
    n = arrs[0].ndim
    if n == 0:
        araise(ValueError, 'zero-dimensional arrays cannot be concatenated')
    axis = norm_axis(axis, n)
    for x in arrs:
        if x.ndim != n:
            araise(ValueError, 'all the input array dimensions must match')
        for k in range(n):
            if k != axis and not dimeq(x.shape[k], arrs[0].shape[k]):
                araise(ValueError, 'all the input array dimensions except for '
                       'the concatenation axis must match exactly')
    offs = [0]
    for x in arrs:
        offs.append(dim(tm(offs[-1]) + tm(x.shape[axis])))
    shape = list(arrs[0].shape)
    shape[axis] = offs[-1]
    rds = [x.reader() for x in arrs]
    dt = promote(*[x.dtype for x in arrs])

    def get(idx):
        i = idx[axis]
        r = None
        for k in range(len(rds) - 1, -1, -1):
            j = ix(tm(i) - tm(offs[k]))
            inside = tt.land(tt.le(tt.ZERO, tm(j)),
                             tt.lt(tm(j), tm(arrs[k].shape[axis])))
            if inside is tt.FALSE:
                continue
            v = rds[k](idx[:axis] + (j,) + idx[axis + 1:])
            if inside is tt.TRUE:
                return v
            r = v if r is None else tt.ite(inside, v, r)
        if r is None:
            raise Unsupported('empty concatenation')
        return r
    return mk(shape, get, dt)


def stack(arrs, axis=0):
    n = arrs[0].ndim + 1
    axis = norm_axis(axis, n)
    for x in arrs:
        if x.ndim != n - 1 or not all(dimeq(p, q) for p, q in
                                      zip(x.shape, arrs[0].shape)):
            araise(ValueError, 'all input arrays must have the same shape')
    shape = list(arrs[0].shape)
    shape.insert(axis, len(arrs))
    rds = [x.reader() for x in arrs]
    dt = promote(*[x.dtype for x in arrs])
    return mk(shape, lambda idx: rds[idx[axis]](idx[:axis] + idx[axis + 1:]),
              dt)


def insert(a, obj, values, axis=None):
    if axis is None:
        a = reshape(a, (-1,))
        axis = 0
    axis = norm_axis(axis, a.ndim)
    n = a.shape[axis]
    o = to_np(obj if isinstance(obj, AArr) else
              (scalar_arr(obj) if is_scalar(obj) else stack_nested(obj)))
    if o is None:
        raise Unsupported('insert at unknown positions')
    val = values if isinstance(values, AArr) else scalar_arr(values) \
        if is_scalar(values) else stack_nested(values)
    vr, vs = val.reader(), val.shape
    dt = a.dtype
    rd = a.reader()
    if dt == 'b' or dt == 'i':
        vr0 = vr
        if dt == 'b' and val.dtype != 'b':
            vr = lambda i: tt.lnot(tt.eq(vr0(i), tt.ZERO))
        elif dt == 'i' and val.dtype == 'f':
            c = to_np(val)
            if c is not None and not np.all(np.isfinite(c)):
                # casting nan/inf to int: implementation-defined garbage
                vr = lambda i: tt.fn('int', tt.sym('?int_of_nan'))
            else:
                vr = lambda i: tt.fn('int', vr0(i))
    if o.ndim == 0:
        k = int(o)
        if isinstance(n, int):
            if not -n <= k <= n:
                araise(IndexError, 'index out of bounds')
            if k < 0:
                k += n
        elif k < 0:
            k = ix(tm(n) + k)
        # values: scalar or shape of a without axis (moved first)
        if val.ndim <= 1 and val.ndim < a.ndim or val.ndim == 0:
            pass
        # numpy: for scalar index, values = moveaxis(values, 0, axis)
        if val.ndim == 0:
            vmap = lambda idx: vr(())
            m = 1
        else:
            # values broadcast against a[..., slot] with new leading axis moved
            vv = val
            while vv.ndim < a.ndim:
                vv = expand_dims(vv, 0)
            vv = moveaxis(vv, 0, axis)
            m = vv.shape[axis]
            r2, s2 = vv.reader(), vv.shape
            for q in range(a.ndim):
                if q != axis and not (isinstance(s2[q], int) and s2[q] == 1) \
                        and not dimeq(s2[q], a.shape[q]):
                    araise(ValueError, 'could not broadcast in insert')
            if not (isinstance(m, int) and m == 1):
                raise Unsupported('multi-row insert')
            conv = None
            if dt == 'b' and val.dtype != 'b':
                conv = lambda t: tt.lnot(tt.eq(t, tt.ZERO))
            vmap = lambda idx: (conv or (lambda t: t))(
                r2(bidx(idx[:axis] + (0,) + idx[axis + 1:], s2)))
        shape = list(a.shape)
        shape[axis] = dim(tm(n) + 1)
        kt = tm(k)

        def get(idx):
            i = tm(idx[axis])
            at = tt.eq(i, kt)
            if at is tt.TRUE:
                return vmap(idx)
            before = tt.lt(i, kt)
            if before is tt.TRUE:
                rest = rd(idx)
            elif before is tt.FALSE:
                rest = rd(idx[:axis] + (ix(i - 1),) + idx[axis + 1:])
            else:
                rest = tt.ite(before, rd(idx),
                              rd(idx[:axis] + (ix(i - 1),) + idx[axis + 1:]))
            return tt.ite(at, vmap(idx), rest)
        return mk(shape, get, dt)
    if o.dtype == bool:
        o = np.nonzero(o)[0]
    if not isinstance(n, int):
        raise Unsupported('insert of many into axis of unknown length')
    o = o.astype(int)
    # run numpy's own insert on position labels (structure only)
    try:
        marks = np.insert(np.arange(n), o, -1 - np.arange(len(o)))
    except IndexError as e:
        raise AbsRaise(IndexError(str(e)))
    shape = list(a.shape)
    shape[axis] = len(marks)
    if val.ndim and val.ndim < a.ndim:
        # broadcast values against the slot shape
        vv = val
        while vv.ndim < a.ndim:
            vv = expand_dims(vv, 0)
        val2 = vv
    elif val.ndim:
        val2 = val
    else:
        val2 = None
    if val2 is not None:
        tgt = list(a.shape)
        tgt[axis] = len(o)
        for q in range(a.ndim):
            s = val2.shape[q]
            if not (isinstance(s, int) and s == 1) and not dimeq(s, tgt[q]):
                araise(ValueError, 'shape mismatch: value array of shape %s '
                       'could not be broadcast to indexing result' %
                       (val.shape,))
        r2, s2 = val2.reader(), val2.shape

    def get(idx):
        k = int(marks[idx[axis]])
        if k >= 0:
            return rd(idx[:axis] + (k,) + idx[axis + 1:])
        if val2 is None:
            return vr(())
        return r2(bidx(idx[:axis] + (-1 - k,) + idx[axis + 1:], s2))
    return mk(shape, get, dt)


def cumsum(a, axis=None):
    if axis is None:
        a = reshape(a, (-1,))
        axis = 0
    axis = norm_axis(axis, a.ndim)
    n = a.shape[axis]
    rd = a.reader()

    def get(idx):
        i = idx[axis]
        if isinstance(n, int):
            return tt.add(*[tt.numify(rd(idx[:axis] + (k,) + idx[axis + 1:]))
                            for k in range(i + 1)])
        if tt.eq(tm(i), tm(n) - 1) is tt.TRUE:
            v = tt.ivar(n)
            return tt.ssum(v, n, rd(idx[:axis] + (v,) + idx[axis + 1:]))
        v = tt.ivar(n)
        body = tt.ite(tt.le(v, tm(i)),
                      rd(idx[:axis] + (v,) + idx[axis + 1:]), tt.ZERO)
        return tt.ssum(v, n, body)
    return mk(a.shape, get, a.dtype if a.dtype != 'b' else 'i')


def ndiff(a, n=1, axis=-1):
    axis = norm_axis(axis, a.ndim)
    for _ in range(n):
        k1 = [slice(None)] * a.ndim
        k2 = [slice(None)] * a.ndim
        k1[axis] = slice(1, None)
        k2[axis] = slice(None, -1)
        a = emap(lambda x, y: x - y, [view(a, k1), view(a, k2)])
    return a


def matmul(a, b):
    """np.dot semantics for ndim <= 2 (and general last/second-to-last)"""
    if a.ndim == 0 or b.ndim == 0:
        return emap(lambda x, y: x * y, [a, b])
    bx = b.ndim - 2 if b.ndim >= 2 else 0
    n = a.shape[-1]
    if not dimeq(n, b.shape[bx]):
        araise(ValueError, 'shapes %s and %s not aligned' % (a.shape, b.shape))
    ra, rb = a.reader(), b.reader()
    shape = a.shape[:-1] + tuple(s for k, s in enumerate(b.shape) if k != bx)
    na = a.ndim - 1

    def get(idx):
        ia, ib = idx[:na], idx[na:]

        def at(k):
            return tt.mul(ra(ia + (k,)), rb(ib[:bx] + (k,) + ib[bx:]))
        if isinstance(n, int):
            return tt.add(*[at(k) for k in range(n)])
        v = tt.ivar(n)
        return tt.ssum(v, n, at(v))
    if not shape:
        return unwrap(get(()), promote(a.dtype, b.dtype))
    return mk(shape, get, promote(a.dtype, b.dtype))


def outer(f, a, b, dtype=None):
    ra, rb = a.reader(), b.reader()
    n = a.ndim
    shape = a.shape + b.shape
    dt = dtype or promote(a.dtype, b.dtype)
    if not shape:
        return unwrap(f(ra(()), rb(())), dt)
    return mk(shape, lambda idx: f(ra(idx[:n]), rb(idx[n:])), dt)


def opaque(name, arrs, shape, dtype='f'):
    """opaque array-valued operator of arrays (linear algebra)"""
    lams = []
    for a in arrs:
        idx, ivs, szs = [], [], []
        for n in a.shape:
            v = tt.ivar(tm(n))
            idx.append(v)
            ivs.append(v)
            szs.append(tm(n))
        lams.append((tuple(ivs), tuple(szs), a.elem(tuple(idx))))
    shape = tuple(shape)
    if not shape:
        return unwrap(tt.opq(name, lams, ()), dtype)
    return mk(shape, lambda idx: tt.opq(name, lams, idx), dtype)


def generic_index(shape):
    """one symbolic position: (idx, ivars, sizes); axes of known length are
    given an ivar too (value selected by cases)"""
    idx, ivs, szs = [], [], []
    for n in shape:
        v = tt.ivar(tm(n))
        idx.append(v)
        ivs.append(v)
        szs.append(tm(n))
    return tuple(idx), tuple(ivs), tuple(szs)
