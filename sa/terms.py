"""Value-graph terms: the abstract scalars of the analysis.

A term denotes a real (or integer, or truth) value as a function of
  * data symbols   sym(name, index...)   -- an arbitrary entry of an input,
  * index variables iv                   -- an arbitrary position on an axis,
  * size symbols                         -- an arbitrary axis length.
Terms are hash-consed (value numbering): structurally equal normal forms are
the same object.  Sums and products are kept in a sparse linear / monomial
normal form; summation over an axis of unknown length is a binder.

Nothing in here ever runs code of the analysed repository.
"""
import math
from fractions import Fraction
from functools import lru_cache

_table = {}
_next = [0]


class T(object):
    __slots__ = ('op', 'a', 'id', 'fv', 'isint', '_d')

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __lt__(self, other):     # arbitrary but total, for sorting
        return self.id < other.id

    def __repr__(self):
        return show(self)

    def __add__(self, o): return add(self, tm(o))
    def __radd__(self, o): return add(tm(o), self)
    def __sub__(self, o): return add(self, neg(tm(o)))
    def __rsub__(self, o): return add(tm(o), neg(self))
    def __mul__(self, o): return mul(self, tm(o))
    def __rmul__(self, o): return mul(tm(o), self)
    def __truediv__(self, o): return div(self, tm(o))
    def __rtruediv__(self, o): return div(tm(o), self)
    def __neg__(self): return neg(self)
    def __pow__(self, o): return power(self, tm(o))
    def __rpow__(self, o): return power(tm(o), self)


EMPTY = frozenset()


def _mk(op, a, fv=EMPTY, isint=False):
    key = (op, a)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = _next[0]
        _next[0] += 1
        t.fv = fv
        t.isint = isint
        t._d = None
        _table[key] = t
    return t


def _fvs(ts):
    r = EMPTY
    for t in ts:
        if t.fv:
            r = r | t.fv if r else t.fv
    return r


# ---------------------------------------------------------------- constants

def const(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return _mk('c', Fraction(v), isint=True)
    if isinstance(v, Fraction):
        return _mk('c', v, isint=(v.denominator == 1))
    v = float(v)
    if math.isnan(v):
        return _mk('nan', ())
    if math.isinf(v):
        return _mk('inf', 1 if v > 0 else -1)
    f = Fraction(v)
    return _mk('c', f, isint=(f.denominator == 1))


ZERO = const(0)
ONE = const(1)
MONE = const(-1)
HALF = const(Fraction(1, 2))
NAN = const(float('nan'))


def tm(x):
    if isinstance(x, T):
        return x
    if isinstance(x, (int, float, Fraction)):
        return const(x)
    try:
        import numpy as np
        if isinstance(x, np.generic):
            return const(x.item())
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return const(x.item())
    except ImportError:
        pass
    raise TypeError("not a scalar: %r" % (x,))


def isconst(t):
    return t.op == 'c'


def cval(t):
    """python number of a constant term"""
    if t.op == 'c':
        return int(t.a) if t.a.denominator == 1 else float(t.a)
    if t.op == 'nan':
        return float('nan')
    if t.op == 'inf':
        return t.a * float('inf')
    raise ValueError


# ------------------------------------------------------------------ leaves

def size(name):
    return _mk('size', name, isint=True)


_ivn = [0]


def ivar(sz, name=None):
    _ivn[0] += 1
    nm = (name or 'i') + str(_ivn[0])
    t = _mk('iv', (nm, sz), isint=True)
    t.fv = frozenset((t,))
    return t


SYMINFO = {}      # name -> dict(dom=..., deriv=fn, canon=fn)


def sym(name, idx=(), **info):
    idx = tuple(tm(i) for i in idx)
    if info:
        SYMINFO.setdefault(name, {}).update(info)
    return _mk('sym', (name, idx), _fvs(idx),
               isint=SYMINFO.get(name, {}).get('isint', False))


# --------------------------------------------------------- linear normal form
# add: ('add', (const Fraction, ((term, coeff), ...)))
# mul: ('mul', ((base, Fraction exp), ...))  -- coefficient lives in add

def _lin(t):
    """(const, {monomial-term: coeff})"""
    if t.op == 'c':
        return t.a, {}
    if t.op == 'add':
        return t.a[0], dict(t.a[1])
    return Fraction(0), {t: Fraction(1)}


def _mklin(c, d):
    items = [(k, v) for k, v in d.items() if v != 0]
    if not items:
        return const(c) if isinstance(c, Fraction) else const(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda kv: kv[0].id)
    isint = c.denominator == 1 and all(
        k.isint and v.denominator == 1 for k, v in items)
    return _mk('add', (c, tuple(items)), _fvs(k for k, _ in items), isint)


def _special(ts):
    for t in ts:
        if t.op == 'nan':
            return NAN
    for t in ts:
        if t.op == 'inf':
            return t
    return None


def add(*ts):
    s = None
    for t in ts:
        if t.op in ('nan', 'inf'):
            s = True
    if s:
        return _special(ts)
    c = Fraction(0)
    d = {}
    for t in ts:
        if t.op == 'c':
            c += t.a
        elif t.op == 'add':
            c += t.a[0]
            for k, v in t.a[1]:
                d[k] = d.get(k, 0) + v
        else:
            t = numify(t)
            if t.op == 'c':
                c += t.a
            else:
                d[t] = d.get(t, 0) + Fraction(1)
    return _mklin(c, d)


def scale(t, q):
    q = Fraction(q)
    if q == 0:
        return ZERO if t.op not in ('nan', 'inf') else NAN
    if t.op == 'nan':
        return t
    if t.op == 'inf':
        return t if q > 0 else _mk('inf', -t.a)
    if q == 1:
        return t
    c, d = _lin(t)
    return _mklin(c * q, {k: v * q for k, v in d.items()})


def neg(t):
    return scale(numify(t), -1)


BOOLOPS = ('eq', 'lt', 'le', 'and', 'or', 'not', 'true', 'false', 'opqb')


def numify(t):
    """truth value used as number"""
    if t.op in BOOLOPS:
        if t.op == 'true':
            return ONE
        if t.op == 'false':
            return ZERO
        return _mk('ite', (t, ONE, ZERO), t.fv, True)
    return t


def _mono(t):
    """(coeff, {base: exp})"""
    if t.op == 'c':
        return t.a, {}
    if t.op == 'mul':
        return Fraction(1), dict(t.a)
    if t.op == 'add' and t.a[0] == 0 and len(t.a[1]) == 1:
        k, v = t.a[1][0]
        if k.op == 'mul':
            return v, dict(k.a)
        return v, {k: Fraction(1)}
    if t.op == 'add':
        # factor the leading coefficient so that 2x+2 and x+1 share a base
        lead = t.a[1][0][1]
        if lead != 1:
            return lead, {_mklin(t.a[0] / lead,
                                 {k: v / lead for k, v in t.a[1]}): Fraction(1)}
    return Fraction(1), {t: Fraction(1)}


def _mkmono(c, d):
    if c == 0:
        return ZERO
    items = [(k, e) for k, e in d.items() if e != 0]
    if not items:
        return const(c)
    # merge exponentials
    ex = [(k, e) for k, e in items if k.op == 'fn' and k.a[0] == 'exp']
    if len(ex) > 1 or (ex and ex[0][1] != 1):
        arg = add(*[scale(k.a[1], e) for k, e in ex])
        items = [(k, e) for k, e in items
                 if not (k.op == 'fn' and k.a[0] == 'exp')]
        m = exp(arg)
        if m.op == 'c':
            c = c * m.a
        else:
            c2, d2 = _mono(m)
            c = c * c2
            dd = dict(items)
            for k, e in d2.items():
                dd[k] = dd.get(k, 0) + e
            items = [(k, e) for k, e in dd.items() if e != 0]
        if not items:
            return const(c)
    if len(items) == 1 and items[0][1] == 1:
        t = items[0][0]
        return t if c == 1 else scale(t, c)
    items.sort(key=lambda kv: kv[0].id)
    isint = all(k.isint and e.denominator == 1 and e > 0 for k, e in items)
    m = _mk('mul', tuple(items), _fvs(k for k, _ in items), isint)
    return m if c == 1 else _mklin(Fraction(0), {m: c})


def mul(*ts):
    for t in ts:
        if t.op in ('nan', 'inf'):
            return _special(ts)
    c = Fraction(1)
    d = {}
    for t in ts:
        t = numify(t)
        c2, d2 = _mono(t)
        c *= c2
        if c == 0:
            return ZERO
        for k, e in d2.items():
            d[k] = d.get(k, 0) + e
    return _mkmono(c, d)


def recip(t):
    t = numify(t)
    if t.op == 'c':
        if t.a == 0:
            return _mk('inf', 1)
        return const(1 / t.a)
    if t.op == 'nan':
        return NAN
    if t.op == 'inf':
        return ZERO
    c, d = _mono(t)
    return _mkmono(1 / c, {k: -e for k, e in d.items()})


def div(a, b):
    if b.op == 'c' and b.a == 0:
        return NAN if (a.op == 'c' and a.a == 0) else _mk('inf', 1)
    return mul(a, recip(b))


def power(a, b):
    a = numify(a)
    b = numify(b)
    if a.op == 'nan' or b.op == 'nan':
        return NAN
    if b.op == 'c':
        q = b.a
        if q == 0:
            return ONE
        if q == 1:
            return a
        if q.denominator == 1:
            if a.op == 'c':
                if a.a == 0:
                    return ZERO if q > 0 else _mk('inf', 1)
                return const(a.a ** int(q))
            if a.op == 'inf':
                return ZERO if q < 0 else a
            c, d = _mono(a)
            return _mkmono(c ** int(q), {k: e * int(q) for k, e in d.items()})
        if a.op == 'c':
            if a.a == 0:
                return ZERO if q > 0 else _mk('inf', 1)
            if a.a > 0:
                # keep exact only when perfect, otherwise opaque
                v = float(a.a) ** float(q)
                return const(v)
            return NAN
        if a.op != 'inf':
            return fn('pow', a, b)
    if a.op == 'c' and a.a == 1:
        return ONE
    return fn('pow', a, b)


def ipow(t, n):
    return power(t, const(n))


# -------------------------------------------------------------------- fns

def exp(t):
    if t.op == 'c' and t.a == 0:
        return ONE
    if t.op == 'inf':
        return t if t.a > 0 else ZERO
    if t.op == 'nan':
        return t
    if t.op == 'fn' and t.a[0] == 'log':
        return t.a[1]
    return _mk('fn', ('exp', t), t.fv)


def log(t):
    if t.op == 'c' and t.a == 1:
        return ZERO
    if t.op == 'c' and t.a == 0:
        return _mk('inf', -1)
    if t.op == 'nan':
        return t
    if t.op == 'fn' and t.a[0] == 'exp':
        return t.a[1]
    return _mk('fn', ('log', t), t.fv)


def fn(name, *args):
    args = tuple(numify(tm(a)) for a in args)
    for a in args:
        if a.op == 'nan':
            return NAN
    if name == 'exp':
        return exp(*args)
    if name == 'log':
        return log(*args)
    if name == 'abs' and args[0].op == 'c':
        return const(abs(args[0].a))
    if name == 'sign' and args[0].op == 'c':
        v = args[0].a
        return const((v > 0) - (v < 0))
    if name == 'factorial' and args[0].op == 'c' and args[0].a.denominator == 1 \
            and args[0].a >= 0:
        return const(math.factorial(int(args[0].a)))
    if name == 'int' and args[0].isint:
        return args[0]
    isint = name in ('int', 'sign', 'floor', 'mod') or \
        (name in ('min', 'max', 'abs') and all(a.isint for a in args))
    if name in ('min', 'max'):
        if all(a.op == 'c' for a in args):
            return const((min if name == 'min' else max)(a.a for a in args))
        if args[0] is args[1]:
            return args[0]
    return _mk('fn', (name,) + args, _fvs(args), isint)


def opq(name, lams, idx):
    """entry `idx` of an opaque array-valued function of arrays.
    lams: tuple of (ivars tuple, shape tuple, body)"""
    idx = tuple(tm(i) for i in idx)
    fv = _fvs(idx)
    ls = []
    for ivs, shp, body in lams:
        canon = tuple(_mk('iv', ('$%d' % k, s), isint=True)
                      for k, s in enumerate(shp))
        for c in canon:
            c.fv = frozenset((c,))
        body = subst(body, dict(zip(ivs, canon)))
        ls.append((canon, tuple(shp), body))
        fv = fv | (body.fv - frozenset(canon))
    return _mk('opq', (name, tuple(ls), idx), fv)


# ------------------------------------------------------------------ binder

def ssum(iv, sz, body):
    body = numify(body)
    sz = tm(sz)
    if sz.op == 'c':
        n = int(sz.a)
        return add(*[subst(body, {iv: const(k)}) for k in range(n)]) \
            if n else ZERO
    if body is ZERO:
        return ZERO
    if iv not in body.fv:
        return mul(sz, body)
    if body.op == 'add':
        c, items = body.a
        out = [mul(sz, const(c))] if c != 0 else []
        for k, v in items:
            out.append(scale(ssum(iv, sz, k), v))
        return add(*out)
    if body.op == 'mul':
        ind = [(k, e) for k, e in body.a if iv not in k.fv]
        if ind:
            dep = [(k, e) for k, e in body.a if iv in k.fv]
            return mul(_mkmono(Fraction(1), dict(ind)),
                       ssum(iv, sz, _mkmono(Fraction(1), dict(dep))))
    # canonical binder
    h = _height(body)
    canon = _mk('iv', ('#%d' % h, sz), isint=True)
    canon.fv = frozenset((canon,))
    body = subst(body, {iv: canon})
    return _mk('sum', (canon, sz, body), body.fv - frozenset((canon,)),
               body.isint)


_hmemo = {}


def _height(t):
    """binder nesting height"""
    r = _hmemo.get(t)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x in _hmemo:
            stack.pop()
            continue
        ch = children(x)
        pend = [c for c in ch if c not in _hmemo]
        if pend:
            stack.extend(pend)
            continue
        h = max([_hmemo[c] for c in ch] or [0])
        if x.op in ('sum', 'all', 'any'):
            h += 1
        _hmemo[x] = h
        stack.pop()
    return _hmemo[t]


def children(t):
    op = t.op
    if op == 'sym':
        return t.a[1]
    if op == 'add':
        return tuple(k for k, _ in t.a[1])
    if op == 'mul':
        return tuple(k for k, _ in t.a)
    if op == 'fn':
        return t.a[1:]
    if op == 'sum':
        return (t.a[2],)
    if op in ('ite', 'and', 'or', 'not', 'eq', 'lt', 'le'):
        return t.a
    if op == 'opq':
        return tuple(l[2] for l in t.a[1]) + t.a[2]
    if op == 'opqb':
        return t.a[1:]
    return ()


# -------------------------------------------------------------- conditions

TRUE = _mk('true', ())
FALSE = _mk('false', ())


def tb(b):
    if isinstance(b, T):
        if b.op in BOOLOPS:
            return b
        return lnot(eq(b, ZERO))
    return TRUE if b else FALSE


def lo(t):
    """lower bound (int terms), or None"""
    if t.op == 'c':
        return t.a
    if t.op == 'size':
        return 2
    if t.op == 'iv':
        return 0
    if t.op == 'add':
        s = t.a[0]
        for k, v in t.a[1]:
            b = lo(k) if v > 0 else hi(k)
            if b is None:
                return None
            s += v * b
        return s
    if t.op == 'mul':
        p = Fraction(1)
        for k, e in t.a:
            b = lo(k)
            if b is None or b < 0 or e < 0 or e.denominator != 1:
                return None
            p *= b ** int(e)
        return p
    if t.op == 'fn' and t.a[0] == 'factorial':
        return 1
    if t.op == 'ite':
        x, y = lo(t.a[1]), lo(t.a[2])
        return None if x is None or y is None else min(x, y)
    if t.op == 'sum' :
        b = lo(t.a[2])
        return 0 if b is not None and b >= 0 else None
    return None


def hi(t):
    if t.op == 'c':
        return t.a
    if t.op == 'add':
        s = t.a[0]
        for k, v in t.a[1]:
            b = hi(k) if v > 0 else lo(k)
            if b is None:
                return None
            s += v * b
        return s
    if t.op == 'iv' and t.a[1].op == 'c':
        return t.a[1].a - 1
    if t.op == 'ite':
        x, y = hi(t.a[1]), hi(t.a[2])
        return None if x is None or y is None else max(x, y)
    return None


def ivbound_diff(t):
    """decide sign of int term by replacing i <= size(i)-1; returns upper bound
    of t using that, else None."""
    c, d = _lin(t)
    if not t.isint:
        return None
    out = const(c)
    for k, v in d.items():
        if k.op == 'iv' and v > 0:
            out = add(out, scale(add(k.a[1], MONE), v))
        elif k.op == 'iv':
            out = add(out, ZERO)
        else:
            out = add(out, scale(k, v))
    return hi(out)


def _hi2(t):
    a = hi(t)
    b = ivbound_diff(t)
    if a is None:
        return b
    if b is None:
        return a
    return min(a, b)


def _lo2(t):
    a = lo(t)
    b = ivbound_diff(neg(t))
    b = None if b is None else -b
    if a is None:
        return b
    if b is None:
        return a
    return max(a, b)


def eq(a, b):
    a, b = numify(a), numify(b)
    if a is b:
        return TRUE
    if a.op == 'nan' or b.op == 'nan':
        return FALSE
    if a.op == 'inf' or b.op == 'inf':
        return FALSE
    d = add(a, neg(b))
    if d.op == 'c':
        return tb(d.a == 0)
    if d.isint:
        l, h = _lo2(d), _hi2(d)
        if (l is not None and l > 0) or (h is not None and h < 0):
            return FALSE
        if not any(x.op == 'iv' for x in _leaves(d)) and \
                all(x.op in ('size', 'c') for x in _leaves(d)):
            return FALSE     # generic sizes: distinct symbols are different
    # sign-normalise
    c, dd = _lin(d)
    if dd:
        k = min(dd, key=lambda x: x.id)
        q = dd[k]
        d = scale(d, 1 / q)
    return _mk('eq', (d, ZERO), d.fv)


def _leaves(t, acc=None):
    ch = children(t)
    if not ch:
        return {t}
    r = set()
    for c in ch:
        r |= _leaves(c)
    return r


def lt(a, b):
    a, b = numify(a), numify(b)
    if a is b:
        return FALSE
    if a.op == 'nan' or b.op == 'nan':
        return FALSE
    if a.op == 'inf':
        return tb(a.a < 0)
    if b.op == 'inf':
        return tb(b.a > 0)
    d = add(a, neg(b))
    if d.op == 'c':
        return tb(d.a < 0)
    l, h = _lo2(d), _hi2(d)
    if h is not None and h < 0:
        return TRUE
    if l is not None and l >= 0:
        return FALSE
    if d.isint:      # a<b  <=> a+1<=b
        return _mk('le', (add(d, ONE), ZERO), d.fv)
    return _mk('lt', (d, ZERO), d.fv)


def le(a, b):
    a, b = numify(a), numify(b)
    if a is b:
        return TRUE
    if a.op == 'nan' or b.op == 'nan':
        return FALSE
    if a.op == 'inf':
        return tb(a.a < 0)
    if b.op == 'inf':
        return tb(b.a > 0)
    d = add(a, neg(b))
    if d.op == 'c':
        return tb(d.a <= 0)
    l, h = _lo2(d), _hi2(d)
    if h is not None and h <= 0:
        return TRUE
    if l is not None and l > 0:
        return FALSE
    return _mk('le', (d, ZERO), d.fv)


def lnot(c):
    c = tb(c)
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.a[0]
    if c.op == 'le' and not c.a[0].isint:
        return _mk('lt', (neg(c.a[0]), ZERO), c.fv)
    if c.op == 'lt':
        return _mk('le', (neg(c.a[0]), ZERO), c.fv)
    if c.op == 'le':
        return le(add(neg(c.a[0]), ONE), ZERO)
    return _mk('not', (c,), c.fv)


def land(*cs):
    out = []
    for c in cs:
        c = tb(c)
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.op == 'and':
            out.extend(c.a)
        else:
            out.append(c)
    out = sorted(set(out))
    for c in out:
        if lnot(c) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk('and', tuple(out), _fvs(out))


def lor(*cs):
    return lnot(land(*[lnot(c) for c in cs]))


def ite(c, a, b):
    c = tb(c)
    a, b = tm(a), tm(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.op in BOOLOPS and b.op in BOOLOPS:
        return lor(land(c, a), land(lnot(c), b))
    a, b = numify(a), numify(b)
    if c.op == 'not':
        c, a, b = c.a[0], b, a
    return _mk('ite', (c, a, b), c.fv | a.fv | b.fv, a.isint and b.isint)


def delta(i, j):
    return ite(eq(tm(i), tm(j)), ONE, ZERO)


# ------------------------------------------------------------ substitution

def subst(t, m):
    """substitute index variables / symbols-free leaves"""
    keys = frozenset(k for k in m if m[k] is not k)
    if not keys or not (t.fv & keys):
        return t
    return _rewrite(t, m, keys)


def replace(t, m):
    """substitute whole symbols (without index variables)"""
    return _rewrite(t, m, None)


def _rewrite(t, m, keys):
    memo = {}

    def go(t):
        if keys is not None and not (t.fv & keys):
            return t
        if keys is None and t in m:
            return m[t]
        r = memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op == 'iv':
            r = m.get(t, t)
        elif op == 'sym':
            idx = tuple(go(x) for x in t.a[1])
            r = _mk('sym', (t.a[0], idx), _fvs(idx), t.isint)
        elif op == 'add':
            r = add(const(t.a[0]), *[scale(go(k), v) for k, v in t.a[1]])
        elif op == 'mul':
            r = mul(*[power(go(k), const(e)) for k, e in t.a])
        elif op == 'fn':
            if t.a[0] == 'pow':
                r = power(go(t.a[1]), go(t.a[2]))
            else:
                r = fn(t.a[0], *[go(x) for x in t.a[1:]])
        elif op == 'sum':
            r = ssum(t.a[0], t.a[1], go(t.a[2]))
        elif op == 'ite':
            r = ite(go(t.a[0]), go(t.a[1]), go(t.a[2]))
        elif op == 'eq':
            r = eq(go(t.a[0]), go(t.a[1]))
        elif op == 'lt':
            r = lt(go(t.a[0]), go(t.a[1]))
        elif op == 'le':
            r = le(go(t.a[0]), go(t.a[1]))
        elif op == 'and':
            r = land(*[go(x) for x in t.a])
        elif op == 'not':
            r = lnot(go(t.a[0]))
        elif op == 'opq':
            nm, ls, idx = t.a
            idx = tuple(go(x) for x in idx)
            nl = tuple((c, s, go(b)) for c, s, b in ls)
            fv = _fvs(idx)
            for c, s, b in nl:
                fv = fv | (b.fv - frozenset(c))
            r = _mk('opq', (nm, nl, idx), fv)
        elif op == 'opqb':
            r = _mk('opqb', (t.a[0],) + tuple(go(x) for x in t.a[1:]),
                    _fvs([go(x) for x in t.a[1:]]))
        elif keys is None:
            r = t
        else:
            raise NotImplementedError(op)
        memo[t] = r
        return r
    # capture: canonical binders '#h' / '$k' never occur free outside
    return go(t)


# -------------------------------------------------------------- derivative

class NoDerivative(Exception):
    pass


VARIED = set()          # names with respect to which derivatives are taken


def diff(t, name, widx, memo=None):
    """formal partial derivative of t with respect to sym(name, widx)"""
    widx = tuple(tm(i) for i in widx)
    VARIED.add(name)
    if memo is None:
        memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        r = _go(t)
        memo[t] = r
        return r

    def _go(t):
        op = t.op
        if op in ('c', 'iv', 'size', 'nan', 'inf') or op in BOOLOPS:
            return ZERO
        if op == 'sym':
            nm, idx = t.a
            info = SYMINFO.get(nm, {})
            if nm == name:
                r = ONE
                for a, b in zip(idx, widx):
                    r = mul(r, delta(a, b))
                return r
            d = info.get('deriv')
            if d is None:
                return ZERO
            return tm(d(idx, name, widx))
        if op == 'add':
            return add(*[scale(go(k), v) for k, v in t.a[1]])
        if op == 'mul':
            out = []
            for k, e in t.a:
                dk = go(k)
                if dk is ZERO:
                    continue
                rest = [(k2, e2) for k2, e2 in t.a if k2 is not k]
                out.append(mul(_mkmono(Fraction(1), dict(rest + [(k, e - 1)])),
                               scale(dk, e)))
            return add(*out) if out else ZERO
        if op == 'fn':
            f = t.a[0]
            ds = [go(x) for x in t.a[1:]]
            if all(d is ZERO for d in ds):
                return ZERO
            x = t.a[1]
            if f == 'exp':
                return mul(t, ds[0])
            if f == 'log':
                return mul(recip(x), ds[0])
            if f == 'arctan':
                return mul(recip(add(ONE, mul(x, x))), ds[0])
            if f == 'tanh':
                return mul(add(ONE, neg(mul(t, t))), ds[0])
            if f == 'sin':
                return mul(fn('cos', x), ds[0])
            if f == 'cos':
                return mul(neg(fn('sin', x)), ds[0])
            if f == 'gammaln':
                return mul(fn('digamma', x), ds[0])
            if f == 'digamma':
                return mul(fn('trigamma', x), ds[0])
            if f == 'abs':
                return mul(fn('sign', x), ds[0])
            if f == 'ndtri':
                return div(ds[0], fn('npdf', t))
            if f == 'ndtr':
                return mul(ds[0], fn('npdf', x))
            if f == 'pow':
                a, b = t.a[1], t.a[2]
                r = ZERO
                if ds[0] is not ZERO:
                    r = add(r, mul(b, power(a, add(b, MONE)), ds[0]))
                if ds[1] is not ZERO:
                    r = add(r, mul(t, log(a), ds[1]))
                return r
            if f == 'min':
                return ite(lt(t.a[1], t.a[2]), ds[0], ds[1])
            if f == 'max':
                return ite(lt(t.a[2], t.a[1]), ds[0], ds[1])
            if f in ('sign', 'int', 'floor'):
                return ZERO
            raise NoDerivative(f)
        if op == 'sum':
            iv, sz, body = t.a
            nv = ivar(sz)
            return ssum(nv, sz, go(subst(body, {iv: nv})))
        if op == 'ite':
            return ite(t.a[0], go(t.a[1]), go(t.a[2]))
        if op == 'opq':
            raise NoDerivative(t.a[0])
        raise NoDerivative(op)
    return go(t)


# ------------------------------------------------------------------- print

def show(t, depth=6):
    op = t.op
    if op == 'c':
        v = t.a
        if v.denominator == 1:
            return str(v)
        f = float(v)
        return repr(f) if len(repr(f)) < len(str(v)) else str(v)
    if op in ('nan', 'true', 'false'):
        return op
    if op == 'inf':
        return 'inf' if t.a > 0 else '-inf'
    if op == 'size':
        return t.a
    if op == 'iv':
        return t.a[0]
    if op == 'sym':
        return t.a[0] + ('[' + ','.join(show(x, depth) for x in t.a[1]) + ']'
                         if t.a[1] else '')
    if depth <= 0:
        return '…'
    d = depth - 1
    if op == 'add':
        s = [] if t.a[0] == 0 else [show(const(t.a[0]))]
        for k, v in t.a[1][:12]:
            s.append((show(const(v)) + '*' if v != 1 else '') + show(k, d))
        if len(t.a[1]) > 12:
            s.append('…')
        return '(' + ' + '.join(s) + ')'
    if op == 'mul':
        return '*'.join(show(k, d) + ('' if e == 1 else '^%s' % e)
                        for k, e in t.a)
    if op == 'fn':
        return t.a[0] + '(' + ', '.join(show(x, d) for x in t.a[1:]) + ')'
    if op == 'sum':
        return 'Σ[%s<%s](%s)' % (show(t.a[0]), show(t.a[1]), show(t.a[2], d))
    if op == 'ite':
        return 'ite(%s, %s, %s)' % tuple(show(x, d) for x in t.a)
    if op in ('eq', 'lt', 'le'):
        return '%s%s0' % (show(t.a[0], d), {'eq': '=', 'lt': '<', 'le': '<='}[op])
    if op == 'not':
        return '!(%s)' % show(t.a[0], d)
    if op == 'and':
        return '(' + ' & '.join(show(x, d) for x in t.a) + ')'
    if op == 'opq':
        return '%s(…)[%s]' % (t.a[0], ','.join(show(x, d) for x in t.a[2]))
    if op == 'opqb':
        return '%s(%s)' % (t.a[0], ','.join(show(x, d) for x in t.a[1:]))
    return op


def linear(t):
    """constant and coefficients of a linear combination"""
    return _lin(t)
