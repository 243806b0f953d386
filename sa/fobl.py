"""Obligations on model functions (Func): value, derivative pairing."""
from . import terms as tt
from . import arr as A
from . import interp as I
from .core import *            # noqa: F401,F403
from .core import (Bad, dense, check_equal, same, as_arr, exc_name, exc_text,
                   AnchorMissing, Unsupported)
from . import valnum
import itertools
from .terms import T, tm


class P(object):
    """one symbolic parameter handed to a function in one of its forms"""

    def __init__(self, E, name, shape, kind='array', dim=0, **info):
        self.name = name
        self.a = E.arr(name, shape, tag=None, **info)
        self.shape = self.a.shape
        self.kind = kind
        self.dim = 0
        if kind == 'array':
            self.v = self.a
        elif kind == 'number':
            self.v = A.unwrap(self.a.elem(()))
        elif kind == 'tensor':
            self.v = E.new('maxlike.tensor.Tensor', self.a, dim=dim)
            self.dim = dim
        elif kind == 'param':
            self.v = E.new('maxlike.maxlike_base.Param', self.a)
        else:
            raise ValueError(kind)

    def sym(self, idx):
        return tt.sym(self.name, tuple(tm(i) for i in idx))


def split(shape, dim):
    k = len(shape) - dim
    return tuple(shape[:k]), tuple(shape[k:])


def check_value(E, f, ps, n, d, spec, args=None):
    """value of f at ps: value axes n, outcome axes d, entries spec(n, d)"""
    v = dense(E, E.call(f, args if args is not None else [p.v for p in ps]))
    check_equal(v, ((), (), n, d), lambda x, y, nn, dd: spec(nn, dd))


def value_fn(E, f, ps):
    v = dense(E, E.call(f, [p.v for p in ps]))
    return v


def check_grad(E, f, ps, i, n, d, val=None, grad=None):
    """grad(i) is the formal derivative of the value graph"""
    if val is None:
        v = dense(E, E.call(f, [p.v for p in ps]))
        val = lambda nn, dd: v.at(((), (), nn, dd))
    if grad is None:
        grad = E.m(f, 'grad', [p.v for p in ps], i)
    g = dense(E, grad)
    p = ps[i]
    check_equal(g, (p.shape, (), n, d),
                lambda x, y, nn, dd: tt.diff(val(nn, dd), p.name,
                                             tuple(tm(k) for k in x)))


def check_hess(E, f, ps, i, j, n, d, val=None, hess=None):
    if val is None:
        v = dense(E, E.call(f, [p.v for p in ps]))
        val = lambda nn, dd: v.at(((), (), nn, dd))
    if hess is None:
        hess = E.m(f, 'hess', [p.v for p in ps], i, j)
    h = dense(E, hess)
    pi, pj = ps[i], ps[j]

    def exp(x, y, nn, dd):
        g = tt.diff(val(nn, dd), pi.name, tuple(tm(k) for k in x))
        return tt.diff(g, pj.name, tuple(tm(k) for k in y))
    check_equal(h, (pi.shape, pj.shape, n, d), exp)


def func_obligations(C, E, mk, ps_of, construct, case, n, d, spec=None,
                     hess=True, eval_=True, grad=True):
    """value against its documented form; gradient and Hessian (separately
    and through eval) against the formal derivatives of the value"""
    def fresh():
        return mk(), ps_of()

    def val_ob():
        f, ps = fresh()
        check_value(E, f, ps, n, d, spec)
    if spec is not None:
        C.ob('value', construct, case, val_ob)
    f = ps = None
    try:
        f, ps = fresh()
    except (A.AbsRaise, A.Unsupported) as e:
        C.ob('build', construct, case, lambda: (_ for _ in ()).throw(e))
        return
    k = len(ps)
    ref = None
    if spec is not None:
        ref = lambda nn, dd: spec(nn, dd)
    if grad:
        for i in range(k):
            C.ob('grad', construct, '%s,i=%d' % (case, i),
                 lambda: check_grad(E, f, ps, i, n, d, ref))
    if hess:
        for i in range(k):
            for j in range(i + 1):
                C.ob('hess', construct, '%s,i=%d,j=%d' % (case, i, j),
                     lambda: check_hess(E, f, ps, i, j, n, d, ref))
    if eval_:
        def ev():
            r = E.m(f, 'eval', [p.v for p in ps])
            if not isinstance(r, tuple) or len(r) != 3:
                raise Bad('eval does not return a triple')
            v, g, h = r
            dv = dense(E, v)
            vr = ref
            if vr is None:
                dd0 = dense(E, E.call(f, [p.v for p in ps]))
                vr = lambda nn, dd: dd0.at(((), (), nn, dd))
            check_equal(dv, ((), (), n, d),
                        lambda x, y, nn, dd: vr(nn, dd))
            if grad:
                if len(g) != k:
                    raise Bad('eval returns %d gradients for %d parameters'
                              % (len(g), k))
                for i in range(k):
                    check_grad(E, f, ps, i, n, d, vr, g[i])
            if hess:
                if len(h) != k or any(len(h[i]) <= i for i in range(k)):
                    raise Bad('eval does not return the lower triangle of '
                              'Hessians')
                for i in range(k):
                    for j in range(i + 1):
                        check_hess(E, f, ps, i, j, n, d, vr, h[i][j])
        C.ob('eval', construct, case, ev)


# -------------------------------------------------- uninterpreted functions
HARNESS = '''
from array import array
from maxlike.func.func_base import Func
from maxlike.tensor import Tensor


class SymFunc(Func):
    """an arbitrary differentiable function of its arguments"""

    def __init__(self, spec):
        self.spec = spec

    def __call__(self, params):
        return Tensor(spec_val(self.spec, params), dim=spec_dim(self.spec))

    def grad(self, params, i):
        v, x, m = spec_grad(self.spec, params, i)
        return Tensor(v, x_dim=x, dim=spec_dim(self.spec), x_map=m)

    def hess(self, params, i, j):
        v, x, y, mx, my = spec_hess(self.spec, params, i, j)
        return Tensor(v, x_dim=x, y_dim=y, dim=spec_dim(self.spec),
                      x_map=mx, y_map=my)


class Failing(Func):
    """a component that fails while computing the requested quantities"""

    def __init__(self, base, what, exc):
        self.base = base
        self.what = what
        self.exc = exc

    def __call__(self, params):
        if 'call' in self.what:
            raise self.exc('component')
        return self.base(params)

    def grad(self, params, i):
        if 'grad' in self.what:
            raise self.exc('component')
        return self.base.grad(params, i)

    def hess(self, params, i, j):
        if 'hess' in self.what:
            raise self.exc('component')
        return self.base.hess(params, i, j)
'''

_fresh = itertools.count()


class SymSpec(object):
    """k arguments; kind 'dense' (value depends on every argument entry) or
    'elem' (value[n, d] depends on argument entries [n] only)"""

    def __init__(self, E, name, kind, n=(), d=(), dom='real', hdom='real',
                 gdom='real'):
        self.E = E
        self.name = '%s%d' % (name, next(_fresh))
        self.kind = kind
        self.n = tuple(n)            # value shape ('dense' only)
        self.d = tuple(d)            # outcome shape
        self.ids = []                # argument tuples met so far
        self.dom, self.gdom, self.hdom = dom, gdom, hdom

    # argument identity: semantic equality of all entries
    def arg_id(self, params):
        args = []
        for p in params:
            D = dense(self.E, p)
            if D.groups[0] or D.groups[1]:
                raise Unsupported('derivative tensor given as an argument')
            sh = D.groups[2] + D.groups[3]
            k = len(D.groups[2])
            args.append((sh, (lambda D, k: lambda idx: D.at(
                ((), (), tuple(idx[:k]), tuple(idx[k:]))))(D, k)))
        for a, old in enumerate(self.ids):
            if self.same_args(old, args):
                return a
        self.ids.append(args)
        a = len(self.ids) - 1
        self.declare(a)
        return a

    @staticmethod
    def same_args(p, q):
        if len(p) != len(q):
            return False
        for (s1, f1), (s2, f2) in zip(p, q):
            if len(s1) != len(s2) or not all(
                    A.dimeq(x, y) for x, y in zip(s1, s2)):
                return False
            idx, ivs, szs = A.generic_index(s1)
            if valnum.compare(f1(idx), f2(idx), ivs, szs) is not None:
                return False
        return True

    def nshape(self, a):
        return self.ids[a][0][0] if self.kind == 'elem' else self.n

    def declare(self, a):
        """formal derivatives of the symbols of argument tuple a"""
        args = self.ids[a]
        ranks = [len(s) for s, _ in args]
        k = len(args)
        V = '%s@%d' % (self.name, a)
        info = tt.SYMINFO

        def dchain(mk, idx, wname, widx, nn):
            r = tt.ZERO
            for i in range(k):
                sh, f = args[i]
                if self.kind == 'elem':
                    dg = tt.diff(f(tuple(nn)), wname, widx)
                    if dg is not tt.ZERO:
                        r = tt.add(r, tt.mul(mk(i, tuple(nn)), dg))
                else:
                    ivs = [tt.ivar(tm(z)) for z in sh]
                    dg = tt.diff(f(tuple(ivs)), wname, widx)
                    if dg is tt.ZERO:
                        continue
                    t = tt.mul(mk(i, tuple(ivs)), dg)
                    for v in reversed(ivs):
                        t = tt.ssum(v, v.a[1], t)
                    r = tt.add(r, t)
            return r

        nr = len(self.nshape(a))

        def dval(idx, wname, widx):
            nn = idx[:nr]
            return dchain(lambda i, x: self.g(a, i, x, idx), idx, wname,
                          widx, nn)
        info[V] = {'dom': self.dom, 'deriv': dval}
        for i in range(k):
            info['%s_g%d' % (V, i)] = {
                'dom': self.gdom,
                'deriv': self._dgrad(a, i, ranks, dchain, nr)}
            for j in range(i + 1):
                h = {'dom': self.hdom}
                if i == j and self.kind == 'dense':
                    h['canon'] = _symcanon(ranks[i])

                def no(idx, wname, widx):
                    raise tt.NoDerivative('third derivative')
                h['deriv'] = no
                info['%s_h%d_%d' % (V, i, j)] = h

    def _dgrad(self, a, i, ranks, dchain, nr):
        def f(idx, wname, widx):
            if self.kind == 'elem':
                return dchain(lambda j, y: self.h(a, i, j, y, y, idx), idx,
                              wname, widx, idx[:nr])
            x, rest = idx[:ranks[i]], idx[ranks[i]:]
            return dchain(lambda j, y: self.h(a, i, j, x, y, rest), idx,
                          wname, widx, ())
        return f

    # symbols: v(value idx), g(i, x, value idx), h(i, j, x, y, value idx)
    def v(self, a, idx):
        return tt.sym('%s@%d' % (self.name, a), tuple(tm(z) for z in idx))

    def g(self, a, i, x, idx):
        nm = '%s@%d_g%d' % (self.name, a, i)
        if self.kind == 'elem':
            return tt.sym(nm, tuple(tm(z) for z in idx))
        return tt.sym(nm, tuple(tm(z) for z in tuple(x) + tuple(idx)))

    def h(self, a, i, j, x, y, idx):
        if i < j:
            i, j, x, y = j, i, y, x
        nm = '%s@%d_h%d_%d' % (self.name, a, i, j)
        if self.kind == 'elem':
            return tt.sym(nm, tuple(tm(z) for z in idx))
        return tt.sym(nm, tuple(tm(z) for z in
                                tuple(x) + tuple(y) + tuple(idx)))

    # intrinsics ------------------------------------------------------------
    def val(self, params):
        a = self.arg_id(params)
        return _out(self.nshape(a) + self.d, lambda idx: self.v(a, idx))

    def grad(self, params, i):
        a = self.arg_id(params)
        sh = self.ids[a][i][0]
        out = self.nshape(a) + self.d
        r = len(sh)
        if self.kind == 'elem':
            return (A.mk((1,) * r + out, lambda idx: self.g(
                a, i, None, idx[r:])), r, _map(range(r)))
        return (_out(sh + out, lambda idx: self.g(a, i, idx[:r], idx[r:])),
                r, None)

    def hess(self, params, i, j):
        a = self.arg_id(params)
        si, sj = self.ids[a][i][0], self.ids[a][j][0]
        out = self.nshape(a) + self.d
        r, q = len(si), len(sj)
        if self.kind == 'elem':
            return (A.mk((1,) * (r + q) + out, lambda idx: self.h(
                a, i, j, None, None, idx[r + q:])), r, q, _map(range(r)),
                _map(range(q)))
        return (_out(si + sj + out, lambda idx: self.h(
            a, i, j, idx[:r], idx[r:r + q], idx[r + q:])), r, q, None, None)


def _map(r):
    import array
    return array.array('b', list(r))


def _out(shape, fn):
    return A.mk(shape, fn)


def _symcanon(r):
    import numpy as np

    def canon(ix):
        if not r:
            return ix
        ix = list(np.broadcast_arrays(*ix))
        cx = sum(ix[k] * 16 ** k for k in range(r))
        cy = sum(ix[r + k] * 16 ** k for k in range(r))
        sw = cx > cy
        for k in range(r):
            x, y = ix[k], ix[r + k]
            ix[k], ix[r + k] = np.where(sw, y, x), np.where(sw, x, y)
        return ix
    return canon


class Sym(object):
    """harness: makes interpreted SymFunc objects"""

    def __init__(self, E):
        self.E = E
        try:
            m = E.src(HARNESS)
        except A.AbsRaise as e:
            raise AnchorMissing('harness does not load: ' + exc_text(e))
        self.mod = m
        m.d['spec_val'] = I.Model(lambda s, p: s.val(p), 'spec_val')
        m.d['spec_dim'] = I.Model(lambda s: len(s.d), 'spec_dim')
        m.d['spec_grad'] = I.Model(lambda s, p, i: s.grad(p, i), 'spec_grad')
        m.d['spec_hess'] = I.Model(lambda s, p, i, j: s.hess(p, i, j),
                                   'spec_hess')

    store = None

    def again(self, store, f):
        """f() with the uninterpreted functions of store, in order of their
        creation: the objects are new, what they compute is not"""
        old = self.store
        self.store = [store, 0]
        try:
            return f()
        finally:
            self.store = old

    def make(self, name, kind, n=(), d=(), **kw):
        if self.store is not None:
            lst, k = self.store
            self.store[1] += 1
            if k < len(lst):
                return self.E.call(self.mod.d['SymFunc'], lst[k]), lst[k]
        n = tuple(tt.size(z) if isinstance(z, str) else z for z in n)
        d = tuple(tt.size(z) if isinstance(z, str) else z for z in d)
        s = SymSpec(self.E, name, kind, n, d, **kw)
        if self.store is not None:
            self.store[0].append(s)
        f = self.E.call(self.mod.d['SymFunc'], s)
        return f, s
