"""Every path of MaxLike.fit over an arbitrary model and likelihood.

fit() is interpreted with uninterpreted objective values, gradients and
Hessians; a comparison of unknown numbers takes both outcomes and every
call-back or linear-algebra routine may fail.  A path is recorded as the facts
assumed on it, the points visited and the final state of the estimator."""
import numpy as np
from . import terms as tt
from . import arr as A
from . import interp as I
from . import valnum
from .core import fld, exc_name, as_arr
from .masked import PSet
from .terms import tm

SRC = '''
from maxlike.maxlike_base import MaxLike
from maxlike.tensor import Tensor


class Value(object):
    """model value, gradient or Hessian at a point"""
    def __init__(self, at):
        self.at = at


class Model(object):
    def __call__(self, params):
        fault('model value')
        return Value(point(params))

    def grad(self, params):
        fault('model gradient')
        return Value(point(params))

    def hess(self, params):
        fault('model Hessian')
        return Value(point(params))

    def eval(self, params):
        fault('model evaluation')
        at = point(params)
        return Value(at), Value(at), Value(at)


class Est(MaxLike):
    def __init__(self):
        MaxLike.__init__(self)
        self.model = Model()

    def like(self, params, y):
        fault('likelihood')
        return Tensor(objective(point(params), y.at))

    def grad_like(self, params, y, der):
        fault('likelihood gradient')
        return [Tensor(v, x_dim=k) for v, k in
                gradient(point(params), y.at, der.at)]

    def hess_like(self, params, y, der, hess):
        fault('likelihood Hessian')
        return [[Tensor(v, x_dim=k, y_dim=l) for v, k, l in r] for r in
                hessian(point(params), y.at, der.at, hess.at)]
'''

CONS = '''
from maxlike.func.func_base import Func
from maxlike.tensor import Tensor


class Cons(Func):
    def __call__(self, params):
        return Tensor(cval(params))

    def grad(self, params, i):
        return Tensor(cgrad(params, i), x_dim=cgrad(params, i).ndim)

    def hess(self, params, i, j):
        return Tensor(0)
'''


class Endless(Exception):
    pass


class Path(object):
    pass


class Explorer(object):
    def __init__(self, E, shapes, masks, cons=0, maxdec=400, faults=True,
                 exc='RuntimeError', dtypes=None):
        self.E = E
        self.shapes, self.masks, self.cons = shapes, masks, cons
        self.maxdec = maxdec
        self.faults = faults
        self.exc = exc
        self.dtypes = dtypes
        m = self.mod = E.src(SRC)
        g = m.d
        g['fault'] = I.Model(self.fault, 'fault')
        g['point'] = I.Model(self.point, 'point')
        g['objective'] = I.Model(self.objective, 'objective')
        g['gradient'] = I.Model(self.gradient, 'gradient')
        g['hessian'] = I.Model(self.hessian, 'hessian')
        self.cmod = E.src(CONS)
        self.cmod.d['cval'] = I.Model(lambda p: tt.sym(
            'cval%d' % self.point(p), ()), 'cval')
        self.cmod.d['cgrad'] = I.Model(lambda p, i: E.arr(
            'cgrad%d' % i, self.shapes[i]), 'cgrad')
        self.eqs = {}
        self.points = []        # entries of every parameter point met
        self.limits = False
        self.policy = None

    # --- decisions ---------------------------------------------------------
    def decide(self, c, node=None, frame=None):
        if self.policy is not None:
            b = self.valued(c)
            if b is not None:
                self.lits.append((c, b))
                return b
        for k, b in self.lits:
            if k is c:
                return b
            if k is tt.lnot(c):
                return not b
        b = self.branch()
        self.lits.append((c, b))
        return b

    def valued(self, c):
        """truth of a condition over objective values under the policy"""
        gs, tol = self.policy
        if any(x.op == 'sym' and x.a[0] != 'tol' and not (
                x.a[0][0] == 'G' and x.a[0][1:].isdigit())
                for x in valnum.subterms(c)):
            return None
        s = valnum.Sample(0, 0)
        for x in valnum.subterms(c):
            if x.op == 'sym':
                n = x.a[0]
                s.tables[n, 0] = np.asarray(valnum.LD(
                    tol if n == 'tol' else gs(int(n[1:]))))
        return bool(valnum.Evaluator(s).ev(c, {}))

    def branch(self):
        k = len(self.trace)
        if k >= self.maxdec:
            raise Endless()
        b = self.prefix[k] if k < len(self.prefix) else True
        self.trace.append(b)
        return b

    def fault(self, name):
        if not self.faults or self.failed:
            return
        # first arm: no failure
        if self.branch():
            return
        self.failed = name
        x = {'RuntimeError': RuntimeError, 'KeyboardInterrupt':
             KeyboardInterrupt, 'LinAlgError': np.linalg.LinAlgError}[self.exc]
        A.araise(x, 'injected failure')

    def la_fault(self, name):
        if not self.faults or self.failed:
            return
        if self.branch():
            return
        self.failed = name
        A.araise(np.linalg.LinAlgError, 'injected failure')

    # --- uninterpreted model -------------------------------------------------
    def entries(self, params):
        out = []
        for p in params:
            a = as_arr(p if isinstance(p, A.AArr) else fld(self.E, p,
                                                           'values'))
            rd = a.reader()
            out += [tt.numify(rd(i)) for i in np.ndindex(*a.shape)]
        return out

    def point(self, params):
        e = self.entries(params)
        for k, q in enumerate(self.points):
            if len(q) == len(e) and all(
                    x is y or self.equal(x, y)
                    for x, y in zip(q, e)):
                return k
        self.points.append(e)
        return len(self.points) - 1

    def equal(self, x, y):
        if (x, y) not in self.eqs:
            self.eqs[x, y] = valnum.compare(x, y) is None
        return self.eqs[x, y]

    def name(self, base, *at):
        return base + ('%d' % at[0] if len(set(at)) == 1 else
                       'mixed' + '_'.join(map(str, at)))

    def objective(self, *at):
        self.seen_g.append(at[0])
        self.events.append(('g', at[0]))
        return tt.sym(self.name('G', *at), ())

    def gradient(self, *at):
        self.seen_d.append(at[0])
        self.events.append(('d', at[0]))
        n = self.name('D', *at)
        return [(self.E.arr('%s_%d' % (n, k), s), len(s))
                for k, s in enumerate(self.shapes)]

    def hessian(self, *at):
        self.seen_h.append(at[0])
        n = self.name('H', *at)
        out = []
        for i, s in enumerate(self.shapes):
            r = []
            for j in range(i + 1):
                z = self.shapes[j]
                nm = '%s_%d%d' % (n, i, j)
                if i == j:
                    a = A.mk(s + z, lambda q, nm=nm, k=len(s): tt.sym(
                        nm, tuple(tm(v) for v in (
                            q if q[:k] <= q[k:] else q[k:] + q[:k]))))
                else:
                    a = self.E.arr(nm, s + z)
                r.append((a, len(s), len(z)))
            out.append(r)
        return out

    # --- runs ----------------------------------------------------------------
    def setup(self, state):
        """estimator in a given history state"""
        E = self.E
        ps = PSet(E, self.shapes, self.masks, dtypes=self.dtypes)
        o = E.call(self.mod.d['Est'])
        for k in range(len(self.shapes)):
            v = E.arr(ps.names[k], self.shapes[k],
                      dtype=(self.dtypes or {}).get(k, 'f'))
            if self.masks[k] is None:
                E.m(o, 'add_param', v)
            else:
                E.m(o, 'add_param', v, fld(E, ps.v[k], 'mask'))
        for c in range(self.cons):
            E.m(o, 'add_constraint', list(range(len(self.shapes))),
                E.call(self.cmod.d['Cons']))
        self.ps = ps
        n = len(ps.all_free()) + self.cons
        self.n = n
        if state == 'converged':
            E.I.setattr(o, 'converged', True)
            E.I.setattr(o, 'flat_hess_', E.arr('H_old', (n, n)))
        elif state == 'reshaped':
            E.I.setattr(o, 'converged', True)
            E.I.setattr(o, 'flat_hess_', E.arr('H_old', (n + 1, n + 1)))
        elif state == 'failed':
            E.I.setattr(o, 'converged', False)
            E.I.setattr(o, 'flat_hess_', E.arr('H_old', (n, n)))
        return o

    def follow(self, method, max_steps, values, tol, verbose=0,
               state='fresh'):
        """the one path of a long fit: the objective at the k-th point met is
        values(k)"""
        self.policy = (values, tol)
        self.prefix = []
        try:
            return self.one(method, max_steps, verbose, state)
        finally:
            self.policy = None

    def one(self, method, max_steps, verbose, state):
        E = self.E
        E.I.steps = 0
        self.trace, self.lits = [], []
        self.failed = None
        self.points = []
        self.seen_g, self.seen_d, self.seen_h = [], [], []
        self.events = []
        o = self.setup(state)
        p = Path()
        p.before = fld(E, o, 'params')
        p.start = self.point(p.before)
        E.I.decide_hook = self.decide
        A.Hooks.fault = self.la_fault
        kw = dict(tol=tt.sym('tol', ()), max_steps=max_steps,
                  verbose=verbose, N=4.0)
        if method is not None:
            kw['method'] = method
        try:
            p.out = ('ret', E.m(o, 'fit', **kw))
        except A.AbsRaise as e:
            p.out = ('raise', exc_name(e))
        except Endless:
            p.out = ('endless', None)
        finally:
            E.I.decide_hook = None
            A.Hooks.fault = None
        p.failed = self.failed
        p.lits = list(self.lits)
        p.params = fld(E, o, 'params')
        p.converged = o.d.get('converged')
        p.curv = o.d.get('flat_hess_')
        p.points = self.points
        p.end = self.point(p.params)
        p.events = self.events
        p.seen_g, p.seen_d, p.seen_h = \
            self.seen_g, self.seen_d, self.seen_h
        p.obj = o
        return p

    def paths(self, method, max_steps, verbose=0, state='fresh',
              maxpaths=4000):
        prefix = []
        out = []
        while True:
            self.prefix = prefix
            p = self.one(method, max_steps, verbose, state)
            out.append(p)
            if p.out[0] == 'endless':
                return out
            tr = list(self.trace)
            while tr and tr[-1] is False:
                tr.pop()
            if not tr:
                return out
            tr[-1] = False
            prefix = tr
            if len(out) > maxpaths:
                raise A.Unsupported('too many paths')


def holds(p):
    """facts assumed on a path"""
    for c, b in p.lits:
        c = c if b else tt.lnot(c)
        if c.op == 'and':
            for x in c.a:
                yield x
        yield c


def improves(p, a, b):
    """a fact of the path says G_b >= G_a"""
    x, y = tt.sym('G%d' % a, ()), tt.sym('G%d' % b, ())
    for c in holds(p):
        if c.op not in ('lt', 'le'):
            continue
        const, lin = tt.linear(c.a[0])
        # const + sum <= 0
        if set(lin) == {x, y} and lin[x] > 0 and lin[x] == -lin[y] and \
                const >= 0:
            return True
    return False


# objective values of the k-th point met in a long fit, and the tolerance
LONG = [
    ('slow', 25, lambda k: -1 - 2.0 ** -k, 2.0 ** -20),
    ('halved', 14, lambda k: -1 - 2.0 ** -(k // 3) if k % 3 == 0 else -9.0 - k,
     2.0 ** -10),
    ('limit', 12, lambda k: -100.0 + k, 2.0 ** -20),
    ('stuck', 12, lambda k: -100.0 + k if k < 9 else -200.0 - k, 2.0 ** -20),
    ('positive', 15, lambda k: 3 - 2.0 ** -k, 2.0 ** -10),
    ('far', 9, lambda k: -4e5 * 8.0 ** -k - 1, 2.0 ** -5),
]
