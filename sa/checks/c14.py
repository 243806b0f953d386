"""C14 outcome contract of fit."""
import itertools
from .. import terms as tt
from .. import arr as A
from .. import valnum
from ..core import Bad, as_arr, fld, AnchorMissing
from ..fitpaths import Explorer, holds, improves, LONG
from ..terms import tm
from .c13 import truth

LEVEL = 'other'
EXPLANATION = (
    'fit() is interpreted abstractly over an uninterpreted model and '
    'likelihood; every comparison of unknown numbers takes both outcomes and '
    'every call-back and linear-algebra routine may fail, so all paths for '
    'the enumerated step limits are covered. On each path the outcome, the '
    'stored parameters, curvature and convergence mark are compared with the '
    'contract; a true result needs the documented convergence test among the '
    'facts of its path.')
ASSUMPTIONS = ['step limits 0..2 (quick), 0..3 (thorough)',
               'two parameters with a fixed entry, 0 or 1 constraint',
               'objective values are uninterpreted numbers']
FLOOR = 20


def check(C):
    C.rule('converged', 'true is returned only after the convergence test '
           'passed at the stored point, which is marked as converged and '
           'has its curvature stored')
    C.rule('raised', 'every other outcome is an exception of the documented '
           'kind; parameters unchanged, not marked as converged')
    C.rule('verbosity', 'the same outcomes for every verbosity')
    C.rule('method', 'unknown methods are rejected with a value error')
    E = C.engine()
    shapes, masks = [(2,), ()], [(0, 1), None]
    top = 2 if C.tier == 'quick' else 3
    for cons in (0, 1):
        for method in ('newton', 'broyden'):
            X = Explorer(E, shapes, masks, cons, maxdec=200)
            for steps in range(0, top + 1):
                states = ['fresh']
                if steps == 1:
                    states += ['converged', 'failed', 'reshaped']
                for state in states:
                    for verb in ((0, 1, 2) if steps == min(2, top) and
                                 state == 'fresh' and not cons else (0,)):
                        X.faults = verb == 0 and (
                            steps < 2 or cons == 0 or C.tier != 'quick')
                        C.unit(scenario, C, X, method, steps, state, verb)
            if not cons:
                X.faults = False
                verbosity(C, X, method)
    X = Explorer(E, shapes, masks, 0, maxdec=200)
    X.exc = 'KeyboardInterrupt'
    for method in ('newton', 'broyden'):
        C.unit(scenario, C, X, method, 1, 'converged', 0, ' interrupted')
    X = Explorer(E, shapes, masks, 0, maxdec=200, faults=False,
                 dtypes={0: 'i', 1: 'i'})
    for method in ('newton', 'broyden'):
        C.unit(scenario, C, X, method, 1, 'fresh', 0, ' whole numbers')
    X = Explorer(E, shapes, masks, 0, maxdec=200, faults=False)
    for method in ('Newton', 'BROYDEN', None):
        C.unit(scenario, C, X, method, 1, 'fresh', 0)
    methods(C, X)
    for cons in (0, 1):
        X = Explorer(E, shapes, masks, cons, maxdec=2000, faults=False)
        for method in ('newton', 'broyden'):
            for name, steps, values, tol in LONG:
                C.unit(long, C, X, method, name, steps, values, tol)


def long(C, X, method, name, steps, values, tol):
    def go():
        p = X.follow(method, steps, values, tol)
        if p.out[0] == 'endless':
            raise Bad('fit does not stop')
        if p.out[0] == 'ret':
            success(X, p, method)
        else:
            failure(X, p)
            early(p, method, steps)
    C.ob('converged', 'MaxLike.fit', '%s long fit (%s) constraints=%d' % (
        method, name, X.cons), go)


def early(p, method, steps):
    """the step limit was reached or every trial was rejected"""
    d, trials = [], []
    for kind, q in p.events:
        if kind == 'd' and q not in d:
            d.append(q)
            trials = []
        elif kind == 'g' and d and q not in d and q not in trials:
            trials.append(q)
    if len(d) >= steps:
        return
    if method == 'newton' and trials and not any(
            improves(p, d[-1], q) for q in trials):
        return
    raise Bad('the fit gives up after %d of %d steps' % (len(d), steps))


def scenario(C, X, method, steps, state, verb, extra=''):
    case = '%s max_steps=%d history=%s verbose=%d constraints=%d%s' % (
        method or 'default', steps, state, verb, X.cons, extra)
    paths = []

    def run():
        paths.extend(X.paths(method, steps, verb, state))
        if any(p.out[0] == 'endless' for p in paths):
            raise Bad('fit does not stop')
        conv = [p for p in paths if p.out[0] == 'ret']
        if steps and not conv:
            raise Bad('no path reports convergence')
        for p in conv:
            success(X, p, (method or 'newton').lower())

    def raised():
        for p in paths:
            if p.out[0] == 'raise':
                failure(X, p)
                if not p.failed:
                    early(p, (method or 'newton').lower(), steps)
    C.ob('converged', 'MaxLike.fit', case, run)
    if paths:
        C.ob('raised', 'MaxLike.fit', case, raised)


def told(p):
    return ' and '.join('%s is %s' % (tt.show(c)[:80], b)
                        for c, b in p.lits[-3:]) + (
        '' if not p.failed else ', %s fails' % p.failed)


def pattern(X, p):
    """shapes and fixed entries of the stored parameters"""
    E, ps = X.E, X.ps
    if len(p.params) != len(ps.v):
        raise Bad('%d parameters stored' % len(p.params))
    for k, q in enumerate(p.params):
        if tuple(fld(E, q, 'shape')) != ps.shapes[k]:
            raise Bad('parameter %d changes its shape' % k)
        mk = as_arr(fld(E, q, 'mask')).reader()
        rd = as_arr(fld(E, q, 'values')).reader()
        bits = ps.masks[k] or [0] * len(ps.positions(k))
        for b, pos in zip(bits, ps.positions(k)):
            if truth(mk(pos)) != bool(b):
                raise Bad('the fixed/free pattern of parameter %d changes'
                          % k)
            if b and not X.equal(tt.numify(rd(pos)), ps.sym(k, pos)):
                raise Bad('fixed entry %s of parameter %d moves' % (pos, k))


def success(X, p, method):
    E = X.E
    if p.out[1] is not True:
        raise Bad('fit returns %r (path: %s)' % (p.out[1], told(p)))
    pattern(X, p)
    prev = [k for k in p.seen_d if k != p.end]
    if not prev:
        raise Bad('converged without leaving the starting point (path: %s)'
                  % told(p))
    a, b = tt.sym('G%d' % prev[-1], ()), tt.sym('G%d' % p.end, ())
    tol = tt.sym('tol', ())
    forms = [tt.add(absv(tt.add(tt.div(a, b), tt.const(-1))), tt.neg(tol)),
             tt.add(absv(tt.add(a, tt.neg(b))),
                    tt.neg(tt.mul(tol, absv(b))))]
    if not any(c.op in ('lt', 'le') and any(
            X.equal(c.a[0], f) for f in forms) for c in holds(p)):
        raise Bad('true is returned though the convergence test between the '
                  'previous and the stored point did not pass (path: %s)'
                  % told(p))
    if p.converged is not True:
        raise Bad('converged is %r after a fit that converged' %
                  (p.converged,))
    if method == 'newton' and not improves(p, prev[-1], p.end):
        raise Bad('true is returned though no improving step was found '
                  '(path: %s)' % told(p))
    curv(X, p, method, prev[-1])


def absv(t):
    return tt.fn('abs', t)


def curv(X, p, method, prev):
    h = p.curv
    if h is None:
        raise Bad('no curvature stored')
    if not isinstance(h, A.AArr):
        raise Bad('the stored curvature is a %s' % X.E.I.tname(h))
    if h.shape != (X.n, X.n):
        raise Bad('the stored curvature has shape %s, expected %s' %
                  (h.shape, (X.n, X.n)))
    if method != 'newton':
        return
    fr = X.ps.all_free()
    rd = h.reader()

    def at(q):
        for (i, (k, u)), (j, (l, v)) in itertools.product(
                enumerate(fr), enumerate(fr)):
            if k < l or (k == l and u > v):
                k, u, l, v = l, v, k, u
            e = tt.sym('H%d_%d%d' % (q, k, l), tuple(
                tm(z) for z in u + v))
            if not X.equal(tt.numify(rd((i, j))), e):
                return False
        return True
    if not any(at(q) for q in (prev, p.end)):
        raise Bad('the stored curvature is not the Hessian of the accepted '
                  'step (path: %s)' % told(p))


def failure(X, p):
    if p.end != p.start:
        raise Bad('%s is raised but the stored parameters changed (path: %s)'
                  % (p.out[1], told(p)))
    pattern(X, p)
    if p.converged is not False:
        raise Bad('converged is %r after %s is raised (path: %s)' %
                  (p.converged, p.out[1], told(p)))
    if not p.failed and p.out[1] != 'ConvergenceError':
        raise Bad('%s is raised (path: %s)' % (p.out[1], told(p)))


def verbosity(C, X, method):
    def go():
        ref = None
        for verb in (0, 1, 2):
            out = set()
            for p in X.paths(method, 2, verb, 'fresh'):
                out.add((p.out[0], str(p.out[1]),
                         tuple(p.points[p.end]), str(p.converged)))
            if ref is None:
                ref = out
            elif out != ref:
                raise Bad('outcomes with verbose=%d differ from those with '
                          'verbose=0' % verb)
    C.ob('verbosity', 'MaxLike.fit', method, go)


def methods(C, X):
    for name in ('bfgs', 'newto', '', 'newton '):
        for state in ('fresh', 'converged'):
            def go():
                for p in X.paths(name, 2, 0, state):
                    if p.out != ('raise', 'ValueError'):
                        raise Bad('outcome %s' % (p.out,))
                    p.failed = True
                    failure(X, p)
            C.ob('method', 'MaxLike.fit', '%r %s' % (name, state), go)
