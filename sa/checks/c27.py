"""C27 search directions of fit."""
from .. import terms as tt
from .. import arr as A
from ..core import Bad
from ..fitpaths import Explorer, LONG
from ..terms import tm

LEVEL = 'other'
EXPLANATION = (
    'All paths of fit over an uninterpreted model and likelihood are '
    'enumerated for small step limits; every point at which the objective or '
    'its derivatives are evaluated is a term over the gradient and Hessian '
    'symbols of the previous points and is compared with the point the '
    'method prescribes.')
ASSUMPTIONS = ['step limits: Newton 1..2 (quick), 1..3 (thorough), Broyden '
               '1..4 (quick), 1..5 (thorough)',
               'two parameters with a fixed entry, 0 or 1 constraint',
               'linear algebra routines compared by their numeric meaning']
FLOOR = 8


def check(C):
    C.rule('newton', 'trial points are the current point minus a halving of '
           'the parameter part of solve(Hessian, gradient) at that point')
    C.rule('broyden', 'each point is the previous one minus J gradient, J '
           'starting from the inverse curvature and updated by the secant '
           'formula')
    E = C.engine()
    shapes, masks = [(2,), ()], [(0, 1), None]
    top = 2 if C.tier == 'quick' else 3
    for cons in (0, 1):
        X = Explorer(E, shapes, masks, cons, maxdec=200, faults=False)
        for steps in range(1, top + 1):
            case = 'max_steps=%d constraints=%d' % (steps, cons)
            C.ob('newton', 'MaxLike.fit', case,
                 lambda: newton(X, steps))
        for steps in range(1, 5 if C.tier == 'quick' else 6):
            for state in ('fresh', 'converged', 'failed', 'reshaped'):
                case = 'max_steps=%d history=%s constraints=%d' % (
                    steps, state, cons)
                C.ob('broyden', 'MaxLike.fit', case,
                     lambda: broyden(X, steps, state))
        X = Explorer(E, shapes, masks, cons, maxdec=2000, faults=False)
        for name, steps, values, tol in LONG:
            case = 'long fit (%s) constraints=%d' % (name, cons)
            C.ob('newton', 'MaxLike.fit', case, lambda: newton(
                X, steps, [X.follow('newton', steps, values, tol)]))
            n = min(steps, 10)
            C.ob('broyden', 'MaxLike.fit', case, lambda: broyden(
                X, n, 'fresh', [X.follow('broyden', n, values, tol)]))


def grad(X, q):
    out = [tt.sym('D%d_%d' % (q, k), tuple(tm(z) for z in pos))
           for k, pos in X.ps.all_free()]
    return out + [tt.sym('cval%d' % q, ())] * X.cons


def hess(X, q):
    fr = X.ps.all_free()
    n = X.n
    H = [[tt.ZERO] * n for _ in range(n)]
    for i, (k, u) in enumerate(fr):
        for j, (l, v) in enumerate(fr):
            a, b, c, d = (k, u, l, v) if k > l or (k == l and u <= v) else \
                (l, v, k, u)
            H[i][j] = tt.sym('H%d_%d%d' % (q, a, c), tuple(
                tm(z) for z in b + d))
        for c in range(len(fr), n):
            H[i][c] = H[c][i] = tt.sym('cgrad%d' % k, tuple(
                tm(z) for z in u))
    return H


def mat(rows):
    return A.from_obj(obj(rows))


def obj(rows):
    import numpy as np
    n = np.empty((len(rows),) + ((len(rows[0]),) if isinstance(
        rows[0], list) else ()), dtype=object)
    for i, r in enumerate(rows):
        if isinstance(r, list):
            for j, x in enumerate(r):
                n[i, j] = x
        else:
            n[i] = r
    return n


def free(X, p, q):
    """free entries of point q"""
    e = p.points[q]
    out = []
    k = 0
    for i in range(len(X.shapes)):
        f = set(X.ps.free(i))
        for pos in X.ps.positions(i):
            if pos in f:
                out.append(e[k])
            k += 1
    return out


def newton(X, steps, paths=None):
    dirs = {}
    for p in paths or X.paths('newton', steps):
        cur, trials = None, []
        for kind, q in p.events:
            if kind == 'd':
                if q != cur:
                    cur, trials = q, []
                continue
            if cur is None or q == cur or q in trials:
                continue
            key = (tuple(p.points[cur]), tuple(p.points[q]), cur,
                   len(trials))
            if key not in dirs:
                dirs[key] = scaled(X, p, cur, q, len(trials))
            if not dirs[key]:
                raise Bad('trial point %d is not the current point minus '
                          '1/2**%d of the Newton step: %s' % (
                              len(trials) + 1, len(trials), [
                                  tt.show(t)[:150] for t in free(X, p, q)]))
            trials.append(q)


def scaled(X, p, cur, q, k):
    s = A.opaque('solve', [mat(hess(X, cur)), mat(grad(X, cur))],
                 (X.n,)).reader()
    x, y = free(X, p, cur), free(X, p, q)
    m = tt.const(0.5 ** k)
    return all(X.equal(b, tt.add(a, tt.neg(tt.mul(m, s((i,))))))
               for i, (a, b) in enumerate(zip(x, y)))


def broyden(X, steps, state, paths=None):
    for p in paths or X.paths('broyden', steps, 0, state):
        pts = []
        for kind, q in p.events:
            if not pts or pts[-1] != q:
                pts.append(q)
        n = X.n
        J = None
        for a, b in zip(pts, pts[1:]):
            g = grad(X, a)
            if J is None:
                if state == 'converged':
                    H = [[tt.sym('H_old', (tm(i), tm(j))) for j in range(n)]
                         for i in range(n)]
                else:
                    H = hess(X, a)
                rd = A.opaque('pinvh', [mat(H)], (n, n)).reader()
                J = [[rd((i, j)) for j in range(n)] for i in range(n)]
            else:
                y = [tt.add(u, tt.neg(v)) for u, v in zip(g, last)]
                yy = tt.add(*[tt.mul(u, u) for u in y])
                r = [tt.add(step[i], tt.neg(dot(J[i], y))) for i in range(n)]
                J = [[tt.add(J[i][j], tt.div(tt.mul(r[i], y[j]), yy))
                      for j in range(n)] for i in range(n)]
            step = [tt.neg(dot(J[i], g)) for i in range(n)]
            last = g
            x, y2 = free(X, p, a), free(X, p, b)
            for i, (u, v) in enumerate(zip(x, y2)):
                if not X.equal(v, tt.add(u, step[i])):
                    raise Bad('the point after %d step(s) is not the secant '
                              'step: entry %d is %s' %
                              (pts.index(b), i, tt.show(v)[:300]))


def dot(a, b):
    return tt.add(*[tt.mul(x, y) for x, y in zip(a, b)])
