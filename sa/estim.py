"""Estimators, their data and documented log-likelihoods."""
from . import terms as tt
from . import arr as A
from .core import dense
from .terms import tm


class Est(object):
    """class path, constructor arguments, data names, outcome axes and the
    per-observation-cell log-likelihood as a function of the data symbols and
    of the model output"""

    def __init__(self, name, cell, data=('N',), args=(), dim=0, ydom='real'):
        self.name, self.cell, self.data = name, cell, data
        self.args, self.dim, self.ydom = args, dim, ydom


def estimators(E):
    s = E.scalar('s', dom='scale')
    r = E.scalar('r', dom='scale')
    mul, add, neg, log, exp, one = (tt.mul, tt.add, tt.neg, tt.log, tt.exp,
                                    tt.ONE)

    def poisson(d, y, z):
        return add(mul(d['X'], y), neg(mul(d['N'], exp(y))))

    def zip_(d, y, z):
        return add(mul(d['X'], y), neg(mul(d['N'], log(add(
            exp(exp(y)), s, neg(one))))))

    def logistic(d, y, z):
        # X successes out of N with probability 1 / (1 + e^-y)
        p = tt.div(one, add(one, exp(neg(y))))
        return add(mul(d['X'], log(p)), mul(add(d['N'], neg(d['X'])),
                                            log(add(one, neg(p)))))

    def finite(d, y, z):
        return mul(d['N'], add(log(y), neg(log(z))))

    def nfinite(d, y, z):
        return mul(d['N'], log(y))

    def negbin(d, y, z):
        m = exp(y)
        return add(mul(d['X'], log(m)), neg(mul(
            add(d['X'], mul(r, d['N'])), log(add(r, m)))))
    return [
        Est('Poisson', poisson, ('N', 'X')),
        Est('ZeroInflatedPoisson', zip_, ('N', 'X', 'Z'), (s,),
            ydom='unit'),
        Est('Logistic', logistic, ('N', 'X')),
        Est('Finite', finite, ('N',), (1,), 1, 'pos'),
        Est('Finite', finite, ('N',), (2,), 2, 'pos'),
        Est('NormalizedFinite', nfinite, ('N',), (1,), 1, 'pos'),
        Est('NormalizedFinite', nfinite, ('N',), (2,), 2, 'pos'),
        Est('NegativeBinomial', negbin, ('N', 'X'), (r,)),
    ]


def build(E, est, nshape, dshape):
    """estimator with symbolic data arrays over the given axes"""
    o = E.new('maxlike.' + est.name, *est.args)
    for nm in est.data:
        dom = 'nonneg'
        a = E.arr(nm, tuple(nshape) + tuple(dshape), dom=dom)
        E.I.setattr(o, nm, E.new('maxlike.tensor.Tensor', a,
                                 dim=len(dshape)))
    return o


def loglike(est, nshape, dshape, y):
    """documented log-likelihood; y(n, d) -> term of the model output"""
    nv = [tt.ivar(z) for z in nshape]
    dv = [tt.ivar(z) for z in dshape]
    zv = [tt.ivar(z) for z in dshape]
    z = y(nv, zv)
    for v in zv:
        z = tt.ssum(v, v.a[1], z)
    data = {nm: tt.sym(nm, tuple(nv + dv)) for nm in est.data}
    t = est.cell(data, y(nv, dv), z)
    for v in dv + nv:
        t = tt.ssum(v, v.a[1], t)
    return t


def total_n(est, nshape, dshape):
    vs = [tt.ivar(z) for z in tuple(nshape) + tuple(dshape)]
    t = tt.sym('N', tuple(vs))
    for v in vs:
        t = tt.ssum(v, v.a[1], t)
    return t


def scalar_term(E, v):
    """term denoted by a rank-0 value"""
    from .core import Bad
    D = dense(E, v)
    if D.groups[0] or D.groups[1]:
        raise Bad('a scalar expected, got derivative axes')
    for g in D.groups[2:]:
        for n in g:
            if not (isinstance(n, int) and n == 1):
                raise Bad('a scalar expected, got axes %s' % (D.shape,))
    return D.at(((), (), tuple(0 for _ in D.groups[2]),
                 tuple(0 for _ in D.groups[3])))
