"""C02 count distributions."""
from .. import terms as tt
from ..fobl import P, func_obligations
from ..terms import tm

LEVEL = 'other'
EXPLANATION = (
    'The truncated Poisson, log negative binomial and negative binomial '
    'functions are interpreted abstractly for symbolic size, dispersion, mean '
    'and feature shape; the value graph at a symbolic (feature, outcome) '
    'position is compared with the documented formula and each derivative '
    'with its formal derivative.')
ASSUMPTIONS = ['real arithmetic', 'positive mean and dispersion',
               'size at least 3 when symbolic (sizes 1 and 2 separately)']
FLOOR = 30
NAMES = ['a', 'b', 'c', 'd']


def poisson(p, k):
    return tt.div(tt.power(p, k), tt.fn('factorial', k))


def lognb(p, k, r):
    g = lambda z: tt.fn('gammaln', z)
    return tt.add(
        g(tt.add(r, k)), tt.neg(g(r)), tt.neg(tt.log(tt.fn('factorial', k))),
        tt.mul(k, tt.log(p)), tt.mul(r, tt.log(r)),
        tt.neg(tt.mul(tt.add(k, r), tt.log(tt.add(r, p)))))


def check(C):
    C.rule('value', 'the value graph equals the documented formula')
    C.rule('grad', 'grad(i) equals the formal first derivative of the value')
    C.rule('hess', 'hess(i,j) equals the formal second derivative')
    C.rule('eval', 'eval returns value, all gradients and the lower Hessians')
    E = C.engine()
    ranks = range(0, 3) if C.tier == 'quick' else range(0, 4)
    sizes = [tt.size('size'), 1, 2, 24] if C.tier == 'quick' else \
        [tt.size('size'), 1, 2, 3, 4, 5, 24, 60]
    r_ = E.scalar('r', dom='pos')
    for size in sizes:
        for rk in ranks:
            for kind in ('array', 'tensor', 'param') + (
                    ('number',) if rk == 0 else ()):
                if size in (24, 60) and (rk > 1 or kind != 'array'):
                    continue
                shp = NAMES[:rk]
                sh = tuple(tt.size(s) for s in shp)
                case = 'size=%s,rank=%d,%s' % (
                    size if isinstance(size, int) else 'n', rk, kind)

                def ps_of():
                    return [P(E, 'p', shp, kind, dom='pos')]

                def pv(nn):
                    return tt.sym('p', tuple(tm(k) for k in nn))
                func_obligations(
                    C, E, lambda: E.new('maxlike.func.Poisson', size),
                    ps_of, 'Poisson', case, sh, (size,),
                    lambda nn, dd: poisson(pv(nn), tm(dd[0])))
                func_obligations(
                    C, E, lambda: E.new('maxlike.func.LogNegativeBinomial',
                                        size, r_),
                    ps_of, 'LogNegativeBinomial', case, sh, (size,),
                    lambda nn, dd: lognb(pv(nn), tm(dd[0]), r_))
                func_obligations(
                    C, E, lambda: E.call(
                        E.get('maxlike.func.NegativeBinomial'), size, r_),
                    ps_of, 'NegativeBinomial', case, sh, (size,),
                    lambda nn, dd: tt.exp(lognb(pv(nn), tm(dd[0]), r_)),
                    grad=(rk < 2), hess=(rk < 2))
    # default arguments
    for nm, form in (('Poisson', lambda p, k: poisson(p, k)),
                     ('LogNegativeBinomial',
                      lambda p, k: lognb(p, k, tt.ONE))):
        func_obligations(
            C, E, lambda: E.new('maxlike.func.' + nm),
            lambda: [P(E, 'p', ('a',), 'array', dom='pos')],
            nm, 'defaults', (tt.size('a'),), (10,),
            lambda nn, dd: form(tt.sym('p', (tm(nn[0]),)), tm(dd[0])))
