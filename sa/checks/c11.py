"""C11 likelihood gradient and Hessian are exact derivatives."""
from .. import terms as tt
from .. import valnum
from ..core import Bad, dense, check_equal
from ..estim import estimators, build, loglike, scalar_term
from ..fobl import P, Sym
from ..placed import Term, Config, Built, F, D
from ..terms import tm

LEVEL = 'other'
EXPLANATION = (
    'grad_like() and hess_like() of every estimator are interpreted '
    'abstractly over uninterpreted models in every tensor representation '
    '(dense, diagonal-mapped, lazy sums) with data arrays of symbolic '
    'length; each block is compared with the formal derivative of the value '
    'graph of like().')
ASSUMPTIONS = ['real arithmetic', 'model shapes enumerated; axis lengths '
               'symbolic']
FLOOR = 60


def models(tier, dim):
    T_ = Term
    if dim == 0:
        out = [
            ('dense', Config(1, 0, [['u'], []], [
                T_('dense', [0, 1], [0])]), 'raw'),
            ('dense', Config(2, 0, [['u']], [
                T_('dense', [0], [0, 1])]), 'raw'),
            ('mapped', Config(1, 0, [['F0']], [T_('elem', [0], [0])]),
             'raw'),
            ('mapped', Config(2, 0, [['F1', 'F0']], [
                T_('elem', [0], [1, 0])]), 'Sum'),
            ('placed', Config(2, 0, [['F0'], ['F1'], []], [
                T_('elem', [0], [0]), T_('elem', [1], [1]),
                T_('dense', [2], [])]), 'Sum'),
            ('lazy', Config(2, 0, [['F0'], ['F1']], [
                T_('elem', [0], [0]), T_('dense', [0, 1], [1])]), 'Sum'),
            ('lazy', Config(2, 0, [['F0'], ['F0']], [
                T_('elem', [0], [0]), T_('elem', [0], [1]),
                T_('elem', [1], [1])]), 'Square'),
            ('product', Config(2, 0, [['F0'], ['F1']], [
                T_('elem', [0], [0]), T_('elem', [1], [1])]), 'Product'),
            ('five', Config(2, 0, [['F0'], [], ['F1'], ['u'], []], [
                T_('elem', [2], [1]), T_('dense', [4, 0, 3], [0]),
                T_('elem', [0], [0]), T_('dense', [1, 3], [])]), 'Sum'),
        ]
    else:
        dd = list(range(dim))
        out = [
            ('dense', Config(1, dim, [['u'], []], [
                T_('dense', [0, 1], [0], dd)]), 'raw'),
            ('dense', Config(2, dim, [['u']], [
                T_('dense', [0], [0, 1], dd)]), 'raw'),
            ('mapped', Config(1, dim, [['F0']], [
                T_('elem', [0], [0], dd)]), 'raw'),
            ('product', Config(2, dim, [['F0'], ['F1']], [
                T_('elem', [0], [0], dd[:1]),
                T_('elem', [1], [1], dd[-1:])]), 'Product'),
            ('sum', Config(2, dim, [['F0'], ['F1']], [
                T_('elem', [0], [0], dd[:1]),
                T_('elem', [1], [1], dd[-1:])]), 'Sum'),
            ('five', Config(1, dim, [['F0'], [], ['u'], ['v'], []], [
                T_('dense', [4, 0, 3], [0], dd),
                T_('elem', [0], [0], dd[:1]),
                T_('dense', [2, 1], [], dd[-1:])]), 'Sum'),
            ('lazy', Config(2, dim, [['F0'], ['F1']], [
                T_('elem', [0], [0], dd),
                T_('dense', [0, 1], [1], dd)]), 'Sum'),
        ]
    return out


def check(C):
    C.rule('grad', 'grad_like[i] is the derivative of like')
    C.rule('hess', 'hess_like[i][j] is the second derivative of like')
    E = C.engine()
    S = Sym(E)
    for est in estimators(E):
        for nm, cfg, how in models(C.tier, est.dim):
            instance(C, E, S, est, nm, cfg, how)


def instance(C, E, S, est, nm, cfg, how):
    b = Built(E, S, cfg, 'param')
    for s in b.specs:
        s.dom = 'plus' if est.ydom == 'pos' or how == 'Product' else 'half'
        for a in range(len(s.ids)):
            s.declare(a)
    n, d = b.n, b.d
    if how == 'Square':
        n = (F(0), F(0))
    case = '%s,%s %s' % (nm, how, cfg)
    st = C.memo()

    def setup():
        if st:
            return st
        o = build(E, est, n, d)
        pv = tuple(p.v for p in b.ps)
        if how == 'raw':
            f = b.foos[0]
        else:
            f = E.new('maxlike.func.' + ('Product' if how == 'Product'
                                         else 'Sum'), cfg.n_feat, cfg.n_dim)
            for k, t in enumerate(cfg.terms):
                E.m(f, 'add', b.foos[k], t.params, t.feat, t.dims)
        y, der, hess = E.m(f, 'eval', pv)
        st.update(o=o, pv=pv, y=y, der=der, hess=hess)
        st['like'] = scalar_term(E, E.m(o, 'like', pv, y))
        return st

    def grad(i):
        s = setup()
        g = E.m(s['o'], 'grad_like', s['pv'], s['y'], list(s['der']))
        if not isinstance(g, list) or len(g) != len(b.ps):
            raise Bad('no list of %d gradients' % len(b.ps))
        check_equal(dense(E, g[i]), (b.ps[i].shape, (), (), ()),
                    lambda x, y, nn, dd: tt.diff(s['like'], b.ps[i].name,
                                                 tuple(tm(k) for k in x)))

    def hess(i, j):
        s = setup()
        h = E.m(s['o'], 'hess_like', s['pv'], s['y'], list(s['der']),
                s['hess'])
        if len(h) != len(b.ps) or any(len(h[k]) <= k for k in
                                      range(len(b.ps))):
            raise Bad('no lower triangle of Hessians')
        check_equal(dense(E, h[i][j]),
                    (b.ps[i].shape, b.ps[j].shape, (), ()),
                    lambda x, y, nn, dd: tt.diff(tt.diff(
                        s['like'], b.ps[i].name, tuple(tm(k) for k in x)),
                        b.ps[j].name, tuple(tm(k) for k in y)))
    for i in range(len(b.ps)):
        C.ob('grad', est.name, '%s,i=%d' % (case, i), lambda: grad(i))
        for j in range(i + 1):
            C.ob('hess', est.name, '%s,i=%d,j=%d' % (case, i, j),
                 lambda: hess(i, j))
