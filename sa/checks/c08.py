"""C08 sums, products, placements and collapses obey the calculus rules."""
from .. import terms as tt
from .. import arr as A
from ..core import Bad, dense, check_equal
from ..fobl import (P, Sym, func_obligations, check_grad,
                    check_hess)
from ..placed import Term, Config, Built, configs, F, D
from ..terms import tm

LEVEL = 'other'
EXPLANATION = (
    'Sum, Product, FuncWrap and Collapse are interpreted abstractly over '
    'uninterpreted component functions (arbitrary values with formal '
    'derivative symbols, in dense and diagonal-mapped representation); the '
    'value graph is compared with the placed sum/product and every reported '
    'derivative with its formal derivative, for enumerated placements with '
    'axes of symbolic length.')
ASSUMPTIONS = ['real arithmetic', 'placements and ranks enumerated; axis '
               'lengths symbolic', 'each parameter listed at most once per '
               'component']
FLOOR = 150


def check(C):
    C.rule('value', 'the value equals the placed sum / product')
    C.rule('grad', 'grad(i) equals the formal first derivative')
    C.rule('hess', 'hess(i,j) equals the formal second derivative')
    C.rule('eval', 'eval returns value, gradients and lower Hessians')
    E = C.engine()
    S = Sym(E)
    for cfg in configs(C.tier):
        def mk_sum(b):
            f = E.new('maxlike.func.Sum', cfg.n_feat, cfg.n_dim)
            for k, t in enumerate(cfg.terms):
                w = [E.scalar('w%d' % k)] if k else []
                E.m(f, 'add', b.foos[k], t.params, t.feat, t.dims, *w)
            return f

        def mk_prod(b):
            f = E.new('maxlike.func.Product', cfg.n_feat, cfg.n_dim)
            for k, t in enumerate(cfg.terms):
                E.m(f, 'add', b.foos[k], t.params, t.feat, t.dims)
            return f

        def sum_spec(b):
            def spec(nn, dd):
                r = tt.ZERO
                for k in range(len(cfg.terms)):
                    w = tt.sym('w%d' % k, ()) if k else tt.ONE
                    r = tt.add(r, tt.mul(w, b.term(k, nn, dd)))
                return r
            return spec

        def prod_spec(b):
            def spec(nn, dd):
                r = tt.ONE
                for k in range(len(cfg.terms)):
                    r = tt.mul(r, b.term(k, nn, dd))
                return r
            return spec
        for nm, mk, sp in (('Sum', mk_sum, sum_spec),
                           ('Product', mk_prod, prod_spec)):
            b = Built(E, S, cfg, 'param' if len(cfg.terms) == 3 else 'array')
            func_obligations(C, E, lambda: mk(b), lambda: b.ps, nm, str(cfg),
                             b.n, b.d, sp(b))
        if len(cfg.terms) == 1 or cfg.n_dim:
            k = len(cfg.terms) - 1
            t = cfg.terms[k]
            b = Built(E, S, cfg)

            def mkw():
                return E.new('maxlike.func.FuncWrap', b.foos[k], t.params,
                             t.feat, cfg.n_feat, t.dims, cfg.n_dim)
            func_obligations(C, E, mkw, lambda: b.ps, 'FuncWrap', str(cfg),
                             b.n, b.d, lambda nn, dd: b.term(k, nn, dd))
    # placement with reversed features
    for cfg in (Config(1, 0, [['u']], [Term('dense', [0], [0], (), None,
                                            [0])]),
                Config(2, 1, [['u'], ['v']], [Term(
                    'dense', [1, 0], [1, 0], [0], None, [1])]),
                Config(2, 0, [['F0']], [Term('elem', [0], [0], (), None,
                                             [1])])):
        t = cfg.terms[0]
        b = Built(E, S, cfg)

        def mkf():
            return E.new('maxlike.func.FuncWrap', b.foos[0], t.params,
                         t.feat, cfg.n_feat, t.dims, cfg.n_dim, t.flip)
        func_obligations(C, E, mkf, lambda: b.ps, 'FuncWrap(flip)', str(cfg),
                         b.n, b.d, lambda nn, dd: b.term(0, nn, dd))
    # constant and linear components (null derivatives)
    for nm in ('Sum', 'Product'):
        def ps_of():
            return [P(E, 'p0', ('F0',)), P(E, 'p1', ('F1',)), P(E, 'p2', ())]

        def mk():
            f = E.new('maxlike.func.' + nm, 2)
            E.m(f, 'add', E.new('maxlike.func.X'), 0, 0)
            E.m(f, 'add', E.m(E.new('maxlike.func.X'), '__neg__'), 1, 1)
            E.m(f, 'add', E.new('maxlike.func.Scalar'), 2, [])
            E.m(f, 'add', E.new('maxlike.func.Constant',
                                E.arr('c', ('F1',))), [], 1)
            E.m(f, 'add', E.new('maxlike.func.Exp'), [1], [1])
            E.m(f, 'add', E.new('maxlike.func.Vector',
                                E.arr('c2', ('F0',))), [2], [0])
            return f

        def spec(nn, dd):
            a, b_, c = (tt.sym('p0', (nn[0],)), tt.sym('p1', (nn[1],)),
                        tt.sym('p2', ()))
            ts = [a, tt.neg(b_), c, tt.sym('c', (nn[1],)), tt.exp(b_),
                  tt.mul(c, tt.sym('c2', (nn[0],)))]
            return tt.add(*ts) if nm == 'Sum' else tt.mul(*ts)
        func_obligations(C, E, mk, ps_of, nm, 'library components', (F(0),
                         F(1)), (), spec)
    # linear components reading several parameters listed in any order
    for pm in ([0, 1, 2], [2, 1, 0], [1, 2, 0], [2, 0], [1, 0], [0, 2]):
        for nm in ('Sum', 'Product', 'FuncWrap'):
            def ps_of():
                return [P(E, 'p0', ('F0',)), P(E, 'p1', ()),
                        P(E, 'p2', ('F1',))]

            def mk():
                lin = E.new('maxlike.func.Linear',
                            [E.scalar('w%d' % k) for k in range(len(pm))])
                if nm == 'FuncWrap':
                    return E.new('maxlike.func.FuncWrap', lin, pm, [], 1)
                f = E.new('maxlike.func.' + nm, 1)
                E.m(f, 'add', lin, pm, [])
                E.m(f, 'add', E.new('maxlike.func.Exp'), 0, 0)
                return f

            def spec(nn, dd):
                r = tt.ZERO
                for k, q in enumerate(pm):
                    if q == 1:
                        x = tt.sym('p1', ())
                    else:
                        v = tt.ivar(F(q // 2))
                        x = tt.ssum(v, v.a[1], tt.sym('p%d' % q, (v,)))
                    r = tt.add(r, tt.mul(tt.sym('w%d' % k, ()), x))
                e = tt.exp(tt.sym('p0', (nn[0],)))
                return r if nm == 'FuncWrap' else \
                    tt.add(r, e) if nm == 'Sum' else tt.mul(r, e)
            func_obligations(C, E, mk, ps_of, nm, 'linear component of %s' %
                             pm, (F(0),), (), spec)
    # one-term and empty products / sums
    collapse(C, E, S)
    many(C, E, S)


def many(C, E, S):
    """more parameters than anything in the library reads, in any order"""
    T_ = Term
    sh = [['u'], ['F0'], [], ['v'], ['F0'], ['w'], []]
    cfgs = [
        Config(1, 0, sh, [T_('dense', [5, 0, 6, 3, 2], [0]),
                          T_('elem', [4, 1], [0]),
                          T_('dense', [6, 1, 4], [0])]),
        Config(2, 1, sh, [T_('dense', [3, 6, 0, 5], [1], [0]),
                          T_('elem', [1], [0]), T_('elem', [4], [0], [0]),
                          T_('dense', [2, 6], []),
                          T_('dense', [0], [1, 0], [0])]),
    ]
    for cfg in cfgs:
        np_ = len(cfg.shapes)
        b = Built(E, S, cfg, 'param')

        def fill(cls):
            f = E.new('maxlike.func.' + cls, cfg.n_feat, cfg.n_dim)
            for k, t in enumerate(cfg.terms):
                E.m(f, 'add', b.foos[k], t.params, t.feat, t.dims)
            return f

        def tot(op):
            return lambda nn, dd: op(*[b.term(k, nn, dd) for k in range(
                len(cfg.terms))])
        for nm, op in (('Sum', tt.add), ('Product', tt.mul)):
            pairs(C, E, lambda: fill(nm), b, nm, 'seven parameters %s' % cfg,
                  b.n, b.d, tot(op))
        pm = [4, 2, 6, 0, 3, 5, 1]
        # the outer function lists the parameters in another order
        out = [P(E, b.ps[q].name, sh[q], 'param') for q in pm]
        inv = [pm.index(k) for k in range(np_)]

        def wrap():
            return E.new('maxlike.func.FuncWrap', fill('Sum'), inv,
                         list(range(cfg.n_feat)), cfg.n_feat,
                         list(range(cfg.n_dim)), cfg.n_dim)
        bb = Built(E, S, cfg, 'param')
        bb.ps = out
        pairs(C, E, wrap, bb, 'FuncWrap', 'seven parameters %s' % cfg, b.n,
              b.d, tot(tt.add))

        def coll():
            return E.new('maxlike.func.Collapse', fill('Product'))

        def cspec(nn, dd):
            nn = [tt.ivar(F(k)) for k in range(cfg.n_feat)]
            dd = [tt.ivar(D(k)) for k in range(cfg.n_dim)]
            r = tot(tt.mul)(nn, dd)
            for v in nn + dd:
                r = tt.ssum(v, v.a[1], r)
            return r
        pairs(C, E, coll, b, 'Collapse', 'seven parameters %s' % cfg, (),
              (), cspec)


def pairs(C, E, mk, b, nm, case, n, d, spec):
    """value, every gradient and Hessian block, and eval"""
    quick = C.tier == 'quick'
    func_obligations(C, E, mk, lambda: b.ps, nm, case, n, d, spec,
                     grad=True, hess=not quick, eval_=False)

    def ev():
        f = mk()
        k = len(b.ps)
        v, g, h = E.m(f, 'eval', [p.v for p in b.ps])
        check_equal(dense(E, v), ((), (), n, d),
                    lambda x, y, nn, dd: spec(nn, dd))
        if len(g) != k or len(h) != k:
            raise Bad('%d gradients and %d Hessian rows for %d parameters' %
                      (len(g), len(h), k))
        for i in range(k):
            check_grad(E, f, b.ps, i, n, d, spec, g[i])
            for j in range(i + 1):
                check_hess(E, f, b.ps, i, j, n, d, spec, h[i][j])
    C.ob('eval', nm, case, ev)
    if quick:
        for i, j in ((6, 0), (5, 3), (3, 3), (4, 1), (6, 5)):
            C.ob('hess', nm, '%s,i=%d,j=%d' % (case, i, j),
                 lambda: check_hess(E, mk(), b.ps, i, j, n, d, spec))


def collapse(C, E, S):
    cases = [(True, True), (False, True), (True, False), (0, True),
             ([1], True), ([0, 1], True), (1, False), (0, False),
             (False, False)]
    cfgs = [Config(2, 1, [['F0'], ['u']], [Term('elem', [0], [0], [0]),
                                           Term('dense', [1], [1, 0], [0])]),
            Config(2, 2, [['F0'], ['F1']], [Term('elem', [0], [0], [0]),
                                            Term('elem', [1], [1], [1])]),
            Config(2, 0, [['u']], [Term('dense', [0], [0, 1])]),
            Config(2, 1, [['F1', 'F0']], [Term('elem', [0], [1, 0], [0])])]
    for cfg in cfgs:
        for sv, sd in cases:
            b = Built(E, S, cfg)
            prod = len(cfg.terms) > 1

            def inner():
                f = E.new('maxlike.func.Product', cfg.n_feat, cfg.n_dim)
                if not prod:
                    t = cfg.terms[0]
                    return b.foos[0] if t.feat == sorted(t.feat) else \
                        E.m(f, 'add', b.foos[0], t.params, t.feat, t.dims)
                for k, t in enumerate(cfg.terms):
                    E.m(f, 'add', b.foos[k], t.params, t.feat, t.dims)
                return f

            def mk():
                return E.new('maxlike.func.Collapse', inner(),
                             sum_val=sv, sum_dim=sd)
            gone = list(range(cfg.n_feat)) if sv is True else \
                [] if sv is False else [sv] if isinstance(sv, int) else sv
            keep = [k for k in range(cfg.n_feat) if k not in gone]
            n = tuple(F(k) for k in keep)
            d = () if sd is True else b.d

            def spec(nn, dd):
                full = [None] * cfg.n_feat
                for k, i in zip(keep, nn):
                    full[k] = i
                ivs = []
                for k in gone:
                    v = tt.ivar(F(k))
                    full[k] = v
                    ivs.append(v)
                if sd is True:
                    dd = [tt.ivar(D(k)) for k in range(cfg.n_dim)]
                    ivs += dd
                r = tt.ONE
                for k in range(len(cfg.terms)):
                    r = tt.mul(r, b.term(k, full, dd))
                for v in ivs:
                    r = tt.ssum(v, v.a[1], r)
                return r
            func_obligations(C, E, mk, lambda: b.ps, 'Collapse',
                             'sum_val=%s,sum_dim=%s,%s' % (sv, sd, cfg),
                             n, d, spec)
