"""C10 the maximised objective is the documented log-likelihood."""
from .. import terms as tt
from .. import valnum
from ..core import Bad, dense
from ..estim import estimators, build, loglike, total_n, scalar_term
from ..fobl import P, Sym
from ..terms import tm

LEVEL = 'other'
EXPLANATION = (
    'like() of every estimator is interpreted abstractly for data and model '
    'output arrays of symbolic length; its value graph is differentiated '
    'formally with respect to every entry of the model output and compared '
    'with the derivative of the documented log-likelihood, which decides '
    'equality up to terms free of the model output. g() is compared with '
    '(like - penalties) / total observations over uninterpreted models and '
    'penalties.')
ASSUMPTIONS = ['real arithmetic', 'feature axes enumerated 0..2, outcome '
               'axes as documented']
FLOOR = 30


def check(C):
    C.rule('like', 'derivative with respect to the model output equals that '
           'of the documented log-likelihood')
    C.rule('free', 'parameters enter the likelihood only through the model '
           'output')
    C.rule('objective', 'g = (like - penalties) / N.sum()')
    E = C.engine()
    S = Sym(E)
    names = ['u', 'v', 'w']
    top = 3 if C.tier == 'quick' else 4
    for est in estimators(E):
        for rk in range(0, top):
            n = tuple(tt.size(z) for z in names[:rk])
            d = tuple(tt.size('e%d' % k) for k in range(est.dim))
            case = 'features=%d,outcomes=%d' % (rk, est.dim)

            def like():
                o = build(E, est, n, d)
                y = E.new('maxlike.tensor.Tensor', E.arr(
                    'y', n + d, dom=est.ydom), dim=len(d))
                ps = [E.new('maxlike.maxlike_base.Param', E.arr('p', n))]
                got = scalar_term(E, E.m(o, 'like', ps, y))
                exp = loglike(est, n, d, lambda nn, dd: tt.sym(
                    'y', tuple(nn) + tuple(dd)))
                idx = tuple(tt.ivar(z) for z in n + d)
                w = valnum.compare(tt.diff(got, 'y', idx),
                                   tt.diff(exp, 'y', idx), idx,
                                   tuple(tm(z) for z in n + d))
                if w:
                    raise Bad(
                        'd like / d y at %s: got %.12g, documented %.12g; '
                        'graph %s' % (w['position'], w['got'], w['expected'],
                                      w['got_term'][:300]))
                pi = tuple(tt.ivar(z) for z in n)
                w = valnum.compare(tt.diff(got, 'p', pi), tt.ZERO, pi,
                                   tuple(tm(z) for z in n))
                if w:
                    raise Bad('the likelihood reads the parameters directly')
            C.ob('like', est.name, case, like)
        for regs in ([], [([0], None)], [([1, 0], None), ([0], None)],
                     [(1, None), ([0, 1], None)],
                     [([0], None), (1, None), ([1, 0], None), ([0, 1], None),
                      (0, None), ([1], None)]):
            for given in (True, False):
                n = (tt.size('u'),)
                d = tuple(tt.size('e%d' % k) for k in range(est.dim))

                def objective():
                    o = build(E, est, n, d)
                    ps = [P(E, 'p0', ('u',), 'param'),
                          P(E, 'p1', (), 'param')]
                    pv = tuple(p.v for p in ps)
                    f, sp = S.make('f', 'dense', n, d, dom=est.ydom)
                    E.I.setattr(o, 'model', f)
                    pen = []
                    for pm, _ in regs:
                        h, hs = S.make('h', 'dense')
                        E.m(o, 'add_regularization', pm, h)
                        lst = [pm] if isinstance(pm, int) else pm
                        pen.append(hs.v(hs.arg_id([pv[k] for k in lst]),
                                        ()))
                    y = E.call(f, pv)
                    got = scalar_term(E, E.m(o, 'g', pv, y) if given else
                                      E.m(o, 'g', pv))
                    lk = scalar_term(E, E.m(o, 'like', pv, y))
                    exp = tt.div(tt.add(lk, *[tt.neg(z) for z in pen]),
                                 total_n(est, n, d))
                    w = valnum.compare(got, exp)
                    if w:
                        raise Bad('objective %.12g, expected %.12g; graph %s'
                                  % (w['got'], w['expected'],
                                     w['got_term'][:300]))
                C.ob('objective', est.name, 'outcomes=%d,penalties=%s,y %s' % (
                    est.dim, [z[0] for z in regs],
                    'given' if given else 'computed'), objective)
