"""C09 composition obeys the chain rule."""
from .. import terms as tt
from .. import arr as A
from ..core import Bad, dense
from ..fobl import P, Sym, func_obligations
from ..terms import tm

LEVEL = 'other'
EXPLANATION = (
    'Compose is interpreted abstractly over uninterpreted outer and inner '
    'functions with formal derivative symbols (dense and diagonal-mapped '
    'representations, one to five inner functions, one to five '
    'parameters) and over compositions of library functions; the value '
    'graph is compared with the outer function applied to the inner values '
    'and every reported derivative with the formal chain rule derivative.')
ASSUMPTIONS = ['real arithmetic', 'ranks and numbers of functions '
               'enumerated; axis lengths symbolic']
FLOOR = 100


def check(C):
    C.rule('value', 'outer function evaluated at the inner values')
    C.rule('grad', 'first-order chain rule')
    C.rule('hess', 'second-order chain rule with all cross terms')
    C.rule('eval', 'eval agrees')
    E = C.engine()
    S = Sym(E)
    symbolic(C, E, S)
    library(C, E, S)


def symbolic(C, E, S):
    # (outer kind, outer value axes, outer outcome axes,
    #  [(inner kind, value axes, outcome axes)], [parameter shapes])
    D, L = 'dense', 'elem'
    cases = [
        (D, (), (), [(D, (), ())], [()]),
        (D, (), (), [(D, ('s',), ())], [('u',)]),
        (D, ('n',), (), [(D, ('s',), ())], [('u',)]),
        (D, ('n', 'm'), (), [(D, ('s', 't'), ())], [('u',)]),
        (D, ('n',), ('e',), [(D, ('s',), ())], [('u', 'v')]),
        (D, ('n',), ('e',), [(D, ('s',), ('t',))], [('u',)]),
        (D, (), ('e', 'g'), [(D, ('s',), ('t',))], [('u',), ()]),
        (D, ('n',), (), [(D, ('s',), ()), (D, ('t',), ())], [('u',)]),
        (D, ('n',), (), [(D, ('s',), ()), (D, (), ())], [('u',), ('v',)]),
        (D, ('n',), ('e',), [(D, ('s',), ()), (D, ('t', 'w'), ())],
         [('u',), ('v',)]),
        (L, (), (), [(D, ('s',), ())], [('u',)]),
        (L, (), (), [(D, ('s', 't'), ())], [('u',), ('v',)]),
        (L, (), ('e',), [(D, ('s',), ())], [('u',), ('v',)]),
        (L, (), ('e', 'g'), [(D, ('s', 't'), ())], [('u',)]),
        (L, (), ('e',), [(D, ('s',), ()), (D, ('s',), ())],
         [('u',), ('v',)]),
        (L, (), (), [(L, (), ())], [('u',)]),
        (L, (), (), [(L, (), ())], [('u', 'v')]),
        (L, (), ('e',), [(L, (), ())], [('u', 'v')]),
        (L, (), ('e',), [(L, (), ()), (L, (), ())], [('u',), ('u',)]),
        (L, (), ('e',), [(L, (), ()), (D, ('u',), ())], [('u',), ('u',)]),
        (D, ('n',), (), [(L, (), ())], [('u',)]),
        (D, ('n',), ('e',), [(L, (), ())], [('u', 'v')]),
        (D, ('n',), (), [(L, (), ()), (L, (), ())], [('u',), ('u',)]),
        (D, ('n',), (), [(L, (), ('e',)), (D, ('t',), ())], [('u',),
                                                             ('u',)]),
        # more inner functions than the library composes
        (D, ('n',), (), [(D, (), ()), (D, ('s',), ()), (D, (), ()),
                         (D, (), ()), (D, ('t',), ())], [('u',), ()]),
        (L, (), ('e',), [(L, (), ())] * 5, [('u',), ('u',)]),
        # many parameters
        (D, ('n',), (), [(D, (), ()), (D, ('t',), ())],
         [('u',), (), ('v',), (), ('w',)]),
    ]
    if C.tier != 'quick':
        cases += [
            (D, ('n',), (), [(D, ('s',), ()), (D, ('t',), ()),
                             (D, (), ())], [('u',), ('v',), ()]),
            (L, (), ('e',), [(L, (), ()), (L, (), ()), (L, (), ())],
             [('u',), ('u',)]),
            (D, ('n', 'm'), ('e',), [(D, ('s', 't'), ('w',))],
             [('u', 'v')]),
            (L, (), ('e',), [(D, ('s', 't'), ()), (D, ('s', 't'), ())],
             [('u', 'v'), ('w',)]),
            (L, (), ('e',), [(L, (), ()), (L, (), ())],
             [('u', 'v'), ('u', 'v')]),
            (D, (), ('e', 'g'), [(D, ('s',), ()), (D, ('t',), ())],
             [('u', 'w'), ('v',)]),
            (L, (), (), [(D, ('s', 't', 'w'), ())], [('u',)]),
        ]
    for ok, on, od, inner, pshapes in cases:
        for kind in ('array',) if C.tier == 'quick' else ('array', 'param'):
            inst(C, E, S, ok, on, od, inner, pshapes, kind)


def inst(C, E, S, ok, on, od, inner, pshapes, kind):
    ps = [P(E, 'p%d' % k, s, kind) for k, s in enumerate(pshapes)]
    f, fs = S.make('f', ok, on, od)
    gs, ids = [], []
    for k, (ik, n_, d_) in enumerate(inner):
        g, s = S.make('g', ik, n_, d_)
        gs.append(g)
    vals = [E.call(g, [p.v for p in ps]) for g in gs]
    fid = fs.arg_id(vals)
    n, d = fs.nshape(fid), fs.d
    case = '%s%s%s over %s, params %s%s' % (
        ok, list(on), list(od), '; '.join('%s%s%s' % (k, list(a), list(b))
                                          for k, a, b in inner),
        '/'.join(''.join(s) or '-' for s in pshapes),
        '' if kind == 'array' else ',' + kind)

    def mk():
        return E.new('maxlike.func.Compose', f,
                     list(gs) if len(gs) > 1 else gs[0])
    func_obligations(C, E, mk, lambda: ps, 'Compose', case, n, d,
                     lambda nn, dd: fs.v(fid, tuple(nn) + tuple(dd)))


SRC = '''
from maxlike.func import *
from maxlike.func.tennis import Game, TieBreak, Set


def additive(n=2, scale=1):
    f = Sum(n)
    f.add(X(), 0, 0)
    f.add(X() * scale, 1, 1)
    f.add(Scalar(), 2, [])
    return f


def poisson(size):
    return Poisson(size) @ Exp() @ additive()


def lognb(size, r):
    return LogNegativeBinomial(size, r) @ Exp() @ additive()


def nb(size, r):
    return NegativeBinomial(size, r) @ Exp() @ additive()


def logistic():
    return Logistic() @ additive(2, -1)


def arctan():
    return Sigmoid('arctan') @ additive(2, -1)


def log_of_sum():
    f = Sum(2)
    f.add(Exp() @ additive(), [0, 1, 2], [0, 1])
    f.add(Exp() @ additive(2, -1), [0, 1, 2], [1, 0])
    return Log() @ f


def affine():
    return (2 * Exp() + 1) @ (3 * additive() - 1)


def scores(size):
    f1 = additive()
    f2 = additive(2, -1)
    F = Product(2, 2)
    F.add(Poisson(size) @ Exp() @ f1, [0, 1, 2], [0, 1], 0)
    F.add(Poisson(size) @ Exp() @ f2, [1, 0, 2], [1, 0], 1)
    return F


def collapse_scores(size):
    return CollapseMatrix() @ scores(size)


def markov(size, steps):
    return MarkovMatrix(size, steps) @ [Exp() @ additive(),
                                        Exp() @ additive(2, -1)]


def markov_vector(size, steps):
    return MarkovVector(size, steps) @ [Exp() @ additive(),
                                        Exp() @ additive(2, -1)]


def collapse_markov(size, steps):
    return CollapseMatrix() @ MarkovMatrix(size, steps) @ [
        Exp() @ additive(), Exp() @ additive(2, -1)]


def collapse_exp():
    return CollapseMatrix() @ Exp()


def collapse_prod():
    f = Product(3)
    f.add(Exp(), 0, [0, 1])
    f.add(X(), 1, [2, 0])
    return CollapseMatrix() @ f


def linear_outer():
    return X() @ additive()


def vector_outer(w):
    return Vector(w) @ (Quadratic() @ additive())


def tennis():
    f = Sum(1)
    f.add(X(), 0, 0)
    return Set() @ [Collapse(Game(), False),
                    Collapse(TieBreak(), False)] @ (Logistic() @ f)
'''


def library(C, E, S):
    m = E.src(SRC)
    sz = lambda s: tt.size(s)
    u, v = sz('u'), sz('v')

    def eta(nn, k=1):
        return tt.add(tt.sym('p0', (tm(nn[0]),)),
                      tt.mul(tt.const(k), tt.sym('p1', (tm(nn[1]),))),
                      tt.sym('p2', ()))

    def three(kind='array', **k):
        return lambda: [P(E, 'p0', ('u',), kind, **k),
                        P(E, 'p1', ('v',), kind, **k),
                        P(E, 'p2', (), kind, **k)]
    uv = (u, v)
    from .c02 import poisson, lognb

    def expit(z):
        return tt.div(tt.ONE, tt.add(tt.ONE, tt.exp(tt.neg(z))))
    import math
    small = dict(dom=(-0.5, 0.5))
    from .c04 import kernel_matrix, kernel_vector, pick
    M = lambda nm, *a: lambda: E.call(m.d[nm], *a)
    size = sz('size')
    out = [
        ('Poisson@Exp@Sum', M('poisson', size), uv, (size,),
         lambda nn, dd: poisson(tt.exp(eta(nn)), tm(dd[0]))),
        ('LogNegativeBinomial@Exp@Sum', M('lognb', size, 2), uv, (size,),
         lambda nn, dd: lognb(tt.exp(eta(nn)), tm(dd[0]), tt.const(2))),
        ('NegativeBinomial@Exp@Sum', M('nb', 3, 1), uv, (3,),
         lambda nn, dd: tt.exp(lognb(tt.exp(eta(nn)), tm(dd[0]), tt.ONE))),
        ('Logistic@Sum', M('logistic'), uv, (),
         lambda nn, dd: expit(eta(nn, -1))),
        ('Sigmoid(arctan)@Sum', M('arctan'), uv, (),
         lambda nn, dd: tt.add(tt.const(0.5), tt.div(tt.fn(
             'arctan', eta(nn, -1)), tm(math.pi)))),
        ('Log@Sum(Exp@Sum,Exp@Sum)', M('log_of_sum'), (u, u), (),
         lambda nn, dd: tt.log(tt.add(tt.exp(eta(nn)), tt.exp(
             eta((nn[1], nn[0]), -1))))),
        ('Affine@Affine', M('affine'), uv, (),
         lambda nn, dd: tt.add(tt.mul(tt.const(2), tt.exp(tt.add(tt.mul(
             tt.const(3), eta(nn)), tt.const(-1)))), tt.ONE)),
        ('X@Sum', M('linear_outer'), uv, (), lambda nn, dd: eta(nn)),
    ]

    def prod(nn, dd):
        z = tt.add(tt.sym('p1', (tm(nn[1]),)), tt.neg(
            tt.sym('p0', (tm(nn[0]),))), tt.sym('p2', ()))
        return tt.mul(poisson(tt.exp(eta(nn)), tm(dd[0])),
                      poisson(tt.exp(z), tm(dd[1])))

    def collapsed(vals):
        def f(nn, dd):
            t = [tt.ZERO] * 3
            k = vals(nn)
            for (x, y), c in k.items():
                o = 0 if x > y else 1 if x == y else 2
                t[o] = tt.add(t[o], c)
            return tt.ite(tt.eq(tm(dd[0]), tt.const(0)), t[0], tt.ite(
                tt.eq(tm(dd[0]), tt.const(1)), t[1], t[2]))
        return f

    for nm, mk, n, d, spec in out:
        if nm.startswith('Log@'):
            def ps():
                return [P(E, 'p0', ('u',)), P(E, 'p1', ('u',)),
                        P(E, 'p2', ())]
        else:
            ps = three('param' if nm.startswith('Logistic') else 'array')
        func_obligations(C, E, mk, ps, nm, 'library', n, d, spec)
    k = 2
    func_obligations(C, E, M('scores', k), three('array', **small),
                     'Product of Poisson@Exp@Sum', 'library', uv, (k, k),
                     prod)
    import itertools
    func_obligations(
        C, E, M('collapse_scores', k), three('array', **small),
        'CollapseMatrix@Product', 'library', uv, (3,),
        collapsed(lambda nn: {xy: prod(nn, xy) for xy in itertools.product(
            range(k), repeat=2)}))
    def win(body):
        """cells of a frame of symbolic size by the sign of x - y"""
        def f(nn, dd):
            a_, b_ = tt.size('v'), tt.size('w')
            i, j = tt.ivar(a_), tt.ivar(b_)
            o = tt.ite(tt.eq(tm(dd[0]), tt.const(0)), tt.const(1), tt.ite(
                tt.eq(tm(dd[0]), tt.const(1)), tt.const(0), tt.const(-1)))
            t = tt.mul(body(nn, i, j), tt.ite(tt.eq(tt.fn('sign', tt.add(
                i, tt.neg(j))), o), tt.ONE, tt.ZERO))
            return tt.ssum(i, a_, tt.ssum(j, b_, t))
        return f
    func_obligations(
        C, E, M('collapse_exp'), lambda: [P(E, 'p0', ('u', 'v', 'w'))],
        'CollapseMatrix@Exp', 'library', (u,), (3,), win(
            lambda nn, i, j: tt.exp(tt.sym('p0', (tm(nn[0]), i, j)))))
    func_obligations(
        C, E, M('collapse_prod'), lambda: [P(E, 'p0', ('u', 'v')),
                                           P(E, 'p1', ('w', 'u'))],
        'CollapseMatrix@Product', 'mapped cells', (u,), (3,), win(
            lambda nn, i, j: tt.mul(
                tt.exp(tt.sym('p0', (tm(nn[0]), i))),
                tt.sym('p1', (j, tm(nn[0]))))))
    mk_small = dict(dom=(-1.2, -0.6))

    def rates(nn, steps):
        return [tt.div(tt.exp(eta(nn, s)), tt.const(steps)) for s in (1, -1)]
    st = 2
    one = lambda *z: tt.ONE
    func_obligations(
        C, E, M('markov', 2, st), three('array', **mk_small),
        'MarkovMatrix@[Exp,Exp]', 'library', uv, (2, 2),
        lambda nn, dd: pick(kernel_matrix(2, st, *rates(nn, st), one), 2,
                            dd))
    func_obligations(
        C, E, M('markov_vector', 2, st), three('array', **mk_small),
        'MarkovVector@[Exp,Exp]', 'library', uv, (3,),
        lambda nn, dd: pick(kernel_vector(2, st, *rates(nn, st), one), 2,
                            dd))
    func_obligations(
        C, E, M('collapse_markov', 2, st), three('array', **mk_small),
        'CollapseMatrix@MarkovMatrix', 'library', uv, (3,),
        collapsed(lambda nn: kernel_matrix(2, st, *rates(nn, st), one)))
