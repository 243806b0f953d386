"""C07 arithmetic on model functions is arithmetic on their values."""
import itertools
from .. import terms as tt
from ..core import Bad
from ..fobl import P, Sym, func_obligations
from ..placed import Term, Config, Built, F, D
from ..terms import tm

LEVEL = 'other'
EXPLANATION = (
    'Every arithmetic expression up to a bounded nesting depth over '
    'uninterpreted model functions, and every nesting of sums and products '
    'with symbolic weights and offsets, is interpreted abstractly; its value '
    'graph and derivatives are compared with the same arithmetic applied to '
    'the component symbols.')
ASSUMPTIONS = ['real arithmetic', 'offsets and factors are numbers',
               'nesting depth bounded']
FLOOR = 60

# expression of the analysed language, its denotation
EXPRS = [
    ('f+b', 'f + k', lambda v, k: tt.add(v, k)),
    ('b+f', 'k + f', lambda v, k: tt.add(v, k)),
    ('f-b', 'f - k', lambda v, k: tt.add(v, tt.neg(k))),
    ('b-f', 'k - f', lambda v, k: tt.add(k, tt.neg(v))),
    ('-f', '-f', lambda v, k: tt.neg(v)),
    ('f*a', 'f * k', lambda v, k: tt.mul(v, k)),
    ('a*f', 'k * f', lambda v, k: tt.mul(v, k)),
    ('f/a', 'f / k', lambda v, k: tt.div(v, k)),
]
SRC = 'OPS = [%s]\n' % ', '.join('lambda f, k: %s' % e[1] for e in EXPRS)


def check(C):
    C.rule('value', 'the value is the arithmetic applied to the components')
    C.rule('grad', 'grad(i) equals the formal first derivative')
    C.rule('hess', 'hess(i,j) equals the formal second derivative')
    C.rule('eval', 'eval agrees')
    C.rule('build', 'the expression can be built')
    E = C.engine()
    S = Sym(E)
    fs = E.src(SRC).d['OPS']
    OPS = [(e[0], (lambda E, f, k, g=g: E.call(g, f, k)), e[2])
           for e, g in zip(EXPRS, fs)]
    depth = 2 if C.tier == 'quick' else 3
    n = (F(0),)
    for d in range(1, depth + 1):
        for seq in itertools.product(OPS, repeat=d):
            full = d < 3 and (d == 1 or C.tier != 'quick' or
                              seq[0][0] in ('b-f', 'f*a', 'f-b'))
            f0, sp = S.make('f', 'dense', n, ())
            ps = [P(E, 'p0', ('u',)), P(E, 'p1', ('v',))]
            aid = sp.arg_id([p.v for p in ps])
            ks = [E.scalar('k%d' % i) for i in range(d)]
            case = ' then '.join(o[0] for o in seq)

            def mk():
                f = f0
                for (nm, op, den), k in zip(seq, ks):
                    f = op(E, f, k)
                return f

            def spec(nn, dd):
                v = sp.v(aid, nn)
                for (nm, op, den), k in zip(seq, ks):
                    v = den(v, k)
                return v
            func_obligations(C, E, mk, lambda: ps, 'arithmetic', case, n, (),
                             spec, hess=full, grad=full, eval_=full or d == 2)
    # concrete special numbers and library functions
    for nm, sym_, shape in (('X', lambda p: p, ('F0',)),
                            ('Exp', tt.exp, ('F0',)),
                            ('Constant', None, ('F0',))):
        for k in (0, 1, -1, 2.5):
            for oname, op, den in OPS:
                if oname == 'f/a' and k == 0:
                    continue

                def mk():
                    a = [E.arr('c', ('F0',))] if nm == 'Constant' else []
                    return op(E, E.new('maxlike.func.' + nm, *a), k)

                def spec(nn, dd):
                    v = tt.sym('c', (nn[0],)) if nm == 'Constant' else \
                        sym_(tt.sym('p', (nn[0],)))
                    return den(v, tm(k))
                func_obligations(C, E, mk, lambda: [P(E, 'p', shape)],
                                 'arithmetic', '%s on %s with %s' %
                                 (oname, nm, k), n, (), spec)
    nested(C, E, S)
    many(C, E, S)


def nested(C, E, S):
    """sums and products of sums, products and affine functions"""
    T_ = Term
    cfgs = [
        Config(2, 0, [['u'], ['F1'], ['v']], [
            T_('dense', [0], [0]), T_('elem', [1], [1]),
            T_('dense', [2], [1, 0])]),
        Config(2, 1, [['F0'], ['u'], []], [
            T_('elem', [0], [0], [0]), T_('dense', [1, 2], [1], [0]),
            T_('dense', [2], [])]),
        # placements and parameter positions permuted by the outer level
        Config(2, 2, [['u'], ['v'], ['w']], [
            T_('dense', [1], [0], [1]), T_('dense', [0, 2], [1, 0], [0, 1]),
            T_('dense', [2], [1])]),
    ]
    for cfg in cfgs:
        b = Built(E, S, cfg)
        a = [E.scalar('a%d' % i) for i in range(6)]
        t = cfg.terms
        np_, nf, nd = len(cfg.shapes), cfg.n_feat, cfg.n_dim
        for outer in ('Sum', 'Product'):
            for inner in ('Sum', 'Product', 'Affine(Sum)', 'Affine(Product)',
                          'Sum(Sum)', 'Product(Product)', 'Sum(Product)',
                          'Product(Sum)', 'Affine(Affine)'):
                # inner level: permuted parameter, feature, outcome axes
                perm_p = list(range(np_))[::-1]
                perm_f = list(range(nf))[::-1]
                perm_d = list(range(nd))[::-1]

                def aff(f, k, o):
                    return E.m(E.m(f, '__mul__', k), '__add__', o)

                def affd(v, k, o):
                    return tt.add(tt.mul(v, k), o)

                def inner_build(kind):
                    """function over all parameters (permuted) placed on all
                    axes (permuted) + its denotation in outer coordinates"""
                    def add_terms(cls, w):
                        f = E.new('maxlike.func.' + cls, nf, nd)
                        for k in (0, 1):
                            foo = b.foos[k]
                            if k == 0 or cls == 'Product':
                                foo = aff(foo, a[0], a[1]) if k == 0 else foo
                            args = [foo, [perm_p.index(z)
                                          for z in t[k].params],
                                    [perm_f.index(z) for z in t[k].feat],
                                    [perm_d.index(z) for z in t[k].dims]]
                            if cls == 'Sum' and k == 0:
                                args.append(w)
                            E.m(f, 'add', *args)

                        def den(nn, dd):
                            v0 = affd(b.term(0, nn, dd), a[0], a[1])
                            v1 = b.term(1, nn, dd)
                            return tt.add(tt.mul(w, v0), v1) \
                                if cls == 'Sum' else tt.mul(v0, v1)
                        return f, den
                    if kind == 'Affine(Affine)':
                        f, den = add_terms('Product', a[2])
                        g = aff(aff(f, a[3], a[4]), a[5], a[2])
                        return g, lambda nn, dd: affd(affd(
                            den(nn, dd), a[3], a[4]), a[5], a[2])
                    if kind in ('Sum', 'Product'):
                        return add_terms(kind, a[2])
                    wrap, base = kind[:-1].split('(')
                    f, den = add_terms(base, a[2])
                    if wrap == 'Affine':
                        return aff(f, a[3], a[4]), lambda nn, dd: affd(
                            den(nn, dd), a[3], a[4])
                    g = E.new('maxlike.func.' + wrap, nf, nd)
                    args = [aff(f, a[3], a[4]), list(range(np_)),
                            list(range(nf)), list(range(nd))]
                    if wrap == 'Sum':
                        E.m(g, 'add', *(args + [a[5]]))
                        return g, lambda nn, dd: tt.mul(a[5], affd(
                            den(nn, dd), a[3], a[4]))
                    E.m(g, 'add', *args)
                    return g, lambda nn, dd: affd(den(nn, dd), a[3], a[4])

                holder = {}

                def mk():
                    f, den = inner_build(inner)
                    holder['den'] = den
                    g = E.new('maxlike.func.' + outer, nf, nd)
                    args = [f, perm_p, perm_f, perm_d]
                    w = E.scalar('w')
                    E.m(g, 'add', *(args + ([w] if outer == 'Sum' else [])))
                    E.m(g, 'add', b.foos[2], t[2].params, t[2].feat,
                        t[2].dims)
                    return g

                def spec(nn, dd):
                    v = holder['den'](nn, dd)
                    w = tt.sym('w', ())
                    u = b.term(2, nn, dd)
                    return tt.add(tt.mul(w, v), u) if outer == 'Sum' else \
                        tt.mul(v, u)
                full = C.tier != 'quick' or inner in (
                    'Sum', 'Product', 'Affine(Sum)', 'Product(Sum)')
                func_obligations(C, E, mk, lambda: b.ps, '%s of %s' %
                                 (outer, inner), str(cfg), b.n, b.d, spec,
                                 hess=full, grad=full, eval_=full)


def many(C, E, S):
    """long sums and products, nested several levels deep, in which the same
    function object occurs more than once; explicit weights of either sign"""
    n = (F(0),)

    def ps_of():
        return [P(E, 'p%d' % k, s) for k, s in enumerate(
            (('u',), ('v',), ('F0',), ()))]
    ps = ps_of()
    kinds = [('dense', [3, 0]), ('elem', [2]), ('dense', [1, 3, 0]),
             ('dense', [2, 1]), ('dense', [0, 1, 2, 3])]
    comps = [S.make('f', k, n, ()) for k, _ in kinds]
    fs = [c[0] for c in comps]
    vs = [c[1].arg_id([ps[q].v for q in pm])
          for c, (_, pm) in zip(comps, kinds)]

    def val(k, nn):
        return comps[k][1].v(vs[k], nn)
    ws = [E.scalar('w%d' % k) for k in range(4)]
    rep = [0, 1, 2, 3, 0, 4, 2, 0]

    def weight(k):
        return [1, ws[0], -2.5, ws[1], ws[2], 0, -1, ws[3]][k]
    def lsum(nn):
        r = tt.ZERO
        for k, q in enumerate(rep):
            r = tt.add(r, tt.mul(tm(weight(k)), val(q, nn)))
        return r

    def lprod(nn):
        r = tt.ONE
        for q in rep[:6]:
            r = tt.mul(r, val(q, nn))
        return r

    def fill(f, ks, cls):
        for k, q in enumerate(ks):
            w = [] if cls == 'Product' or k == 0 else [weight(k)]
            E.m(f, 'add', fs[q], kinds[q][1], [0], [], *w)
        return f

    def mk_sum():
        return fill(E.new('maxlike.func.Sum', 1), rep, 'Sum')

    def mk_prod():
        return fill(E.new('maxlike.func.Product', 1), rep[:6], 'Product')

    def outer(cls, inner, twice):
        f = E.new('maxlike.func.' + cls, 1)
        g = inner()
        al = [0, 1, 2, 3]
        E.m(f, 'add', fs[4], al, 0, *([[], -3] if cls == 'Sum' else []))
        E.m(f, 'add', g, al, 0, *([[], ws[0]] if cls == 'Sum' else []))
        if twice:
            E.m(f, 'add', g, al, 0, *([[], ws[1]] if cls == 'Sum' else []))
        return f

    def osum(v, nn, twice):
        r = tt.add(tt.mul(tm(-3), val(4, nn)), tt.mul(ws[0], v))
        return tt.add(r, tt.mul(ws[1], v)) if twice else r

    def oprod(v, nn, twice):
        r = tt.mul(val(4, nn), v)
        return tt.mul(r, v) if twice else r
    cases = [
        ('Sum', mk_sum, lambda nn, dd: lsum(nn)),
        ('Product', mk_prod, lambda nn, dd: lprod(nn)),
        ('Sum(Sum)', lambda: outer('Sum', mk_sum, False),
         lambda nn, dd: osum(lsum(nn), nn, False)),
        ('Sum(Sum,Sum)', lambda: outer('Sum', mk_sum, True),
         lambda nn, dd: osum(lsum(nn), nn, True)),
        ('Sum(Sum(Sum))', lambda: outer('Sum', lambda: outer(
            'Sum', mk_sum, False), True),
         lambda nn, dd: osum(osum(lsum(nn), nn, False), nn, True)),
        ('Sum(Product)', lambda: outer('Sum', mk_prod, True),
         lambda nn, dd: osum(lprod(nn), nn, True)),
        ('Product(Sum,Sum)', lambda: outer('Product', mk_sum, True),
         lambda nn, dd: oprod(lsum(nn), nn, True)),
        ('Product(Product)', lambda: outer('Product', mk_prod, False),
         lambda nn, dd: oprod(lprod(nn), nn, False)),
    ]
    for nm, mk, spec in cases:
        func_obligations(C, E, mk, ps_of, 'long nesting', nm, n, (), spec,
                         grad=False, hess=False)
