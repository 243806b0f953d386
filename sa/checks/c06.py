"""C06 one-shot evaluation and calling convention."""
from ..core import Bad, same
from ..fobl import Sym
from ..library import recipes, uncovered

LEVEL = 'other'
EXPLANATION = (
    'Every model function class of the library (and every combinator over '
    'uninterpreted components) is interpreted abstractly; the value graph '
    'of eval() is compared entry by entry with those of the separate '
    'value/grad/hess calls, and every calling form (bare, list, tuple, '
    'indexed, not indexed) with every other.')
ASSUMPTIONS = ['real arithmetic', 'one instance per class and calling form; '
               'parameter entries and axis lengths symbolic']
FLOOR = 60


def check(C):
    C.rule('parts', 'eval agrees with the separate value, gradient and '
           'Hessian calls')
    C.rule('calling', 'bare parameter, list and tuple give the same result')
    C.rule('index', 'indexed derivatives equal the entries of the full list')
    E = C.engine()
    S = Sym(E)
    rs = recipes(E, S, C.tier == 'quick')
    for r in rs:
        case = 'shapes=%s' % '/'.join(
            str(len(p.shape)) for p in r.ps_of())

        def parts():
            f, ps = r.mk(), [p.v for p in r.ps_of()]
            res = E.m(f, 'eval', ps)
            if not isinstance(res, tuple) or len(res) != 3:
                raise Bad('eval does not return a triple')
            v, g, h = res
            same(E, v, E.call(f, ps))
            if not isinstance(g, (list, tuple)) or len(g) != len(ps):
                raise Bad('eval returns no list of %d gradients' % len(ps))
            if not isinstance(h, (list, tuple)) or len(h) != len(ps):
                raise Bad('eval returns no list of %d Hessian rows' % len(ps))
            for i in range(len(ps)):
                same(E, g[i], E.m(f, 'grad', ps, i))
                if len(h[i]) != i + 1:
                    raise Bad('row %d of the Hessians has %d entries' %
                              (i, len(h[i])))
                for j in range(i + 1):
                    same(E, h[i][j], E.m(f, 'hess', ps, i, j))
        C.ob('parts', r.name, case, parts)

        def index():
            f, ps = r.mk(), [p.v for p in r.ps_of()]
            g = E.m(f, 'grad', ps)
            h = E.m(f, 'hess', ps)
            if not isinstance(g, list) or len(g) != len(ps):
                raise Bad('grad without an index returns no list of %d '
                          'gradients' % len(ps))
            if not isinstance(h, list) or \
                    [len(z) for z in h if isinstance(z, list)] != \
                    list(range(1, len(ps) + 1)):
                raise Bad('hess without indices returns no lower triangle')
            for i in range(len(ps)):
                same(E, g[i], E.m(f, 'grad', ps, i))
                for j in range(i + 1):
                    same(E, h[i][j], E.m(f, 'hess', ps, i, j))
        C.ob('index', r.name, case, index)

        def calling():
            f, ps = r.mk(), [p.v for p in r.ps_of()]
            forms = [list(ps), tuple(ps)]
            if len(ps) == 1:
                forms.append(ps[0])
            for a in forms[1:]:
                same(E, E.call(f, a), E.call(f, forms[0]))
                same(E, E.m(f, 'grad', a), E.m(f, 'grad', forms[0]))
                same(E, E.m(f, 'hess', a), E.m(f, 'hess', forms[0]))
                x, y = E.m(f, 'eval', a), E.m(f, 'eval', forms[0])
                for u, v in zip(x, y):
                    same(E, u, v)
                for i in range(len(ps)):
                    same(E, E.m(f, 'grad', a, i),
                         E.m(f, 'grad', forms[0], i))
                    same(E, E.m(f, 'hess', a, i, i),
                         E.m(f, 'hess', forms[0], i, i))
        C.ob('calling', r.name, case, calling)
    for n in uncovered(E, [r.name for r in rs]):
        C.undecided('parts', n, 'no recipe', 'no recipe builds this class')
