"""Recipes building one instance of every model function of the library."""
from . import terms as tt
from . import interp as I
from .fobl import P, Sym


class Recipe(object):

    def __init__(self, name, mk, ps_of, n=(), d=(), heavy=False):
        self.name, self.mk, self.ps_of = name, mk, ps_of
        self.n, self.d, self.heavy = n, d, heavy


def recipes(E, S, quick=True):
    out = []
    F_ = 'maxlike.func.'

    def add(name, mk, ps_of, **k):
        out.append(Recipe(name, mk, ps_of, **k))

    def new(path, *a, **k):
        return lambda: E.new(F_ + path, *a, **k)

    def one(shape, kind='array', **info):
        return lambda: [P(E, 'p', shape, kind, **info)]
    for nm, dom in (('X', 'real'), ('Exp', 'real'), ('Log', 'pos'),
                    ('Logistic', 'real'), ('ArcTan', 'real')):
        for shape in ((), ('a',), ('a', 'b')):
            add(nm, new(nm), one(shape, dom=dom))
    for w in ('logistic', 'arctan'):
        add('Sigmoid(%s)' % w, lambda w=w: E.call(E.get(F_ + 'Sigmoid'), w),
            one(('a',)))
    add('Constant', lambda: E.new(F_ + 'Constant', E.arr('c', ('a',))),
        one(('b',)))
    add('Scalar', new('Scalar'), one(()))
    add('Vector', lambda: E.new(F_ + 'Vector', E.arr('c', ('a',))), one(()))

    def two():
        return [P(E, 'p0', ('a',)), P(E, 'p1', ())]

    def three():
        return [P(E, 'p0', ('a',)), P(E, 'p1', ()), P(E, 'p2', ('a', 'b'))]
    add('Linear', lambda: E.new(F_ + 'Linear', [E.scalar('w0'),
                                                E.scalar('w1')]), two)
    add('Linear(single)', new('Linear', 2), one(('a',)))
    add('Quadratic', new('Quadratic', 1, 2), two)
    add('Quadratic(single)', new('Quadratic'), one(('a',)))
    for size in (tt.size('size'), 3):
        for shape in ((), ('a', 'b')):
            add('Poisson', new('Poisson', size), one(shape, dom='pos'))
            add('LogNegativeBinomial', new('LogNegativeBinomial', size, 2),
                one(shape, dom='pos'))
    add('NegativeBinomial', lambda: E.call(E.get(F_ + 'NegativeBinomial'), 3),
        one(('a',), dom='pos'))
    for nm, k in (('Game', 1), ('TieBreak', 1), ('Set', 2)):
        add(nm, new('tennis.' + nm), lambda k=k: [
            P(E, 'p%d' % i, ('a',), dom='prob') for i in range(k)])
    add('CollapseMatrix', new('CollapseMatrix'), one(('a', 'x', 'y')))
    for nm in ('MarkovMatrix', 'MarkovVector'):
        add(nm, new(nm, 2, 2), lambda: [
            P(E, 'p%d' % i, ('a',), dom=(0.05, 0.45)) for i in range(2)])

    # combinators over uninterpreted components
    def comp(kind, n=(), d=(), nul=None):
        return S.make('f', kind, n, d)[0]
    a, b = tt.size('a'), tt.size('b')

    def ab():
        return [P(E, 'p0', ('u',)), P(E, 'p1', ('v',))]
    add('Affine', lambda: E.new(F_ + 'Affine', comp('dense', ('a',)),
                                E.scalar('k'), E.scalar('o')), ab)
    add('Affine(Affine)', lambda: E.new(
        F_ + 'Affine', E.new(F_ + 'Affine', comp('dense', ('a',)),
                             E.scalar('k'), E.scalar('o')),
        E.scalar('k2'), E.scalar('o2')), ab)
    add('Affine(X)', lambda: E.new(F_ + 'Affine', E.new(F_ + 'X'), 2, 3),
        one(('a',)))
    add('Affine(Constant)', lambda: E.new(
        F_ + 'Affine', E.new(F_ + 'Constant', E.arr('c', ('a',))), 2, 3),
        one(('b',)))
    add('FuncWrap', lambda: E.new(F_ + 'FuncWrap', comp(
        'dense', ('a', 'b'), ('e',)), [1, 0], [1, 2], 3, [1], 2), ab)
    add('FuncWrap(partial)', lambda: E.new(F_ + 'FuncWrap', comp(
        'dense', ('a',)), [1], [1], 2), ab)
    add('FuncWrap(single)', lambda: E.new(F_ + 'FuncWrap', comp(
        'dense', ('a',)), [0], [1], 2), one(('u',)))
    add('FuncWrap(X)', lambda: E.new(F_ + 'FuncWrap', E.new(F_ + 'X'), [0],
                                     [1], 2), one(('a',)))
    add('FuncWrap(Constant)', lambda: E.new(F_ + 'FuncWrap', E.new(
        F_ + 'Constant', E.arr('c', ('a',))), [0], [1], 2), one(('b',)))

    def summ(cls, *w):
        def mk():
            f = E.new(F_ + cls, 2, 1)
            E.m(f, 'add', comp('dense', ('a',), ('e',)), [0, 1], [0], [0])
            E.m(f, 'add', comp('dense', ('b',)), [1], [1], [], *w)
            E.m(f, 'add', E.new(F_ + 'Affine', E.new(F_ + 'Constant', E.arr(
                'c', ('b',))), 3, E.scalar('o')), [0], [1], [], *w)
            return f
        return mk
    add('Sum', summ('Sum', 2.5), ab)
    add('Product', summ('Product'), ab)
    add('Sum(single)', lambda: E.m(E.m(E.new(F_ + 'Sum', 2), 'add', E.new(
        F_ + 'X'), 0, 0), 'add', E.new(F_ + 'Exp'), [0], [1]), one(('a',)))
    add('Product(single)', lambda: E.m(E.m(E.new(
        F_ + 'Product', 2), 'add', E.new(F_ + 'X'), 0, 0), 'add', E.new(
            F_ + 'Exp'), [0], [1]), one(('a',)))
    add('Collapse', lambda: E.new(F_ + 'Collapse', comp('dense', ('a', 'b'),
                                                        ('e',))), ab)
    add('Collapse(0)', lambda: E.new(F_ + 'Collapse', comp(
        'dense', ('a', 'b'), ('e',)), 0, False), ab)
    add('Collapse(single)', lambda: E.new(F_ + 'Collapse', comp(
        'dense', ('a', 'b'), ('e',))), one(('u',)))

    # more parameters than any library model reads
    SH = (('u',), (), ('v',), ('u',), (), ('a',))

    def six():
        return [P(E, 'p%d' % k, z) for k, z in enumerate(SH)]

    def many(cls):
        f = E.new(F_ + cls, 1)
        for pm in ([4, 0, 3], [5, 2], [1]) if cls == 'Product' else (
                [4, 0, 3, 1], [5, 2, 0], [1], [2, 5, 4, 3, 1, 0]):
            E.m(f, 'add', comp('dense', ('b',)), pm, 0)
        E.m(f, 'add', E.new(F_ + 'Scalar'), 4, [])
        return f
    for cls in ('Sum', 'Product'):
        add('%s(many)' % cls, lambda cls=cls: many(cls), six)
    add('FuncWrap(many)', lambda: E.new(F_ + 'FuncWrap', comp(
        'dense', ('b',)), [3, 5, 0, 4, 1, 2], [0], 1), six)
    add('Collapse(many)', lambda: E.new(F_ + 'Collapse', many('Sum')), six)
    add('Affine(many)', lambda: E.new(F_ + 'Affine', many('Product'), 2, 3),
        six)

    def gs(kinds):
        return [comp('dense', ('s', 't')[:k]) for k in kinds]
    add('Compose', lambda: E.new(F_ + 'Compose', comp('dense', ('a',)),
                                 gs((1, 2))), ab)
    add('Compose(elem)', lambda: E.new(F_ + 'Compose', comp(
        'elem', (), ('e',)), [comp('dense', ('a',))]), ab)
    add('Compose(bare)', lambda: E.m(comp('elem', (), ('e',)), '__matmul__',
                                     comp('dense', ('a',))), one(('u',)))
    add('Compose(many)', lambda: E.new(F_ + 'Compose', comp('dense', ('a',)),
                                       [comp('dense', ()) for _ in
                                        range(4)] + gs((1,))), ab)
    add('Compose(many params)', lambda: E.new(F_ + 'Compose', comp(
        'dense', ('a',)), [comp('dense', ()), many('Sum')]), six)
    add('Compose(X)', lambda: E.new(F_ + 'Compose', E.new(F_ + 'X'), [
        comp('dense', ('a',))]), ab)
    add('Compose(X,single)', lambda: E.new(
        F_ + 'Compose', E.new(F_ + 'X'), [E.new(F_ + 'Exp')]), one(('a',)))
    add('Compose(Constant)', lambda: E.new(F_ + 'Compose', E.new(
        F_ + 'Constant', E.arr('c', ('b',))), [comp('dense', ('a',))]), ab)
    add('Compose(Poisson,Exp,Sum)', lambda: E.m(E.m(E.new(
        F_ + 'Poisson', 3), '__matmul__', E.new(F_ + 'Exp')), '__matmul__',
        E.m(E.m(E.new(F_ + 'Sum', 2), 'add', E.new(F_ + 'X'), 0, 0), 'add',
            E.new(F_ + 'X'), 1, 1)),
        lambda: [P(E, 'p0', ('a',)), P(E, 'p1', ('b',))])
    return out


def uncovered(E, names):
    """model function classes of the library without a recipe"""
    base = E.get('maxlike.func.func_base.Func')
    out = []
    seen = set()
    for m in list(E.I.modules.values()):
        for k, v in list(m.d.items()):
            if isinstance(v, I.PyClass) and v is not base and id(v) not in \
                    seen and base in v.mro and v.module is m and \
                    m.name.startswith('maxlike'):
                seen.add(id(v))
                if not any(n.split('(')[0] == v.name for n in names):
                    out.append('%s.%s' % (m.name, v.name))
    return out
