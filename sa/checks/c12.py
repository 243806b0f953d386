"""C12 assembled gradient and Hessian of the penalised objective."""
from .. import terms as tt
from .. import arr as A
from .. import valnum
from ..core import Bad, dense, as_arr
from ..fobl import Sym
from ..masked import PSet, mask_sets
from ..terms import tm

LEVEL = 'other'
EXPLANATION = (
    'flat_grad() and flat_hess() are interpreted abstractly for an '
    'uninterpreted likelihood, uninterpreted constraints and penalties '
    '(formal derivative symbols) and parameter sets with enumerated shapes '
    'and fixed/free patterns; every entry of the flat vector and of the '
    'bordered matrix is compared with the formal derivative it stands for.')
ASSUMPTIONS = ['real arithmetic', 'parameter shapes and fixed/free patterns '
               'enumerated; entries symbolic', 'constraints and penalties '
               'are scalar functions']
FLOOR = 60

SRC = '''
from maxlike.maxlike_base import MaxLike


class SymLike(MaxLike):
    """an arbitrary differentiable likelihood"""

    def __init__(self, f):
        MaxLike.__init__(self)
        self.f = f

    def like(self, params, y):
        return self.f(params)

    def grad_like(self, params, y, der):
        return self.f.grad(params)

    def hess_like(self, params, y, der, hess):
        return self.f.hess(params)
'''


def check(C):
    C.rule('grad', 'flat_grad lists d(like - penalties) per free entry, then '
           'the constraint values')
    C.rule('hess', 'flat_hess is the symmetric Hessian of like - penalties '
           'bordered by the constraint gradients')
    C.rule('library', 'the same with the library functions Linear and '
           'Quadratic')
    E = C.engine()
    S = Sym(E)
    mod = E.src(SRC)
    n3 = [
        ([], []),
        ([[0]], []),
        ([], [[0]]),
        ([0], [2]),
        ([[0, 2]], [[1, 2]]),
        ([[2, 0]], [[1, 0]]),
        ([[1], [2, 0, 1]], [[2, 1], [0]]),
        ([[0, 1, 2], [2]], [[0, 1, 2], [2, 0]]),
    ]
    n2 = [([[1, 0]], [[1, 0]]), ([[0], [1]], [[0, 1]])]
    n1 = [([[0]], [[0]]), ([0], [])]
    for q, (shapes, masks) in enumerate(mask_sets(C.tier)):
        combos = {1: n1, 2: n2}.get(len(shapes), n3[-3:-1] if
                                    len(shapes) > 3 else n3)
        if len(shapes) == 3 and C.tier == 'quick' and q not in (0, 1, 3, 4):
            combos = combos[-3:]
        if len(shapes) < 3 and C.tier == 'quick':
            combos = combos[:1]
        for cons, regs in combos:
            instance(C, E, S, mod, shapes, masks, cons, regs)
    library(C, E, S, mod)
    # whole-number parameters
    instance(C, E, S, mod, [(2,), ()], [None, None], [[0], [1, 0]],
             [[0, 1]], {0: 'i', 1: 'i'})
    unread(C, E, S, mod)
    # more parameters, constraints and penalties than any model here has
    sh = [(2,), (), (2,), (1,), ()]
    ms = [(1, 0), None, None, None, None]
    for cons, regs in (
            ([[3, 0, 2, 1], 1, [4], [2, 4], [0, 1, 2, 3, 4]],
             [[4, 2, 0, 3, 1]]),
            ([[2, 3]], [0, [1, 4], [3, 2, 1, 0], [2], [4, 3, 2], 3]),
            ([0] * 6, [[1, 0]] * 6)):
        instance(C, E, S, mod, sh, ms, cons, regs)


def setup(E, S, mod, ps, cons, regs):
    f, fs = S.make('L', 'dense')
    o = E.call(mod.d['SymLike'], f)
    objective = [(fs.v(fs.arg_id(list(ps.v)), ()), 1)]
    cvals = []
    for pm in cons:
        g, gs = S.make('c', 'dense')
        E.m(o, 'add_constraint', pm, g)
        lst = [pm] if isinstance(pm, int) else pm
        cvals.append(gs.v(gs.arg_id([ps.v[k] for k in lst]), ()))
    for pm in regs:
        h, hs = S.make('h', 'dense')
        E.m(o, 'add_regularization', pm, h)
        lst = [pm] if isinstance(pm, int) else pm
        objective.append((hs.v(hs.arg_id([ps.v[k] for k in lst]), ()), -1))
    return o, objective, cvals


def vec(E, v, n):
    v = as_arr(v)
    if v.ndim != 1 or v.shape[0] != n:
        raise Bad('a vector of length %d expected, got shape %s' %
                  (n, v.shape))
    rd = v.reader()
    return [tt.numify(rd((i,))) for i in range(n)]


def mat(E, v, n):
    v = as_arr(v)
    if v.ndim != 2 or v.shape[0] != n or v.shape[1] != n:
        raise Bad('a %d x %d matrix expected, got shape %s' %
                  (n, n, v.shape))
    rd = v.reader()
    return [[tt.numify(rd((i, j))) for j in range(n)] for i in range(n)]


def want(got, exp, what):
    w = valnum.compare(got, exp)
    if w:
        raise Bad('%s: got %.12g, expected %.12g\n      got graph %s\n'
                  '      expected  %s' % (what, w['got'], w['expected'],
                                          w['got_term'][:200],
                                          w['expected_term'][:200]))


def d1(ps, terms, k, pos):
    return tt.add(*[tt.mul(tt.const(s), tt.diff(t, ps.names[k], tuple(
        tm(z) for z in pos))) for t, s in terms] + [tt.ZERO])


def instance(C, E, S, mod, shapes, masks, cons, regs, dtypes=None):
    ps = PSet(E, shapes, masks, dtypes=dtypes)
    case = '%s%s constraints=%s penalties=%s' % (
        ps, ' whole numbers' if dtypes else '', cons, regs)
    o, obj, cvals = setup(E, S, mod, ps, cons, regs)
    compare(C, E, o, ps, obj, cvals, case, ('grad', 'hess'))


def compare(C, E, o, ps, obj, cvals, case, rules):
    fr = ps.all_free()

    def grad():
        g = vec(E, E.m(o, 'flat_grad', ps.v, None, None),
                len(fr) + len(cvals))
        for (k, p), t in zip(fr, g):
            want(t, d1(ps, obj, k, p), 'entry for parameter %d at %s' %
                 (k, p))
        for q, c in enumerate(cvals):
            want(g[len(fr) + q], c, 'value of constraint %d' % q)

    def hess():
        N = len(fr) + len(cvals)
        h = mat(E, E.m(o, 'flat_hess', ps.v, None, None, None), N)
        for a, (k, p) in enumerate(fr):
            g = d1(ps, obj, k, p)
            for b, (l, q) in enumerate(fr):
                want(h[a][b], tt.diff(g, ps.names[l], tuple(
                    tm(z) for z in q)), 'entry (%d,%d): parameters %d%s and '
                    '%d%s' % (a, b, k, p, l, q))
            for c, t in enumerate(cvals):
                e = tt.diff(t, ps.names[k], tuple(tm(z) for z in p))
                want(h[a][len(fr) + c], e, 'border column %d row %d' % (c, a))
                want(h[len(fr) + c][a], e, 'border row %d column %d' % (c, a))
        for a in range(len(cvals)):
            for b in range(len(cvals)):
                want(h[len(fr) + a][len(fr) + b], tt.ZERO, 'corner')
    C.ob(rules[0], 'flat_grad', case, grad)
    C.ob(rules[-1], 'flat_hess', case, hess)


def library(C, E, S, mod):
    for masks in ([None, None], [(0, 1, 0), None]):
        ps = PSet(E, [(3,), (2,)], masks)
        f, fs = S.make('L', 'dense')
        o = E.call(mod.d['SymLike'], f)
        obj = [(fs.v(fs.arg_id(list(ps.v)), ()), 1)]
        w0, w1, u, s = (E.scalar(z, dom='pos') for z in
                        ('w0', 'w1', 'qu', 'qs'))
        E.m(o, 'add_constraint', [0, 1], E.new('maxlike.func.Linear',
                                               [w0, w1]))
        E.m(o, 'add_constraint', 1, E.new('maxlike.func.Linear', [1]))
        E.m(o, 'add_regularization', [1, 0], E.new(
            'maxlike.func.Quadratic', u, s))

        def tot(k, body):
            return tt.add(*[body(ps.sym(k, p)) for p in ps.positions(k)])

        def q(z):
            r = tt.div(tt.add(z, tt.neg(u)), s)
            return tt.mul(r, r)
        obj.append((tt.add(tot(0, q), tot(1, q)), -1))
        cv = [tt.add(tot(0, lambda z: tt.mul(w0, z)),
                     tot(1, lambda z: tt.mul(w1, z))),
              tot(1, lambda z: z)]
        compare(C, E, o, ps, obj, cv, 'Linear/Quadratic %s' % ps,
                ('library', 'library'))


def unread(C, E, S, mod):
    """a parameter read by a penalty only"""
    ps = PSet(E, [(2,), (2,)], [None, (0, 1)])
    src = E.src('''
from maxlike.maxlike_base import MaxLike
from maxlike.tensor import Tensor


class Part(MaxLike):
    def __init__(self, f):
        MaxLike.__init__(self)
        self.f = f

    def like(self, params, y):
        return self.f(params[:1])

    def grad_like(self, params, y, der):
        return [self.f.grad(params[:1], 0), Tensor(0)]

    def hess_like(self, params, y, der, hess):
        return [[self.f.hess(params[:1], 0, 0)], [Tensor(0), Tensor(0)]]
''')
    f, fs = S.make('L', 'dense')
    o = E.call(src.d['Part'], f)
    obj = [(fs.v(fs.arg_id([ps.v[0]]), ()), 1)]
    h, hs = S.make('h', 'dense')
    E.m(o, 'add_regularization', [1], h)
    obj.append((hs.v(hs.arg_id([ps.v[1]]), ()), -1))
    compare(C, E, o, ps, obj, [], 'parameter read by a penalty only',
            ('grad', 'hess'))
