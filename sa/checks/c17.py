"""C17 evaluating models and tensors has no side effects."""
import itertools
import numpy as np
from .. import terms as tt
from .. import arr as A
from .. import interp as I
from ..core import Bad, AbsRaise, dense
from ..effects import Frame, observe, agree, Raised, run_jobs, kind
from ..fobl import P, Sym
from ..library import recipes
from ..estim import estimators, build as build_est
from ..tensors import Universe, Rep, reps
from .. import placed

LEVEL = 'other'
TECHNIQUE = 'effect analysis on an abstract interpretation (frame ' \
    'conditions over the abstract heap)'
EXPLANATION = (
    'Every evaluation is interpreted abstractly; all objects that exist '
    'before it - operands, caller\'s arrays and lists, tensors, parameters, '
    'data - are compared with a snapshot of the abstract heap after it, and '
    'functions and estimators with a history of other evaluations are '
    'compared, result by result, with fresh ones.')
ASSUMPTIONS = ['functions and histories enumerated', 'random identifiers '
               'are distinct']
FLOOR = 150


def other(E, ps):
    """another set of parameters of the same shapes"""
    out = []
    for p in ps:
        info = {k: v for k, v in tt.SYMINFO.get(p.name, {}).items()}
        out.append(P(E, p.name + 'B', p.shape, p.kind, **info))
    return out


def functions(C, E, S):
    R = recipes(E, S, C.tier == 'quick')
    for r in R:
        if r.heavy and C.tier == 'quick':
            continue

        def repeat(r=r):
            st = []

            def mk():
                return S.again(st, r.mk)
            pa = r.ps_of()
            pb = other(E, pa)
            va, vb = [p.v for p in pa], [p.v for p in pb]
            f1, f2 = mk(), mk()
            fresh = observe(E, f1, va)
            fr = Frame(params=va, other=vb)
            observe(E, f2, vb)
            again = observe(E, f2, va, -1)
            agree(E, again, fresh, 'after evaluations at other parameters')
            agree(E, observe(E, f2, va), fresh, 'evaluating a third time')
            fr.verify('evaluating the function')
        big = r.name in ('Product(many)', 'Affine(many)',
                         'Compose(many params)', 'Collapse(many)')
        if not big or C.tier != 'quick':
            C.ob('repeat', r.name, 'history of two parameter sets', repeat)

        def overwritten(r=r):
            # the caller stores other numbers in the arrays it passed
            st = []
            pa = r.ps_of()
            pb = other(E, pa)
            f1, f2 = S.again(st, r.mk), S.again(st, r.mk)
            fresh = observe(E, f1, [p.v for p in pb])
            put = E.src(PUT).d
            va = [E.call(put['copy'], p.a) for p in pa]
            observe(E, f2, va, lite='first')
            for x, p in zip(va, pb):
                E.call(put['put'], x, p.a)
            agree(E, observe(E, f2, va), fresh, 'after the caller stored '
                  'other numbers in its parameter arrays')
        C.ob('repeat', r.name, 'parameter arrays overwritten in place',
             overwritten)

        def kinds(r=r):
            # parameters as Param objects, tensors and lists
            pa = r.ps_of()
            st = []
            ref = observe(E, S.again(st, r.mk), [p.a for p in pa])
            for cls in ('maxlike.maxlike_base.Param',
                        'maxlike.tensor.Tensor'):
                pv = [E.new(cls, p.a) for p in pa]
                f = S.again(st, r.mk)
                fr = Frame(params=pv, arrays=[p.a for p in pa])
                got = observe(E, f, pv)
                for k in ref:
                    if isinstance(got[k], Raised) and not isinstance(
                            ref[k], Raised):
                        raise Bad('%s at %s objects raises %s' % (
                            k, cls.split('.')[-1], got[k].name))
                fr.verify('evaluating at %s objects' % cls.split('.')[-1])
            if len(pa) == 1:
                f = r.mk()
                fr = Frame(param=pa[0].v)
                run_jobs([('c', lambda: E.call(f, pa[0].v)),
                          ('g', lambda: E.m(f, 'grad', pa[0].v)),
                          ('h', lambda: E.m(f, 'hess', pa[0].v)),
                          ('e', lambda: E.m(f, 'eval', pa[0].v))])
                fr.verify('evaluating at a bare parameter')
        C.ob('operands', r.name, 'parameter objects', kinds)


PUT = '''
import numpy as np
def copy(a):
    return np.array(a)
def put(a, b):
    a[...] = b
'''
COMBOS = '''
from maxlike.func import Sum, Product, Compose, FuncWrap, Collapse, Affine, X
def binary(f, g, n_feat, n_dim):
    fm = list(range(n_feat))
    dm = list(range(n_dim))
    def s(a, b, w):
        r = Sum(n_feat, n_dim)
        r.add(a, [0], fm, dm, w)
        r.add(b, [0], fm, dm)
        return r
    def p(a, b):
        r = Product(n_feat, n_dim)
        r.add(a, [0], fm, dm)
        r.add(b, [0], fm, dm)
        return r
    return [f + g, f - g, s(f, g, 2.0), s(g, f, 3.0), p(f, g), g + f, p(g, f)]
def unary(f, n_feat, n_dim):
    fm = list(range(n_feat))
    dm = list(range(n_dim))
    return [f * 2, 3.0 * f, -f, f + 1, 2 - f, f / 4, (f * 2) + 1, -(f + 1),
            FuncWrap(f, [0], fm, n_feat + 1, dm, n_dim),
            Collapse(f), Collapse(f, False, True), Affine(f, 2, 3),
            (2 * f) * 3, X() @ f]
'''


def combos(C, E, S):
    mod = E.src(COMBOS)
    F_ = 'maxlike.func.'

    st = []

    def obs_(E, f, pv):
        return observe(E, f, pv, lite=C.tier == 'quick')

    def comp(*a):
        return S.again(st, lambda: S.make('f', 'dense', *a)[0])

    def base():
        """functions of one parameter with one value axis"""
        out = {}
        out['uninterpreted'] = lambda: comp(('a',))
        out['X'] = lambda: E.new(F_ + 'X')
        out['Exp'] = lambda: E.new(F_ + 'Exp')
        out['Affine'] = lambda: E.new(F_ + 'Affine', E.new(F_ + 'X'), 2, 3)

        def summ(cls):
            f = E.new(F_ + cls, 1)
            E.m(f, 'add', E.new(F_ + 'X'), [0], [0])
            E.m(f, 'add', E.new(F_ + 'Exp'), [0], [0])
            return f
        out['Sum'] = lambda: summ('Sum')
        out['Product'] = lambda: summ('Product')
        out['Constant'] = lambda: E.new(F_ + 'Constant', E.arr('c', ('a',)))
        out['Compose'] = lambda: E.m(E.new(F_ + 'Exp'), '__matmul__',
                                     E.new(F_ + 'X'))
        out['FuncWrap'] = lambda: E.new(F_ + 'FuncWrap', E.new(F_ + 'X'),
                                        [0], [0], 1)
        return out
    B = base()

    def p():
        return [E.arr('p', ('a',))]
    names = sorted(B)
    pairs = list(itertools.product(names, repeat=2))
    if C.tier == 'quick':
        pairs = [(x, y) for k, (x, y) in enumerate(pairs)
                 if k % 3 == 0 or 'Sum' in (x, y) or 'Affine' == x]
    for x, y in pairs:
        def go(x=x, y=y):
            f, g = B[x](), B[y]()
            pv = p()
            f0, g0 = obs_(E, B[x](), pv), obs_(E, B[y](), pv)
            try:
                hs = E.call(mod.d['binary'], f, g, 1, 0)
            except AbsRaise:
                return
            for h in hs:
                obs_(E, h, pv)
            agree(E, obs_(E, f, pv), f0, 'the first function, combined')
            agree(E, obs_(E, g, pv), g0, 'the second function, combined')
            # a combination is not affected by the next one
            h0 = [obs_(E, h, pv) for h in E.call(
                mod.d['binary'], B[x](), B[y](), 1, 0)]
            for h, o in zip(hs, h0):
                agree(E, obs_(E, h, pv), o, 'an earlier combination')
        C.ob('combine', 'Func operators', '%s with %s' % (x, y), go)
    for x in names:
        def go1(x=x):
            f = B[x]()
            pv = p()
            f0 = obs_(E, B[x](), pv)
            hs = E.call(mod.d['unary'], f, 1, 0)
            for h in hs:
                obs_(E, h, pv)
            agree(E, obs_(E, f, pv), f0, 'the combined function')
            h0 = [obs_(E, h, pv) for h in E.call(
                mod.d['unary'], B[x](), 1, 0)]
            for k, (h, o) in enumerate(zip(hs, h0)):
                agree(E, obs_(E, h, pv), o, 'combination number %d' % k)
        C.ob('combine', 'Func operators', x, go1)
    # adding to a combination leaves what it was made of alone
    for x in ('Sum', 'Product', 'Affine', 'X'):
        for cls in ('Sum', 'Product'):
            def go2(x=x, cls=cls):
                f = B[x]()
                pv = p()
                f0 = obs_(E, B[x](), pv)
                h = E.new(F_ + cls, 1)
                pm, fm = [0], [0]
                fr = Frame(maps=[pm, fm])
                E.m(h, 'add', f, pm, fm)
                h1 = obs_(E, h, pv)
                s = E.I.binop('Add', f, E.new(F_ + 'X')) if x != 'Product' \
                    else h
                E.m(h, 'add', E.new(F_ + 'Exp'), pm, fm)
                if kind(s) == 'Sum':
                    E.m(s, 'add', E.new(F_ + 'Exp'), pm, fm)
                obs_(E, h, pv)
                fr.verify('adding to a %s' % cls)
                agree(E, obs_(E, f, pv), f0, 'the %s added to a %s' %
                      (x, cls))
                g = E.new(F_ + cls, 1)
                E.m(g, 'add', f, pm, fm)
                agree(E, obs_(E, g, pv), h1, 'a second %s of it' % cls)
            C.ob('combine', cls + '.add', x, go2)


AUG = '''
def iadd(s, o):
    s += o
    return s
def isub(s, o):
    s -= o
    return s
def imul(s, o):
    s *= o
    return s
def idiv(s, o):
    s /= o
    return s
'''


def aug_ops(E):
    if not hasattr(E, 'aug_src'):
        E.aug_src = E.src(AUG).d
    return E.aug_src


def ops(E, t, o):
    n, d = E.attr(t, 'n'), E.attr(t, 'dim')
    wn, wd = list(range(n)), list(range(d))
    zero = [0] if n else []
    args = [wn, wd, zero]
    jobs = []
    for op in ('Add', 'Sub', 'Mult', 'Div'):
        jobs.append((op, lambda op=op: E.I.binop(op, t, o)))
        jobs.append(('r' + op, lambda op=op: E.I.binop(op, o, t)))
        jobs.append((op + ' 2', lambda op=op: E.I.binop(op, t, 2.0)))
        jobs.append((op + ' 0', lambda op=op: E.I.binop(op, t, 0)))
        jobs.append((op + ' 1', lambda op=op: E.I.binop(op, t, 1)))
    for sd in (True, False):
        for sv in (True, False, wn, 0):
            jobs.append(('sum(%s,%s)' % (sv, sd), lambda sv=sv, sd=sd:
                         E.m(t, 'sum', sv, sd)))
    aug = aug_ops(E)
    for op in ('iadd', 'isub', 'imul', 'idiv'):
        jobs.append((op, lambda op=op: E.call(aug[op], t, o)))
        jobs.append((op + ' 2', lambda op=op: E.call(aug[op], t, 2.0)))
    jobs += [
        ('neg', lambda: E.m(t, '__neg__')),
        ('pow', lambda: E.m(t, '__pow__', 2)),
        ('toarray', lambda: E.m(t, 'toarray')),
        ('transpose', lambda: E.m(t, 'transpose')),
        ('drop_dim', lambda: E.m(t, 'drop_dim')),
        ('expand', lambda: E.m(t, 'expand', wn, n + 1)),
        ('expand dim', lambda: E.m(t, 'expand', wd, d + 1, True)),
        ('flip', lambda: E.m(t, 'flip', zero)),
        ('flip dim', lambda: E.m(t, 'flip', wd, True)),
        ('dot', lambda: E.m(t, 'dot', o)),
        ('dot_left', lambda: E.m(t, 'dot_left', o)),
        ('dot_right', lambda: E.m(t, 'dot_right', o)),
        ('str', lambda: E.m(t, '__str__'))]
    return jobs, args


def tensors(C, E):
    U = Universe('a', 'a', 'a', 'e')
    R = [r for r in reps(U, bcast=False)]
    R = R[::2] if C.tier == 'quick' else R
    lz = [(a, b) for a in R for b in R if (a.xm, a.ym) != (b.xm, b.ym) and
          a.p[2] and b.p[2]]

    def mk(s, name):
        if isinstance(s, tuple):
            return E.I.binop('Add', s[0].make(E, name), s[1].make(
                E, name + 'x'))
        return s.make(E, name)
    step = 1 if C.tier == 'thorough' else max(1, len(lz) // 10)
    subj = list(R) + lz[::step]
    for k, s in enumerate(subj):
        others = [subj[(k * 5 + q) % len(subj)] for q in (0, 3, 7)]

        def go(s=s, others=others):
            for o in others:
                t, u = mk(s, 'A'), mk(o, 'B')
                jobs, args = ops(E, t, u)
                for nm, th in jobs:
                    fr = Frame(left=t, right=u, arguments=args)
                    r = run_jobs([(nm, th)])
                    fr.verify(nm)
        C.ob('tensor', 'Tensor' if not isinstance(s, tuple) else
             'GenericTensor', '%s' % (s if not isinstance(s, tuple) else
                                      '(%s+%s)' % s), go)


def estimator_jobs(E, o, pv):
    """evaluation methods of an estimator at the parameters pv"""
    m = E.attr(o, 'model')
    st = {}

    def ev(k):
        if 'e' not in st:
            st['e'] = E.m(m, 'eval', list(pv))
        return st['e'][k]
    return [
        ('g', lambda: E.m(o, 'g', list(pv))),
        ('like', lambda: E.m(o, 'like', list(pv), ev(0))),
        ('grad_like', lambda: E.m(o, 'grad_like', list(pv), ev(0), ev(1))),
        ('hess_like', lambda: E.m(o, 'hess_like', list(pv), ev(0), ev(1),
                                  ev(2))),
        ('flat_grad', lambda: E.m(o, 'flat_grad', list(pv), ev(0), ev(1))),
        ('flat_hess', lambda: E.m(o, 'flat_hess', list(pv), ev(0), ev(1),
                                  ev(2)))], ev


def estimators_(C, E, S):
    F_ = 'maxlike.func.'
    for est in estimators(E):
        for rich in (0, 1):
            st = []

            def mk(est=est, rich=rich, st=st):
                return S.again(st, lambda: mk_(est, rich))

            def mk_(est, rich):
                o = build_est(E, est, (2,), ('e', 'f')[:est.dim])
                f, _ = S.make('m', 'dense', (tt.const(2) and 2,),
                              tuple(tt.size(z) for z in
                                    ('e', 'f')[:est.dim]))
                E.I.setattr(o, 'model', f)
                for k in range(2):
                    E.m(o, 'add_param', E.arr('q%d' % k, (2, )[k:]),
                        E.I.np and [True, False] if not k and rich
                        else None)
                if rich:
                    g, _ = S.make('c', 'dense')
                    h, _ = S.make('h', 'dense')
                    E.m(o, 'add_constraint', [1, 0], g)
                    E.m(o, 'add_constraint', [1], S.make('c', 'dense')[0])
                    E.m(o, 'add_regularization', [0, 1], h)
                    E.m(o, 'add_regularization', [0], S.make(
                        'h', 'dense')[0])
                return o

            def go(mk=mk):
                o1, o2 = mk(), mk()
                def pset(x):
                    return [E.new('maxlike.maxlike_base.Param', E.arr(
                        '%s%d' % (x, k), (2,)[k:]), mask=None)
                        for k in range(2)]
                va, vb = pset('pa'), pset('pb')
                jobs, _ = estimator_jobs(E, o1, va)
                fresh = run_jobs(jobs)
                jb, _ = estimator_jobs(E, o2, vb)
                run_jobs(jb)
                ja, ev = estimator_jobs(E, o2, va)
                ev(0)
                data = {k: E.attr(o2, k) for k in est.data}
                for nm, th in ja[::-1]:
                    fr = Frame(params=va, model_values=[ev(k) for k in
                                                        range(3)],
                               data=data, stored=E.attr(o2, 'params'))
                    r = run_jobs([(nm, th)])
                    fr.verify(nm)
                    agree(E, r, {nm: fresh[nm]},
                          'after other evaluations')
                agree(E, run_jobs(ja), fresh, 'evaluating again')
                crit = [('AIC', lambda: E.m(
                    o2, 'akaine_information_criterion')),
                    ('BIC', lambda: E.m(
                        o2, 'bayesian_information_criterion')),
                    ('get_params', lambda: [E.I.getattr(p, 'data') if 0 else 1
                                            for p in E.m(o2, 'get_params')])]
                fr = Frame(data=data, stored=E.attr(o2, 'params'))
                a = run_jobs(crit)
                agree(E, run_jobs(ja), fresh, 'after the criteria')
                agree(E, run_jobs(crit), a, 'criteria evaluated again')
                fr.verify('information criteria')
            C.ob('estimator', est.name, 'dim=%d%s' % (
                est.dim, ' with constraint and penalty' if rich else ''), go)


def covariance(C, E, S):
    """reading errors from a fitted estimator changes nothing"""
    def go():
        o = E.new('maxlike.Poisson')
        for k in range(2):
            E.m(o, 'add_param', E.arr('q%d' % k, (2,)[k:]),
                [True, False] if not k else None)
        H = E.arr('H', (2, 2))
        E.I.setattr(o, 'flat_hess_', H)
        fr = Frame(hessian=H, stored=E.attr(o, 'params'))
        jobs = [(m, lambda m=m: E.m(o, m)) for m in (
            'fisher_matrix', 'error_matrix', 'std_error')]
        for nm, th in jobs:
            r = run_jobs([(nm, th)])
            fr.verify(nm)
    C.ob('estimator', 'MaxLike', 'fisher_matrix, error_matrix, std_error',
         go)


def callers(C, E):
    """objects handed over by the caller"""
    def build(nm, f):
        def go():
            roots, th = f()
            fr = Frame(**roots)
            try:
                th()
            except AbsRaise as e:
                pass
            fr.verify(nm)
        C.ob('caller', nm.split('(')[0], nm, go)
    build('Param(array)', lambda: (lambda a: (
        {'values': a}, lambda: E.new('maxlike.maxlike_base.Param', a)))(
            E.arr('v', (3,))))
    build('Param(array, mask)', lambda: (lambda a, m: (
        {'values': a, 'mask': m}, lambda: E.new(
            'maxlike.maxlike_base.Param', a, m)))(
                E.arr('v', (2,)), A.from_np(np.array([True, False]))))
    build('Param(list, list)', lambda: (lambda a, m: (
        {'values': a, 'mask': m}, lambda: E.new(
            'maxlike.maxlike_base.Param', a, m)))([1.0, 2.0],
                                                  [True, False]))
    build('Tensor(array)', lambda: (lambda a: (
        {'values': a}, lambda: E.new('maxlike.tensor.Tensor', a)))(
            E.arr('v', ('a', 'b'))))
    build('Tensor(tensor)', lambda: (lambda a: (
        {'values': a}, lambda: E.new('maxlike.tensor.Tensor', a)))(
            E.new('maxlike.tensor.Tensor', E.arr('v', ('a', 'b')), dim=1)))
    build('Constant(array)', lambda: (lambda a: (
        {'values': a}, lambda: E.call(E.new('maxlike.func.Constant', a), [])
    ))(E.arr('v', ('a', 'b'))))
    build('Vector(array)', lambda: (lambda a: (
        {'values': a}, lambda: E.call(E.new('maxlike.func.Vector', a),
                                      [E.arr('p')])))(E.arr('v', ('a',))))
    build('Linear(weights)', lambda: (lambda a: (
        {'weights': a}, lambda: E.call(E.new('maxlike.func.Linear', a), [
            E.arr('p'), E.arr('q')])))([2.0, 3.0]))
    build('FuncWrap(maps)', lambda: (lambda a: (
        {'maps': a}, lambda: observe(E, E.new(
            'maxlike.func.FuncWrap', E.new('maxlike.func.X'), a[0], a[1], 2,
            a[2], 1, a[3]), [E.arr('p', ('a',))])))(
                [[0], [1], [], [1]]))
    build('Collapse(axes)', lambda: (lambda a: (
        {'axes': a}, lambda: observe(E, E.new(
            'maxlike.func.Collapse', E.new('maxlike.func.X'), a),
            [E.arr('p', ('a', 'b'))])))([1]))
    build('CollapseMatrix(conditions)', lambda: (lambda a: (
        {'conditions': a}, lambda: observe(E, E.new(
            'maxlike.func.CollapseMatrix', a),
            [E.arr('p', ('a', 'x', 'y'))])))(
                [(1, -1, 0, 1), (1, -1, 0, 0)]))
    build('Compose(list)', lambda: (lambda a: (
        {'list': a}, lambda: observe(E, E.new(
            'maxlike.func.Compose', E.new('maxlike.func.Linear', [
                2, 3]), a),
            [E.arr('p', ('a',))])))(
                [E.new('maxlike.func.X'), E.new('maxlike.func.X')]))

    def est(nm, f):
        def mk():
            o = E.new('maxlike.Poisson')
            return f(o)
        build(nm, mk)
    est('MaxLike.add_param(array, mask)', lambda o: (lambda a, m: (
        {'values': a, 'mask': m}, lambda: E.m(o, 'add_param', a, m)))(
            E.arr('v', (2,)), A.from_np(np.array([True, False]))))
    est('MaxLike.add_constraint(list)', lambda o: (lambda a: (
        {'map': a}, lambda: E.m(o, 'add_constraint', a, E.new(
            'maxlike.func.X'))))([0]))
    est('MaxLike.fit(data)', lambda o: (lambda a, b: (
        {'N': a, 'X': b}, lambda: (
            E.I.setattr(o, 'model', E.new('maxlike.func.X')),
            E.m(o, 'add_param', E.arr('p', (2,))),
            E.m(o, 'fit', max_steps=0, N=a, X=b))))(
                E.arr('n', (2,)), E.arr('x', (2,))))
    for c in ('Gaussian', 'Clayton', 'Gumbel', 'Frank', 'AkiMikhailHaq'):
        def cop(c=c):
            a, b = E.arr('x', (3,), lo=0), E.arr('y', (2,), lo=0)
            return {'x': a, 'y': b}, lambda: E.call(
                E.new('maxlike.func.copula.' + c, 0.5 if c != 'Gumbel'
                      else 2), [a, b])
        build('%s(marginals)' % c, cop)


def check(C):
    C.rule('repeat', 'a function evaluated before gives the results of a '
           'fresh one and leaves its operands as they were')
    C.rule('operands', 'parameter objects and arrays are left as they were')
    C.rule('combine', 'combining functions does not change them')
    C.rule('tensor', 'tensor operations leave their operands and argument '
           'lists as they were')
    C.rule('estimator', 'evaluating an estimator changes neither data, '
           'parameters nor later results')
    C.rule('caller', 'objects handed over by the caller are left as they '
           'were')
    E = C.engine()
    S = Sym(E)
    functions(C, E, S)
    combos(C, E, S)
    tensors(C, E)
    estimators_(C, E, S)
    covariance(C, E, S)
    callers(C, E)
