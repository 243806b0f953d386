"""C20 failures while evaluating derivatives are never turned into zeros."""
from .. import terms as tt
from .. import arr as A
from .. import valnum
from .. import interp as I
from ..core import Bad, AbsRaise, dense, exc_name
from ..fobl import P, Sym
from ..library import recipes
from ..terms import tm

LEVEL = 'other'
TECHNIQUE = 'exception-flow analysis on an abstract interpretation of the ' \
    'source (every raising point of a component is followed to the caller)'
EXPLANATION = (
    'Every combinator is interpreted abstractly over components that raise '
    'an exception of a given class while computing one value, gradient or '
    'Hessian; every evaluation that needs this quantity must raise. '
    'Derivatives reported as identically zero are compared with the formal '
    'derivative of the value graph.')
ASSUMPTIONS = ['exception classes enumerated',
               'a component fails on every use of the quantity']
FLOOR = 60

HARNESS = '''
from maxlike.func.func_base import Func
from maxlike.tensor.tensor import InvalidOperation
class Odd(Exception):
    pass
class OddType(TypeError):
    pass
class Failing(Func):
    def __init__(self, base, what, exc):
        self.base = base
        self.what = what
        self.exc = exc
    def __call__(self, params):
        if self.what == ('call', ):
            raise self.exc('component')
        return self.base(params)
    def grad(self, params, i):
        if self.what == ('grad', i):
            raise self.exc('component')
        return self.base.grad(params, i)
    def hess(self, params, i, j):
        if self.what == ('hess', i, j) or self.what == ('hess', j, i):
            raise self.exc('component')
        return self.base.hess(params, i, j)
class ValueOnly(Func):
    def __init__(self, base):
        self.base = base
    def __call__(self, params):
        return self.base(params)
class NoHess(Func):
    def __init__(self, base):
        self.base = base
    def __call__(self, params):
        return self.base(params)
    def grad(self, params, i):
        return self.base.grad(params, i)
EXC = [ValueError, TypeError, IndexError, KeyError, AttributeError,
       ZeroDivisionError, NotImplementedError, RuntimeError, AssertionError,
       Odd, OddType, InvalidOperation, KeyboardInterrupt, LookupError,
       FloatingPointError]
'''


class Combo(object):
    """mk(component) -> function of n parameters; reads[k]: parameter of the
    result read as the component's parameter k; need: extra evaluations that
    need the component's value"""

    def __init__(self, name, comp, n, reads, mk, role='outer', shapes=None):
        self.name, self.comp, self.n, self.reads = name, comp, n, reads
        self.mk, self.role = mk, role
        self.shapes = shapes or [('u',), ('v',), ('w',)][:n]


def combos(E, S):
    F_ = 'maxlike.func.'
    st = {}

    def sym(kind, n, d=()):
        key = (kind, n, d)
        lst = st.setdefault(key, [])
        return S.again(lst, lambda: S.make('f', kind, n, d))[0]
    out = []

    def add(*a, **k):
        out.append(Combo(*a, **k))
    one = lambda: sym('dense', ('a',))
    two = lambda: sym('dense', ('a', 'b'), ('e',))
    oth = lambda: sym('dense', ('b',))
    add('Affine', one, 2, [0, 1], lambda f: E.new(F_ + 'Affine', f, 2, 3))
    add('Affine', one, 1, [0], lambda f: E.new(F_ + 'Affine', E.new(
        F_ + 'Affine', f, -1, 0), 2, 3))
    add('Func operators', one, 2, [0, 1], lambda f: E.I.binop(
        'Sub', 1.0, E.I.binop('Mult', f, 3.0)))
    add('FuncWrap', two, 3, [2, 0], lambda f: E.new(
        F_ + 'FuncWrap', f, [2, 0], [1, 2], 3, [1], 2))
    add('FuncWrap', one, 2, [1], lambda f: E.new(F_ + 'FuncWrap', f, [1],
                                                 [0], 1))
    add('FuncWrap', one, 3, [1, 2, 0], lambda f: E.new(
        F_ + 'FuncWrap', f, [1, 2, 0], [0], 1))
    add('Collapse', two, 2, [0, 1], lambda f: E.new(F_ + 'Collapse', f))
    add('Collapse', two, 2, [0, 1], lambda f: E.new(F_ + 'Collapse', f, 0,
                                                    False))
    for cls in ('Sum', 'Product'):
        for first in (True, False):
            for w in ((), (2.5,)) if cls == 'Sum' else ((),):
                def mk(f, cls=cls, first=first, w=w):
                    h = E.new(F_ + cls, 2, 1)
                    if not first:
                        E.m(h, 'add', oth(), [0], [1], [])
                    E.m(h, 'add', f, [2, 1], [0, 1], [0], *w)
                    if first:
                        E.m(h, 'add', oth(), [0, 1], [1], [])
                    return h
                add(cls, two, 3, [2, 1], mk)

        def single(f, cls=cls):
            return E.m(E.new(F_ + cls, 1), 'add', f, 0, 0)
        add(cls, one, 1, [0], single)

        def nested(f, cls=cls):
            h = E.new(F_ + cls, 1)
            E.m(h, 'add', f, [1, 0], [0])
            g = E.new(F_ + cls, 2)
            E.m(g, 'add', oth(), [2], [1])
            E.m(g, 'add', h, [0, 2], [0])
            return g
        add(cls + '.add', one, 3, [2, 0], nested)

        def withconst(f, cls=cls):
            h = E.new(F_ + cls, 1)
            E.m(h, 'add', E.new(F_ + 'Scalar'), [0], [])
            E.m(h, 'add', f, [1], [0])
            E.m(h, 'add', E.new(F_ + 'Vector', E.arr('c', ('a',))), [0], [0])
            return h
        add(cls, one, 2, [1], withconst, shapes=[(), ('v',)])
    # the component is the inner function of a composition
    g1 = lambda: sym('dense', ('s',))
    g2 = lambda: sym('dense', ('t',))
    add('Compose', g1, 2, [0, 1], lambda f: E.new(
        F_ + 'Compose', one(), [f, g2()]), role='inner')
    add('Compose', g1, 2, [0, 1], lambda f: E.new(
        F_ + 'Compose', one(), [g2(), f]), role='inner')
    add('Compose', g1, 2, [0, 1], lambda f: E.new(
        F_ + 'Compose', one(), f), role='inner')
    add('Compose', g1, 1, [0], lambda f: E.m(
        E.new(F_ + 'Exp'), '__matmul__', f), role='inner')
    add('Compose', g1, 2, [0, 1], lambda f: E.new(
        F_ + 'Compose', E.new(F_ + 'X'), [f]), role='innerlin')
    add('Compose', g1, 2, [0, 1], lambda f: E.new(
        F_ + 'Compose', E.new(F_ + 'Linear', [2, 3]), [f, sym(
            'dense', ('s',))]), role='innerlin')
    # the component is the outer function
    add('Compose', one, 2, None, lambda f: E.new(
        F_ + 'Compose', f, [g1(), g2()]), role='outer2')
    add('Compose', one, 1, None, lambda f: E.new(
        F_ + 'Compose', f, E.new(F_ + 'Exp')), role='outer2')
    return out


def check(C):
    C.rule('raised', 'an evaluation that needs a failing quantity raises')
    C.rule('missing', 'derivatives a component does not provide are not '
           'reported as zeros')
    C.rule('estimator', 'failures of the model, the constraints and the '
           'penalties reach the caller')
    C.rule('zero', 'a derivative reported as zero is zero')
    E = C.engine()
    S = Sym(E)
    h = E.src(HARNESS).d
    for k, c in enumerate(combos(E, S)):
        pv = lambda c=c: [E.arr('p%d' % q, s) for q, s in
                          enumerate(c.shapes)]
        ncomp = len(c.reads) if c.reads is not None else \
            2 if c.n == 2 else 1
        bads = [('call',)] + [('grad', q) for q in range(ncomp)] + [
            ('hess', q, r) for q in range(ncomp) for r in range(q + 1)]
        for bad in bads:
            def go(c=c, bad=bad, pv=pv):
                f = c.mk(E.call(h['Failing'], c.comp(), ('none',), None))
                for nm, th in needs(E, f, c, bad, pv()):
                    th()
                for exc in h['EXC']:
                    f = c.mk(E.call(h['Failing'], c.comp(), bad, exc))
                    for nm, th in needs(E, f, c, bad, pv()):
                        raises(E, th, nm, 'the %s of the component' %
                               describe(bad), exc)
            C.ob('raised', c.name, '%d %s %s' % (k, c.role, describe(bad)),
                 go)

        def missing(c=c, pv=pv):
            f = c.mk(E.call(h['ValueOnly'], c.comp()))
            for bad in (('grad', 0), ('hess', 0, 0)):
                for nm, th in needs(E, f, c, bad, pv()):
                    raises(E, th, nm, 'the missing %s of the component' %
                           describe(bad[:1]), None)
            f = c.mk(E.call(h['NoHess'], c.comp()))
            for nm, th in needs(E, f, c, ('hess', 0, 0), pv()):
                raises(E, th, nm, 'the missing Hessian of the component',
                       None)
        C.ob('missing', c.name, '%d %s' % (k, c.role), missing)
    estimators(C, E, S, h)
    zeros(C, E, S)


def describe(bad):
    return {'call': 'value', 'grad': 'gradient', 'hess': 'Hessian'}[
        bad[0]] + (' ' + ','.join(map(str, bad[1:])) if bad[1:] else '')


def needs(E, f, c, bad, pv):
    """evaluations that need the failing quantity"""
    call = ('call', lambda: E.call(f, list(pv)))
    ev = ('eval', lambda: E.m(f, 'eval', list(pv)))
    g = ('grad', lambda: E.m(f, 'grad', list(pv)))
    h = ('hess', lambda: E.m(f, 'hess', list(pv)))

    def gi(i):
        return ('grad %d' % i, lambda: E.m(f, 'grad', list(pv), i))

    def hi(i, j):
        i, j = max(i, j), min(i, j)
        return ('hess %d,%d' % (i, j), lambda: E.m(f, 'hess', list(pv), i, j))
    out = []
    if bad[0] == 'call':
        out = [call, ev]
        if c.role == 'inner':
            out += [g, h, gi(0), hi(0, 0)]
    elif c.reads is None:
        if bad[0] == 'grad':
            out = [g, ev, gi(0), gi(c.n - 1)]
        else:
            out = [h, ev, hi(0, 0), hi(c.n - 1, c.n - 1)]
    elif bad[0] == 'grad':
        i = c.reads[bad[1]]
        out = [g, ev, gi(i)]
        if c.role == 'inner':
            out += [hi(i, i), hi(i, 0), hi(c.n - 1, i)]
    else:
        out = [h, ev, hi(c.reads[bad[1]], c.reads[bad[2]])]
    return out


def raises(E, th, nm, what, exc):
    try:
        th()
    except AbsRaise as e:
        return
    raise Bad('%s answers although %s cannot be computed%s' % (
        nm, what, '' if exc is None else ' (%s)' % exc.name if isinstance(
            exc, I.PyClass) else exc.__name__))


def estimators(C, E, S, h):
    st = []

    def base():
        return S.again(st, lambda: S.make('m', 'dense', (2,)))[0]
    ct = []

    def cons():
        return S.again(ct, lambda: S.make('c', 'dense'))[0]

    def make(model, con, reg):
        o = E.new('maxlike.Poisson')
        for nm, dom in (('N', (3, 9)), ('X', (.5, 2.5))):
            E.I.setattr(o, nm, E.new('maxlike.tensor.Tensor', E.arr(
                nm, (2,), dom=dom)))
        for k in range(2):
            E.m(o, 'add_param', E.arr('q%d' % k, (2,)[k:]))
        E.I.setattr(o, 'model', model)
        if con is not None:
            E.m(o, 'add_constraint', [1, 0], con)
        if reg is not None:
            E.m(o, 'add_regularization', [1, 0], reg)
        return o
    for role in ('model', 'constraint', 'penalty'):
        for bad in [('call',), ('grad', 0), ('grad', 1), ('hess', 0, 0),
                    ('hess', 1, 0), ('hess', 1, 1)]:
            def go(role=role, bad=bad):
                for exc in h['EXC']:
                    b = lambda f: E.call(h['Failing'], f, bad, exc)
                    m = base()
                    o = make(b(m) if role == 'model' else m,
                             b(cons()) if role == 'constraint' else None,
                             b(cons()) if role == 'penalty' else None)
                    pv = E.attr(o, 'params')
                    if role == 'model':
                        raises(E, lambda: E.m(o, 'g', pv) if
                               bad[0] == 'call' else E.m(
                                   E.attr(o, 'model'), 'eval', pv), 'fit',
                               'the %s of the %s' % (describe(bad), role),
                               exc)
                        continue
                    y, g, hh = E.m(m, 'eval', pv)
                    if exc is h['EXC'][0]:
                        w = make(m, cons(), cons())
                        E.m(w, 'g', pv)
                        E.m(w, 'flat_grad', pv, y, g)
                        E.m(w, 'flat_hess', pv, y, g, hh)
                    if role == 'penalty':
                        th = {'call': lambda: E.m(o, 'g', pv),
                              'grad': lambda: E.m(o, 'flat_grad', pv, y, g),
                              'hess': lambda: E.m(o, 'flat_hess', pv, y, g,
                                                  hh)}
                    else:
                        th = {'call': lambda: E.m(o, 'flat_grad', pv, y, g),
                              'grad': lambda: E.m(o, 'flat_hess', pv, y, g,
                                                  hh)}
                    if bad[0] not in th:
                        continue
                    raises(E, th[bad[0]], {
                        'call': 'the objective', 'grad': 'the gradient',
                        'hess': 'the Hessian'}[bad[0]],
                        'the %s of the %s' % (describe(bad), role), exc)
            C.ob('estimator', 'MaxLike', '%s %s' % (role, describe(bad)), go)


def zeros(C, E, S):
    for r in recipes(E, S, C.tier == 'quick'):
        if r.heavy and C.tier == 'quick':
            continue

        def go(r=r):
            ps = r.ps_of()
            f = r.mk()
            pv = [p.v for p in ps]
            v = dense(E, E.call(f, pv))
            idx, ivs, szs = A.generic_index(v.groups[2] + v.groups[3])
            k = len(v.groups[2])
            val = v.at(((), (), idx[:k], idx[k:]))

            def iszero(t):
                d = dense(E, t)
                ii, _, _ = A.generic_index(d.shape)
                parts, p = [], 0
                for g in d.groups:
                    parts.append(ii[p:p + len(g)])
                    p += len(g)
                return tm(d.at(parts)) is tt.ZERO

            def formal(t, p, xs):
                return tt.diff(t, p.name, tuple(tm(x) for x in xs))
            _, g, h = E.m(f, 'eval', pv)
            for i, p in enumerate(ps):
                xi, iv, sz = A.generic_index(p.shape)
                for nm, t in (('grad', E.m(f, 'grad', pv, i)),
                              ('eval', g[i])):
                    if iszero(t):
                        zero(formal(val, p, xi), ivs + iv, szs + sz,
                             '%s %d' % (nm, i))
                for j in range(i + 1):
                    for nm, t in (('hess', E.m(f, 'hess', pv, i, j)),
                                  ('eval', h[i][j])):
                        if iszero(t):
                            q = ps[j]
                            yi, jv, tz = A.generic_index(q.shape)
                            zero(formal(formal(val, p, xi), q, yi),
                                 ivs + iv + jv, szs + sz + tz,
                                 '%s %d,%d' % (nm, i, j))
        C.ob('zero', r.name, 'derivatives', go)


def zero(t, ivs, szs, what):
    if valnum.compare(tt.ZERO, tm(t), ivs, szs) is not None:
        raise Bad('%s reports zeros although the value depends on the '
                  'parameter' % what)
