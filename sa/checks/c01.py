"""C01 elementary model functions: value and derivative pairing."""
from .. import terms as tt
from .. import arr as A
from ..fobl import P, func_obligations, split
from ..terms import tm

LEVEL = 'other'
EXPLANATION = (
    'The source of every elementary function class is interpreted abstractly '
    'over arrays of symbolic length (value-graph terms per position); the '
    'value is compared with its documented formula and every reported '
    'derivative with the formal derivative of that formula, position by '
    'position on symbolic positions, for ranks 0..R and for parameters given '
    'as numbers, arrays, tensors and Param objects.')
ASSUMPTIONS = ['real arithmetic (no rounding)', 'axis lengths at least 2 and '
               'arbitrary; ranks enumerated', 'numpy semantics as modelled '
               'in sa/arr.py and sa/npmodel.py']
FLOOR = 60
NAMES = ['a', 'b', 'c', 'd', 'e']


def check(C):
    C.rule('value', 'the value graph equals the documented formula')
    C.rule('grad', 'grad(i) equals the formal first derivative of the value')
    C.rule('hess', 'hess(i,j) equals the formal second derivative')
    C.rule('eval', 'eval returns value, all gradients and the lower Hessians')
    E = C.engine()
    fn = tt.fn
    ranks = (0, 1, 2, 4) if C.tier == 'quick' else range(0, 6)
    one = tt.ONE

    def expit(p):
        return tt.div(one, tt.add(one, tt.exp(tt.neg(p))))

    elementwise = {
        'X': ('maxlike.func.X', {}, lambda p: p, 'real'),
        'Exp': ('maxlike.func.Exp', {}, lambda p: tt.exp(p), 'real'),
        'Log': ('maxlike.func.Log', {}, lambda p: tt.log(p), 'pos'),
        'Logistic': ('maxlike.func.Logistic', {}, expit, 'real'),
        'ArcTan': ('maxlike.func.ArcTan', {},
                   lambda p: fn('arctan', p), 'real'),
    }
    for name, (path, kw, form, dom) in elementwise.items():
        for r in ranks:
            for kind in ('array', 'tensor', 'param') + (
                    ('number',) if r == 0 else ()):
                for dim in ((0,) if kind != 'tensor' else
                            range(0, min(r, 2) + 1)):
                    shape = NAMES[:r]

                    def ps_of():
                        return [P(E, 'p', shape, kind, dim, dom=dom)]
                    sh = tuple(tt.size(s) for s in shape)
                    n, d = split(sh, dim)
                    func_obligations(
                        C, E, lambda: E.new(path), ps_of, name,
                        'rank=%d,%s%s' % (r, kind,
                                          ',dim=%d' % dim if dim else ''),
                        n, d,
                        lambda nn, dd: form(tt.sym('p', tuple(
                            tm(k) for k in nn + dd))))
    # sigmoid factory
    for which, form in (('logistic', expit), ('ArcTan', lambda p: tt.add(
            tt.div(fn('arctan', p), tm('pi') if False else PI()),
            tt.const(0.5)))):
        for r in (0, 2):
            sh = tuple(tt.size(s) for s in NAMES[:r])
            func_obligations(
                C, E, lambda: E.call(E.get('maxlike.func.Sigmoid'), which),
                lambda: [P(E, 'p', NAMES[:r], 'array')],
                'Sigmoid(%s)' % which, 'rank=%d' % r, sh, (),
                lambda nn, dd: form(tt.sym('p', tuple(tm(k) for k in nn))))

    def bad_sigmoid():
        try:
            E.call(E.get('maxlike.func.Sigmoid'), 'no such sigmoid')
        except A.AbsRaise as e:
            if isinstance(e.exc, ValueError):
                return None
            raise
        return 'an unknown sigmoid name is accepted'
    C.ob('reject', 'Sigmoid', 'unknown name', bad_sigmoid)
    # scalar / vector / constant
    for kind in ('number', 'array', 'tensor', 'param'):
        func_obligations(
            C, E, lambda: E.new('maxlike.func.Scalar'),
            lambda: [P(E, 'p', (), kind)], 'Scalar', kind, (), (),
            lambda nn, dd: tt.sym('p', ()))
        for r in (1, 2):
            sh = tuple(tt.size(s) for s in NAMES[:r])

            def mkv():
                return E.new('maxlike.func.Vector', E.arr('w', NAMES[:r]))
            func_obligations(
                C, E, mkv, lambda: [P(E, 'p', (), kind)], 'Vector',
                'vector rank=%d,%s' % (r, kind), sh, (),
                lambda nn, dd: tt.mul(tt.sym('p', ()), tt.sym(
                    'w', tuple(tm(k) for k in nn))))
        for r in (0, 1, 2):
            sh = tuple(tt.size(s) for s in NAMES[:r])

            def mkc():
                return E.new('maxlike.func.Constant', E.arr('w', NAMES[:r]))
            func_obligations(
                C, E, mkc, lambda: [P(E, 'p', ('z',), kind)] if
                kind != 'number' else [P(E, 'p', (), kind)], 'Constant',
                'rank=%d,%s' % (r, kind), sh, (),
                lambda nn, dd: tt.sym('w', tuple(tm(k) for k in nn)))

    # linear / quadratic: several parameters, scalar value
    def total(name, shape, body):
        ivs = [(tt.ivar(tt.size(s)), tt.size(s)) for s in shape]
        t = body(tt.sym(name, tuple(v for v, _ in ivs)))
        for v, s in ivs:
            t = tt.ssum(v, s, t)
        return t
    shapes = [[(), ('a',)], [('a', 'b')], [('a',), (), ('b', 'c')],
              [(), ('a',), (), ('b',), (), ('a', 'b', 'c'), ()]]
    for shp in shapes:
        for kind in ('array', 'param', 'tensor'):
            def ps_of():
                return [P(E, 'p%d' % k, s, kind) for k, s in enumerate(shp)]
            ws = [E.scalar('w%d' % k) for k in range(len(shp))]
            for k in range(len(shp)):
                pass
            case = 'shapes=%s,%s' % ('/'.join(str(len(s)) for s in shp), kind)
            func_obligations(
                C, E, lambda: E.new('maxlike.func.Linear', list(ws)), ps_of,
                'Linear', case, (), (), lambda nn, dd: tt.add(*[
                    total('p%d' % k, s, lambda p: tt.mul(ws[k], p))
                    for k, s in enumerate(shp)] + [tt.ZERO]))
            u, s_ = E.scalar('u'), E.scalar('s', dom='pos')

            def sq(p):
                z = tt.div(tt.add(p, tt.neg(u)), s_)
                return tt.mul(z, z)
            func_obligations(
                C, E, lambda: E.new('maxlike.func.Quadratic', u, s_), ps_of,
                'Quadratic', case, (), (), lambda nn, dd: tt.add(*[
                    total('p%d' % k, s, sq)
                    for k, s in enumerate(shp)] + [tt.ZERO]))

            def sq0(p):
                return tt.mul(p, p)
            func_obligations(
                C, E, lambda: E.new('maxlike.func.Quadratic'), ps_of,
                'Quadratic()', case, (), (), lambda nn, dd: tt.add(*[
                    total('p%d' % k, s, sq0)
                    for k, s in enumerate(shp)] + [tt.ZERO]))


def PI():
    import math
    return tt.tm(math.pi)
