"""C04 Markov score models."""
from .. import terms as tt
from .. import valnum
from ..core import Bad, dense, same
from ..fobl import P, func_obligations
from ..terms import tm

LEVEL = 'other'
EXPLANATION = (
    'MarkovMatrix and MarkovVector are interpreted abstractly for symbolic '
    'rates and skew tables and enumerated numbers of steps and sizes (the '
    'loops are unrolled).  The value graph of every score is compared with '
    'the transition kernel applied step times to the zero score, the total is '
    'shown to be the constant one, and each derivative graph is compared with '
    'the formal derivative with respect to the rates.')
ASSUMPTIONS = ['real arithmetic', 'rates positive with s1+s2<steps as the '
               'models assert', 'steps and sizes enumerated, see cases']
FLOOR = 40
NAMES = ['a', 'b']


def add_to(d, k, v):
    d[k] = tt.add(d.get(k, tt.ZERO), v)


def kernel_matrix(size, steps, s1, s2, skew):
    M = {(0, 0): tt.ONE}
    for _ in range(steps):
        N = {}
        for (x, y), m in M.items():
            u = tt.mul(s1, skew(x, y))
            v = tt.mul(s2, skew(y, x))
            add_to(N, (min(x + 1, size - 1), y), tt.mul(u, m))
            add_to(N, (x, min(y + 1, size - 1)), tt.mul(v, m))
            add_to(N, (x, y), tt.mul(m, tt.add(tt.ONE, tt.neg(u),
                                               tt.neg(v))))
        M = N
    return M


def kernel_vector(size, steps, s1, s2, skew):
    n = 2 * size - 1
    M = {size - 1: tt.ONE}
    for _ in range(steps):
        N = {}
        for x, m in M.items():
            u = tt.mul(s1, skew(x))
            v = tt.mul(s2, skew(n - 1 - x))
            add_to(N, min(x + 1, n - 1), tt.mul(u, m))
            add_to(N, max(x - 1, 0), tt.mul(v, m))
            add_to(N, x, tt.mul(m, tt.add(tt.ONE, tt.neg(u), tt.neg(v))))
        M = N
    return M


def pick(M, n, idx):
    r = tt.ZERO
    for k, m in M.items():
        k = k if isinstance(k, tuple) else (k,)
        c = tt.land(*[tt.eq(tm(i), tt.const(z)) for i, z in zip(idx, k)])
        r = tt.add(r, tt.mul(m, tt.ite(c, tt.ONE, tt.ZERO)))
    return r


def check(C):
    C.rule('value', 'the distribution is the step kernel applied to the '
           'zero score')
    C.rule('grad', 'grad(i) equals the formal first derivative')
    C.rule('hess', 'hess(i,j) equals the formal second derivative')
    C.rule('eval', 'eval agrees with the separate calls')
    C.rule('mass', 'total probability is the constant one')
    E = C.engine()
    quick = C.tier == 'quick'
    sizes = (1, 2, 3) if quick else (1, 2, 3, 4)
    stepss = (1, 2, 3) if quick else (1, 2, 3, 4, 5)
    from .. import arr as A
    for name in ('MarkovMatrix', 'MarkovVector'):
        path = 'maxlike.func.' + name
        mat = name == 'MarkovMatrix'
        for size in sizes:
            for steps in stepss:
                for skewed in (True, False):
                    for rk, kind in ((0, 'array'), (1, 'array'), (1, 'param'),
                                     (1, 'tensor'), (0, 'number'),
                                     (2, 'array')):
                        big = size * steps > 4 or (not skewed)
                        if (big and (rk, kind) != (1, 'array')):
                            continue
                        if kind != 'array' and (size, steps) != (2, 2):
                            continue
                        if quick and not skewed and size * steps > 4:
                            continue
                        m = 2 * size - 1
                        sk = E.arr('skew', (size, size) if mat else (m,),
                                   dom=(0.2, 0.9))
                        shp = NAMES[:rk]
                        sh = tuple(tt.size(s) for s in shp)
                        case = 'size=%d,steps=%d,%s,rank=%d,%s' % (
                            size, steps, 'skew' if skewed else 'no skew',
                            rk, kind)

                        def mk():
                            if not skewed:
                                return E.new(path, size, steps)
                            return E.new(path, size, steps, sk)

                        def ps_of():
                            return [P(E, 'p%d' % i, shp, kind,
                                      dom=(0.05, 0.45)) for i in range(2)]

                        def spec(nn, dd):
                            s = [tt.div(tt.sym('p%d' % i, tuple(
                                tm(k) for k in nn)), tt.const(steps))
                                for i in range(2)]
                            w = (lambda *k: tt.sym('skew', tuple(
                                tm(z) for z in k))) if skewed else \
                                (lambda *k: tt.ONE)
                            K = kernel_matrix if mat else kernel_vector
                            return pick(K(size, steps, s[0], s[1], w),
                                        size, dd)
                        func_obligations(
                            C, E, mk, ps_of, name, case, sh,
                            (size, size) if mat else (m,), spec,
                            hess=(rk < 2),
                            grad=True)

                        def mass():
                            f, ps = mk(), ps_of()
                            v = dense(E, E.call(f, [p.v for p in ps]))
                            tot = tt.ZERO
                            import itertools
                            ii = tuple(tt.ivar(n) for n in sh)
                            for k in itertools.product(
                                    *[range(z) for z in v.groups[3]]):
                                tot = tt.add(tot, v.at(((), (), ii, k)))
                            w = valnum.compare(tot, tt.ONE, ii,
                                               tuple(tm(z) for z in sh))
                            if w:
                                raise Bad('total probability %.12g' %
                                          w['got'])
                        C.ob('mass', name, case, mass)
