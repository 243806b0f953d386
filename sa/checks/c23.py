"""C23 copulas preserve the marginals."""
import itertools
from fractions import Fraction as F
from .. import terms as tt
from .. import arr as A
from .. import valnum
from ..core import Bad, check_equal, dense, AbsRaise, exc_name
from ..effects import Frame
from ..npmodel import bvn
from ..terms import tm

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of the source into value graphs, ' \
    'compared with the documented copulas; partial sums of the result ' \
    'compared with the normalised marginals'
EXPLANATION = (
    'Every copula is interpreted abstractly for a symbolic dependence '
    'parameter and symbolic marginals (symbolic or enumerated lengths, with '
    'and without leading axes, as arrays, lists, tensors and parameters). '
    'The value graph of an arbitrary entry is compared with the second '
    'difference of the documented distribution function, sums over one '
    'axis with the normalised marginal of the other; constructors are '
    'interpreted at inadmissible parameters and must raise.')
ASSUMPTIONS = ['real arithmetic; scipy\'s mvnun is the bivariate normal '
               'distribution function above -999',
               'Kendall/endpoint parameters outside the documented open '
               'ranges are not constrained']
FLOOR = 80
P = 'maxlike.func.copula.'


def c_gauss(u, v, r):
    z = lambda p: tt.fn('min', tt.fn('max', tt.fn('ndtri', p),
                                     tm(-999)), tm(999))
    return bvn(z(u), z(v), r)


def c_clayton(u, v, a):
    n = tt.neg(a)
    return tt.power(tt.add(tt.power(u, n), tt.power(v, n), tm(-1)),
                    tt.div(tm(-1), a))


def c_gumbel(u, v, a):
    l = lambda p: tt.power(tt.neg(tt.log(p)), a)
    return tt.exp(tt.neg(tt.power(tt.add(l(u), l(v)), tt.div(tm(1), a))))


def c_frank(u, v, a):
    e = lambda p: tt.add(tt.exp(tt.neg(tt.mul(a, p))), tm(-1))
    return tt.mul(tt.div(tm(-1), a), tt.log(tt.add(
        tm(1), tt.div(tt.mul(e(u), e(v)), e(tm(1))))))


def c_amh(u, v, r):
    c = lambda p: tt.add(tm(1), tt.neg(p))
    return tt.div(tt.mul(u, v),
                  tt.add(tm(1), tt.neg(tt.mul(r, c(u), c(v)))))


COP = {
    'Gaussian': (c_gauss, [(.2, .8), (-.8, -.2)], [F(1, 2), F(-3, 4), 0],
                 [F(3, 2), F(-3, 2), 2, -2, F(10001, 10000)]),
    'Clayton': (c_clayton, [(.3, .9), (1.2, 3.)], [1, 2, F(1, 2)],
                [0, -1, F(-1, 2), F(-1, 1000)]),
    'Gumbel': (c_gumbel, [(1.1, 3.)], [1, 2, F(3, 2)],
               [0, F(1, 2), -1, -3, F(999, 1000)]),
    'Frank': (c_frank, [(.5, 4.), (-4., -.5)], [1, -1, F(1, 2)], [0]),
    'AkiMikhailHaq': (c_amh, [(.2, .8), (-.8, -.2)], [F(1, 2), F(-3, 4), 0],
                      [F(3, 2), F(-3, 2), 2, -2, F(10001, 10000)]),
}
# ranges close to the ends of the admissible ones
EDGE = {
    'Gaussian': [(.95, .999), (-.999, -.95), (-.05, .05)],
    'Clayton': [(.02, .1), (6., 12.)],
    'Gumbel': [(1., 1.05), (6., 12.), (25., 50.)],
    'Frank': [(.02, .1), (-.1, -.02), (8., 16.), (-16., -8.)],
    'AkiMikhailHaq': [(.95, .999), (-.999, -.95), (-.05, .05)],
}
DEFAULT = {'Gaussian': 0, 'Clayton': 1, 'Gumbel': 1, 'Frank': 1,
           'AkiMikhailHaq': 0}


def summed(lead, n, f):
    """sum of f(..., k) for k < n"""
    if isinstance(n, int):
        return tt.add(tm(0), *[f(k) for k in range(n)])
    v = tt.ivar(tm(n))
    return tt.ssum(v, tm(n), f(v))


class Marg(object):
    """a pair of marginals: name, shapes, entry functions"""

    def __init__(self, E, tag, sx, sy, holes=(), dtype='f'):
        self.sx, self.sy = tuple(sx), tuple(sy)
        self.val, self.term = [], []
        for q, s in zip('xy', (self.sx, self.sy)):
            nm = 'm%s%s' % (q, tag)
            a = E.arr(nm, s, dtype=dtype, dom='pos')
            z = [h[1] for h in holes if h[0] == q]
            if z:
                full = a
                rd = full.reader()
                a = A.stack_nested([tm(0) if k in z else rd((k,))
                                 for k in range(s[0])])
            self.val.append(a)
            self.term.append(lambda i, nm=nm, z=z: tm(0) if z and i[-1] in z
                             else tt.sym(nm, tuple(tm(t) for t in i)))

    def lead(self):
        n = max(len(self.sx), len(self.sy)) - 1
        pick = []
        for k in range(n):
            c = [s[len(s) - 1 - n + k] for s in (self.sx, self.sy)
                 if len(s) - 1 - n + k >= 0]
            c = [d for d in c if not (isinstance(d, int) and d == 1)] or [1]
            pick.append(c[0])
        return tuple(pick)

    def part(self, q, lead, i):
        s = (self.sx, self.sy)[q]
        k = len(s) - 1
        ld = lead[len(lead) - k:] if k else ()
        ld = tuple(0 if isinstance(d, int) and d == 1 else t
                   for d, t in zip(s, ld))
        return self.term[q](ld + (i,))

    def total(self, q, lead):
        n = (self.sx, self.sy)[q][-1]
        return summed(lead, n, lambda k: self.part(q, lead, k))

    def cum(self, q, lead, i):
        """normalised cumulative mass up to and including position i"""
        n = (self.sx, self.sy)[q][-1]
        if isinstance(n, int):
            raise NotImplementedError
        v = tt.ivar(tm(n))
        t = tt.ssum(v, tm(n), tt.ite(tt.le(v, tm(i)), self.part(q, lead, v),
                                     tt.ZERO))
        return tt.div(t, self.total(q, lead))

    def cumk(self, q, lead, k):
        return tt.div(tt.add(tm(0), *[self.part(q, lead, j)
                                      for j in range(k + 1)]),
                      self.total(q, lead))


def check(C):
    C.rule('formula', 'entries are second differences of the documented '
           'distribution function')
    C.rule('marginal', 'sums over one axis are the normalised marginal of '
           'the other')
    C.rule('rejected', 'inadmissible dependence parameters are rejected at '
           'construction')
    C.rule('accepted', 'admissible dependence parameters are accepted')
    C.rule('frame', 'the marginals of the caller are left as they were')
    E = C.engine()

    def decide(c, node, frame):
        # conditions on the dependence parameter hold on its whole range
        try:
            return valnum.truth(c) if not c.fv else None
        except NotImplementedError:
            return None
    E.I.decide_hook = decide
    E.I.assert_hook = lambda c: decide(c, None, None)
    deep = C.tier != 'quick'
    u, v, k = tt.size('u'), tt.size('v'), tt.size('k')
    shapes = [('u,v', (u,), (v,), ()),
              ('k.u,k.v', (k, u), (k, v), ()),
              ('k.u,v', (k, u), (v,), ()),
              ('u,k.v', (u,), (k, v), ()),
              ('2.2,2.3', (2, 2), (2, 3), ()), ('2.3,2', (2, 3), (2,), ()),
              ('2,3', (2,), (3,), ()), ('1,2', (1,), (2,), ()),
              ('3,1', (3,), (1,), ()), ('3,3', (3,), (3,), ()),
              ('2.2.3,2.2.2', (2, 2, 3), (2, 2, 2), ()),
              ('2.2.3,2.2', (2, 2, 3), (2, 2), ()),
              ('2.2,1.2.3', (2, 2), (1, 2, 3), ()),
              ('3,2 zero first', (3,), (2,), (('x', 0),)),
              ('2,3 zero last', (2,), (3,), (('y', 2),)),
              ('3,3 zero inside', (3,), (3,), (('x', 1), ('y', 1)))]
    if deep:
        shapes += [('5,4', (5,), (4,), ()),
                   ('k.l.u,l.v', (k, tt.size('l'), u), (tt.size('l'), v), ()),
                   ('3,3 zeros', (3,), (3,), (('x', 0), ('y', 0))),
                   ('4,4 two zeros', (4,), (4,), (('x', 0), ('x', 1),
                                                  ('y', 3)))]
    pairs = {t: Marg(E, str(n), sx, sy, h)
             for n, (t, sx, sy, h) in enumerate(shapes)}

    def joint(cop, rho, vals, how='list', kw=False):
        o = E.new(P + cop, rho=rho) if kw else E.new(P + cop, rho) \
            if rho is not None else E.new(P + cop)
        ps = list(vals) if how == 'list' else tuple(vals)
        return dense(E, E.call(o, ps))

    def formula(cop, rho, m, got):
        C_ = COP[cop][0]
        r = tm(rho)
        lead = m.lead()
        nx, ny = m.sx[-1], m.sy[-1]
        if isinstance(nx, int) and isinstance(ny, int):
            zero = tm(0)
            if tuple(got.groups[2]) != lead + (nx, ny):
                raise Bad('shape %s, expected %s' % (
                    got.groups[2], lead + (nx, ny)))

            def H(ld, i, j):
                if i < 0 or j < 0:
                    return zero
                a, b = m.cumk(0, ld, i), m.cumk(1, ld, j)
                return C_(tm(1) if i == nx - 1 else a,
                          tm(1) if j == ny - 1 else b, r)
            for p in itertools.product(*map(range, lead + (nx, ny))):
                ld, i, j = p[:-2], p[-2], p[-1]
                e = tt.add(H(ld, i, j), tt.neg(H(ld, i - 1, j)),
                           tt.neg(H(ld, i, j - 1)), H(ld, i - 1, j - 1))
                g = got.at([(), (), tuple(map(tm, p)), ()])
                w = valnum.compare(g, e)
                if w is not None:
                    raise Bad('position %s: got %.12g, expected %.12g' % (
                        p, w['got'], w['expected']))
            return

        def ex(_x, _y, nn, _d):
            ld, i, j = nn[:-2], nn[-2], nn[-1]

            def H(di, dj):
                a, b = tt.add(i, tm(-di)), tt.add(j, tm(-dj))
                t = C_(m.cum(0, ld, a), m.cum(1, ld, b), r)
                ok = tt.TRUE
                if di:
                    t = tt.ite(tt.le(tm(1), i), t, tt.ZERO)
                if dj:
                    t = tt.ite(tt.le(tm(1), j), t, tt.ZERO)
                return t
            return tt.add(H(0, 0), tt.neg(H(1, 0)), tt.neg(H(0, 1)), H(1, 1))
        check_equal(got, ((), (), lead + (nx, ny), ()), ex,
                    strict=(True, True, True, True))

    def marginal(m, got, q):
        lead = m.lead()
        nx, ny = m.sx[-1], m.sy[-1]
        keep, gone = (nx, ny) if q == 0 else (ny, nx)
        if len(got.groups[2]) != len(lead) + 2 or any(
                not A.dimeq(a, b) for a, b in zip(
                    got.groups[2], lead + (nx, ny))):
            raise Bad('shape %s, expected %s' % (
                got.groups[2], lead + (nx, ny)))
        if any(got.groups[g] for g in (0, 1, 3)):
            raise Bad('unexpected parameter or outcome axes')
        if isinstance(keep, int) and all(isinstance(z, int) for z in lead):
            for p in itertools.product(*map(range, lead)):
                at(m, got, q, p, keep, gone, (), ())
            return
        idx, ivs, szs = A.generic_index(lead + (keep,))
        at(m, got, q, idx[:-1], keep, gone, ivs, szs, idx[-1])

    def at(m, got, q, ld, keep, gone, ivs, szs, last=None):
        for p in range(keep) if isinstance(keep, int) else [last]:
            a = summed(ld, gone, lambda t: got.at(
                [(), (), tuple(map(tm, ld)) + (
                    (tm(p), tm(t)) if q == 0 else (tm(t), tm(p))), ()]))
            b = tt.div(m.part(q, ld, p), m.total(q, ld))
            f = [s for s in ivs if s is p or s is not last]
            z = [z for z, s in zip(szs, ivs) if s is p or s is not last]
            w = valnum.compare(a, b, f, z)
            if w is not None:
                raise Bad('mass %.12g at %s, the normalised marginal is '
                          '%.12g' % (w['got'], w['position'] or (ld, p),
                                     w['expected']))

    for cop, (_, doms, consts, bad) in COP.items():
        rhos = [('rho in %s' % (d,), E.scalar('rho%s%d' % (cop, n), dom=d))
                for n, d in enumerate(doms)]
        rhos += [('rho=%s' % c, tm(c)) for c in consts]
        for rn, rho in rhos:
            for t, m in pairs.items():
                if '=' in rn and t not in ('u,v', '3,3', '3,2 zero first') \
                        and not deep:
                    continue
                def one(cop=cop, rho=rho, m=m, q=-1):
                    g = joint(cop, rho, m.val)
                    if q < 0:
                        formula(cop, rho, m, g)
                    else:
                        marginal(m, g, q)
                C.ob('formula', cop, '%s %s' % (rn, t), one)
                for q in (0, 1):
                    C.ob('marginal', cop, '%s %s axis %d' % (rn, t, q),
                         lambda: one(q=q))
        for n, d in enumerate(EDGE[cop]):
            rho = E.scalar('edge%s%d' % (cop, n), dom=d)
            for t in ('u,v', '3,3', '3,2 zero first'):
                m = pairs[t]
                C.ob('formula', cop, 'rho in %s %s' % (d, t),
                     lambda: formula(cop, rho, m, joint(cop, rho, m.val)))
                for q in (0, 1):
                    C.ob('marginal', cop, 'rho in %s %s axis %d' % (d, t, q),
                         lambda: marginal(m, joint(cop, rho, m.val), q))
        m = pairs['u,v']
        C.ob('formula', cop, 'default parameter',
             lambda: formula(cop, DEFAULT[cop], m,
                             joint(cop, None, m.val)))
        rho = rhos[0][1]
        C.ob('formula', cop, 'parameter by keyword',
             lambda: formula(cop, rho, m, joint(cop, rho, m.val, kw=True)))

        # how the marginals arrive
        wrap = {'Param': 'maxlike.maxlike_base.Param',
                'Tensor': 'maxlike.tensor.Tensor'}
        for kind in ('tuple', 'Param', 'Tensor', 'list', 'whole numbers'):
            def arrives(kind=kind):
                q, how = m, 'list'
                vals = m.val
                if kind in wrap:
                    vals = [E.new(wrap[kind], a) for a in m.val]
                elif kind == 'tuple':
                    how = 'tuple'
                elif kind == 'list':
                    q = pairs['3,3']
                    vals = [[a.reader()((i,)) for i in range(3)]
                            for a in q.val]
                elif kind == 'whole numbers':
                    q = Marg(E, 'i', (u,), (v,), dtype='i')
                    vals = q.val
                fr = Frame(marginals=list(vals), arrays=list(q.val))
                try:
                    g = joint(cop, rho, vals, how)
                except AbsRaise as e:
                    raise Bad('raises %s' % exc_name(e))
                fr.verify('building the joint distribution')
                formula(cop, rho, q, g)
                for k in (0, 1):
                    marginal(q, g, k)
            C.ob('formula', cop, 'marginals given as ' + kind, arrives)

        def frame(t):
            q = pairs[t]
            ps = list(q.val)
            o = E.new(P + cop, rho)
            fr = Frame(marginals=ps, arrays=list(q.val), copula=o)
            E.call(o, ps)
            fr.verify('building the joint distribution')
        for t in pairs:
            C.ob('frame', cop, t, lambda: frame(t))

        def again():
            # one copula object used for several pairs
            o = E.new(P + cop, rho)
            for t in ('2,3', 'u,v', 'k.u,k.v', '3,3', 'u,v'):
                q = pairs[t]
                formula(cop, rho, q, dense(E, E.call(o, list(q.val))))
        C.ob('formula', cop, 'one object, several pairs', again)

        def two():
            o = E.new(P + cop, rhos[0][1])
            p = E.new(P + cop, rhos[-1][1])
            formula(cop, rhos[0][1], m, dense(E, E.call(o, list(m.val))))
            formula(cop, rhos[-1][1], m, dense(E, E.call(p, list(m.val))))
        C.ob('formula', cop, 'two objects', two)

        def reject(v, kw=False):
            try:
                E.new(P + cop, rho=v) if kw else E.new(P + cop, v)
            except AbsRaise as e:
                if exc_name(e) not in ('AssertionError', 'ValueError'):
                    raise Bad('raises %s' % exc_name(e))
                return
            raise Bad('%s is accepted' % v)
        for b in bad:
            for kind, val in ((('number', tm(b)),) if isinstance(b, F)
                              else (('number', b), ('float', tm(F(b))))):
                C.ob('rejected', cop, 'rho=%s (%s)' % (b, kind),
                     lambda: reject(val))
        C.ob('rejected', cop, 'rho=%s by keyword' % bad[0],
             lambda: reject(tm(bad[0]), True))

        def accept(v):
            try:
                E.new(P + cop, v)
            except AbsRaise as e:
                raise Bad('%s raises %s' % (v, exc_name(e)))
        for c in consts:
            C.ob('accepted', cop, 'rho=%s' % c, lambda: accept(tm(c)))

        # any parameter of an inadmissible or admissible range
        rng = {'Gaussian': ((1.01, 9), (-9, -1.01)),
               'AkiMikhailHaq': ((1.01, 9), (-9, -1.01)),
               'Clayton': ((-9, -.01),), 'Gumbel': ((-9, .99),),
               'Frank': ()}[cop]
        for n, d in enumerate(rng):
            s = E.scalar('bad%s%d' % (cop, n), dom=d)
            C.ob('rejected', cop, 'rho in %s' % (d,), lambda: reject(s))
