"""C03 tennis scoring functions."""
from math import comb
from .. import terms as tt
from .. import arr as A
from .. import valnum
from ..core import Bad, dense
from ..fobl import P, func_obligations
from ..terms import tm

LEVEL = 'other'
EXPLANATION = (
    'Game, tie-break and set functions are interpreted abstractly; the value '
    'graph of every score is compared with the binomial scoring formula '
    '(with the geometric deuce series), the derivatives with the formal '
    'derivatives of that formula, and the two players\' probabilities are '
    'shown to add up to the constant one as value graphs.')
ASSUMPTIONS = ['real arithmetic', 'winning probabilities in [1e-10, 1-1e-10]']
FLOOR = 30
NAMES = ['a', 'b', 'c']


def num(x):
    return tt.const(x)


def ip(p, k):
    r = tt.ONE
    for _ in range(k):
        r = tt.mul(r, p)
    return r


def game(p):
    q = tt.add(tt.ONE, tt.neg(p))
    out = [tt.mul(num(comb(3 + k, k)), ip(p, 4), ip(q, k)) for k in range(3)]
    out.append(tt.div(tt.mul(num(comb(6, 3)), ip(p, 5), ip(q, 3)),
                      tt.add(ip(p, 2), ip(q, 2))))
    return out


def tiebreak(p):
    q = tt.add(tt.ONE, tt.neg(p))
    out = [tt.mul(num(comb(6 + k, k)), ip(p, 7), ip(q, k)) for k in range(6)]
    out.append(tt.div(tt.mul(num(comb(12, 6)), ip(p, 8), ip(q, 6)),
                      tt.add(ip(p, 2), ip(q, 2))))
    return out


def set_(p, t):
    q = tt.add(tt.ONE, tt.neg(p))
    out = [tt.mul(num(comb(5 + k, k)), ip(p, 6), ip(q, k)) for k in range(5)]
    out.append(tt.mul(num(comb(10, 5)), ip(p, 7), ip(q, 5)))
    out.append(tt.mul(num(2 * comb(10, 5)), ip(p, 6), ip(q, 6), t))
    return out


def pick(vals, i):
    i = tm(i)
    r = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        r = tt.ite(tt.eq(i, num(k)), vals[k], r)
    return r


def check(C):
    C.rule('value', 'the value graph equals the scoring formula')
    C.rule('grad', 'grad(i) equals the formal first derivative of the value')
    C.rule('hess', 'hess(i,j) equals the formal second derivative')
    C.rule('eval', 'eval returns value, all gradients and the lower Hessians')
    C.rule('coherent', 'the two players\' score probabilities add up to one')
    C.rule('axes', 'feature axes keep their order for parameters of rank 2+')
    E = C.engine()
    table = {'Game': (game, 1, 4), 'TieBreak': (tiebreak, 1, 7),
             'Set': (set_, 2, 7)}
    for name, (form, k, m) in table.items():
        path = 'maxlike.func.tennis.' + name
        for rk in (0, 1):
            for kind in ('array', 'tensor', 'param') + (
                    ('number',) if rk == 0 else ()):
                shp = NAMES[:rk]
                sh = tuple(tt.size(s) for s in shp)

                def ps_of():
                    return [P(E, 'p%d' % i, shp, kind, dom='prob')
                            for i in range(k)]

                def spec(nn, dd):
                    return pick(form(*[tt.sym('p%d' % i, tuple(
                        tm(z) for z in nn)) for i in range(k)]), dd[0])
                func_obligations(C, E, lambda: E.new(path), ps_of, name,
                                 'rank=%d,%s' % (rk, kind), sh, (m,), spec)

        def coherent():
            f = E.new(path)
            ps = [E.scalar('p%d' % i, dom='prob') for i in range(k)]
            qs = [tt.add(tt.ONE, tt.neg(p)) for p in ps]
            a, b = dense(E, E.call(f, list(ps))), dense(E, E.call(f, list(qs)))
            if a.groups[3] != (m,) or a.groups[2]:
                raise Bad('%d scores expected' % m)
            s = tt.ZERO
            for z in range(m):
                s = tt.add(s, a.at(((), (), (), (z,))),
                           b.at(((), (), (), (z,))))
            w = valnum.compare(s, tt.ONE)
            if w:
                raise Bad('the score probabilities of both players add to '
                          '%.12g' % w['got'])
        C.ob('coherent', name, 'rank 0', coherent)
        for rk in (2, 3):
            def axes():
                ps = [P(E, 'p%d' % i, NAMES[:rk], 'array', dom='prob')
                      for i in range(k)]
                v = dense(E, E.call(E.new(path), [p.v for p in ps]))
                from ..core import check_equal
                check_equal(v, ((), (), ps[0].shape, (m,)),
                            lambda x, y, nn, dd: pick(form(*[tt.sym(
                                'p%d' % i, tuple(tm(z) for z in nn))
                                for i in range(k)]), dd[0]))
            C.ob('axes', name, 'value,rank=%d' % rk, axes)
