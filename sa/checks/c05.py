"""C05 collapsing a score frame."""
from .. import terms as tt
from ..fobl import P, func_obligations
from ..terms import tm

LEVEL = 'other'
EXPLANATION = (
    'CollapseMatrix is interpreted abstractly for frames of symbolic size '
    'with symbolic condition coefficients; entry c of the value is compared '
    'with the sum over all cells (x, y) of the frame gated by '
    'sign(A x + B y + C) = s, and the gradient with its formal derivative '
    '(the 0/1 indicator).')
ASSUMPTIONS = ['real arithmetic', 'integer condition coefficients',
               'leading feature axes enumerated 0..4']
FLOOR = 12
NAMES = ['a', 'b', 'c', 'd', 'e']
DEFAULT = [(1, -1, 0, 1), (1, -1, 0, 0), (1, -1, 0, -1)]


def check(C):
    C.rule('value', 'entry c is the sum of the cells satisfying condition c')
    C.rule('grad', 'the gradient is the indicator of the condition')
    C.rule('hess', 'the Hessian is zero')
    C.rule('eval', 'eval returns value, gradient and Hessian')
    E = C.engine()
    coef = []
    for c in range(2):
        coef.append(tuple(E.scalar('k%d_%d' % (c, z), dom=(-2, 2) if z < 3
                                   else (-1, 1), isint=True)
                          for z in range(4)))
    cond_sets = {'default': None, 'symbolic': coef,
                 'one': [(1, 1, -3, -1)],
                 'tuple': [(1, -1, 0, 1)],
                 'seven': [(1, -1, 0, 1), (1, -1, 1, 1), (1, -1, -1, -1),
                           (1, 1, -1, 1), (1, 1, -1, 0), (1, 1, -9, 1),
                           (-1, 1, 0, 1)],
                 'four': [(1, 0, 0, 0), (0, 1, -1, 1), (2, -1, 0, 1),
                          (1, 1, -2, 0)]}
    for cname, cs in cond_sets.items():
        for rk in range(0, 5 if C.tier == 'quick' else 6):
            for kind in ('tensor', 'array'):
                if kind == 'array' and rk != 1:
                    continue
                shp = NAMES[:rk] + ['x', 'y']
                lead = tuple(tt.size(s) for s in NAMES[:rk])
                used = DEFAULT if cs is None else cs

                def spec(nn, dd):
                    def entry(c):
                        sx, sy = tt.size('x'), tt.size('y')
                        i, j = tt.ivar(sx), tt.ivar(sy)
                        A_, B_, C_, s = [tm(z) for z in c]
                        lin = tt.add(tt.mul(A_, i), tt.mul(B_, j), C_)
                        body = tt.mul(
                            tt.sym('p', tuple(tm(k) for k in nn) + (i, j)),
                            tt.ite(tt.eq(tt.fn('sign', lin), s),
                                   tt.ONE, tt.ZERO))
                        return tt.ssum(i, sx, tt.ssum(j, sy, body))
                    vals = [entry(c) for c in used]
                    i = tm(dd[0])
                    r = vals[-1]
                    for k in range(len(vals) - 2, -1, -1):
                        r = tt.ite(tt.eq(i, tt.const(k)), vals[k], r)
                    return r

                def mk():
                    if cs is None:
                        return E.new('maxlike.func.CollapseMatrix')
                    return E.new('maxlike.func.CollapseMatrix', cs[0]
                                 if cname == 'tuple' else list(cs))
                func_obligations(
                    C, E, mk, lambda: [P(E, 'p', shp, kind,
                                         dim=2 if kind == 'tensor' else 0)],
                    'CollapseMatrix', 'conditions=%s,features=%d,%s' %
                    (cname, rk, kind), lead, (len(used),), spec)
