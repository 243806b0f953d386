"""C25 standard errors and covariances from the inverse negative Hessian."""
from .. import terms as tt
from .. import arr as A
from .. import valnum
from ..core import Bad, as_arr, fld
from ..masked import PSet, mask_sets
from ..npmodel import MaskedArr
from ..terms import tm
from .c13 import SRC

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of the source with uninterpreted ' \
    'linear algebra; entry-by-entry comparison of value graphs'
EXPLANATION = (
    'std_error, error_matrix and fisher_matrix are interpreted abstractly on '
    'estimators with enumerated parameter shapes, fixed/free patterns and '
    'numbers of constraints, and a symbolic symmetric bordered Hessian; '
    'every returned entry is compared with the entry of the inverse that '
    'belongs to its position.')
ASSUMPTIONS = ['shapes, patterns and constraint counts enumerated',
               'symmetric nonsingular Hessian']
FLOOR = 100


def entry(a, c, n, free):
    """symmetric symbols, negative definite on the free entries"""
    i, j = (a, c) if a <= c else (c, a)
    t = tt.sym('H', (tm(i), tm(j)), dom='real')
    if i == j and i < free:
        t = tt.add(t, tt.const(-6 - n))
    if i == j and i >= free:
        t = tt.ZERO
    return t


def hess(n, free):
    rows = [[entry(i, j, n, free) for j in range(n)] for i in range(n)]

    def get(idx):
        i, j = idx
        if isinstance(i, int) and isinstance(j, int):
            return rows[i][j]
        t = tt.ZERO
        for a in range(n):
            for b in range(n):
                t = tt.add(t, tt.ite(tt.land(
                    tt.eq(tm(i), tm(a)), tt.eq(tm(j), tm(b))),
                    rows[a][b], tt.ZERO))
        return t
    return A.mk((n, n), get)


def data(v, shape, what):
    m = None
    if isinstance(v, MaskedArr):
        v, m = v.data, v.mask
    a = as_arr(v)
    if tuple(a.shape) != tuple(shape):
        raise Bad('%s has shape %s, expected %s' % (what, a.shape, shape))
    return a.reader(), (m.reader() if m is not None else None)


def same(got, exp, what):
    # entries are of order 1/10: compare absolutely
    w = valnum.compare(tt.add(tt.numify(got), tt.ONE), tt.add(exp, tt.ONE),
                       nsamples=3)
    if w:
        raise Bad('%s: got %.12g (%s), expected %.12g (%s)' % (
            what, w['got'], w['got_term'][:160], w['expected'],
            w['expected_term'][:160]))


def shown(mask, pos):
    """True when the mask leaves the entry visible"""
    if mask is None:
        return True
    v = A.unwrap(mask(pos), 'b')
    if not isinstance(v, bool):
        raise Bad('a mask entry is %s' % v)
    return not v


def cases(C):
    sets = mask_sets(C.tier)
    pick = sets[:8] + [s for q, s in enumerate(sets[8:]) if q % 2 == 0 or
                           any(map(lambda t: len(t) > 2, s[0])) or
                           len(s[0]) > 3] if C.tier == 'quick' else sets
    for k, (shapes, masks) in enumerate(pick):
        for c in ((0, 1, 2) if k < 8 or C.tier != 'quick' else
                  (0, 1)):
            yield shapes, masks, c


def check(C):
    C.rule('error', 'a standard error is the square root of the diagonal '
           'entry of the inverse negative Hessian that belongs to the entry')
    C.rule('covariance', 'covariance blocks hold the entries of the inverse '
           'negative Hessian that belong to the pair of entries')
    C.rule('fisher', 'the blocks of fisher_matrix hold the entries of the '
           'Hessian, zero for fixed entries')
    E = C.engine()
    mod = E.src(SRC)

    def one(shapes, masks, c):
        ps = PSet(E, shapes, masks)
        free = ps.all_free()
        place = {kp: q for q, kp in enumerate(free)}
        nf = len(free)
        if nf <= c:     # nothing left to estimate
            return
        n = nf + c
        case = '%s,%d constraints' % (ps, c)
        neg = A.opaque('inv', [A.emap(lambda x: tt.neg(tt.numify(x)),
                                      [hess(n, nf)])], (n, n)).reader()

        def est():
            o = E.call(mod.d['Est'])
            E.I.setattr(o, 'params', ps.v)
            cons = fld(E, o, 'constraint')
            for _ in range(c):
                cons.append(([0], tt.sym('gamma', ()), None))
            E.I.setattr(o, 'flat_hess_', hess(n, nf))
            E.I.setattr(o, 'converged', True)
            return o

        def error():
            got = E.m(est(), 'std_error')
            if len(got) != len(shapes):
                raise Bad('%d arrays, one per parameter expected' % len(got))
            for k, g in enumerate(got):
                what = 'standard error of parameter %d' % k
                rd, mk = data(g, ps.shapes[k], what)
                for pos in ps.positions(k):
                    w = '%s at %s' % (what, pos)
                    q = place.get((k, pos))
                    if q is None:
                        if shown(mk, pos) and rd(pos).op != 'nan':
                            raise Bad(w + ': a number for a fixed entry')
                        continue
                    if not shown(mk, pos):
                        raise Bad(w + ': a free entry is masked')
                    same(rd(pos), tt.power(neg((q, q)),
                                           tt.const(1) / tt.const(2)), w)

        def blocks(method, exp, fixed):
            got = E.m(est(), method)
            if len(got) != len(shapes) or any(len(r) != len(shapes)
                                              for r in got):
                raise Bad('blocks per parameter pair expected')
            for i, r in enumerate(got):
                for j, b in enumerate(r):
                    what = 'block (%d,%d)' % (i, j)
                    rd, mk = data(b, ps.shapes[i] + ps.shapes[j], what)
                    for p in ps.positions(i):
                        for q in ps.positions(j):
                            w = '%s at %s%s' % (what, p, q)
                            x, y = place.get((i, p)), place.get((j, q))
                            if x is None or y is None:
                                if shown(mk, p + q):
                                    fixed(rd(p + q), w)
                                continue
                            if not shown(mk, p + q):
                                raise Bad(w + ': masked')
                            same(rd(p + q), exp(x, y), w)

        def nan(v, w):
            if v.op != 'nan':
                raise Bad(w + ': a number for a fixed entry')

        def zero(v, w):
            same(v, tt.ZERO, w)
        C.ob('error', 'std_error', case, error)
        C.ob('covariance', 'error_matrix', case, lambda: blocks(
            'error_matrix', lambda x, y: neg((x, y)), nan))
        C.ob('fisher', 'fisher_matrix', case, lambda: blocks(
            'fisher_matrix', lambda x, y: entry(x, y, n, nf), zero))
    for shapes, masks, c in cases(C):
        C.unit(one, shapes, masks, c)
