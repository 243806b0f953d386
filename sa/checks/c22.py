"""C22 Poisson and Skellam distribution functions with exact derivatives."""
from .. import terms as tt
from .. import arr as A
from .. import interp as I
from ..core import Bad, check_equal, as_arr, AbsRaise, exc_name
from ..terms import tm

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of the source into value graphs, ' \
    'compared with the documented probabilities and their formal derivatives'
EXPLANATION = (
    'The distribution helpers are interpreted abstractly for symbolic rates '
    '(and symbolic sizes or orders where they are parameters); every '
    'returned entry is compared with the documented sum of probabilities '
    'and every derivative row with its formal derivative.')
ASSUMPTIONS = ['real arithmetic', 'positive rates',
               'Skellam sums truncated at enumerated sizes']
FLOOR = 60
SK = 'maxlike.skellam.'


def pois(a, k):
    return tt.div(tt.mul(tt.power(a, tm(k)), tt.exp(tt.neg(a))),
                  tt.fn('factorial', tm(k)))


def vec(E, got, exps):
    """got: 1-d thing with the expected entries"""
    a = as_arr(got)
    if a.ndim != 1 or not A.dimeq(a.shape[0], len(exps)):
        raise Bad('shape (%d,) expected, got %s' % (len(exps), a.shape))
    rd = a.reader()
    for k, e in enumerate(exps):
        eq(rd((k,)), e, 'entry %d' % k)


def eq(g, e, what):
    from .. import valnum
    w = valnum.compare(tt.numify(g), tt.numify(e))
    if w is not None:
        raise Bad('%s: got %.10g, expected %.10g (rates %s)' % (
            what, w['got'], w['expected'], w.get('position')))


def grad3(v, names):
    return [v] + [tt.diff(v, n, ()) for n in names]


def skel(a, b, size, test):
    return tt.add(tm(0), *[tt.mul(pois(a, i), pois(b, j))
                           for i in range(size) for j in range(size)
                           if test(j - i)])


def check(C):
    C.rule('value', 'returned probabilities equal the documented sums')
    C.rule('derivative', 'derivative rows equal the formal derivative')
    C.rule('partition', 'below + at + above the threshold is the whole mass')
    C.rule('truncation', 'the number of counts kept covers the quantile of '
           'the tolerance')
    E = C.engine(('maxlike', 'maxlike.skellam'))
    a, b = E.scalar('ra', dom='pos'), E.scalar('rb', dom='pos')
    deep = C.tier != 'quick'
    f = lambda n: E.get(SK + n)
    n = tt.size('n')

    # Poisson vector, any size
    for size in [n, 1, 2, 3, 4] + ([5, 7] if deep else []):
        def whole(size=size, row=0):
            v = as_arr(E.call(f('poisson_vector'), a, size))
            if v.ndim != 2 or not A.dimeq(v.shape[0], 2) or \
                    not A.dimeq(v.shape[1], size):
                raise Bad('shape (2, size) expected, got %s' % (v.shape,))
            gen = not isinstance(size, int)
            rd = v.reader()
            ks, free, _ = A.generic_index((size,)) if gen else \
                (range(size), (), ())
            from .. import valnum
            for k in ks:
                e = pois(a, k)
                if row:
                    e = tt.diff(e, 'ra', ())
                w = valnum.compare(tt.numify(rd((row, k))), e, free,
                                   [size] if gen else ())
                if w is not None:
                    raise Bad('position %s: got %.10g, expected %.10g' % (
                        w['position'] or k, w['got'], w['expected']))
        C.ob('value', 'poisson_vector', 'size=%s' % size,
             lambda: whole(size, 0))
        C.ob('derivative', 'poisson_vector', 'size=%s' % size,
             lambda: whole(size, 1))
    # many counts, large and small rates
    big = {d: E.scalar('rbig%d' % q, dom=d) for q, d in enumerate(
        ((40., 90.), (300., 900.), (1e-7, 1e-3), (5., 20.)))}
    for d, rate in big.items():
        for size in (1, 20, 80):
            def large(rate=rate, size=size, row=0):
                v = as_arr(E.call(f('poisson_vector'), rate, size))
                rd = v.reader()
                for k in sorted({0, 1, size // 3, size // 2, size - 2,
                                 size - 1} & set(range(size))):
                    e = pois(rate, k)
                    if row:
                        e = tt.diff(e, rate.a[0] if isinstance(
                            rate, tt.T) else None, ())
                    eq(rd((row, k)), e, 'count %d' % k)
            case = 'size=%d,rate in %g..%g' % ((size,) + d)
            C.ob('value', 'poisson_vector', case, large)
            C.ob('derivative', 'poisson_vector', case,
                 lambda: large(row=1))
    def default():
        v = as_arr(E.call(f('poisson_vector'), a))
        if not A.dimeq(v.shape[1], 10):
            raise Bad('10 counts by default, got %s' % (v.shape,))
    C.ob('value', 'poisson_vector', 'default size', default)

    # cumulative functions
    for k in range(5 if not deep else 8):
        for nm, last in (('poisson_cdf', tm(1)), ('poisson_mid_cdf',
                                              tm(1) / tm(2))):
            e = tt.add(tt.mul(last, pois(a, k)),
                       *[pois(a, q) for q in range(k)])
            def val(nm=nm, e=e, k=k, row=0):
                v = as_arr(E.call(f(nm), a, k))
                if v.ndim != 1 or not A.dimeq(v.shape[0], 2):
                    raise Bad('two entries expected, got %s' % (v.shape,))
                eq(v.reader()((row,)),
                   tt.diff(e, 'ra', ()) if row else e, 'order %d' % k)
            C.ob('value', nm, 'order %d' % k, val)
            C.ob('derivative', nm, 'order %d' % k, lambda: val(row=1))

    for size in range(2, 5) if deep else (2, 3):
        def frame(size=size, r=0):
            fr = E.call(f('skellam_frame'), a, b, size)
            if isinstance(fr, (list, tuple)):
                if len(fr) != 3:
                    raise Bad('three frames expected')
                v = as_arr(fr[r])
            else:
                v = as_arr(fr)
                if v.ndim != 3:
                    raise Bad('three frames expected')
                v = A.view(v, (r,))
            if v.ndim != 2 or not all(A.dimeq(s, size) for s in v.shape):
                raise Bad('frame shape %s' % (v.shape,))
            rd = v.reader()
            for i in range(size):
                for j in range(size):
                    e = tt.mul(pois(a, i), pois(b, j))
                    eq(rd((i, j)), grad3(e, ('ra', 'rb'))[r],
                       'position %s' % ((i, j),))
        for r in range(3):
            C.ob('derivative' if r else 'value', 'skellam_frame',
                 'size=%d,part %d' % (size, r), lambda: frame(r=r))

    # Skellam functions: the truncation is a parameter of the analysis
    m = E.get('maxlike.skellam')
    real = m.d['tol2size']

    def cut(size, thunk):
        m.d['tol2size'] = I.Model(lambda *x, **k: size, 'tol2size')
        try:
            return thunk()
        finally:
            m.d['tol2size'] = real
    for size in (2, 3) if not deep else (2, 3, 4, 5):
        for k in range(-2, 3) if not deep else range(-4, 5):
            for inv in (False, True):
                t = (lambda d: d >= k) if inv else (lambda d: d <= k)
                e = grad3(skel(a, b, size, t), ('ra', 'rb'))

                def cdf(r, e=e, size=size, k=k, inv=inv):
                    v = as_arr(cut(size, lambda: E.call(
                        f('skellam_cdf'), a, b, k, inverse=inv)))
                    if v.ndim != 1 or not A.dimeq(v.shape[0], 3):
                        raise Bad('three entries expected: %s' % (v.shape,))
                    eq(v.reader()((r,)), e[r], 'entry %d' % r)
                case = 'n=%d,%ssize=%d' % (k, 'inverse,' if inv else '', size)
                C.ob('value', 'skellam_cdf', case, lambda: cdf(0))
                C.ob('derivative', 'skellam_cdf', case + ',a', lambda: cdf(1))
                C.ob('derivative', 'skellam_cdf', case + ',b', lambda: cdf(2))
            es = [grad3(skel(a, b, size, t), ('ra', 'rb')) for t in
                  ((lambda d: d < k), (lambda d: d > k))]

            def pair(r, es=es, size=size, k=k):
                v = as_arr(cut(size, lambda: E.call(
                    f('skellam_cdf_pair'), a, b, k)))
                if v.ndim != 2 or not A.dimeq(v.shape[0], 2) or \
                        not A.dimeq(v.shape[1], 3):
                    raise Bad('shape (2, 3) expected, got %s' % (v.shape,))
                for q in range(2):
                    eq(v.reader()((q, r)), es[q][r],
                       ('below', 'above')[q] + ', entry %d' % r)

            def part(size=size, k=k):
                def run():
                    below, above = [
                        as_arr(E.call(f('skellam_cdf_pair'), a, b, k))
                        .reader()((q, 0)) for q in range(2)]
                    upto = as_arr(E.call(f('skellam_cdf'), a, b, k)) \
                        .reader()((0,))
                    down = as_arr(E.call(f('skellam_cdf'), a, b, k,
                                         inverse=True)).reader()((0,))
                    mass = skel(a, b, size, lambda d: True)
                    eq(tt.add(upto, above), mass, 'up to + above')
                    eq(tt.add(below, down), mass, 'below + from')
                cut(size, run)
            case = 'n=%d,size=%d' % (k, size)
            C.ob('value', 'skellam_cdf_pair', case, lambda: pair(0))
            C.ob('derivative', 'skellam_cdf_pair', case + ',a',
                 lambda: pair(1))
            C.ob('derivative', 'skellam_cdf_pair', case + ',b',
                 lambda: pair(2))
            C.ob('partition', 'skellam_cdf_pair', case, part)

    # truncation: constants folded through the source
    from scipy.special import ndtri
    from .. import valnum
    for tol in (1e-3, 1e-6, 1e-8, 1e-12):
        for args in ((), (.5,), (3.,), (40.,), (.5, .25), (2., 7.),
                     (30., 1e-3)):
            def tr(tol=tol, args=args):
                r = E.call(f('tol2size'), tol, *args)
                w = valnum.compare(tm(r), tm(-1))
                r = w['got'] if w else -1
                tot = sum(args) if args else 1
                need = tot - ndtri(tol) * tot ** .5
                if int(r) != r or r < need - 1e-9:
                    raise Bad('%s counts kept, the normal quantile of the '
                              'tolerance is %.2f' % (r, need))
            C.ob('truncation', 'tol2size', 'tol=%g,rates=%s' % (
                tol, ','.join(map(str, args))), tr)
