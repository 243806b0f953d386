"""C24 information criteria."""
from .. import terms as tt
from .. import arr as A
from .. import interp as I
from .. import valnum
from ..core import Bad, fld
from ..masked import PSet
from ..estim import scalar_term
from ..terms import tm
from .c13 import SRC

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of the source into value graphs, ' \
    'compared with the documented formulas'
EXPLANATION = (
    'The two criteria are interpreted abstractly on estimators with '
    'enumerated parameter shapes and constraint counts, symbolic numbers of '
    'extra parameters, symbolic observation arrays of symbolic shape and an '
    'uninterpreted log-likelihood; the result is compared with the '
    'documented formula.')
ASSUMPTIONS = ['parameter shapes and constraint counts enumerated',
               'no penalties']
FLOOR = 60
NAMES = ['a', 'b', 'c']


def check(C):
    C.rule('akaike', 'the criterion is 2k/(n-k-1) - 2l')
    C.rule('bayes', 'the criterion is k ln(n)/n - 2l')
    C.rule('fixed', 'entries held fixed are not degrees of freedom')
    E = C.engine()
    mod = E.src(SRC.replace('        return 0\n', '        return loglike()\n'))
    mod.d['loglike'] = I.Model(lambda: E.new(
        'maxlike.tensor.Tensor', tt.sym('L', ())), 'loglike')
    mod.d['Model'] = None
    total = [None]

    def build(ps, c, nshape, dshape):
        o = E.call(mod.d['Est'])
        E.I.setattr(o, 'params', ps.v)
        cons = fld(E, o, 'constraint')
        for _ in range(c):
            cons.append(([0], tt.sym('gamma', ()), None))
        shp = tuple(nshape) + tuple(dshape)
        a = E.arr('N', shp, dom='nonneg')
        E.I.setattr(o, 'N', E.new('maxlike.tensor.Tensor', a,
                                  dim=len(dshape)))
        E.I.setattr(o, 'model', I.Model(lambda params: None, 'model'))
        E.I.setattr(o, 'converged', True)
        vs = [tt.ivar(tm(z)) for z in shp]
        t = tt.sym('N', tuple(vs))
        for v in reversed(vs):
            t = tt.ssum(v, v.a[1], t)
        total[0] = t
        return o

    def formulas(k):
        n = total[0]
        l2 = tt.mul(tt.const(2), tt.div(tt.sym('L', ()), n))
        aic = tt.add(tt.div(tt.mul(tt.const(2), k),
                            tt.add(n, tt.neg(k), tt.const(-1))), tt.neg(l2))
        bic = tt.add(tt.div(tt.mul(k, tt.log(n)), n), tt.neg(l2))
        return dict(akaike=aic, bayes=bic)
    METH = dict(akaike='akaine_information_criterion',
                bayes='bayesian_information_criterion')

    def value(which, ps, c, shp, args):
        o = build(ps, c, *shp)
        r = E.m(o, METH[which], *args)
        if isinstance(r, I.PyObj):
            return scalar_term(E, r)
        from ..core import as_arr
        a = as_arr(r)
        if a.ndim and not (isinstance(a.size, int) and a.size == 1):
            raise Bad('a number expected, got shape %s' % (a.shape,))
        return tt.numify(a.reader()((0,) * a.ndim))

    def extra(args):
        return tt.tm(args[0]) if args else tt.ZERO

    def one(which, ps, c, shp, args):
        got = value(which, ps, c, shp, args)
        ks = set()
        for cnt in (len(ps.all_free()), sum(
                len(ps.positions(k)) for k in range(len(ps.shapes)))):
            ks.add(cnt)
        ws = []
        for cnt in sorted(ks):
            k = tt.add(tt.const(cnt - c), extra(args))
            w = valnum.compare(got, formulas(k)[which])
            if w is None:
                return
            ws.append(w)
        w = ws[0]
        raise Bad('got %.10g, the formula gives %.10g\n      value graph: %s'
                  % (w['got'], w['expected'], w['got_term'][:200]))

    def fixed(which, ps, c, shp, args):
        got = value(which, ps, c, shp, args)
        k = tt.add(tt.const(len(ps.all_free()) - c), extra(args))
        if valnum.compare(got, formulas(k)[which]) is not None:
            raise Bad('the entries held fixed are counted as parameters')
    x = tt.sym('extra', (), dom='count', isint=True)
    shapes = [(((), ()), 'N number')] if False else [
        (('a',), ()), (('a', 'b'), ()), (('a',), ('d',)), (('a', 'b'),
                                                           ('d', 'e'))]
    if C.tier != 'quick':
        shapes += [((), ('d',)), (('a', 'b', 'c'), ()), (('a', 2), (3,))]
    sets = [([(3,), (), (2, 2)], [None] * 3), ([(2,)], [None]),
            ([(), ()], [None] * 2), ([(1,), (4,)], [None] * 2)]
    fx = [([(3,), (), (2, 2)], [(0, 1, 0), (1,), (0, 0, 1, 0)]),
          ([(3,), (2,)], [(1, 1, 0), None]),
          ([(2,), (2,)], [(0, 0), (1, 1)])]
    if C.tier != 'quick':
        sets += [([(2, 3), (3, 2)], [None] * 2), ([(5,)], [(0,) * 5])]
    for ns, ds in shapes:
        nshape = [tt.size(z) if isinstance(z, str) else z for z in ns]
        dshape = [tt.size(z) if isinstance(z, str) else z for z in ds]
        sh = (nshape, dshape)
        for s, m in sets + fx:
            ps = PSet(E, s, m)
            for c in (0, 1, 2):
                for an, args in (('', ()), (',extra', (x,)), (',3', (3,))):
                    case = '%s,N over %s,%d constraints%s' % (
                        ps, '|'.join((''.join(map(str, ns)),
                                      ''.join(map(str, ds)))), c, an)
                    for w in ('akaike', 'bayes'):
                        C.ob(w, METH[w], case,
                             lambda: one(w, ps, c, sh, args))
                        if any(x_ and any(x_) for x_ in m):
                            C.ob('fixed', METH[w], case,
                                 lambda: fixed(w, ps, c, sh, args))
