"""C18 tensor arithmetic equals arithmetic on the dense arrays."""
import itertools
from .. import terms as tt
from .. import arr as A
from ..core import Bad, AbsRaise, dense, check_equal, as_arr, exc_name, \
    exc_text
from ..tensors import Universe, Rep, reps, joined, build
from ..terms import tm

LEVEL = 'other'
EXPLANATION = (
    'The tensor operators are interpreted abstractly on symbolic arrays with '
    'axes of symbolic length in every representation of a universe of axes '
    '(plain, stored with length one, group absent, diagonal-mapped, '
    'partially mapped) and on lazily held sums, for every ordered pair of '
    'representations; the value graph of the result, read through the '
    'documented meaning of the representation, is compared with the '
    'operation on the graphs of the operands.  toarray() is compared with '
    'that reading.')
ASSUMPTIONS = ['real arithmetic', 'divisors hold no structural zeros (no '
               'diagonal-mapped divisor)', 'representations enumerated; axis '
               'lengths symbolic']
FLOOR = 300

OPS = {'Add': tt.add, 'Sub': lambda a, b: tt.add(a, tt.neg(b)),
       'Mult': tt.mul, 'Div': tt.div}
UFN = {'Add': 'add', 'Sub': 'subtract', 'Mult': 'multiply',
       'Div': 'true_divide'}


def equal(E, got, want, da, db):
    d = dense(E, got)
    check_equal(d, joined(None, da, db), lambda *i: want(da.at(i), db.at(i)))


def run(C, rule, construct, case, cases):
    """one obligation over many sub-cases"""
    def go():
        done = 0
        for txt, th in cases:
            try:
                th()
            except Bad as e:
                raise Bad('%s: %s' % (txt, e))
            except AbsRaise as e:
                raise Bad('%s: raises %s' % (txt, exc_text(e)))
            done += 1
    return C.ob(rule, construct, case, go)


def universes(tier):
    q = [(Universe('a', 'a', 'a', ''), {}),
         (Universe('a', '', 'a', 'e'), {}),
         (Universe('', '', 'ab', 'e'), {}),
         (Universe('a', 'b', 'ab', ''), dict(bcast=False)),
         (Universe('aa', '', 'aa', ''), dict(bcast=False)),
         (Universe('a', 'a', 'aa', ''), dict(bcast=False)),
         (Universe('ab', 'a', 'ab', ''), dict(bcast=False))]
    if tier == 'thorough':
        q += [(Universe('aa', 'a', 'aa', ''), dict(bcast=False)),
              (Universe('a', 'b', 'ab', ''), {}),
              (Universe('a', 'a', 'ba', 'e'), dict(bcast=False)),
              (Universe('aa', 'aa', 'aa', ''), dict(bcast=False,
                                                    absent=False)),
              (Universe('a', 'b', 'acb', 'e'), dict(bcast=False))]
    return q


def lazies(U, R, tier):
    """pairs of representations whose sum is held lazily"""
    P = []
    for a, b in itertools.combinations(R, 2):
        if (a.xm, a.ym) != (b.xm, b.ym) and (a.p[2] or b.p[2]):
            P.append((a, b))
    return P


def check(C):
    C.specials = False      # has its own cases of special numbers
    C.rule('dense', 'toarray() is the array the representation denotes')
    C.rule('pair', 'an operation on two tensors is the operation on the '
           'dense arrays')
    C.rule('number', 'numbers and arrays on either side')
    C.rule('lazy', 'operations with lazily held sums')
    C.rule('neg', 'negation')
    C.rule('raise', 'division by zero and unsupported operations raise')
    E = C.engine()

    def toarray(t, rdense):
        v = as_arr(E.m(t, 'toarray'))
        flat = rdense.shape
        if len(v.shape) != len(flat):
            raise Bad('toarray() has %d axes, the tensor has %d' %
                      (len(v.shape), len(flat)))
        rd = v.reader()
        cuts = [len(g) for g in rdense.groups]

        def at(*ix):
            flat = sum((tuple(p) for p in ix), ())
            return rd(tuple(A.ix(0) if isinstance(n, int) and n == 1 else
                            A.ix(i) if isinstance(i, (int, tt.T)) else i
                            for n, i in zip(v.shape, flat)))
        from ..core import Dense
        got, p = [], 0
        for c in cuts:
            got.append(v.shape[p:p + c])
            p += c
        check_equal(Dense(got, at), rdense.groups,
                    lambda *i: rdense.at(i))

    for U, kw in universes(C.tier):
        R = reps(U, **kw)
        ws = {}

        def mk(r, name):
            return r.make(E, name)
        run(C, 'dense', 'Tensor.toarray', str(U), [
            (str(r), lambda r=r: (lambda t: toarray(t, dense(E, t)))(
                mk(r, 'A'))) for r in R])
        run(C, 'neg', 'Tensor.__neg__', str(U), [
            (str(r), lambda r=r: (lambda t: check_equal(
                dense(E, E.m(t, '__neg__')), dense(E, t).groups,
                lambda *i: tt.neg(dense(E, t).at(i))))(mk(r, 'A')))
            for r in R])
        for ra in R:
            for op in OPS:
                def pair(rb, ufn=False):
                    a, b = mk(ra, 'A'), mk(rb, 'B')
                    r = E.call(E.I.np.UF[UFN[op]], a, b) if ufn else \
                        E.I.binop(op, a, b)
                    equal(E, r, OPS[op], dense(E, a), dense(E, b))
                cs = [('%s %s %s' % (ra, op, rb), lambda rb=rb: pair(rb))
                      for rb in R if not (op == 'Div' and rb.mapped())]
                run(C, 'pair', 'Tensor.bin_op', '%s: %s %s *' % (U, ra, op),
                    cs)
            # the same through numpy
            pick = [r for k, r in enumerate(R) if k % 5 == 0]
            for op in OPS:
                cs = [('np.%s(%s, %s)' % (UFN[op], ra, rb),
                       lambda rb=rb: pair(rb, True))
                      for rb in pick if not (op == 'Div' and rb.mapped())]
                run(C, 'pair', 'Tensor.__array_ufunc__',
                    '%s: np.%s(%s, *)' % (U, UFN[op], ra), cs)
        numbers(C, E, U, R)
        lazy(C, E, U, R, toarray)
    raising(C, E)


def operands(E, U, r, lazy_n=None):
    """numbers, arrays and scalar tensors to combine with r"""
    out = [('0', lambda: 0), ('1', lambda: 1), ('2.5', lambda: 2.5),
           ('-1.0', lambda: -1.0),
           ('number s', lambda: E.scalar('s', lo=2)),
           ('array()', lambda: E.arr('s', (), lo=2)),
           ('Tensor(number)', lambda: E.new('maxlike.tensor.Tensor',
                                            E.arr('s', (), lo=2)))]
    if r.p[2] is not None and not r.p[3]:
        n = tuple(s for s in U.g[2])
        out.append(('array', lambda: E.arr('s', n, lo=1)))
    return out


def numbers(C, E, U, R):
    for r in R:
        for op in OPS:
            cs = []
            for nm, mko in operands(E, U, r):
                for left in (False, True):
                    for ufn in (False, True):
                        if op == 'Div' and (r.mapped() if left else
                                            nm == '0'):
                            continue
                        if ufn and nm in ('1', '-1.0', 'array()'):
                            continue

                        def one(mko=mko, left=left, ufn=ufn):
                            t, o = r.make(E, 'A'), mko()
                            a, b = (o, t) if left else (t, o)
                            v = E.call(E.I.np.UF[UFN[op]], a, b) \
                                if ufn else E.I.binop(op, a, b)
                            equal(E, v, OPS[op], dense(E, a), dense(E, b))
                        f = 'np.%s(%%s, %%s)' % UFN[op] if ufn else \
                            '%%s %s %%s' % op
                        cs.append((f % ((nm, r) if left else (r, nm)), one))
            run(C, 'number', 'Tensor.bin_op', '%s: %s %s number' %
                (U, r, op), cs)


def lazy(C, E, U, R, toarray):
    L = lazies(U, R, C.tier)
    if not L:
        return
    step = max(1, len(L) // (8 if C.tier == 'quick' else 60))
    L = L[::step]
    rstep = max(1, len(R) // 8) if C.tier == 'quick' else 1
    for k, (p, q) in enumerate(L):
        def mk(n1='L', n2='M', pq=(p, q)):
            return E.I.binop('Add', pq[0].make(E, n1), pq[1].make(E, n2))
        nm = '(%s+%s)' % (p, q)
        cs = [('toarray', lambda: (lambda t: toarray(t, dense(E, t)))(mk())),
              ('neg', lambda: (lambda t: check_equal(
                  dense(E, E.m(t, '__neg__')), dense(E, t).groups,
                  lambda *i: tt.neg(dense(E, t).at(i))))(mk()))]
        run(C, 'lazy', 'GenericTensor', '%s: %s' % (U, nm), cs)
        others = [(str(r), lambda r=r: r.make(E, 'B'), r.mapped())
                  for r in R[k % rstep::rstep]]
        others += [(n, f, False) for n, f in operands(E, U, p)]
        p2, q2 = L[(k * 7 + 3) % len(L)]
        others.append(('(%s+%s)' % (p2, q2),
                       lambda: mk('B', 'B2', (p2, q2)), None))
        for op in OPS:
            cs = []
            for on, mko, mp in others:
                for left in (False, True):
                    if op == 'Div' and (left or mp or mp is None or
                                        on == '0'):
                        continue

                    def one(mko=mko, left=left):
                        t, o = mk(), mko()
                        a, b = (o, t) if left else (t, o)
                        v = E.I.binop(op, a, b)
                        equal(E, v, OPS[op], dense(E, a), dense(E, b))
                        # usable afterwards
                        E.m(v, 'toarray')
                    cs.append(('%s %s %s' % ((on, op, nm) if left else
                                             (nm, op, on)), one))
            run(C, 'lazy', 'GenericTensor.bin_op', '%s: %s %s *' %
                (U, nm, op), cs)


def raising(C, E):
    U = Universe('a', 'a', 'a', '')
    plain = Rep(U, (1,), (1,), (1,))
    mp = Rep(U, (0,), (1,), (1,), xm=(0,))
    vec = Rep(U, None, None, (1,))

    def mk(k):
        if k == 'lazy':
            return E.I.binop('Add', mp.make(E, 'L'), plain.make(E, 'M'))
        return {'plain': plain, 'mapped': mp, 'vector': vec}[k].make(E, 'A')

    def must_raise(construct, case, f):
        def go():
            try:
                r = f()
            except AbsRaise:
                return None
            raise Bad('gives a %s instead of raising' % E.I.tname(r))
        C.ob('raise', construct, case, go)
    zeros = {'0': lambda: 0, '0.0': lambda: 0.0,
             'array(0)': lambda: A.scalar_arr(0.0),
             'Tensor(0)': lambda: E.new('maxlike.tensor.Tensor', 0)}
    for k in ('plain', 'mapped', 'vector', 'lazy'):
        for zn, z in zeros.items():
            must_raise('Tensor.bin_op' if k != 'lazy' else
                       'GenericTensor.bin_op', '%s / %s' % (k, zn),
                       lambda: E.I.binop('Div', mk(k), z()))
        must_raise('Tensor.bin_op', '%s + text' % k,
                   lambda: E.I.binop('Add', mk(k), [1, 2]))
        for u in ('maximum', 'floor_divide', 'power'):
            if k == 'vector' and u == 'maximum':
                continue
            must_raise('Tensor.__array_ufunc__', 'np.%s(%s, 2)' % (u, k),
                       lambda: E.call(E.I.np.UF[u], mk(k), 2.0))
        if k != 'vector':
            for u in ('exp', 'log', 'tanh', 'sqrt', 'square'):
                must_raise('Tensor.__array_ufunc__', 'np.%s(%s)' % (u, k),
                           lambda: E.call(E.I.np.UF[u], mk(k)))
    for k in ('plain', 'mapped', 'vector', 'lazy'):
        must_raise('GenericTensor.bin_op', '%s / lazy' % k,
                   lambda: E.I.binop('Div', mk(k), mk('lazy')))
    must_raise('GenericTensor.bin_op', '2 / lazy',
               lambda: E.I.binop('Div', 2.0, mk('lazy')))
    # vectors of values: elementwise functions are applied to every entry
    fns = {'exp': tt.exp, 'log': tt.log, 'square': lambda t: tt.mul(t, t),
           'tanh': lambda t: tt.fn('tanh', t),
           'arctan': lambda t: tt.fn('arctan', t)}
    for u, f in fns.items():
        def go():
            t = Rep(Universe('', '', 'a', 'e'), None, None, (1,), (1,)).make(
                E, 'A', lo=0)
            r = E.call(E.I.np.UF[u], t)
            try:
                exp = f(tt.sym('Z'))
            except Exception:
                return
            d = dense(E, t)
            want = as_arr(E.call(E.I.np.UF[u],
                                 E.arr('A', ('a', 'e'), lo=0))).reader()
            check_equal(dense(E, r), d.groups, lambda x, y, n, e: want(
                tuple(A.ix(i) for i in n + e)))
        C.ob('pair', 'Tensor.__array_ufunc__', 'np.%s(values)' % u, go)
