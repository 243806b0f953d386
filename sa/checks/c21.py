"""C21 inverse-distribution solvers: every path of the bounded Newton loops."""
import random
import numpy as np
from .. import terms as tt
from .. import arr as A
from .. import interp as I
from .. import valnum
from ..core import Bad, as_arr, exc_name
from ..terms import tm

LEVEL = 'other'
TECHNIQUE = 'path enumeration over an abstract interpretation of the source ' \
    '(uninterpreted probabilities; path facts imply the obligations)'
EXPLANATION = (
    'The solvers are interpreted with uninterpreted probability vectors: a '
    'comparison of unknown numbers takes both outcomes, a probability may '
    'come out as not-a-number and the linear solve may fail.  Every path '
    'must end: with a value only if the facts of the path say that the '
    'residual of the returned parameters, written from the documentation, '
    'is within the tolerance (or below that of parameters for which it is); '
    'with a convergence error otherwise.  Iterates are the parameters from '
    'which trial parameters are derived; each must be known on the path to '
    'have a smaller residual than the iterate it was derived from.')
ASSUMPTIONS = ['probability vectors uninterpreted', 'tolerance below 1',
               'truncation sizes fixed by the analysis',
               'paths up to the stated number of deviations from a policy']
FLOOR = 60
SK = 'maxlike.skellam.'


class Endless(Exception):
    pass


class Poisson(object):
    name = 'poisson_cdf_root'

    def __init__(self, E, n):
        self.E, self.n = E, n
        self.t = tt.sym('target', (), dom='prob')
        self.args = (self.t, n, tt.sym('tol', (), dom=(.01, .5)))

    def residual(self, p):
        return A_(tt.add(self.t, *[tt.neg(F(p[0], u))
                                   for u in range(self.n + 1)]))

    def rates(self, v):
        return [scalar(v)]
    width = 1
    common = frozenset()


class Skellam(object):
    name = 'skellam_cdf_root'
    width = 2
    common = frozenset()

    def __init__(self, E, n):
        self.E, self.n = E, n
        self.t = [tt.sym('target1', (), dom=(.2, .4)),
                  tt.sym('target2', (), dom=(.2, .4))]
        self.args = (self.t[0], self.t[1], n,
                     tt.sym('tol', (), dom=(.01, .5)))

    def residual(self, p):
        out = []
        for q in range(2):
            s = [tt.mul(F(p[0], i), F(p[1], j)) for i in range(SIZE)
                 for j in range(SIZE)
                 if ((j - i < self.n) if q == 0 else (j - i > self.n))]
            d = tt.add(self.t[q], *[tt.neg(x) for x in s])
            out.append(tt.mul(d, d))
        return tt.power(tt.add(*out), tt.const(1) / tt.const(2))

    def rates(self, v):
        if isinstance(v, A.AArr):
            v = [v.reader()((k,)) for k in range(2)]
        if not isinstance(v, (list, tuple)) or len(v) != 2:
            raise Bad('a pair of parameters expected, got %r' % (v,))
        return [scalar(x) for x in v]


class Conditional(object):
    name = 'conditional_skellam_cdf_root'
    width = 1
    common = frozenset([0])

    def __init__(self, E, n):
        self.t = tt.sym('target', (), dom='prob')
        self.b = tt.sym('rb', (), dom='pos')
        self.args = (self.b, self.t, tt.sym('tol', (), dom=(.01, .5)))

    def residual(self, p):
        s = []
        for i in range(SIZE):
            for j in range(SIZE1):
                if j <= i:
                    w = tt.const(1) if j < i else \
                        tt.const(1) / tt.const(2)
                    s.append(tt.mul(w, F(p[0], i), F(0, j)))
        return A_(tt.add(self.t, *[tt.neg(x) for x in s]))

    def rates(self, v):
        return [scalar(v)]


SIZE, SIZE1 = 4, 3


def F(k, u):
    return tt.sym('F%d' % k, (tm(0), tm(u)))


def A_(x):
    return tt.fn('abs', x)


def scalar(v):
    a = as_arr(v)
    if a.ndim and not (isinstance(a.size, int) and a.size == 1):
        raise Bad('a number expected, got shape %s' % (a.shape,))
    return tt.numify(a.reader()((0,) * a.ndim))


_SY = {}


def syms(t):
    """names of the symbols of a term"""
    r = _SY.get(t)
    if r is None:
        seen, todo, out = set(), [t], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'sym':
                out.add(x.a[0])
            todo.extend(kids(x))
        r = _SY[t] = frozenset(out)
    return r


def kids(x):
    out = []

    def walk(v):
        if isinstance(v, tt.T):
            out.append(v)
        elif isinstance(v, (tuple, list)):
            for y in v:
                walk(y)
        elif hasattr(v, 'body'):
            walk(v.body)
    walk(x.a)
    return out


def probs(t):
    return sorted(int(s[1:]) for s in syms(t) if s[0] == 'F' and
                  s[1:].isdigit())


class Explorer(object):
    maxdec = 3000
    maxtol = 300         # tests of the tolerance
    exact = False        # the tolerance is zero

    def __init__(self, E, solver):
        self.E, self.S = E, solver
        self.mod = E.get('maxlike.skellam')
        self.imp = {}
        self.tr = {}
        self.resid = {}

    # --- stand-ins -----------------------------------------------------------
    def vector(self, a, size=10):
        r = scalar(a)
        for k, q in enumerate(self.rate):
            if q is r:
                break
        else:
            k = len(self.rate)
            self.rate.append(r)
            self.nan.append(self.policy.nan(self, k))
        self.calls.append(k)
        if self.nan[k]:
            return A.mk((2, size), lambda i: tt.NAN)
        return self.E.arr('F%d' % k, (2, size), dom=(.02, .2))

    def cut(self, tol=None, *args):
        return SIZE if len(args) == 2 else SIZE1

    def fault(self, name):
        if self.policy.fault(self):
            A.araise(np.linalg.LinAlgError, 'Singular matrix')

    def decide(self, c, node=None, frame=None):
        c = tt.tb(c)
        self.nask += 1
        if self.nask > 4 * self.maxdec or self.ntol > self.maxtol:
            raise Endless()
        for k, b in self.lits:
            if k is c:
                return b
            if k is tt.lnot(c):
                return not b
        ps = probs(c)
        if not ps:
            if c not in self.tr:
                self.tr[c] = valnum.truth(c)
            if self.tr[c] is not None:
                return self.tr[c]
        self.ndec += 1
        if self.ndec > self.maxdec:
            raise Endless()
        kind = 'tol' if 'tol' in syms(c) or self.exact and \
            not positive(c) and len(set(ps) - self.S.common) <= self.S.width \
            else 'cmp'
        self.ntol += kind == 'tol'
        b = self.policy.choose(self, kind, c)
        self.lits.append((c, b))
        return b

    def loose(self, c):
        """the comparison holds for huge tolerances"""
        if self.exact:
            return c.op not in ('lt', 'not')
        if ('l', c) not in self.tr:
            self.tr['l', c] = valnum.truth(tt.replace(
                c, {tt.sym('tol', ()): tt.const(10 ** 6)}))
        return self.tr['l', c] is not False

    # --- one run -------------------------------------------------------------
    def run(self, policy):
        E = self.E
        E.I.steps = 0
        self.policy = policy
        policy.start()
        self.rate, self.nan, self.calls, self.lits = [], [], [], []
        self.ndec = self.nask = self.ntol = 0
        d = self.mod.d
        old = d['poisson_vector'], d['tol2size']
        d['poisson_vector'] = I.Model(self.vector, 'poisson_vector')
        d['tol2size'] = I.Model(self.cut, 'tol2size')
        E.I.decide_hook = self.decide
        A.Hooks.fault = self.fault
        try:
            v = E.call(E.get(SK + self.S.name), *self.S.args)
            self.out = ('ret', v)
        except A.AbsRaise as e:
            self.out = ('raise', exc_name(e))
        except Endless:
            self.out = ('endless', None)
        finally:
            E.I.decide_hook = None
            A.Hooks.fault = None
            d['poisson_vector'], d['tol2size'] = old
        return self.judge()

    # --- facts ---------------------------------------------------------------
    def implied(self, claim, a, b=None):
        """some fact of the path implies the claim"""
        own = set(a) | set(b or ())
        for c, v in self.lits:
            lit = c if v else tt.lnot(c)
            ps = set(probs(lit))
            if not ps or not ps <= own | self.S.common or \
                    not own - self.S.common <= ps:
                continue
            if callable(claim):
                claim = claim()
            key = (lit, claim)
            if key not in self.imp:
                self.imp[key] = self.entails(lit, claim, a, b)
            if self.imp[key]:
                return True
        return False

    def entails(self, lit, claim, a, b):
        if lit is claim:
            return True
        try:
            if valnum.compare(lit, tt.FALSE, nsamples=12) is None:
                return False
            if valnum.compare(tt.land(lit, tt.lnot(claim)), tt.FALSE,
                              nsamples=40) is not None:
                return False
        except NotImplementedError:
            return False
        if b is not None:
            # equal residuals must not count as smaller
            ren = {}
            for x, y in zip(a, b):
                if x != y:
                    for u in range(SIZE):
                        for r in range(2):
                            ren[tt.sym('F%d' % x, (tm(r), tm(u)))] = \
                                tt.sym('F%d' % y, (tm(r), tm(u)))
            t = tt.replace(lit, ren)
            if t is not tt.FALSE and \
                    valnum.compare(t, tt.FALSE, nsamples=6) is not None:
                return False
        return True

    def point(self, rates, pts):
        for p in pts:
            if all(self.rate[k] is r for k, r in zip(p, rates)):
                return p
        for p in pts:
            if all(self.rate[k] is r or valnum.compare(
                    self.rate[k], r, nsamples=8) is None
                    for k, r in zip(p, rates)):
                return p
        return None

    def less(self, p, q):
        return self.implied(lambda: tt.lt(self.res(p), self.res(q)), p, q)

    def res(self, p):
        if p not in self.resid:
            self.resid[p] = self.S.residual(p)
        return self.resid[p]

    def below(self, p, q, pts):
        """facts of the path order p below q"""
        todo, seen = [q], {q}
        while todo:
            x = todo.pop()
            for y in pts:
                if y not in seen and self.less(y, x):
                    if y == p:
                        return True
                    seen.add(y)
                    todo.append(y)
        return False

    def within(self, p):
        return self.implied(lambda: tt.le(self.res(p),
                                          A_(tt.sym('tol', ()))), p)

    def judge(self):
        S = self.S
        kind, v = self.out
        trace = ''.join('FT'[b] for _, b in self.lits[:40])
        if kind == 'endless':
            return 'still running after %d comparisons, %d tests of the ' \
                'tolerance (choices %s ...)' % (self.nask, self.ntol, trace)
        w = S.width
        calls = self.calls
        if isinstance(S, Conditional):
            pts = [(k,) for k in calls[1:]]
        else:
            pts = [tuple(calls[i:i + w]) for i in range(0, len(calls), w)]
        pts = list(dict.fromkeys(p for p in pts if len(p) == w))
        # iterates
        par = {}
        for p in pts:
            ids = sorted(set(k for q in p for k in probs(self.rate[q])))
            if isinstance(S, Conditional) and len(ids) > 1:
                ids = [k for k in ids if k] or ids
            if not ids:
                par[p] = None
                continue
            m = ids[-1]
            par[p] = [q for q in pts if m in q][-1]
        its = list(dict.fromkeys(q for q in par.values() if q is not None))
        for q in its:
            if par[q] is not None and not self.below(q, par[q], pts):
                return 'trial parameters are derived from parameters that ' \
                    'are not known to have a smaller residual than the ' \
                    'previous ones (choices %s)' % trace
        if kind == 'raise':
            if v != 'ConvergenceError':
                return 'ends with %s, a convergence error expected ' \
                    '(choices %s)' % (v, trace)
            for q in its:
                if self.within(q):
                    return 'raises although the residual was within the ' \
                        'tolerance (choices %s)' % trace
            return None
        if isinstance(v, I.PyObj):
            return 'returns a %s object (choices %s)' % (v.cls.name, trace)
        r = self.point(S.rates(v), pts)
        if r is None:
            return 'returns parameters whose residual was never computed ' \
                '(choices %s)' % trace
        if self.within(r):
            return None
        for q in pts:
            if q != r and self.within(q) and self.below(r, q, pts):
                return None
        return 'returns parameters whose residual is not known to be ' \
            'within the tolerance (choices %s)' % trace


class Policy(object):
    """base policy plus deviations at given choice numbers"""

    def __init__(self, stop, accept, flips=(), nan=None, seed=0):
        self.stop, self.accept = stop, accept
        self.flips = frozenset(flips)
        self.nanf = nan
        self.seed = seed

    def start(self):
        self.k = 0
        self.tests = self.cmps = 0
        self.rng = random.Random(self.seed)

    def flip(self):
        self.k += 1
        return (self.k - 1) in self.flips

    def choose(self, X, kind, c):
        f = self.flip()
        if kind == 'tol':
            self.tests += 1
            r = self.stop is not None and self.tests >= self.stop
            if not X.loose(c):
                r = not r
        else:
            self.cmps += 1
            if c.op in ('lt', 'le') and positive(c):
                r = True       # trial parameter is positive
            else:
                r = self.accept(self)
        return r != f

    def nan(self, X, k):
        return self.nanf is not None and self.nanf(k)

    def fault(self, X):
        return self.flip()


def positive(c):
    """a sign test of a rate: derivatives occur, residuals have none"""
    if c not in _POS:
        seen, todo = set(), [c]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'opq' or x.op == 'sym' and x.a[0][0] == 'F' and \
                    x.a[1] and x.a[1][0] is tm(1):
                break
            todo.extend(kids(x))
        else:
            seen = None
        _POS[c] = seen is not None
    return _POS[c]


_POS = {}


def check(C):
    C.rule('path', 'every path ends with a value within the tolerance or a '
           'convergence error, moving to smaller residuals only')
    C.rule('bounded', 'paths that never reach the tolerance end with a '
           'convergence error')
    C.rule('reject', 'impossible targets raise a value error')
    E = C.engine(('maxlike', 'maxlike.skellam'))
    deep = C.tier != 'quick'
    first = lambda s: True
    never = lambda s: False
    second = lambda s: s.cmps % 2 == 0
    third = lambda s: s.cmps % 3 == 0
    last = lambda s: s.cmps % 10 == 9
    rnd = lambda s: s.rng.random() < .3
    solvers = [(Poisson, n) for n in (0, 2)] + \
        [(Skellam, n) for n in (-1, 0, 1)] + [(Conditional, None)]
    if deep:
        solvers += [(Poisson, 1), (Skellam, 2)]
    for cls, n in solvers:
        S = cls(E, n)
        tag = '' if n is None else 'n=%d,' % n

        def paths(stop, acc, nm, S=S):
            X = Explorer(E, S)
            done = set()
            bad = [None]
            count = [0]

            def go(flips, budget):
                w = X.run(Policy(stop, acc, flips))
                count[0] += 1
                if w:
                    bad[0] = w
                    return
                top = X.policy.k
                lo = max(flips) + 1 if flips else 0
                if budget and len(X.calls) <= 60 * S.width:
                    for k in range(lo, min(top, 40)):
                        go(flips + (k,), budget - 1)
                        if bad[0]:
                            return
            go((), 3 if deep else 2)
            return bad[0]
        for stop in (1, 2, 3):
            for nm, acc in (('first', first), ('never', never),
                            ('second', second)):
                if nm == 'never' and stop > 1:
                    continue
                C.ob('path', S.name, '%sstop at test %d,accept %s' % (
                    tag, stop, nm), lambda: paths(stop, acc, nm))

        def endless(acc, nan, seed=0, S=S):
            X = Explorer(E, S)
            return X.run(Policy(None, acc, (), nan, seed))
        for nm, acc in (('never', never), ('first', first),
                        ('second', second), ('third', third),
                        ('last', last)):
            if not deep and (nm == 'third' or n in (-1, 1) and
                             nm in ('second', 'last')):
                continue
            C.ob('bounded', S.name, '%saccept %s' % (tag, nm),
                 lambda: endless(acc, lambda k: False))
        for s in range(2 if not deep else 12):
            C.ob('bounded', S.name, '%srandom %d' % (tag, s),
                 lambda: endless(rnd, lambda k: False, s))

        def exact(acc, zero, cls=cls, n=n):
            S = cls(E, n)
            S.args = S.args[:-1] + (zero,)
            X = Explorer(E, S)
            X.exact = True
            return X.run(Policy(None, acc))
        for nm, acc in (('never', never), ('first', first),
                        ('last', last)):
            if cls is Skellam and n and not deep:
                continue
            for zero in (0, 0.0) if deep else (0.0,):
                C.ob('bounded', S.name, '%saccept %s,tolerance %r' % (
                    tag, nm, zero), lambda: exact(acc, zero))
        C.ob('bounded', S.name, tag + 'not a number',
             lambda: endless(first, lambda k: True))
        def nan(k, acc, stop, S=S):
            return Explorer(E, S).run(Policy(stop, acc, (),
                                             lambda q: k <= q <= k + deep))
        for k in range(1, 6):
            if not deep and n in (-1, 1):
                continue
            C.ob('path', S.name, tag + 'rate %d gives no numbers' % k,
                 lambda: nan(k, first, 4))
            C.ob('path', S.name, tag + 'rate %d gives no numbers, second' % k,
                 lambda: nan(k, second, 3))

    for nm, acc in (('never', never), ('first', first)):
        C.ob('bounded', 'poisson_cdf_root', 'n=12,accept %s' % nm,
             lambda: Explorer(E, Poisson(E, 12)).run(Policy(None, acc)))

    bad = [0, 1, 0.0, 1.0, -.25, 1.5, 2, -1, float('inf'), -float('inf'),
           float('nan')]

    def rej(f, *args):
        S = dict((c.name, c) for c in (Poisson, Skellam, Conditional))[f](
            E, 0)
        S.args = args
        X = Explorer(E, S)
        X.judge = lambda: None
        X.run(Policy(2, first))
        if X.out != ('raise', 'ValueError'):
            raise Bad('a value error expected, the solver %s' % (
                'raises %s' % X.out[1] if X.out[0] == 'raise' else
                'returns a value' if X.out[0] == 'ret' else 'runs on'))
    for t in bad:
        for n in (0, 2):
            C.ob('reject', 'poisson_cdf_root', 'target=%s,n=%d' % (t, n),
                 lambda: rej('poisson_cdf_root', t, n))
        C.ob('reject', 'conditional_skellam_cdf_root', 'target=%s' % t,
             lambda: rej('conditional_skellam_cdf_root', 1.5, t))
        for u in (.25, t):
            for p in ((t, u), (u, t)):
                C.ob('reject', 'skellam_cdf_root', 'targets=%s,%s' % p,
                     lambda: rej('skellam_cdf_root', p[0], p[1], 0))
    for p in ((.5, .5), (.75, .5), (.5, .75), (.25, .75)):
        C.ob('reject', 'skellam_cdf_root', 'targets=%s,%s' % p,
             lambda: rej('skellam_cdf_root', p[0], p[1], 0))
