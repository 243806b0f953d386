"""Identity testing of value-graph terms (random interpretation).

Two terms produced by the abstract interpreter are compared first as interned
normal forms.  When the normal forms differ, the terms -- polynomial, rational
and transcendental expressions over free data symbols -- are compared by
identity testing at random points (Schwartz-Zippel; Gulwani & Necula, "Global
value numbering using random interpretation", POPL 2004).  Only terms are
evaluated, never the repository's code.
"""
import zlib
import numpy as np
from . import terms as tt

LD = np.longdouble
_special = None


def special():
    global _special
    if _special is None:
        import scipy.special as s
        _special = s
    return _special


DOMS = {
    'real': (-1.3, 1.3),
    'pos': (0.25, 1.9),
    'prob': (0.15, 0.85),
    'small': (0.02, 0.2),
    'unit': (-1, 1),
    'half': (-0.6, 0.6),
    'plus': (0.3, 1.2),
    'gt1': (1.2, 2.6),
    'big': (2.5, 6.5),
    'int': None,
    'scale': (0.4, 3),
    'nonneg': (0.25, 1.9),
}

# The sampled box decides an identity between analytic graphs.  A graph with
# comparisons, minima, maxima or roundings of data values is analytic only
# piece by piece, so it is also sampled far out, where other pieces apply.
WIDE = {
    'real': lambda u, r: (2 * u - 1) * r,
    'unit': lambda u, r: (2 * u - 1) * r,
    'half': lambda u, r: (2 * u - 1) * r,
    'pos': lambda u, r: np.exp((2 * u - 1) * min(r, 9)),
    'nonneg': lambda u, r: np.exp((2 * u - 1) * min(r, 9)),
    'plus': lambda u, r: np.exp((2 * u - 1) * min(r, 9)),
    'prob': lambda u, r: 1 / (1 + np.exp((2 * u - 1) * min(r, 12))),
    # no slack below one half, so that e^e^y + s - 1 stays positive
    'scale': lambda u, r: 0.4 + u * u * (LD(r) * 20),
    'gt1': lambda u, r: 1 + np.exp((2 * u - 1) * np.log(LD(r))),
}
RANGES = (4, 12, 30, 200)

SIZES = [  # alternative instantiations of size symbols, by order of first use
    (2, 3, 4, 2, 3, 5),
    (3, 2, 2, 4, 3, 2),
]


PINS = {}       # numbers held at a special value


class Sample(object):
    """one interpretation of all symbols"""

    def __init__(self, seed, which, wide=None, big=None, mix=None):
        self.mix = mix          # values which some entries take
        self.seed = seed
        self.which = which
        self.wide = wide
        self.big = big          # (order of a size symbol, its size)
        self.sizes = {}
        self.tables = {}

    def size(self, name):
        v = self.sizes.get(name)
        if v is None:
            if '=' in name:
                v = int(name.split('=')[1])
            else:
                seq = SIZES[self.which % len(SIZES)]
                h = SIZEORDER.setdefault(name, len(SIZEORDER))
                v = seq[h % len(seq)]
                if self.big is not None:
                    if self.big[0] in (len(self.sizes), -1):
                        v = self.big[1]
            self.sizes[name] = v
        return v

    def table(self, name, rank):
        key = (name, rank)
        t = self.tables.get(key)
        if t is None and not rank and name in PINS:
            return np.asarray(LD(PINS[name].numerator) /
                              LD(PINS[name].denominator))
        if t is None:
            info = tt.SYMINFO.get(name, {})
            dom = info.get('dom', 'real')
            rng = np.random.RandomState(
                (zlib.crc32(name.encode()) * 31 + self.seed * 7919) % (2 ** 32))
            n = 9 if rank <= 6 else 5
            if self.big is not None and rank <= 3:
                n = max(n, min(self.big[1], (0, 64, 64, 40)[rank]))
            shape = (n,) * rank
            if dom == 'int' or dom == 'count':
                t = rng.randint(0, 4, shape).astype(LD)
            elif dom == 'bool':
                t = rng.randint(0, 2, shape).astype(LD)
            else:
                u = rng.random_sample(shape).astype(LD)
                if self.wide is not None and dom in WIDE:
                    t = WIDE[dom](u, self.wide)
                else:
                    lo, hi = DOMS[dom] if isinstance(dom, str) else dom
                    t = (lo + (hi - lo) * u).astype(LD)
            vs = self.mix.get(name) if self.mix else None
            if vs:
                at = rng.randint(0, 2 * len(vs) + 1, shape)
                for k, v in enumerate(vs):
                    t = np.where(at == 2 * k, LD(v.numerator) /
                                 LD(v.denominator), t).astype(LD)
            self.tables[key] = t
        return t


SIZEORDER = {}


def _bvn(x, y, r):
    """standard bivariate normal distribution function (Plackett)"""
    s = special()
    x, y, r = np.broadcast_arrays(np.clip(x, -40, 40), np.clip(y, -40, 40), r)
    h = np.arcsin(r) / 2
    tot = s.ndtr(x) * s.ndtr(y)
    for node, w in zip(*np.polynomial.legendre.leggauss(64)):
        th = h * (node + 1)
        tot = tot + h * w / (2 * np.pi) * np.exp(
            -(x * x - 2 * x * y * np.sin(th) + y * y) /
            (2 * np.cos(th) ** 2))
    return np.asarray(tot, dtype=LD)


def _fn(name, xs):
    x = xs[0]
    if name == 'exp':
        return np.exp(x)
    if name == 'log':
        return np.log(x)
    if name == 'pow':
        return np.power(x, xs[1])
    if name == 'arctan':
        return np.arctan(x)
    if name == 'tanh':
        return np.tanh(x)
    if name == 'sin':
        return np.sin(x)
    if name == 'cos':
        return np.cos(x)
    if name == 'abs':
        return np.abs(x)
    if name == 'sign':
        return np.sign(x)
    if name == 'min':
        return np.minimum(x, xs[1])
    if name == 'max':
        return np.maximum(x, xs[1])
    if name == 'int':
        return np.trunc(x)
    if name == 'floor':
        return np.floor(x)
    if name == 'mod':
        return np.mod(x, xs[1])
    if name == 'bvn':
        return _bvn(*[np.asarray(v, dtype=np.float64) for v in xs])
    s = special()
    f64 = np.asarray(x, dtype=np.float64)
    if name == 'gammaln':
        r = s.gammaln(f64)
    elif name == 'digamma':
        r = s.digamma(f64)
    elif name == 'trigamma':
        r = s.polygamma(1, f64)
    elif name == 'factorial':
        r = s.gamma(f64 + 1)
    elif name == 'ndtri':
        r = s.ndtri(f64)
    elif name == 'ndtr':
        r = s.ndtr(f64)
    elif name == 'npdf':
        return np.exp(-x * x / 2) / np.sqrt(2 * LD(np.pi))
    elif name == 'isnan':
        return np.isnan(x).astype(LD)
    else:
        raise NotImplementedError('eval fn ' + name)
    return np.asarray(r, dtype=LD)


OPQ = {}      # name -> numeric function of (list of arrays) -> array


class Evaluator(object):

    def __init__(self, sample):
        self.s = sample
        self.memo = {}

    def size(self, t):
        v = self.ev(t, {})
        return int(v)

    def ev(self, t, env):
        """env: ivar -> int or (tag, array)"""
        key = (t,) + tuple((v, env[v] if not isinstance(env[v], tuple)
                            else env[v][0])
                           for v in sorted(t.fv) if v in env)
        r = self.memo.get(key)
        if r is None:
            r = self._ev(t, env)
            self.memo[key] = r
        return r

    def _ev(self, t, env):
        op = t.op
        ev = self.ev
        if op == 'c':
            return LD(t.a.numerator) / LD(t.a.denominator)
        if op == 'size':
            return LD(self.s.size(t.a))
        if op == 'iv':
            v = env[t]
            return v[1] if isinstance(v, tuple) else LD(v)
        if op == 'nan':
            return LD('nan')
        if op == 'inf':
            return LD('inf') * t.a
        if op == 'sym':
            name, idx = t.a
            info = tt.SYMINFO.get(name, {})
            ix = [np.asarray(ev(x, env)) for x in idx]
            ix = [np.where(np.isfinite(i), i, 0).astype(int) for i in ix]
            canon = info.get('canon')
            if canon is not None:
                ix = canon(ix)
            tab = self.s.table(name, len(ix))
            if not ix:
                return tab[()]
            n = tab.shape[0]
            ix = [np.clip(i, 0, n - 1) for i in ix]
            return tab[tuple(np.broadcast_arrays(*ix))]
        if op == 'add':
            r = LD(t.a[0].numerator) / LD(t.a[0].denominator)
            for k, v in t.a[1]:
                x = ev(k, env)
                if v == 1:
                    r = r + x
                elif v == -1:
                    r = r - x
                else:
                    r = r + x * (LD(v.numerator) / LD(v.denominator))
            return r
        if op == 'mul':
            r = None
            for k, e in t.a:
                x = ev(k, env)
                if e != 1:
                    if e.denominator == 1 and abs(e) <= 64:
                        y = x
                        n = abs(int(e))
                        y = LD(1)
                        b = x
                        while n:
                            if n & 1:
                                y = y * b
                            b = b * b
                            n >>= 1
                        x = y if e > 0 else LD(1) / y
                    else:
                        x = np.power(x, LD(e.numerator) / LD(e.denominator))
                r = x if r is None else r * x
            return r
        if op == 'fn':
            return _fn(t.a[0], [ev(x, env) for x in t.a[1:]])
        if op == 'sum':
            iv, sz, body = t.a
            n = self.size(sz)
            r = LD(0)
            env = dict(env)
            for k in range(n):
                env[iv] = k
                r = r + ev(body, env)
            return r
        if op == 'ite':
            c = ev(t.a[0], env)
            if np.ndim(c) == 0:
                return ev(t.a[1] if c else t.a[2], env)
            return np.where(c, ev(t.a[1], env), ev(t.a[2], env))
        if op == 'eq':
            return self._cmp(t, env, lambda d, tol: np.abs(d) <= tol)
        if op == 'lt':
            return self._cmp(t, env, lambda d, tol: d < -tol)
        if op == 'le':
            return self._cmp(t, env, lambda d, tol: d <= tol)
        if op == 'and':
            r = True
            for x in t.a:
                r = np.logical_and(r, ev(x, env))
            return r
        if op == 'not':
            return np.logical_not(ev(t.a[0], env))
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'opq':
            name, lams, idx = t.a
            # free ivars of the lambdas other than canonical must be scalar
            arrs = []
            for ivs, shp, body in lams:
                arrs.append(self.array(ivs, shp, body, env))
            free = set()
            for ivs, shp, body in lams:
                free |= set(body.fv) - set(ivs)
            if any(isinstance(env.get(f), tuple) for f in free):
                raise NotImplementedError('opq under vector ivar')
            val = np.asarray(OPQ[name](*arrs), dtype=LD)
            ix = [np.asarray(ev(x, env)) for x in idx]
            ix = [np.where(np.isfinite(i), i, 0).astype(int) for i in ix]
            if not ix:
                return val[()]
            ix = [np.clip(i, 0, n - 1) for i, n in zip(ix, val.shape)]
            return val[tuple(np.broadcast_arrays(*ix))]
        if op == 'opqb':
            # opaque truth value: random bit from the fingerprint of its args
            h = zlib.crc32(repr([t.a[0]] + [
                np.round(np.asarray(ev(x, env), dtype=float), 6).tolist()
                for x in t.a[1:]]).encode())
            return bool((h >> 3) & 1)
        raise NotImplementedError('eval ' + op)

    def _cmp(self, t, env, f):
        d = np.asarray(self.ev(t.a[0], env))
        tol = LD(0) if t.a[0].isint else LD(1e-12)
        r = f(d, tol)
        return r if np.ndim(r) else bool(r)

    def array(self, ivs, shp, body, env=None):
        ns = [self.size(s) for s in shp]
        e = dict(env or {})
        n = len(ns)
        for k, (iv, m) in enumerate(zip(ivs, ns)):
            a = np.arange(m).reshape((1,) * k + (m,) + (1,) * (n - k - 1))
            e[iv] = ('%s#%d/%d' % (iv.a[0], k, n), a.astype(LD))
        with np.errstate(all='ignore'):
            r = self.ev(body, e)
        return np.broadcast_to(np.asarray(r, dtype=LD), ns)


NSAMPLES = 2


ASSUME = []     # [(closed condition, its truth value)] of a case analysis


def holds(s, conds=None):
    ev = Evaluator(s)
    with np.errstate(all='ignore'):
        return all(bool(np.all(ev.ev(c, {}))) == b
                   for c, b in (ASSUME if conds is None else conds))


def feasible(conds):
    """some interpretation satisfies the conditions"""
    for i in range(40):
        if holds(Sample(11 + 17 * i, i), conds):
            return True
    for k in range(16 * len(RANGES)):
        if holds(Sample(101 + k, k, RANGES[k % len(RANGES)]), conds):
            return True
    return False


def samples(k=None):
    k = k or NSAMPLES
    if ASSUME:
        out = []
        for i in range(20 * k):
            s = Sample(11 + 17 * i, i)
            if holds(s):
                out.append(s)
                if len(out) == k:
                    break
        return out
    return [Sample(11 + 17 * i, i) for i in range(k)]


class Stats(object):
    nf = 0
    idtest = 0


_pw = {}


def data(t):
    """the term depends on a value of the data"""
    return any(x.op == 'sym' for x in subterms(t))


def subterms(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == 'add':
            todo.extend(k for k, _ in x.a[1])
        elif x.op == 'mul':
            todo.extend(k for k, _ in x.a)
        elif x.op == 'sym':
            todo.extend(x.a[1])
        elif x.op == 'opq':
            todo.extend(l[2] for l in x.a[1])
            todo.extend(x.a[2])
        elif isinstance(x.a, tuple):
            todo.extend(y for y in x.a if isinstance(y, tt.T))


def piecewise(t):
    """comparisons or roundings of data values occur in the term"""
    r = _pw.get(t)
    if r is None:
        r = False
        for x in subterms(t):
            if (x.op in ('lt', 'le') or x.op == 'fn' and x.a[0] in (
                    'min', 'max', 'floor', 'int', 'mod')) and data(x):
                r = True
                break
        _pw[t] = r
    return r


_edges = {}


def edges(t):
    """whole numbers which positions or sizes are compared with or clipped to
    and which the small sampled sizes do not reach"""
    r = _edges.get(t)
    if r is None:
        r = set()
        for x in subterms(t):
            if x.op in ('lt', 'le', 'eq'):
                args = x.a
            elif x.op == 'fn' and x.a[0] in ('min', 'max', 'mod', 'floor'):
                args = x.a[1:]
            else:
                continue
            if any(data(y) for y in args):
                continue
            for y in args:
                for c in ([y.a[0]] if y.op == 'add' else
                          [y.a] if y.op == 'c' else []):
                    if c.denominator == 1 and 3 <= abs(c) <= 60:
                        r.add(abs(int(c)))
        _edges[t] = r
    return r


def _mag(x):
    x = np.abs(x[np.isfinite(x)])
    return x.max() if x.size else 0


TOL = 1e-8


def compare(a, b, ivs=(), shp=(), nsamples=None, tol=TOL, constrain=None,
            wide=True):
    """Returns None when the two terms denote the same function, otherwise a
    witness dictionary."""
    a, b = tt.numify(tt.tm(a)), tt.numify(tt.tm(b))
    if a is b:
        Stats.nf += 1
        return None
    d = tt.add(a, tt.neg(b)) if a.op not in ('nan', 'inf') and \
        b.op not in ('nan', 'inf') else None
    if d is not None and d.op == 'c' and d.a == 0:
        Stats.nf += 1
        return None
    Stats.idtest += 1
    decided = 0
    for s in samples(nsamples):
        ev = Evaluator(s)
        va = ev.array(ivs, shp, a)
        vb = ev.array(ivs, shp, b)
        if va.size == 0:
            continue
        fa, fb = np.isfinite(va), np.isfinite(vb)
        na, nb = np.isnan(va), np.isnan(vb)
        decided += 1
        bad = (fa != fb) | (na != nb)
        both = fa & fb
        scale = max(_mag(va), _mag(vb), 1e-12)
        local = np.maximum(np.maximum(np.abs(va), np.abs(vb)), 1e-5 * scale)
        if PINS:
            bad &= False
        with np.errstate(all='ignore'):
            bad |= both & (np.abs(va - vb) > tol * local)
            if not PINS:
                infs = ~fa & ~fb & ~na & ~nb
                bad |= infs & (va != vb)
        if bad.any():
            pos = tuple(int(x[0]) for x in np.nonzero(bad)) if va.ndim else ()
            return dict(position=list(pos), got=float(va[pos]),
                        expected=float(vb[pos]),
                        sizes=dict(s.sizes), got_term=tt.show(a),
                        expected_term=tt.show(b))
    if ASSUME:
        far = Far()
        w = _far(a, b, ivs, shp, far)
        if w is None and not decided and not far.met:
            raise NotImplementedError('no decidable sample')
        return w
    if not decided:
        raise NotImplementedError('no decidable sample')
    c = edges(a) | edges(b)
    if c:
        w = _large(a, b, ivs, shp, max(c) + 2, tol)
        if w is not None:
            return w
    if wide and (piecewise(a) or piecewise(b)):
        w = _far(a, b, ivs, shp)
        if w is not None:
            return w
    mix = {}
    for n, v in special_values(a) | special_values(b):
        if n not in tt.VARIED:
            mix.setdefault(n, []).append(v)
    if mix:
        return _mixed(a, b, ivs, shp, {n: sorted(vs)[:4] for n, vs in
                                       mix.items()})
    return None


_spec = {}


def special_values(t):
    """(name, value) a symbol is compared with"""
    r = _spec.get(t)
    if r is None:
        r = set()
        for x in subterms(t):
            if x.op in ('lt', 'le', 'eq'):
                d = x.a[0] if len(x.a) == 1 else tt.add(x.a[0],
                                                        tt.neg(x.a[1]))
                p = pin_value(d)
                if p is not None:
                    r.add(p)
        _spec[t] = r
    return r


def _mixed(a, b, ivs, shp, mix):
    """samples in which numbers take the values they are compared with"""
    for k in range(6):
        s = Sample(307 + k, k, None, None, mix)
        ev = Evaluator(s)
        va = ev.array(ivs, shp, a)
        vb = ev.array(ivs, shp, b)
        if va.size == 0:
            continue
        both = np.isfinite(va) & np.isfinite(vb)
        local = np.maximum(np.maximum(np.abs(va), np.abs(vb)),
                           1e-5 * max(_mag(va), _mag(vb)))
        with np.errstate(all='ignore'):
            bad = both & (np.abs(va - vb) > 1e-8 * local)
        if bad.any():
            pos = tuple(int(x[0]) for x in np.nonzero(bad)) if va.ndim else ()
            return dict(position=list(pos), got=float(va[pos]),
                        expected=float(vb[pos]),
                        sizes=dict(s.sizes, **{n: ' or '.join(map(str, v))
                                               for n, v in mix.items()}),
                        got_term=tt.show(a), expected_term=tt.show(b))
    return None


def _large(a, b, ivs, shp, n, tol):
    """samples with one long axis"""
    many, nsize = 6, 6
    for k in range(7):
        if k >= many:
            break
        k = k if k < nsize else -1
        s = Sample(211 + k, k, None, (k, n))
        ev = Evaluator(s)
        va = ev.array(ivs, shp, a)
        vb = ev.array(ivs, shp, b)
        if k == 0:
            # then each of the others, at last all of them
            many = nsize = len(s.sizes)
            if many > 1 and n ** many < 40000:
                many += 1
            if not many:
                return None
        both = np.isfinite(va) & np.isfinite(vb)
        scale = max(_mag(va), _mag(vb), 1e-12)
        local = np.maximum(np.maximum(np.abs(va), np.abs(vb)), 1e-5 * scale)
        with np.errstate(all='ignore'):
            dif = np.abs(va - vb)
            bad = both & ((dif > 100 * tol * local) | (dif > np.maximum(
                1e-3 * np.maximum(np.abs(va), np.abs(vb)), 1e-14 * scale)))
        if bad.any():
            pos = tuple(int(x[0]) for x in np.nonzero(bad)) if va.ndim else ()
            return dict(position=list(pos), got=float(va[pos]),
                        expected=float(vb[pos]),
                        sizes=dict(s.sizes), got_term=tt.show(a),
                        expected_term=tt.show(b))
    return None


class Far(object):
    met = 0


def _far(a, b, ivs, shp, far=None):
    seen = dict.fromkeys(RANGES, 0)
    m = len(RANGES)
    for k in range(16 * m):
        r = RANGES[k % m]
        if seen[r] >= 24:
            continue
        s = Sample(101 + k, k, r)
        if ASSUME and not holds(s):
            continue
        ev = Evaluator(s)
        va = ev.array(ivs, shp, a)
        vb = ev.array(ivs, shp, b)
        if va.size == 0:
            continue
        if far is not None:
            far.met += 1
        seen[r] += va.size
        both = np.isfinite(va) & np.isfinite(vb)
        local = np.maximum(np.abs(va), np.abs(vb))
        with np.errstate(all='ignore'):
            bad = both & (np.abs(va - vb) > 1e-4 * local) & \
                (local > 1e-12 * max(_mag(va), _mag(vb)))
        if bad.any():
            pos = tuple(int(x[0]) for x in np.nonzero(bad)) if va.ndim else ()
            return dict(position=list(pos), got=float(va[pos]),
                        expected=float(vb[pos]),
                        sizes=dict(s.sizes), got_term=tt.show(a),
                        expected_term=tt.show(b))
    return None


def truth(c):
    """Decide a closed condition on sample points: True/False if it has the
    same value for every sample, else None."""
    vals = set()
    for s in samples(3):
        with np.errstate(all='ignore'):
            v = Evaluator(s).ev(c, {})
        vals.add(bool(np.all(v)))
    return vals.pop() if len(vals) == 1 else None


def pin_of(c):
    """(name, value) when an equality holds exactly for one value of one
    number"""
    if c.op != 'eq':
        return None
    r = pin_value(c.a[0], False)
    return None if r is None or r[0] in tt.VARIED else r


def pin_value(d, indexed=True):
    const, lin = tt.linear(d)
    if len(lin) != 1:
        return None
    x, k = next(iter(lin.items()))
    if x.op != 'sym' or x.a[1] and not indexed:
        return None
    v = -const / k
    dom = tt.SYMINFO.get(x.a[0], {}).get('dom', 'real')
    lo, hi = {'real': (None, None), 'int': (None, None), 'count': (0, None),
              'nonneg': (0, None),
              'pos': (1e-9, None), 'plus': (1e-9, None),
              'scale': (1e-9, None),
              'gt1': (1 + 1e-9, None), 'prob': (1e-9, 1 - 1e-9),
              'unit': (-1, 1)}.get(dom, (None, None)) \
        if isinstance(dom, str) else dom[:2]
    if lo is not None and v < lo or hi is not None and v > hi:
        return None
    return x.a[0], v
