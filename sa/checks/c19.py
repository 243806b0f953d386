"""C19 tensor restructuring equals restructuring of the dense arrays."""
import itertools
from .. import terms as tt
from .. import arr as A
from ..core import Bad, AbsRaise, Dense, dense, check_equal, exc_name, \
    exc_text
from ..tensors import Universe, Rep, reps
from .c18 import run, lazies

LEVEL = 'other'
EXPLANATION = (
    'sum, expand, flip, transpose, drop_dim, dot, dot_left and dot_right are '
    'interpreted abstractly on symbolic arrays with axes of symbolic length '
    'in every representation of a universe of axes and on lazily held sums; '
    'the value graph and the axis counts of the result are compared with '
    'the restructured graph of the operand.')
ASSUMPTIONS = ['real arithmetic', 'representations and numbers of axes '
               'enumerated; axis lengths symbolic']
FLOOR = 60


def one(n):
    return isinstance(n, int) and n == 1


def gsum(fn, szs):
    """sum of fn over fresh indices of the given sizes"""
    ivs, idx = [], []
    for s in szs:
        if isinstance(s, int):
            if s != 1:
                raise Bad('unexpected axis of length %d' % s)
            idx.append(0)
        else:
            v = tt.ivar(s)
            ivs.append(v)
            idx.append(v)
    r = fn(tuple(idx))
    for v in ivs:
        r = tt.ssum(v, v.a[1], r)
    return r


def counts(E, got, want):
    c = tuple(E.attr(got, k) for k in ('x_dim', 'y_dim', 'n', 'dim'))
    if c != tuple(want):
        raise Bad('axis counts (x,y,n,dim) %s, expected %s' %
                  (c, tuple(want)))


# ------------------------------------------------------------- expectations
def x_sum(d, sv, sd):
    n = len(d.groups[2])
    gone = list(range(n)) if sv is True else [] if sv is False else \
        [sv] if isinstance(sv, int) else list(sv)
    keep = [k for k in range(n) if k not in gone]
    ds = d.groups[3] if sd else ()
    groups = (d.groups[0], d.groups[1],
              tuple(d.groups[2][k] for k in keep), () if sd else d.groups[3])

    def fn(x, y, nn, dd):
        def body(ix):
            full = [None] * n
            for k, i in zip(keep, nn):
                full[k] = i
            for k, i in zip(gone, ix):
                full[k] = i
            return d.at((x, y, tuple(full), tuple(ix[len(gone):]) if sd
                         else dd))
        return gsum(body, [d.groups[2][k] for k in gone] + list(ds))
    return groups, fn


def x_expand(d, where, new, dim):
    g = 3 if dim else 2
    ax = [1] * new
    for k, w in enumerate(where):
        ax[w] = d.groups[g][k]
    groups = list(d.groups)
    groups[g] = tuple(ax)

    def fn(*idx):
        idx = list(idx)
        idx[g] = tuple(idx[g][w] for w in where)
        return d.at(idx)
    return groups, fn


def x_flip(d, where, dim):
    g = 3 if dim else 2

    def fn(*idx):
        idx = list(idx)
        ii = list(idx[g])
        for k in where:
            s = d.groups[g][k]
            if not one(s):
                ii[k] = tt.add(tt.tm(s), tt.const(-1),
                               tt.neg(tt.tm(ii[k])))
        idx[g] = tuple(ii)
        return d.at(idx)
    return d.groups, fn


def x_transpose(d):
    g = d.groups
    return (g[1], g[0], g[2], g[3]), lambda x, y, n, e: d.at((y, x, n, e))


def x_drop(d):
    g = d.groups
    k = len(g[2])
    return (g[0], g[1], g[2] + g[3], ()), \
        lambda x, y, n, e: d.at((x, y, n[:k], n[k:]))


def x_left(a, b):
    """sum over n of b[x, n, e] a[n, y, m, e]"""
    cs = [q if one(p) else p for p, q in zip(b.groups[2], a.groups[0])]
    eg = tuple(q if one(p) else p for p, q in zip(
        b.groups[3] or (1,) * len(a.groups[3]),
        a.groups[3] or (1,) * len(b.groups[3])))
    return (b.groups[0], a.groups[1], a.groups[2], eg), \
        lambda x, y, m, e: gsum(lambda k: tt.mul(
            b.at((x, (), k, e)), a.at((k, y, m, e))), cs)


def x_right(a, b):
    """sum over n of b[x, y, n, e] a[n, -, m, e]"""
    cs = [q if one(p) else p for p, q in zip(b.groups[2], a.groups[0])]
    eg = tuple(q if one(p) else p for p, q in zip(
        b.groups[3] or (1,) * len(a.groups[3]),
        a.groups[3] or (1,) * len(b.groups[3])))
    return (b.groups[0], b.groups[1], a.groups[2], eg), \
        lambda x, y, m, e: gsum(lambda k: tt.mul(
            b.at((x, y, k, e)), a.at((k, (), m, e))), cs)


def judge(E, got, want, nc=None):
    groups, fn = want
    if nc is None:
        nc = tuple(len(g) for g in groups)
    counts(E, got, nc)
    check_equal(dense(E, got), groups, fn)


# -------------------------------------------------------------------- check
def unary(E, U, n, d):
    """(name, call, expectation, may raise) for tensors with n value axes
    and d outcome axes"""
    out = []
    svs = [True, False] + list(range(n)) + [[k] for k in range(n)]
    for r in range(2, n + 1):
        svs += [list(c) for c in itertools.permutations(range(n), r)]
    svs += [tuple(range(n))] if n else []
    seen = []
    for sv in svs:
        for sd in (True, False):
            if (sv, sd, type(sv)) in seen:
                continue
            seen.append((sv, sd, type(sv)))
            out.append(('sum(%s, %s)' % (sv, sd), lambda t, sv=sv, sd=sd:
                        E.m(t, 'sum', sv, sd),
                        lambda q, sv=sv, sd=sd: x_sum(q, sv, sd), None))
    for new in range(n, n + 2):
        for w in itertools.permutations(range(new), n):
            out.append(('expand(%s, %d)' % (list(w), new),
                        lambda t, w=w, new=new: E.m(t, 'expand', list(w),
                                                    new),
                        lambda q, w=w, new=new: x_expand(q, w, new, False),
                        None))
    for new in range(d, d + 3):
        for w in itertools.permutations(range(new), d):
            out.append(('expand(%s, %d, True)' % (list(w), new),
                        lambda t, w=w, new=new: E.m(t, 'expand', list(w),
                                                    new, True),
                        lambda q, w=w, new=new: x_expand(q, w, new, True),
                        None))
    for dim, m in ((False, n), (True, d)):
        ws = [None, []] + list(range(m)) + [list(range(m))] + \
            [[k] for k in range(m)]
        for w in ws:
            wl = [] if w is None else [w] if isinstance(w, int) else w
            out.append(('flip(%s, %s)' % (w, dim),
                        lambda t, w=w, dim=dim: E.m(t, 'flip', w, dim),
                        lambda q, wl=wl, dim=dim: x_flip(q, wl, dim),
                        (wl, dim)))
    out.append(('transpose()', lambda t: E.m(t, 'transpose'), x_transpose,
                None))
    out.append(('drop_dim()', lambda t: E.m(t, 'drop_dim'), x_drop, None))
    return out


def universes(tier):
    q = [(Universe('a', 'a', 'a', ''), {}),
         (Universe('a', '', 'a', 'e'), {}),
         (Universe('', '', 'ab', 'ef'), {}),
         (Universe('ab', 'ab', 'ab', ''), dict(bcast=False)),
         (Universe('aa', 'a', 'aa', 'e'), dict(bcast=False)),
         (Universe('ab', '', 'acb', ''), dict(bcast=False)),
         (Universe('', '', '', 'efg'), dict(bcast=False)),
         (Universe('a', '', 'a', 'efg'), dict(bcast=False, absent=False))]
    if tier == 'thorough':
        q += [(Universe('a', 'b', 'ab', 'e'), {}),
              (Universe('ab', 'ba', 'acb', ''), dict(bcast=False)),
              (Universe('aa', 'aa', 'aa', ''), dict(bcast=False))]
    return q


def apply(E, mk, call, want, raises, mapped):
    t = mk()
    q = dense(E, t)
    if raises is not None and not raises[1] and set(raises[0]) & mapped:
        # a mapped axis cannot be flipped: refused, never answered wrongly
        try:
            r = call(t)
        except AbsRaise:
            return
        judge(E, r, want(q))
        return
    judge(E, call(t), want(q))


def targets(*rs):
    return {f for r in rs for f in r.xm + r.ym if f >= 0}


def check(C):
    C.specials = False      # has its own cases of special numbers
    C.rule('shape', 'sum, expand, flip, transpose, drop_dim')
    C.rule('lazy', 'the same on lazily held sums')
    C.rule('dot', 'contractions')
    E = C.engine()
    for U, kw in universes(C.tier):
        R = [r for r in reps(U, **kw)]
        groups = {}
        for r in R:
            n = 0 if r.p[2] is None else len(r.p[2])
            d = 0 if r.p[3] is None else len(r.p[3])
            groups.setdefault((n, d), []).append(r)
        for (n, d), rs in groups.items():
            for nm, call, want, raises in unary(E, U, n, d):
                run(C, 'shape', 'Tensor.' + nm.split('(')[0],
                    '%s: %s' % (U, nm),
                    [(str(r), lambda r=r: apply(
                        E, lambda: r.make(E, 'A'), call, want, raises,
                        targets(r))) for r in rs])
        L = lazies(U, R, C.tier)
        step = max(1, len(L) // (12 if C.tier == 'quick' else 60))
        for p, q in L[::step]:
            n = len(U.g[2])
            d = 0 if not (p.p[3] or q.p[3]) else len(U.g[3])
            nm0 = '(%s+%s)' % (p, q)
            by = {}
            for nm, call, want, raises in unary(E, U, n, d):
                by.setdefault(nm.split('(')[0], []).append((
                    nm, lambda call=call, want=want, raises=raises: apply(
                        E, lambda: E.I.binop('Add', p.make(E, 'L'),
                                             q.make(E, 'M')),
                        call, want, raises, targets(p, q))))
            for k, cs in by.items():
                run(C, 'lazy', 'GenericTensor.' + k, '%s: %s.%s' %
                    (U, nm0, k), cs)
    contractions(C, E)


def contractions(C, E):
    # other: X Y N E; self: N Y M E
    other = [Universe('a', 'a', 'a', ''), Universe('a', 'c', 'a', 'e'),
             Universe('ab', 'b', 'ab', ''), Universe('ab', '', 'ab', '')]
    other += [Universe('aa', 'a', 'aa', '')] if C.tier == 'thorough' else []
    for U in other:
        n = U.g[2]
        selfs = [Universe(n, 'm', 'm', ''), Universe(n, '', n, U.g[3]),
                 Universe(n, n, n, '')]
        if C.tier == 'thorough':
            selfs += [Universe(n, 'm', n + ('m',), ''),
                      Universe(n, 'm', 'm' + n[0], 'e')]
        ro = [r for r in reps(U, bcast=False) if r.p[2] is not None]
        for V in selfs:
            rs = [r for r in reps(V, bcast=False) if r.p[0] is not None]
            for r in rs:
                cs = []
                for o in ro:
                    dims = o.p[3] is not None and r.p[3] is not None

                    def mk(r=r, o=o):
                        return r.make(E, 'A'), o.make(E, 'B')

                    def left(meth, r=r, o=o):
                        a, b = r.make(E, 'A'), o.make(E, 'B')
                        judge(E, E.m(a, meth, b),
                              x_left(dense(E, a), dense(E, b)))

                    def right(meth, r=r, o=o):
                        a, b = r.make(E, 'A'), o.make(E, 'B')
                        judge(E, E.m(a, meth, b),
                              x_right(dense(E, a), dense(E, b)))

                    def tleft(r=r, o=o):
                        # a vector in y against a matrix in y
                        a = E.m(r.make(E, 'A'), 'transpose')
                        b = E.m(o.make(E, 'B'), 'transpose')
                        g, f = x_left(x_d(x_transpose(dense(E, a))),
                                      x_d(x_transpose(dense(E, b))))
                        judge(E, E.m(a, 'dot', b),
                              x_transpose(Dense(g, lambda *i: f(*i))))

                    def tright(r=r, o=o):
                        a = E.m(r.make(E, 'A'), 'transpose')
                        b = E.m(o.make(E, 'B'), 'transpose')
                        g, f = x_right(x_d(x_transpose(dense(E, a))),
                                       x_d(x_transpose(dense(E, b))))
                        judge(E, E.m(a, 'dot', b),
                              x_transpose(Dense(g, lambda *i: f(*i))))
                    t = '%s.%%s(%s)' % (r, o)
                    if o.p[1] is None:
                        cs.append((t % 'dot_left', lambda left=left:
                                   left('dot_left')))
                        if o.p[0] is not None or True:
                            cs.append((t % 'dot', lambda left=left:
                                       left('dot')))
                        if o.p[0] is not None:
                            cs.append((t % 'T.dot', tleft))
                    if r.p[1] is None:
                        cs.append((t % 'dot_right', lambda right=right:
                                   right('dot_right')))
                        if o.p[0] is not None and o.p[1] is not None:
                            cs.append((t % 'dot', lambda right=right:
                                       right('dot')))
                            cs.append((t % 'T.dot', tright))
                run(C, 'dot', 'Tensor.dot', '%s: %s, vectors of %s' %
                    (V, r, U), cs)
            # lazily held operands
            lz(C, E, U, V, ro, rs)


def x_d(p):
    return Dense(p[0], lambda *i: p[1](*i))


def lz(C, E, U, V, ro, rs):
    LO, LS = lazies(U, ro, C.tier), lazies(V, rs, C.tier)

    def mk(l, a, b):
        return E.I.binop('Add', l[0].make(E, a), l[1].make(E, b))
    step = 1 + len(LO) // 6
    cs = []
    for k, o in enumerate(LO[::step]):
        noy = all(z.p[1] is None for z in o)
        nox = all(z.p[0] is None for z in o)
        for s in rs[k % 3::3]:
            for meth, ok, ex in (
                    ('dot_left', noy, x_left),
                    ('dot_right', s.p[1] is None, x_right)):
                if not ok:
                    continue

                def one_(meth=meth, ex=ex, s=s, o=o):
                    a, b = s.make(E, 'A'), mk(o, 'B', 'B2')
                    judge(E, E.m(a, meth, b), ex(dense(E, a), dense(E, b)))
                cs.append(('%s.%s(%s+%s)' % ((s, meth) + o), one_))
    if cs:
        run(C, 'dot', 'Tensor.dot', '%s . lazy sums of %s' % (V, U), cs)
    cs = []
    step = 1 + len(LS) // 6
    for k, s in enumerate(LS[::step]):
        noy = all(z.p[1] is None for z in s)
        for o in ro[k % 3::3]:
            for meth, ok, ex in (
                    ('dot_left', o.p[1] is None, x_left),
                    ('dot_right', noy, x_right)):
                if not ok:
                    continue

                def one_(meth=meth, ex=ex, s=s, o=o):
                    a, b = mk(s, 'A', 'A2'), o.make(E, 'B')
                    judge(E, E.m(a, meth, b), ex(dense(E, a), dense(E, b)))
                cs.append(('(%s+%s).%s(%s)' % (s + (meth, o)), one_))
    if cs:
        run(C, 'dot', 'GenericTensor.dot', '%s lazily . %s' % (V, U), cs)
