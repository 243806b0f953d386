"""Tensor representations over a common universe of axes.

A universe fixes the number of axes of each group and the symbolic length of
every axis; a representation says, per group, whether it is present, which
axes are stored with length one (broadcast) and which derivative axes are
mapped on a value axis."""
import array
import itertools
from . import terms as tt
from . import arr as A
from .core import dense, Bad, check_equal
from .terms import tm


class Universe(object):
    def __init__(self, x, y, n, d):
        # lengths are names of sizes; equal names are equal lengths
        self.g = (tuple(x), tuple(y), tuple(n), tuple(d))

    def __str__(self):
        return 'x=%s y=%s n=%s dim=%s' % tuple(
            ''.join(g) or '-' for g in self.g)

    def sizes(self, k):
        return tuple(tt.size(z) if not z.isdigit() else int(z)
                     for z in self.g[k])


class Rep(object):
    """groups: per group None (absent) or a tuple of 0/1 (1: stored full,
    0: stored with length one); xm, ym: tuples of targets or ()"""

    def __init__(self, U, x=None, y=None, n=None, d=None, xm=(), ym=()):
        self.U = U
        self.p = (x, y, n, d)
        self.xm, self.ym = tuple(xm), tuple(ym)

    def groups(self):
        out = []
        for k, p in enumerate(self.p):
            out.append(() if p is None else tuple(
                s if b else 1 for s, b in zip(self.U.sizes(k), p)))
        return out

    def mapped(self):
        return any(f >= 0 for f in self.xm + self.ym)

    def plain(self):
        """no derivative axes"""
        return self.p[0] is None and self.p[1] is None

    def __str__(self):
        def s(p, m=()):
            if p is None:
                return '-'
            r = ''.join('f' if b else '1' for b in p)
            if m:
                r = ''.join('%s' % (f if f >= 0 else c)
                            for f, c in zip(m, r))
            return r
        return '[%s|%s|%s|%s]' % (s(self.p[0], self.xm), s(
            self.p[1], self.ym), s(self.p[2]), s(self.p[3]))

    def make(self, E, name, **info):
        shp = sum(self.groups(), ())
        a = E.arr(name, shp, **info)
        return build(E, a, self)


def build(E, a, r):
    c = [0 if p is None else len(p) for p in r.p]
    kw = {}
    if r.xm:
        kw['x_map'] = array.array('b', r.xm)
    if r.ym:
        kw['y_map'] = array.array('b', r.ym)
    return E.new('maxlike.tensor.Tensor', a, x_dim=c[0], y_dim=c[1],
                 dim=c[3], **kw)


def reps(U, bcast=True, partial=True, absent=True):
    """all representations over U"""
    x, y, n, d = U.g
    out = []

    def stored(g, lim=None):
        k = len(g)
        if k == 0:
            return [None]
        r = [(1,) * k]
        if bcast:
            r += [t for t in itertools.product((0, 1), repeat=k)
                  if not all(t)]
        if absent:
            r.append(None)
        return r

    def maps(g, np):
        """(stored pattern, map) of a derivative group"""
        k = len(g)
        if k == 0:
            return [(None, ())]
        r = [((1,) * k, ())]
        if bcast:
            r += [(t, ()) for t in itertools.product((0, 1), repeat=k)
                  if not all(t)]
        if absent:
            r.append((None, ()))
        ch = []
        for z in g:
            c = [f for f, w in enumerate(n) if w == z]
            ch.append(c + [-1])
        for m in itertools.product(*ch):
            if all(f < 0 for f in m):
                continue
            if not partial and -1 in m:
                continue
            used = [f for f in m if f >= 0]
            if len(set(used)) < len(used):
                continue
            r.append((tuple(int(f < 0) for f in m), m))
        return r
    for np in stored(n):
        for (xp, xm), (yp, ym) in itertools.product(maps(x, np), maps(y, np)):
            tg = [f for f in xm + ym if f >= 0]
            if tg and (np is None or not all(np[f] for f in tg)):
                continue
            for dp in stored(d):
                out.append(Rep(U, xp, yp, np, dp, xm, ym))
    return out


def joined(U, *ds):
    """expected axis groups of an elementwise operation on dense arrays"""
    groups = []
    for k in range(4):
        g = ()
        for dd in ds:
            h = dd.groups[k]
            if not g:
                g = tuple(h)
            elif h:
                g = tuple(b if isinstance(a, int) and a == 1 else a
                          for a, b in zip(g, h))
        groups.append(g)
    return groups
