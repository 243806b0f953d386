"""Parameter sets with concrete shapes and fixed/free patterns."""
import itertools
from . import terms as tt
from . import arr as A
from .fobl import P
from .terms import tm


class PSet(object):
    """tuple of Param objects with symbolic entries and concrete masks"""

    def __init__(self, E, shapes, masks, names='p', dtypes=None, **info):
        self.E = E
        self.shapes = [tuple(s) for s in shapes]
        self.masks = masks              # None or nested tuple of 0/1
        self.names = ['%s%d' % (names, k) for k in range(len(shapes))]
        self.v = []
        for k, (s, m) in enumerate(zip(self.shapes, masks)):
            dt = (dtypes or {}).get(k, 'f')
            a = E.arr(self.names[k], s, dtype=dt, **info)
            mk = None if m is None else mask_array(s, m)
            self.v.append(E.new('maxlike.maxlike_base.Param', a, mk))
        self.v = tuple(self.v)

    def positions(self, k):
        return list(itertools.product(*[range(n) for n in self.shapes[k]]))

    def free(self, k):
        m = self.masks[k]
        return [p for i, p in enumerate(self.positions(k))
                if m is None or not m[i]]

    def fixed(self, k):
        m = self.masks[k]
        return [p for i, p in enumerate(self.positions(k))
                if m is not None and m[i]]

    def all_free(self):
        return [(k, p) for k in range(len(self.shapes))
                for p in self.free(k)]

    def sym(self, k, pos):
        return tt.sym(self.names[k], tuple(tm(z) for z in pos))

    def __str__(self):
        return ' '.join('%s%s' % ('x'.join(map(str, s)) or 'scalar',
                                  '' if m is None else ':' + ''.join(
                                      map(str, m)))
                        for s, m in zip(self.shapes, self.masks))


def mask_array(shape, bits):
    import numpy as np
    return A.from_np(np.array(bits, dtype=bool).reshape(shape))


def size(s):
    n = 1
    for k in s:
        n *= k
    return n


def mask_sets(tier):
    """(shapes, masks) cases"""
    out = []
    shp = [(3,), (), (2, 2)]
    pats = [
        [None, None, None],
        [(0, 1, 0), None, (0, 0, 1, 0)],
        [(1, 0, 0), (0,), (1, 0, 0, 1)],
        [(0, 0, 1), (1,), (0, 1, 1, 0)],
        [(1, 1, 1), None, (1, 1, 0, 0)],
        [(0, 1, 1), (1,), (1, 1, 1, 1)],
        [(0, 0, 0), (0,), (0, 0, 0, 0)],
        [(1, 0, 1), None, (0, 1, 0, 0)],
    ]
    for p in pats:
        out.append((shp, p))
    for m in itertools.product((0, 1), repeat=4):
        if sum(m) < 4:
            out.append(([(2, 2)], [m]))
    for m in itertools.product((0, 1), repeat=3):
        if sum(m) < 3:
            out.append(([(2,), (1,)], [m[:2], m[2:]]))
    # parameters of more axes, followed by others
    out += [([(2, 2, 2), (3,)], [(0, 1, 0, 0, 1, 0, 0, 1), (1, 0, 0)]),
            ([(2,), (2, 1, 2), (), (2,)], [(0, 1), (1, 0, 0, 0), (1,),
                                           (0, 1)]),
            ([(2, 1, 1, 2), (2, 2, 1), (2,)], [(0, 1, 1, 0), (1, 0, 0, 1),
                                               (1, 0)]),
            ([(9,), (2,)], [(0, 1, 0, 0, 1, 0, 0, 1, 0), (0, 1)]),
            ([(2,), (), (2,), (), (1, 2), (2,)],
             [(0, 1), (0,), (1, 0), (1,), (0, 1), None])]
    if tier != 'quick':
        for m in itertools.product((0, 1), repeat=5):
            if sum(m) < 5:
                out.append(([(), (2,), (1, 2)], [m[:1], m[1:3], m[3:]]))
        for m in itertools.product((0, 1), repeat=6):
            if sum(m) < 6:
                out.append(([(2, 3)], [m]))
    return out
