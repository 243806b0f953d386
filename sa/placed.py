"""Sums, products and placements of uninterpreted component functions."""
from . import terms as tt
from . import arr as A
from .fobl import P, Sym, func_obligations
from .core import dense
from .terms import tm


class Term(object):
    """one component: kind, parameters it reads, axes it is placed on"""

    def __init__(self, kind, params, feat, dims=(), w=None, flip=None):
        self.kind, self.params = kind, list(params)
        self.feat, self.dims = list(feat), list(dims)
        self.w, self.flip = w, flip

    def __str__(self):
        return '%s%s@%s%s%s' % (self.kind[0], self.params, self.feat,
                                self.dims or '', '~%s' % self.flip
                                if self.flip else '')


class Config(object):

    def __init__(self, n_feat, n_dim, shapes, terms):
        self.n_feat, self.n_dim = n_feat, n_dim
        self.shapes = shapes              # parameter shapes: lists of names
        self.terms = terms

    def __str__(self):
        return 'feat=%d,dim=%d,params=%s,%s' % (
            self.n_feat, self.n_dim, '/'.join(
                ''.join(s) or '-' for s in self.shapes),
            '+'.join(str(t) for t in self.terms))


def F(k):
    return tt.size('F%d' % k)


def D(k):
    return tt.size('D%d' % k)


class Built(object):
    """components of a configuration and the value it denotes"""

    def __init__(self, E, S, cfg, kind='array'):
        self.E, self.cfg = E, cfg
        self.ps = [P(E, 'p%d' % k, s, kind) for k, s in enumerate(cfg.shapes)]
        self.foos, self.specs, self.ids = [], [], []
        for t in cfg.terms:
            n = [F(f) for f in t.feat]
            d = [D(e) for e in t.dims]
            f, s = S.make('f', t.kind, n, d)
            self.foos.append(f)
            self.specs.append(s)
            self.ids.append(s.arg_id([self.ps[k].v for k in t.params]))

    def term(self, k, nn, dd):
        t = self.cfg.terms[k]
        nn = [tm(z) for z in nn]
        for f in t.flip or ():
            nn[f] = tt.add(tm(F(f)), tt.neg(nn[f]), tt.neg(tt.ONE))
        return self.specs[k].v(self.ids[k], [nn[f] for f in t.feat] +
                               [dd[e] for e in t.dims])

    @property
    def n(self):
        return tuple(F(k) for k in range(self.cfg.n_feat))

    @property
    def d(self):
        return tuple(D(k) for k in range(self.cfg.n_dim))


def configs(tier, product=False):
    T_ = Term
    out = [
        Config(1, 0, [['F0']], [T_('elem', [0], [0])]),
        Config(2, 0, [['F0'], ['F1']], [T_('elem', [0], [0]),
                                        T_('elem', [1], [1])]),
        Config(2, 0, [['F0'], ['F1'], []], [
            T_('elem', [0], [0]), T_('elem', [1], [1]),
            T_('dense', [2], [])]),
        Config(2, 0, [['F0'], ['F1']], [T_('elem', [0], [0]),
                                        T_('elem', [0], [0]),
                                        T_('elem', [1], [1])]),
        # same parameter on two feature axes (both axes same length)
        Config(2, 0, [['u'], ['v']], [T_('dense', [0], [0]),
                                      T_('dense', [1], [1])]),
        Config(2, 0, [['F1', 'F0']], [T_('elem', [0], [1, 0])]),
        Config(3, 0, [['F2', 'F0'], ['F1']], [T_('elem', [0], [2, 0]),
                                              T_('elem', [1], [1])]),
        # two parameters read in the reverse order
        Config(1, 0, [['u'], ['v']], [T_('dense', [1, 0], [0])]),
        Config(2, 0, [['u'], [], ['v']], [T_('dense', [2, 0], [1]),
                                          T_('dense', [1], [0])]),
        Config(1, 0, [['F0'], ['F0']], [T_('elem', [1, 0], [0])]),
        Config(2, 1, [['F0'], ['u']], [T_('elem', [0], [0], [0]),
                                       T_('dense', [1], [1], [0])]),
        Config(2, 2, [['F0'], ['F1']], [T_('elem', [0], [0], [0]),
                                        T_('elem', [1], [1], [1])]),
        Config(2, 2, [['u'], ['v']], [T_('dense', [0], [1, 0], [1]),
                                      T_('dense', [1, 0], [0, 1], [0])]),
        Config(1, 2, [['F0']], [T_('elem', [0], [0], [1, 0])]),
        Config(2, 2, [['u'], ['v']], [T_('dense', [0], [0], [1, 0]),
                                      T_('dense', [1], [1], [])]),
    ]
    if tier != 'quick':
        out += [
            Config(3, 0, [['F1', 'F2'], ['F0'], []], [
                T_('elem', [0], [1, 2]), T_('elem', [1], [0]),
                T_('dense', [2, 1], [0, 2])]),
            Config(3, 1, [['F0', 'F2'], ['F1'], ['u']], [
                T_('elem', [0], [0, 2], [0]), T_('elem', [1], [1], []),
                T_('dense', [2, 1], [2], [0])]),
            Config(3, 0, [['F2', 'F1', 'F0']], [T_('elem', [0], [2, 1, 0])]),
            Config(2, 2, [['F0'], ['F1'], ['u', 'v']], [
                T_('elem', [0], [0], [0]), T_('elem', [1], [1], [1]),
                T_('dense', [2], [1, 0], [1, 0])]),
            Config(2, 0, [['u'], ['v'], ['w']], [
                T_('dense', [2, 0, 1], [1, 0]),
                T_('dense', [1, 2], [0])]),
        ]
    return out
