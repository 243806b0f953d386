"""C13 fixed entries never move, free entries keep their place."""
from .. import terms as tt
from .. import arr as A
from .. import valnum
from ..core import Bad, as_arr, fld
from ..masked import PSet, mask_sets
from ..arr import AbsRaise
from ..core import exc_name
from ..terms import tm

LEVEL = 'other'
EXPLANATION = (
    'Flattening and rebuilding of parameters is interpreted abstractly for '
    'enumerated shapes and fixed/free patterns with symbolic entries; every '
    'entry of the flat vector, of the rebuilt parameters and of the blocks '
    'of a rebuilt matrix is traced to the entry it must come from.')
ASSUMPTIONS = ['parameter shapes and fixed/free patterns enumerated; entries '
               'symbolic', 'flat vectors hold floating point numbers']
FLOOR = 100

SRC = '''
from maxlike.maxlike_base import MaxLike


class Est(MaxLike):
    def __init__(self):
        MaxLike.__init__(self)
    def like(self, params, y):
        return 0
    def grad_like(self, params, y, der):
        return []
    def hess_like(self, params, y, der, hess):
        return []
'''


def same(got, exp, what):
    w = valnum.compare(tt.numify(got), tt.numify(exp))
    if w:
        raise Bad('%s: got %.12g (%s), expected %.12g (%s)' % (
            what, w['got'], w['got_term'][:120], w['expected'],
            w['expected_term'][:120]))


def shaped(a, shape, what):
    a = as_arr(a)
    if a.shape != tuple(shape):
        raise Bad('%s has shape %s, expected %s' % (what, a.shape,
                                                    tuple(shape)))
    return a.reader()


def isnan(got, what):
    if got.op != 'nan':
        raise Bad('%s: expected nan, got %s' % (what, got))


def truth(t):
    v = A.unwrap(t, 'b')
    if not isinstance(v, bool):
        raise Bad('a mask entry is %s' % t)
    return v


def bits(ps, k):
    m = ps.masks[k]
    return [0] * len(ps.positions(k)) if m is None else list(m)


def param_ok(E, p, ps, k, value, what):
    """p is a Param with pattern k of ps and the given entries"""
    shp = ps.shapes[k]
    if tuple(fld(E, p, 'shape')) != shp:
        raise Bad('%s: shape %s, expected %s' % (what, fld(E, p, 'shape'),
                                                shp))
    rd = shaped(fld(E, p, 'values'), shp, what + ' values')
    mk = shaped(fld(E, p, 'mask'), shp, what + ' mask')
    for b, pos in zip(bits(ps, k), ps.positions(k)):
        e = value(pos, b)
        if e is None:
            isnan(rd(pos), '%s at %s' % (what, pos))
        else:
            same(rd(pos), e, '%s at %s' % (what, pos))
        m = mk(pos)
        if truth(m) != bool(b):
            raise Bad('%s: the fixed/free pattern changed at %s' % (
                what, pos))


def check(C):
    C.rule('flatten', 'compressed() lists the free entries in order and '
           'count() counts them')
    C.rule('add', 'add_param appends the parameter with its values and '
           'pattern; get_params shows them as masked arrays')
    C.rule('rebuild', '_reshape_params puts free entries back in place and '
           'keeps the fixed ones')
    C.rule('fill', '_reshape_array fills the fixed entries with the given '
           'value')
    C.rule('matrix', '_reshape_matrix splits a matrix over the free entries '
           'into blocks per parameter pair')
    C.rule('reject', 'a matrix that is not square is rejected')
    E = C.engine()
    mod = E.src(SRC)
    for q, (shapes, masks) in enumerate(mask_sets(C.tier)):
        instance(C, E, mod, shapes, masks, None)
    instance(C, E, mod, [(3,), ()], [(0, 1, 0), None], {0: 'i', 1: 'i'})
    lists(C, E, mod)
    reject(C, E, mod)


def instance(C, E, mod, shapes, masks, dtypes):
    ps = PSet(E, shapes, masks, dtypes=dtypes)
    case = '%s%s' % (ps, ' whole numbers' if dtypes else '')
    fr = ps.all_free()
    nf = len(fr)
    place = {kp: i for i, kp in enumerate(fr)}

    def flatten():
        for k, p in enumerate(ps.v):
            f = ps.free(k)
            rd = shaped(E.m(p, 'compressed'), (len(f),), 'compressed()')
            for i, pos in enumerate(f):
                same(rd((i,)), ps.sym(k, pos), 'compressed()[%d]' % i)
            same(as_arr(E.m(p, 'count')).elem(()), tt.const(len(f)),
                 'count()')

    def est():
        o = E.call(mod.d['Est'])
        for k in range(len(shapes)):
            m = fld(E, ps.v[k], 'mask')
            vals = E.arr(ps.names[k], ps.shapes[k],
                         dtype=(dtypes or {}).get(k, 'f'))
            if ps.masks[k] is None:
                E.m(o, 'add_param', vals)
            else:
                E.m(o, 'add_param', vals, m)
        return o

    def add():
        o = est()
        params = fld(E, o, 'params')
        if len(params) != len(shapes):
            raise Bad('%d parameters stored, %d added' % (len(params),
                                                         len(shapes)))
        for k, p in enumerate(params):
            param_ok(E, p, ps, k, lambda pos, b: ps.sym(k, pos),
                     'parameter %d' % k)
        got = E.m(o, 'get_params')
        if len(got) != len(shapes):
            raise Bad('get_params returns %d arrays' % len(got))
        for k, g in enumerate(got):
            rd = shaped(g.data, ps.shapes[k], 'get_params()[%d]' % k)
            mk = shaped(g.mask, ps.shapes[k], 'its mask')
            for b, pos in zip(bits(ps, k), ps.positions(k)):
                same(rd(pos), ps.sym(k, pos), 'get_params at %s' % (pos,))
                if truth(mk(pos)) != bool(b):
                    raise Bad('get_params: wrong mask at %s' % (pos,))

    def rebuild():
        o = est()
        flat = E.arr('x', (nf,))
        got = E.m(o, '_reshape_params', flat)
        if len(got) != len(shapes):
            raise Bad('%d parameters rebuilt' % len(got))
        for k, p in enumerate(got):
            param_ok(E, p, ps, k, lambda pos, b: ps.sym(k, pos) if b else
                     tt.sym('x', (tm(place[k, pos]),)), 'parameter %d' % k)
        # the stored parameters stay as they are
        for k, p in enumerate(fld(E, o, 'params')):
            param_ok(E, p, ps, k, lambda pos, b: ps.sym(k, pos),
                     'stored parameter %d' % k)

    def fill():
        o = est()
        flat = E.arr('x', (nf,))
        fixed = [(k, pos) for k in range(len(shapes)) for pos in ps.fixed(k)]
        vec = E.arr('v', (len(fixed),))
        for val, exp in (((), None), ((0,), lambda i: tt.ZERO),
                         ((2.5,), lambda i: tt.const(2.5)),
                         ((vec,), lambda i: tt.sym('v', (tm(i),)))):
            got = E.m(o, '_reshape_array', flat, *val)
            if len(got) != len(shapes):
                raise Bad('%d parameters rebuilt' % len(got))
            for k, p in enumerate(got):
                param_ok(E, p, ps, k, lambda pos, b: tt.sym(
                    'x', (tm(place[k, pos]),)) if not b else
                    (exp and exp(fixed.index((k, pos)))), 'parameter %d' % k)

    def matrix():
        o = est()
        M = E.arr('M', (nf, nf))
        for val, exp in (((0,), tt.ZERO), ((), None)):
            got = E.m(o, '_reshape_matrix', M, *val)
            if len(got) != len(shapes) or any(len(r) != len(shapes)
                                              for r in got):
                raise Bad('blocks per parameter pair expected')
            for i, r in enumerate(got):
                for j, b in enumerate(r):
                    rd = shaped(b, ps.shapes[i] + ps.shapes[j],
                                'block (%d,%d)' % (i, j))
                    for p in ps.positions(i):
                        for q in ps.positions(j):
                            g = rd(p + q)
                            a, c = place.get((i, p)), place.get((j, q))
                            w = 'block (%d,%d) at %s%s' % (i, j, p, q)
                            if a is not None and c is not None:
                                same(g, tt.sym('M', (tm(a), tm(c))), w)
                            elif exp is None:
                                isnan(g, w)
                            else:
                                same(g, exp, w)

    def matrix_fill():
        """one filler per fixed entry: rows and columns of a fixed entry
        hold its filler"""
        o = est()
        M = E.arr('M', (nf, nf))
        fixed = [(k, pos) for k in range(len(shapes)) for pos in ps.fixed(k)]
        got = E.m(o, '_reshape_matrix', M, E.arr('v', (len(fixed),)))

        def filler(k, pos):
            return tt.sym('v', (tm(fixed.index((k, pos))),))
        for i in range(len(shapes)):
            for j in range(len(shapes)):
                rd = shaped(got[i][j], ps.shapes[i] + ps.shapes[j],
                            'block (%d,%d)' % (i, j))
                for p in ps.positions(i):
                    for q in ps.positions(j):
                        g = rd(p + q)
                        a, c = place.get((i, p)), place.get((j, q))
                        w = 'block (%d,%d) at %s%s' % (i, j, p, q)
                        if a is not None and c is not None:
                            same(g, tt.sym('M', (tm(a), tm(c))), w)
                        elif c is not None:
                            same(g, filler(i, p), w)
                        elif a is not None:
                            same(g, filler(j, q), w)
    C.ob('matrix', '_reshape_matrix(fillers)', case, matrix_fill)
    C.ob('flatten', 'Param.compressed', case, flatten)
    C.ob('add', 'add_param', case, add)
    C.ob('rebuild', '_reshape_params', case, rebuild)
    C.ob('fill', '_reshape_array', case, fill)
    C.ob('matrix', '_reshape_matrix', case, matrix)


def lists(C, E, mod):
    """initial guesses given as lists"""
    def free():
        o = E.call(mod.d['Est'])
        E.m(o, 'add_param', [0.5, 1.5])
        E.m(o, 'add_param', 2.0)
        ps = fld(E, o, 'params')
        if len(ps) != 2:
            raise Bad('%d parameters stored' % len(ps))
        rd = shaped(E.m(ps[0], 'compressed'), (2,), 'compressed()')
        same(rd((0,)), tt.const(0.5), 'entry 0')
        same(rd((1,)), tt.const(1.5), 'entry 1')
        same(shaped(E.m(ps[1], 'compressed'), (1,), 'compressed()')((0,)),
             tt.const(2), 'scalar')

    def fixed():
        o = E.call(mod.d['Est'])
        E.m(o, 'add_param', [7.0])
        import numpy as np
        E.m(o, 'add_param', [0.5, 1.5], A.from_np(np.array([True, False])))
        ps = fld(E, o, 'params')
        if len(ps) != 2:
            raise Bad('%d parameters stored' % len(ps))
        rd = shaped(E.m(ps[1], 'compressed'), (1,), 'compressed()')
        same(rd((0,)), tt.const(1.5), 'free entry')
    C.ob('add', 'add_param', 'values given as lists', free)
    C.ob('add', 'add_param', 'values given as a list, some fixed', fixed)


def reject(C, E, mod):
    for shp in ((2, 3), (3, 2), (2,), (2, 2, 2)):
        def go():
            o = E.call(mod.d['Est'])
            E.m(o, 'add_param', E.arr('p', (2,)))
            try:
                E.m(o, '_reshape_matrix', E.arr('M', shp))
            except AbsRaise as e:
                if exc_name(e) != 'ValueError':
                    raise
                return
            raise Bad('a matrix of shape %s is accepted' % (shp,))
        C.ob('reject', '_reshape_matrix', 'x'.join(map(str, shp)), go)
