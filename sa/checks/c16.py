"""C16 parameters and tensors are immutable once built."""
import array
import numpy as np
from .. import terms as tt
from .. import arr as A
from .. import interp as I
from ..core import Bad, AbsRaise, dense
from ..effects import Frame, observe, reach, run_jobs, Raised
from ..fobl import Sym
from ..library import recipes
from ..tensors import Universe, reps
from ..fitpaths import Explorer
from . import c17

LEVEL = 'other'
TECHNIQUE = 'aliasing and effect analysis on an abstract interpretation ' \
    '(every mutation attempt on every object built, frame conditions on ' \
    'the abstract heap)'
EXPLANATION = (
    'Parameters and tensors are built in every way the library builds them '
    '(constructors, tensor operations, model functions, fits); on each '
    'abstract object every attribute write and deletion and every write to '
    'the stored values is interpreted and must raise, writes through what '
    'was handed in or is handed out must leave it unchanged, and no library '
    'operation may change it (frame condition on the abstract heap).')
ASSUMPTIONS = ['mutation through object.__setattr__, ctypes or by making '
               'the arrays writeable again is out of scope']
FLOOR = 100

HARNESS = '''
import numpy as np
def setter(o, name, v):
    setattr(o, name, v)
def plain(o, v):
    o.values = v
def aug(o):
    o.values += 1
def augmul(o):
    o.values *= 2
def new(o):
    o.anything = 1
def delete(o, name):
    delattr(o, name)
def delplain(o):
    del o.values
def item(a):
    a[...] = 7
def where(a):
    a[a > -100] = 7
def inplace(a):
    a += 1
def out(a):
    np.add(a, 1, out=a)
def fill(a):
    a.fill(7)
def view(a):
    a.T[...] = 7
def copyto(a):
    np.copyto(a, 7)
def toggle(a):
    a[...] = ~a
def write(a):
    a[...] = 7
def inc(a):
    a += 1
'''


def fields(o):
    return [k for k in o.d if k != '__dict__' and not k.startswith('_')]


class Mutator(object):
    def __init__(self, E):
        self.E = E
        self.h = E.src(HARNESS).d

    def try_(self, name, *args):
        try:
            self.E.call(self.h[name], *args)
        except AbsRaise:
            return False
        return True

    def frozen(self, o, what, lite=False):
        """every attempt on o raises and leaves it as it was"""
        E = self.E
        fr = Frame(obj=o)
        for k in fields(o):
            v = o.d[k]
            if self.try_('setter', o, k, v):
                raise Bad('%s: attribute %s can be rebound' % (what, k))
            if self.try_('delete', o, k):
                raise Bad('%s: attribute %s can be deleted' % (what, k))
        for nm, args in (('plain', (o, 1)), ('aug', (o,)), ('augmul', (o,)),
                         ('delplain', (o,)), ('new', (o,))):
            if self.try_(nm, *args):
                raise Bad('%s: %s' % (what, {
                    'plain': 'o.values = v is accepted',
                    'aug': 'o.values += v is accepted',
                    'augmul': 'o.values *= v is accepted',
                    'delplain': 'del o.values is accepted',
                    'new': 'a new attribute is accepted'}[nm]))
        for k in ('values', 'mask'):
            if k not in o.d:
                continue
            a = o.d[k]
            if not isinstance(a, A.AArr):
                raise A.Unsupported('%s is not an array' % k)
            if a.writeable:
                raise Bad('%s: the stored %s can be written to' % (what, k))
            if lite:
                continue
            for nm in ('item', 'where', 'inplace', 'out', 'fill', 'view',
                       'copyto'):
                if k == 'mask' and nm not in ('item', 'view'):
                    continue
                if self.try_(nm, a):
                    raise Bad('%s: writing to the stored %s is accepted' %
                              (what, k))
        fr.verify('%s: after the attempts' % what)

    def inputs(self, o, arrays, what):
        """writing into arrays handed in leaves the objects unchanged"""
        fr = Frame(obj=o)
        for a in arrays:
            if isinstance(a, list):
                if a and not isinstance(a[0], (list, A.AArr)):
                    a[0] = 99.0
                else:
                    self.inputs(o, a, what)
                    a.pop()
                continue
            if isinstance(a, A.AArr) and a.writeable:
                self.try_('toggle' if a.dtype == 'b' else 'write', a)
        fr.verify('%s: writing into the array it was built from' % what)

    def outputs(self, o, outs, what):
        """writing into results handed out raises or leaves o unchanged"""
        for nm, th in outs:
            try:
                a = th()
            except AbsRaise:
                continue
            fr = Frame(obj=o)
            for x in ([a.data, a.mask] if type(a).__name__ == 'MaskedArr'
                      else [a]):
                if isinstance(x, A.AArr):
                    self.try_('toggle' if x.dtype == 'b' else 'write', x)
            fr.verify('%s: writing into the result of %s' % (what, nm))


def handed(E, o):
    npm = E.I.np
    outs = []
    for k in ('toarray', 'compressed', 'as_masked', '__array__'):
        if o.cls.lookup(k)[0] is not None:
            outs.append((k, lambda k=k: E.m(o, k)))
    asarray = E.src('import numpy as np\ndef f(o):\n    return np.asarray(o)'
                    '\ndef g(o):\n    return np.asarray(o).T\n').d
    outs.append(('asarray', lambda: E.call(asarray['f'], o)))
    outs.append(('asarray().T', lambda: E.call(asarray['g'], o)))
    return outs


def params(C, E, M):
    def bm(*v):
        return A.from_np(np.array(v))
    P_ = 'maxlike.maxlike_base.Param'
    T_ = 'maxlike.tensor.Tensor'
    cases = [
        ('array', lambda: ([E.arr('v', (2,))], None)),
        ('matrix', lambda: ([E.arr('v', ('a', 'b'))], None)),
        ('0-d array', lambda: ([E.arr('v')], None)),
        ('number', lambda: ([2.5], None)),
        ('whole number', lambda: ([2], None)),
        ('list', lambda: ([[1.0, 2.0]], None)),
        ('nested list', lambda: ([[[1.0, 2.0], [3.0, 4.0]]], None)),
        ('integer array', lambda: ([E.arr('v', (2,), dtype='i')], None)),
        ('array, mask', lambda: ([E.arr('v', (2,))], bm(True, False))),
        ('list, list mask', lambda: ([[1.0, 2.0]], [True, False])),
        ('array, mask=False', lambda: ([E.arr('v', (2,))], False)),
        ('number, mask', lambda: ([2.5], True)),
        ('view', lambda: ([A.view(E.arr('w', (4,)), A.expand_key(
            (slice(1, 3),), 1))], None)),
        ('parameter', lambda: ([E.new(P_, E.arr('v', (2,)))], None)),
        ('tensor', lambda: ([E.new(T_, E.arr('v', (2,)))], None)),
    ]
    for nm, mk in cases:
        def go(mk=mk, nm=nm):
            vals, mask = mk()
            kw = {} if mask is None else {'mask': mask}
            o = E.new(P_, vals[0], **kw)
            M.frozen(o, 'Param')
            M.outputs(o, handed(E, o), 'Param')
            M.inputs(o, vals + ([mask] if isinstance(mask, (A.AArr, list))
                                else []), 'Param')
            fr = Frame(obj=o)
            use = E.src('import numpy as np\ndef f(o):\n    return hash(o), o '
                        '== o, np.exp(o), np.shape(o)\n').d['f']
            run_jobs([('use', lambda: E.call(use, o))])
            run_jobs([(k, lambda k=k: E.m(o, k)) for k in (
                'count', 'compressed', 'as_masked', '__array__')])
            fr.verify('using the parameter')
        C.ob('parameter', 'Param', nm, go)

        def stored(mk=mk):
            vals, mask = mk()
            o = E.new('maxlike.Poisson')
            E.m(o, 'add_param', vals[0], *(() if mask is None else (mask,)))
            ps = E.attr(o, 'params')
            for p in ps:
                M.frozen(p, 'parameter of an estimator')
                M.inputs(p, vals + ([mask] if isinstance(
                    mask, (A.AArr, list)) else []), 'add_param')
                M.outputs(p, [('get_params', lambda: E.m(
                    o, 'get_params')[0])], 'get_params')
        C.ob('parameter', 'MaxLike.add_param', nm, stored)


def tensors(C, E, M):
    T_ = 'maxlike.tensor.Tensor'
    U = Universe('a', 'a', 'a', 'e')
    R = reps(U, bcast=False)
    cases = [
        ('number', lambda: 2.5), ('whole number', lambda: 2),
        ('list', lambda: [1.0, 2.0]),
        ('nested list', lambda: [[1.0, 2.0], [3.0, 4.0]]),
        ('array', lambda: E.arr('v', ('a', 'b'))),
        ('0-d array', lambda: E.arr('v')),
        ('integer array', lambda: E.arr('v', ('a',), dtype='i')),
        ('view', lambda: A.transpose(E.arr('v', ('a', 'b')))),
        ('tensor', lambda: E.new(T_, E.arr('v', ('a',)))),
        ('parameter', lambda: E.new('maxlike.maxlike_base.Param',
                                    E.arr('v', ('a',)))),
    ]
    for nm, mk in cases:
        for kw in ({}, {'dim': 1}, {'x_dim': 1}):
            def go(mk=mk, kw=kw):
                v = mk()
                if kw and (A.is_scalar(v) or isinstance(v, A.AArr) and
                           v.ndim == 0):
                    return
                if kw and isinstance(v, I.PyObj) and 'x_dim' in kw:
                    return
                o = E.new(T_, v, **kw)
                M.frozen(o, 'Tensor')
                M.outputs(o, handed(E, o), 'Tensor')
                M.inputs(o, [v], 'Tensor')
                if isinstance(v, I.PyObj):
                    M.frozen(v, 'the object it was built from')
            C.ob('tensor', 'Tensor', '%s %s' % (nm, kw or ''), go)

    step = 3 if C.tier == 'quick' else 1
    for k, r in enumerate(R[::step]):
        o_ = R[(k * 5 + 3) % len(R)]

        def results(r=r, o_=o_):
            t, u = r.make(E, 'A'), o_.make(E, 'B')
            M.frozen(t, 'Tensor')
            M.outputs(t, handed(E, t), 'Tensor')
            jobs, _ = c17.ops(E, t, u)
            seen = set()
            for nm, th in jobs:
                keep = Frame(left=t, right=u)
                try:
                    x = th()
                except AbsRaise:
                    continue
                keep.verify(nm)
                for y in tensors_of(x):
                    if id(y) in seen:
                        continue
                    seen.add(id(y))
                    M.frozen(y, 'result of %s' % nm, True)
                    M.outputs(y, handed(E, y), 'result of %s' % nm)
                keep.verify('%s: writing to arrays obtained from its result'
                            % nm)
        C.ob('results', 'Tensor operations', '%s with %s' % (r, o_), results)


def tensors_of(x):
    return [y for y in reach([x]) if isinstance(y, I.PyObj) and
            y.cls.name in ('Tensor', 'Param')]


def functions(C, E, S, M):
    R = recipes(E, S, C.tier == 'quick')
    for r in R:
        if r.heavy and C.tier == 'quick':
            continue

        def go(r=r):
            ps = r.ps_of()
            f = r.mk()
            held = [y for y in tensors_of(f)]
            got = observe(E, f, [p.v for p in ps],
                          lite=C.tier == 'quick' and len(ps) > 1)
            got = {k: v for k, v in got.items() if not isinstance(v, Raised)}
            seen = set()
            for nm, x in got.items():
                for y in tensors_of(x):
                    if id(y) not in seen:
                        seen.add(id(y))
                        M.frozen(y, nm, True)
            M.inputs([got, held], [p.a for p in ps],
                     'result of the function')
            # results stay as they are through other evaluations
            fr = Frame(results=got)
            observe(E, f, [E.arr(p.name + 'C', p.shape, **dict(
                tt.SYMINFO.get(p.name, {}))) for p in ps], lite=True)
            fr.verify('results of an earlier evaluation')
        C.ob('function', r.name, 'results', go)


class Watch(Explorer):
    """remembers every parameter object met on a path of fit"""
    frames = ()

    def point(self, params):
        for p in params:
            if isinstance(p, I.PyObj) and id(p) not in self.met:
                self.met[id(p)] = p
                self.frames.append(Frame(parameter=p))
        return Explorer.point(self, params)

    def setup(self, state):
        self.met, self.frames = {}, []
        o = Explorer.setup(self, state)
        self.stored = list(o.d.get('params', ()))
        for p in self.stored:
            self.met[id(p)] = p
            self.frames.append(Frame(stored_parameter=p))
        self.runs.append((self.frames, self.met, o))
        return o


def fits(C, E, M):
    for method in ('newton', 'broyden'):
        for cons in (0, 1):
            def go(method=method, cons=cons):
                X = Watch(E, [(2,), ()], [(0, 1), None], cons, maxdec=200,
                          faults=False)
                X.runs = []
                X.paths(method, 1)
                n = 0
                for frames, met, o in X.runs:
                    for fr in frames:
                        fr.verify('fit')
                    for p in o.d.get('params', ()):
                        M.frozen(p, 'parameter stored by fit', True)
                    for p in met.values():
                        n += 1
                        M.frozen(p, 'parameter handed to the model', True)
                if not n:
                    raise Bad('no parameter met')
            C.ob('fit', 'MaxLike.fit', '%s constraints=%d' % (method, cons),
                 go)

    def data():
        o = E.new('maxlike.Poisson')
        a, b = E.arr('n', (2,)), E.arr('x', (2,))
        E.I.setattr(o, 'model', E.new('maxlike.func.X'))
        E.m(o, 'add_param', E.arr('p', (2,)))
        try:
            E.m(o, 'fit', max_steps=0, N=a, X=b)
        except AbsRaise:
            pass
        for k in ('N', 'X'):
            t = E.attr(o, k)
            for y in tensors_of(t):
                M.frozen(y, 'data of an estimator')
        M.inputs([E.attr(o, 'N'), E.attr(o, 'X')], [a, b], 'data of fit')
    C.ob('fit', 'MaxLike.fit', 'data', data)


def check(C):
    C.rule('parameter', 'parameters reject every change and share no '
           'storage with the caller')
    C.rule('tensor', 'tensors reject every change and share no storage with '
           'the caller')
    C.rule('results', 'results of tensor operations are immutable and do '
           'not expose writeable storage')
    C.rule('function', 'results of model functions are immutable, do not '
           'share storage with the parameters and survive later evaluations')
    C.rule('fit', 'fits leave the parameter objects they meet as they were')
    E = C.engine()
    S = Sym(E)
    M = Mutator(E)
    params(C, E, M)
    tensors(C, E, M)
    functions(C, E, S, M)
    fits(C, E, M)
