B = 'maxlike_base.py'
PRE = '''
import numpy as np
from maxlike.tensor import Tensor
from maxlike.func import *
from maxlike.func.func_base import *
from maxlike.func.func import *
from maxlike.func.func_op import *
from maxlike.func.func_proba import *
from maxlike.func.matrix import *
from maxlike.func.sigmoid import Sigmoid
import maxlike.func.func as ff, maxlike.func.func_base as fb
import maxlike, maxlike.maxlike_base as mb


def close(a, b, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    assert a.shape == b.shape, (what, a.shape, b.shape)
    assert np.allclose(a, b, rtol=1e-5, atol=1e-6), (what, a, b)


def numgrad(f, x, h=1e-5):
    x = np.asarray(x, float)
    res = []
    for k in range(x.size):
        e = np.zeros(x.size)
        e[k] = h
        e = e.reshape(x.shape)
        res.append((np.asarray(f(x + e), float) - np.asarray(f(x - e), float)) / 2 / h)
    return np.array(res).reshape(x.shape + np.shape(res[0]))

'''
SEEDS = []


def seed(id, property, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks,
                      edits=edits, demo=PRE + demo.lstrip('\n')))


seed('c01-quadratic-scale', 'C01', 'a Quadratic function with a scale other than 1',
     'the Hessian of Quadratic divides by the scale only once',
     [('func/func.py', '2 * np.ones_like(params[i]) / self.s / self.s,',
       '2 * np.ones_like(params[i]) / self.s,')], '''
q = ff.Quadratic(0.5, 2.0)
x = np.array([0.3, -1.2, 0.7])
num = numgrad(lambda v: q.grad([v], 0).toarray(), x)
close(q.hess([x], 0, 0).toarray(), num, 'hess')
''')

seed('c02-lognb-gammaln', 'C02', 'a dispersion other than 1 or 2',
     'LogNegativeBinomial loses -gammaln(r) in the value returned alongside the derivatives',
     [('func/func_proba.py', '''        vec = x * np.log(m)
        vec += gammaln(self.r + x)
        vec -= gammaln(self.r)
        vec += self.r * np.log(self.r)
        vec -= np.log(factorial(x))
        vec -= (x + self.r) * np.log(self.r + m)
        val = Tensor(vec, dim=1)
''', '''        vec = x * np.log(m)
        vec += gammaln(self.r + x)
        vec += self.r * np.log(self.r)
        vec -= np.log(factorial(x))
        vec -= (x + self.r) * np.log(self.r + m)
        val = Tensor(vec, dim=1)
''')], '''
f = LogNegativeBinomial(size=5, r=3.5)
close(f.eval([np.array([1.2])])[0].values, f([np.array([1.2])]).values, 'value')
''')

seed('c04-skew-h11', 'C04', 'a skew table that is not constant, and the second derivative in the first rate',
     'MarkovMatrix subtracts the other player\'s skew in the second derivative',
     [('func/matrix.py', 'H11[..., x, y]  -= 2 * f1 * dm1 + (s1 * f1 + s2 * f2) * hm11',
       'H11[..., x, y]  -= 2 * f2 * dm1 + (s1 * f1 + s2 * f2) * hm11')], '''
skew = 1 + 0.1 * np.arange(9).reshape(3, 3)
m = MarkovMatrix(3, 4, skew)
num = numgrad(lambda v: m.grad([v, np.array(0.6)], 0).values, np.array(0.8))
close(m.hess([np.array(0.8), np.array(0.6)], 0, 0).values, num, 'h11')
''')

seed('c05-offset', 'C05', 'a condition with a constant term other than zero',
     'CollapseMatrix adds the constant after the sign instead of before (value and gradient)',
     [('func/matrix.py', '''            filt = np.sign(x * rng_x[:, None] +
                           y * rng_y[None, :] + c) == s
            val.append((arr * filt).sum((-1, -2)))''', '''            filt = np.sign(x * rng_x[:, None] +
                           y * rng_y[None, :]) + c == s
            val.append((arr * filt).sum((-1, -2)))'''),
      ('func/matrix.py', '''            filt = np.sign(x * rng_x[:, None] +
                           y * rng_y[None, :] + c) == s
            val.append(ones * filt)''', '''            filt = np.sign(x * rng_x[:, None] +
                           y * rng_y[None, :]) + c == s
            val.append(ones * filt)''')], '''
a = np.arange(12.).reshape(3, 4)
i, j = np.indices(a.shape)
c = [(1, 1, -3, 1), (1, -1, -1, 0), (2, 0, 1, 1)]
want = [a[np.sign(p * i + q * j + r) == s].sum() for p, q, r, s in c]
close(CollapseMatrix(c)(a).values, want, 'sums')
''')

seed('c08-hess-row', 'C08', 'a component that reads three parameters, placed with its parameters in another order',
     'the null-Hessian shortcut of a placed function reports the gradient of the wrong parameter',
     [('func/func_op.py', 'grad.append(obj._expand(foo_grad[obj.param_map.index(i)]))',
       'grad.append(obj._expand(foo_grad[sorted(obj.param_map).index(i)]))')], '''
f = Sum(0).add(ff.Linear([2.0, 5.0]), [1, 0], [])
p = (np.array(0.3), np.array(0.4))
val, grad, hess = f.eval(p)
close(grad[0].toarray(), 5.0, 'grad 0')
close(grad[1].toarray(), 2.0, 'grad 1')
''')

seed('c12-two-constraints', 'C12', 'two or more constraints',
     'every constraint writes its value to the slot of the last constraint',
     [(B, '                grad[n + k] = [g(args)]', '                grad[n + len(self.constraint) - 1 - k] = [g(args)]')], '''
m = maxlike.Poisson()
m.model = ff.X()
m.N, m.X = Tensor(np.ones(2)), Tensor(np.array([1., 3.]))
m.add_param(np.array([0.2, 0.7]))
m.add_constraint(0, ff.Linear([1.]))
m.add_constraint(0, ff.Linear([5.]))
y, d, h = m.model.eval(m.params)
g = m.flat_grad(m.params, y, d)
close(g[-2:], [0.9, 4.5], 'constraint values')
''')

seed('c07-rsub', 'C07', 'a number minus a function which itself has a scale',
     'nesting shifted functions rescales the inner offset when the outer one only shifts',
     [('func/func_base.py', 'self.b = a * base.b + b', 'self.b = abs(a) * base.b + b')], '''
f = 5.0 - (ff.X() + 2.0)
close(f([np.array([1., 2.])]).values, [2., 1.], 'value')
''')

seed('c09-outer-cross', 'C09', 'two inner functions reading the same parameter, and an outer function with a cross derivative that is not symmetric in its axes',
     'the separate Hessian call of a composition does not transpose the upper half of the outer Hessian',
     [('func/func_base.py', 'f_hess = self.f.hess(g_val, l, k).transpose()', 'f_hess = self.f.hess(g_val, l, k)')], '''
outer = Product(2).add(ff.X(), 0, 0).add(ff.X(), 1, 1)
f = Compose(outer, [Sum(1).add(ff.X(), 0, 0), Sum(1).add(ff.Exp(), 0, 0)])
p = np.array([0.3, 0.8])
num = numgrad(lambda v: f.grad((v,), 0).toarray(), p)
close(f.hess((p,), 0, 0).toarray(), num, 'hessian')
''')

seed('c13-fixed-order', 'C13', 'a two-dimensional parameter with several fixed entries at places that differ in row and column order',
     'rebuilding a parameter puts the fixed entries at transposed places',
     [(B, '''                data = np.insert(
                    flat_array[s_0:s_1],
                    fix_map(p.mask.flatten()),
                    val[f_0:f_1]).reshape(p.shape)''', '''                data = np.insert(
                    flat_array[s_0:s_1],
                    fix_map(p.mask.flatten('F')),
                    val[f_0:f_1]).reshape(p.shape)''')], '''
m = maxlike.Poisson()
m.add_param(np.array([[1., 2., 3.], [4., 5., 6.]]),
            np.array([[False, True, False], [False, False, True]]))
r = m._reshape_params(m.params[0].compressed())
close(r[0].values, m.params[0].values, 'rebuilt')
''')

seed('c14-stale-params', 'C14', 'convergence right after a Newton step that had to be halved',
     'the fit stores the parameters of the full step instead of the accepted ones',
     [(B, '''                    params = self._reshape_params(new_flat_params)
                    g = self.g(params, self.model(params))
                    if g >= prev_g:
''', '''                    params = self._reshape_params(new_flat_params)
                    if mult == 1:
                        full = params
                    g = self.g(params, self.model(params))
                    if g >= prev_g:
'''),
      (B, '''                    self.params = params
                    self.flat_hess_ = hess
''', '''                    self.params = full
                    self.flat_hess_ = hess
''')], '''
m = maxlike.Poisson()
m.model = ff.Exp()
m.add_param(np.array([-0.75]))
pts = []
orig = m._reshape_params
def rec(x):
    pts.append(np.array(x))
    return orig(x)
m._reshape_params = rec
assert m.fit(N=np.array([1.]), X=np.array([2.]), tol=1.0)
assert len(pts) > 1, 'the step was not halved'
close(m.params[0].values, pts[-1], 'stored')
''')

seed('c15-inner-compare', 'C15', 'a step which first lowers the objective by a lot and then, halved, by less',
     'each halved step is compared with the previous trial instead of the current point',
     [(B, '''                    else:
                        mult *= .5
                        if verbose > 1:''', '''                    else:
                        mult *= .5
                        prev_g = g
                        if verbose > 1:''')], '''
class M(maxlike.Poisson):
    """records the objective at every accepted point"""
    def newton_step(self, params):
        r = super(M, self).newton_step(params)
        self.at.append(r[1])
        return r
m = M()
m.at = []
m.model = ff.Exp()
m.add_param(np.array([-1.0]))
try:
    m.fit(N=np.array([1.]), X=np.array([2.]), max_steps=6)
except (mb.ConvergenceError, np.linalg.LinAlgError):
    pass
assert all(b >= a - 1e-12 for a, b in zip(m.at, m.at[1:])), m.at
''')

seed('c27-halving', 'C27', 'a Newton step that has to be shortened at least three times',
     'after the first halving the step is quartered',
     [(B, '                        mult *= .5\n', '                        mult *= .5 if mult == 1 else .25\n')], '''
m = maxlike.Poisson()
m.model = ff.Exp()
x0 = -1.0
m.add_param(np.array([x0]))
pts = []
orig = m._reshape_params
def rec(x):
    pts.append(float(x[0]))
    return orig(x)
m._reshape_params = rec
try:
    m.fit(N=np.array([1.]), X=np.array([2.]), max_steps=1)
except mb.ConvergenceError:
    pass
assert len(pts) == 5
close(np.array(pts) - x0, (pts[0] - x0) * .5 ** np.arange(5), 'trial points')
''')

T = 'tensor/tensor.py'
O = 'func/func_op.py'
FB = 'func/func_base.py'
SK = 'skellam.py'
K = 'func/copula.py'
PP = 'preprocessing.py'

seed('c03-clamp', 'C03', 'a probability of winning a game above 0.99',
     'the winning probability of a set is computed for a game probability of at most 0.99',
     [('func/tennis.py', 'p = np.minimum(p, 1 - 1e-10)', 'p = np.minimum(p, 1 - 1e-2)')], """
from maxlike.func.tennis import Set
p, t = np.array([0.995]), np.array([0.6])
q = 1 - p
want = np.stack([p**6, 6*p**6*q, 21*p**6*q**2, 56*p**6*q**3, 126*p**6*q**4,
                 252*p**7*q**5, 504*p**6*q**6*t]).swapaxes(0, -1)
got = Set()([p, t]).values
assert np.allclose(got, want, rtol=1e-6, atol=0), (got, want)
""")

seed('c06-collapse-dim', 'C06', 'Collapse with sum_dim=False around a vector-valued function',
     'the gradient eval() returns is summed over the outcomes although sum_dim is False',
     [(O, '[d.sum(self.sum_val, self.sum_dim) for d in grad]',
       '[d.sum(self.sum_val) for d in grad]')], """
f = Collapse(Poisson(4), sum_val=True, sum_dim=False)
x = np.array([0.3, 1.2, 0.7])
one = f.eval([x])[1][0].toarray()
close(one, f.grad([x], 0).toarray(), 'gradient of eval')
""")

seed('c10-reg-order', 'C10', 'a regularization over parameters listed out of order',
     'the penalty is evaluated with its parameters in increasing order',
     [(B, '            g -= h([params[k] for k in param_map])',
       '            g -= h([params[k] for k in sorted(param_map)])')], """
m = maxlike.Poisson()
m.model = Sum(1)
m.model.add(X(), 0, 0)
m.model.add(Scalar(), 1, [])
m.N, m.X = Tensor(np.array([1., 2.])), Tensor(np.array([3., 1.]))
a, b = np.array([0.3, -0.4]), np.array(0.2)
m.add_param(a)
m.add_param(b)
base = m.g(m.params)
h = Sum(0)
h.add(Collapse(Quadratic(0, 1)), 0, [])
h.add(Quadratic(0, 1), 1, [], weight=5.0)
m.add_regularization([1, 0], h)
want = base - float(h([b, a])) / 3
assert abs(m.g(m.params) - want) < 1e-9, (m.g(m.params), want)
""")

seed('c11-negbin-scale', 'C11', 'a negative binomial scale other than 1 with cells of more than one observation',
     'the curvature of the negative binomial likelihood takes the scale once instead of once per observation',
     [('maxlike.py', 'delta2 = (self.X + r * self.N) * s * s', 'delta2 = (self.X * s + r * self.N * s) * (s if np.ndim(r) else m / (m + max(r, 1)))')], """
m = maxlike.NegativeBinomial(0.5)
m.model = X()
m.N, m.X = Tensor(np.array([5.])), Tensor(np.array([4.]))
def grad(v):
    p = (v, )
    y, der, hess = m.model.eval(p)
    return m.grad_like(p, y, der)[0].toarray()
x = np.array([0.4])
y, der, hess = m.model.eval((x, ))
close(m.hess_like((x, ), y, der, hess)[0][0].toarray().ravel(), numgrad(grad, x).ravel(), 'hess')
""")

seed('c16-del', 'C16', 'deleting an attribute of a parameter',
     'the values of a parameter can be deleted',
     [(B, """    def __setattr__(self, *ignored):
        raise NotImplementedError

    def __delattr__(self, *ignored):
        raise NotImplementedError
""", """    def __setattr__(self, *ignored):
        raise NotImplementedError
""")], """
p = mb.Param(np.array([1., 2.]))
try:
    del p.values
except Exception:
    pass
assert list(p.values) == [1., 2.]
""")

seed('c16-writeable-view', 'C16', 'get_params() followed by an assignment to the values of the parameter',
     'asking for the masked parameters makes the values of the parameter writeable',
     [(B, '        return np.ma.array(self.values, mask=self.mask)',
       "        self.values.flags['WRITEABLE'] = True\n        return np.ma.array(self.values, mask=self.mask)")], """
p = mb.Param(np.array([1., 2.]))
p.as_masked()
try:
    p.values[0] = 7.
except Exception:
    pass
assert list(p.values) == [1., 2.]
""")

seed('c17-affine-base', 'C17', 'an Affine function built from another Affine function',
     'combining an affine function changes the function it was built from',
     [(FB, """            self.base = base.base
            self.a = a * base.a
            self.b = a * base.b + b
""", """            base.a, base.b = a * base.a, a * base.b + b
            self.base = base.base
            self.a = base.a
            self.b = base.b
""")], """
f = 2 * X() + 1
x = np.array([0.3, 1.2])
before = f([x]).toarray()
g = 3 * f + 1
g([x])
close(f([x]).toarray(), before, 'the first function')
""")

seed('c17-product-cache', 'C17', 'two Hessians of the same Product at different parameters',
     'Product keeps the values of its factors from the first Hessian',
     [(O, """        f_val = [atom(params) for atom in self.atoms]
        hess = 0""", """        self.vals = f_val = getattr(self, 'vals', None) or \\
            [atom(params) for atom in self.atoms]
        hess = 0""")], """
def make():
    p = Product(1)
    p.add(Exp(), 0, 0)
    p.add(Exp(), 1, 0)
    return p
f = make()
u, v = np.array([0.1, 0.2]), np.array([0.3, 0.4])
f.hess([u, v], 0, 0)
close(f.hess([v, u], 0, 0).toarray(), make().hess([v, u], 0, 0).toarray(), 'hess')
""")

seed('c19-element-weight', 'C19', 'a lazy sum of tensors whose axes have different lengths, summed partially',
     'the elements of a lazy sum are weighted by the largest element instead of their own size',
     [(T, """                values = values + el.sum(sum_val, sum_dim).\\
                    values[tuple(idx)] * (size / el_size)""",
       """                values = values + el.sum(sum_val, sum_dim).\\
                    values[tuple(idx)] * (size / max(el_sizes))""")], """
from array import array
a = Tensor(np.arange(1., 4.).reshape(1, 3, 1), x_dim=1, x_map=array('b', [0]))
b = Tensor(np.arange(1., 7.).reshape(3, 1, 2), x_dim=1)
s = a + b
close(s.sum().toarray(), s.toarray().sum((1, 2)) if s.toarray().shape == (3, 3, 2) else
      (a.toarray() + b.toarray()).sum((1, 2)), 'sum')
""")

seed('c19-flip-dim', 'C19', 'flipping an outcome axis of a tensor with derivative axes of another kind',
     'flip(dim=True) counts the axes of the second parameter instead of the value axes',
     [(T, '            p += self.n\n', '            p += self.y_dim or self.n\n')], """
v = np.arange(2 * 2 * 3 * 4 * 5.).reshape(2, 2, 3, 4, 5)
t = Tensor(v, x_dim=1, y_dim=1, dim=1)
close(t.flip(0, dim=True).values, v[..., ::-1], 'flip')
""")

seed('c20-missing-hess', 'C20', 'asking for the second derivative of a function that does not define one',
     'a function without a second derivative reports a zero one',
     [(FB, '            hess = not_implemented_foo\n', '            hess = null_func\n')], """
class F(Func):
    def __call__(self, params):
        return Tensor(np.asarray(params[0]) ** 3)
    def grad(self, params, i):
        return grad_tensor(3 * np.asarray(params[0]) ** 2, params, i, True)
try:
    r = Affine(F(), 2, 0).hess([np.array([1., 2.])], 0, 0)
except Exception:
    pass
else:
    raise AssertionError('zero Hessian of a cube: %r' % r.toarray())
""")

seed('c22-inverse', 'C22', 'the upper tail of a Skellam distribution',
     'skellam_cdf(inverse=True) leaves out the point itself',
     [(SK, '(xy >= n) if inverse', '(xy > n) if inverse')], """
from maxlike.skellam import skellam_cdf
up = skellam_cdf(1.2, 0.7, 1, inverse=True)
down = skellam_cdf(1.2, 0.7, 0)
assert abs(up[0] + down[0] - 1) < 1e-6, (up, down)
""")

seed('c23-amh-bound', 'C23', 'a parameter of exactly -1 or a negative one',
     'the Ali-Mikhail-Haq copula uses the magnitude of its parameter',
     [(K, '        self.rho = rho\n\n    def __call__(self, x, y):\n        return x * y / (1',
       '        self.rho = abs(rho)\n\n    def __call__(self, x, y):\n        return x * y / (1')], """
from maxlike.func.copula import AkiMikhailHaq
u = np.array([0.2, 0.3, 0.5])
got = AkiMikhailHaq(-0.5)([u, u]).values[0, 0]
want = .2 * .2 / (1 + 0.5 * .8 * .8)
assert abs(got - want) < 1e-9, (got, want)
""")

seed('c24-constraint-count', 'C24', 'more than one constraint',
     'the Akaike criterion takes off at most one degree of freedom for the constraints',
     [(B, """        k -= len(self.constraint)
        n = self.N.sum(sum_val=True, sum_dim=True).values
        l = self.g(self.params)
        return 2 * k""", """        k -= min(1, len(self.constraint))
        n = self.N.sum(sum_val=True, sum_dim=True).values
        l = self.g(self.params)
        return 2 * k""")], """
m = maxlike.Poisson()
m.model = X()
m.N, m.X = Tensor(np.full(4, 5.)), Tensor(np.arange(4.) + 1)
m.add_param(np.array([0.1, 0.2, 0.3, 0.4]))
m.add_constraint(0, Linear([1., 1., 0., 0.]))
m.add_constraint(0, Linear([0., 0., 1., 1.]))
k, n = 2, 20
want = 2 * k / (n - k - 1) - 2 * m.g(m.params)
assert abs(m.akaine_information_criterion() - want) < 1e-9
""")

seed('c25-mask-order', 'C25', 'a two dimensional parameter with a fixed entry off the diagonal',
     'standard errors are laid out with the fixed entries of the transposed parameter',
     [(B, """                data = np.insert(
                    flat_array[s_0:s_1],
                    fix_map(p.mask.flatten()),
                    val).reshape(p.shape)""", """                data = np.insert(
                    flat_array[s_0:s_1],
                    fix_map(p.mask.T.flatten()),
                    val).reshape(p.shape)""")], """
m = maxlike.Poisson()
m.params = (mb.Param(np.zeros((2, 2)), np.array([[False, True], [False, False]])), )
m.flat_hess_ = -np.diag([1., 4., 16.])
e = m.std_error()[0]
want = np.array([[1., 0.], [.5, .25]])
mask = np.array([[False, True], [False, False]])
assert (e.mask == mask).all()
assert np.allclose(np.asarray(e.data)[~mask], want[~mask]), e.data
""")

seed('c26-level-index', 'C26', 'extra labels for the second level of a data frame',
     'the labels of the first level are used for every level that is extended',
     [(PP, """            if level.name in add_axis:
                axis[k] = sorted(set(axis[k]).union(add_axis[level.name]))
    shape""", """            if level.name in add_axis:
                axis[k] = sorted(set(axis[0]).union(add_axis[level.name]))
    shape""")], """
import pandas as pd
from maxlike.preprocessing import prepare_dataframe
df = pd.DataFrame({'a': ['u', 'v'], 'b': ['x', 'y'], 'w': [1., 2.], 'r': [3., 4.]}).set_index(['a', 'b'])
res, axis = prepare_dataframe(df, 'w', 'r', {'X': 'sum'}, {'b': ['z']})
assert list(axis[1]) == ['x', 'y', 'z'], axis
""")

seed('c26-inplace', 'C26', 'using the data frame again after preparing it',
     'the result column of the caller is overwritten by the weighted results',
     [(PP, "    w = df[weight_col].to_frame", "    df[result_col] = df[result_col] * df[weight_col]\n    w = df[weight_col].to_frame"),
      (PP, "(df[result_col] * df[weight_col])", "df[result_col]")], """
import pandas as pd
from maxlike.preprocessing import prepare_dataframe
df = pd.DataFrame({'a': ['u', 'v'], 'b': ['x', 'y'], 'w': [1., 2.], 'r': [3., 4.]}).set_index(['a', 'b'])
prepare_dataframe(df, 'w', 'r', {'X': 'sum'})
assert list(df['r']) == [3., 4.], df
""")

seed('c20-mixed-second', 'C20', 'a function composed with one whose Hessian is missing',
     'a function that defines no second derivative counts as one with a zero second derivative',
     [(FB, "    return getattr(foo, 'null', False)", "    return getattr(foo, 'null', False) or foo.__name__ == 'not_implemented_foo'")], """
class F(Func):
    def __call__(self, params):
        return Tensor(np.asarray(params[0]) ** 3)
    def grad(self, params, i):
        return grad_tensor(3 * np.asarray(params[0]) ** 2, params, i, True)
try:
    r = Affine(F(), 2, 0).hess([np.array([1., 2.])], 0, 0)
except Exception:
    pass
else:
    raise AssertionError('zero Hessian of a cube: %r' % r.toarray())
""")

seed('c21-unbounded', 'C21', 'a tolerance that floating point numbers cannot reach',
     'the search for a Poisson rate has no limit on its steps',
     [(SK, """    e = 1
    count = 0
    max_steps = 50
    while not abs(e)""", """    e = 1
    count = 0
    max_steps = 50 / abs(tol) if not tol else 50
    while not abs(e)""") if 0 else
      (SK, """    min_a = 1e-3
    a = max(((phi * phi + 4 * n + 2) ** .5 - phi) ** 2 / 4, min_a)
    e = 1
    count = 0
    max_steps = 50
""", """    min_a = 1e-3
    a = max(((phi * phi + 4 * n + 2) ** .5 - phi) ** 2 / 4, min_a)
    e = 1
    count = 0
    max_steps = 50 if tol else np.inf
""")], """
import signal
from maxlike.skellam import poisson_cdf_root
signal.alarm(40)
for t in np.linspace(.05, .95, 37):
    try:
        poisson_cdf_root(t, 3, tol=0.)
    except mb.ConvergenceError:
        pass
""")
