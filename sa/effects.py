"""Frame conditions: which objects that existed before an evaluation differ
after it."""
import array as _array
from . import arr as A
from . import interp as I
from . import valnum
from . import terms as tt
from .core import Bad, AbsRaise, dense, same, exc_name
from .terms import T

SCALARS = (int, float, str, bool, bytes, type(None), complex, T)


def kind(o):
    """name of the class of an interpreted object"""
    return o.cls.name if isinstance(o, I.PyObj) else type(o).__name__


def reach(roots, through=lambda o: True):
    """objects reachable through containers, fields and array storage"""
    seen, out, todo = set(), [], list(roots)
    while todo:
        o = todo.pop()
        if isinstance(o, SCALARS) or id(o) in seen:
            continue
        seen.add(id(o))
        if not through(o):
            continue
        out.append(o)
        if isinstance(o, A.AArr):
            todo.append(o.base)
        elif isinstance(o, I.PyObj):
            todo += list(o.d.values())
            if isinstance(o.native, (list, tuple, set)):
                todo += list(o.native)
            elif isinstance(o.native, dict):
                todo += list(o.native.values())
        elif isinstance(o, (list, tuple, set, frozenset)):
            todo += list(o)
        elif isinstance(o, dict):
            todo += list(o.values())
        elif isinstance(o, I.BoundMethod):
            todo.append(o.self)
        elif isinstance(o, I.Partial):
            todo += [o.f] + list(o.args) + list((o.kw or {}).values())
        elif type(o).__name__ == 'MaskedArr':
            todo += [o.data, o.mask]
    return out


def snap(o):
    if isinstance(o, A.AArr):
        return (o.base, o.axes, o.shape, o.writeable)
    if isinstance(o, A.Base):
        return (o.state, o.shape, o.dtype)
    if isinstance(o, I.PyObj):
        n = o.native
        return (o.cls, dict(o.d), list(n) if isinstance(n, (list, tuple))
                else dict(n) if isinstance(n, dict) else n)
    if isinstance(o, _array.array):
        return o.tolist()
    if isinstance(o, (list, tuple)):
        return list(o)
    if isinstance(o, dict):
        return dict(o)
    if isinstance(o, (set, frozenset)):
        return set(o)
    return None


def alike(a, b):
    if a is b:
        return True
    if isinstance(a, SCALARS) and isinstance(b, SCALARS):
        return type(a) is type(b) and a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and \
            type(a) is type(b):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return False


def differs(o, s):
    """description of the difference between o and its snapshot, or None"""
    if isinstance(o, A.AArr):
        if o.base is not s[0] or o.axes != s[1] or o.shape != s[2]:
            return 'the array is reshaped in place'
        if o.writeable != s[3]:
            return 'the array is made %s' % (
                'read-only' if s[3] else 'writeable')
        return None
    if isinstance(o, A.Base):
        if o.state is s[0]:
            return None
        if o.shape != s[1] or o.dtype != s[2]:
            return 'the array storage is replaced'
        idx, ivs, szs = A.generic_index(o.shape)
        a, b = tt.tm(o.state.get(idx)), tt.tm(s[0].get(idx))
        w = valnum.compare(a, b, ivs, szs)
        if w is None:
            w = widened(lambda: valnum.compare(a, b, ivs, szs))
        if w is None:
            return None
        return 'entries of the array are overwritten (%.6g becomes %.6g)' % (
            w['expected'], w['got'])
    if isinstance(o, I.PyObj):
        if o.cls is not s[0]:
            return 'the class of the object is changed'
        for k in sorted(set(o.d) | set(s[1])):
            if k.startswith('_'):
                continue        # private caches
            if k not in o.d:
                return 'attribute %s is deleted' % k
            if k not in s[1]:
                return 'attribute %s is added' % k
            if not alike(o.d[k], s[1][k]):
                return 'attribute %s is rebound' % k
        n = o.native
        n = list(n) if isinstance(n, (list, tuple)) else n
        if not alike(n, s[2]) and not isinstance(n, dict):
            return 'the contents are changed'
        return None
    if isinstance(o, _array.array):
        return None if o.tolist() == s else 'the contents are changed'
    if isinstance(o, (list, tuple)):
        if len(o) != len(s):
            return 'the list has %d entries instead of %d' % (len(o), len(s))
        for k, (a, b) in enumerate(zip(o, s)):
            if not alike(a, b):
                return 'entry %d of the list is replaced' % k
        return None
    if isinstance(o, dict):
        return None if set(o) == set(s) and all(
            alike(o[k], s[k]) for k in s) else 'the mapping is changed'
    if isinstance(o, (set, frozenset)):
        return None if o == s else 'the set is changed'
    return None


def widened(f):
    """f() with symbols ranging over all reals (a write may change values
    outside the domain the other obligations sample)"""
    old = {k: v['dom'] for k, v in tt.SYMINFO.items() if 'dom' in v}
    try:
        for k in old:
            tt.SYMINFO[k]['dom'] = 'real'
        return f()
    except Exception:
        return None
    finally:
        for k, d in old.items():
            tt.SYMINFO[k]['dom'] = d


class Frame(object):
    """snapshot of everything reachable from named roots"""

    def __init__(self, through=lambda o: True, **roots):
        self.items = []
        self.keep = roots
        seen = set()
        for nm, r in roots.items():
            for o in reach([r], through):
                if id(o) in seen:
                    continue
                seen.add(id(o))
                self.items.append((nm, o, snap(o)))

    def __len__(self):
        return len(self.items)

    def verify(self, what):
        for nm, o, s in self.items:
            d = differs(o, s)
            if d is not None:
                raise Bad('%s: %s (a %s reachable from %s)' %
                          (what, d, kind(o), nm))


def immutable(o):
    return isinstance(o, I.PyObj) and o.cls.name in (
        'Param', 'Tensor', 'GenericTensor')


# ----------------------------------------------------------- observations
def observe(E, f, pv, order=1, lite=False):
    """[(name, result)] of evaluating f at the parameter values pv"""
    n = len(pv)
    jobs = [('call', lambda: E.call(f, list(pv)))]
    for i in range(0 if lite else n):
        jobs.append(('grad %d' % i, lambda i=i: E.m(f, 'grad', list(pv), i)))
        for j in range(i + 1):
            jobs.append(('hess %d,%d' % (i, j), lambda i=i, j=j: E.m(
                f, 'hess', list(pv), i, j)))
    if not lite:
        jobs.append(('grad', lambda: E.m(f, 'grad', list(pv))))
        jobs.append(('hess', lambda: E.m(f, 'hess', list(pv))))
    if lite == 'first':
        jobs.append(('grad 0', lambda: E.m(f, 'grad', list(pv), 0)))
        jobs.append(('hess 0,0', lambda: E.m(f, 'hess', list(pv), 0, 0)))
    jobs.append(('eval', lambda: E.m(f, 'eval', list(pv))))
    return run_jobs(jobs[::order])


def run_jobs(jobs):
    out = {}
    for nm, th in jobs:
        try:
            out[nm] = th()
        except AbsRaise as e:
            out[nm] = Raised(exc_name(e))
    return out


class Raised(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'raises ' + self.name


def agree(E, a, b, what):
    for k in b:
        x, y = a[k], b[k]
        if isinstance(x, Raised) or isinstance(y, Raised):
            if not (isinstance(x, Raised) and isinstance(y, Raised) and
                    x.name == y.name):
                raise Bad('%s: %s gives %s, on a fresh object %s' % (
                    what, k, x if isinstance(x, Raised) else 'a value',
                    y if isinstance(y, Raised) else 'a value'))
            continue
        try:
            alike_values(E, x, y)
        except Bad as e:
            raise Bad('%s: %s differs from the result on a fresh object: %s'
                      % (what, k, e))


def alike_values(E, x, y):
    if isinstance(y, (list, tuple)):
        if not isinstance(x, (list, tuple)) or len(x) != len(y):
            raise Bad('another number of results')
        for p, q in zip(x, y):
            alike_values(E, p, q)
        return
    same(E, x, y)
