"""Abstract interpreter for the Python subset used by the repository.

Walks the syntax trees of the files under /repo (never imports or executes
them).  Known Python values (ints, strings, tuples, tables of axis positions)
are propagated as constants; numerical data is represented by abstract arrays
of value-graph terms (arr.py, terms.py).  Where a branch condition depends on
unknown data both arms are analysed and the results joined by a gated (ite)
term at function exit.
"""
import ast
import os
import array as _array
import builtins as _bi
import operator as _op
import numpy as np
from . import terms as tt
from . import arr as A
from .terms import T, tm
from .arr import AArr, Unsupported, AbsRaise, araise


class Module(object):
    def __init__(self, name, path=None):
        self.name = name
        self.path = path
        self.d = {}

    def __repr__(self):
        return '<module %s>' % self.name


class Opaque(object):
    """something imported that the analysis has no model for"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<unmodelled %s>' % self.name


class Scope(object):
    __slots__ = ('d', 'parent', 'kind', 'globals', 'nonlocals', 'module', 'cls')

    def __init__(self, parent, kind, module, cls=None):
        self.d = {}
        self.parent = parent
        self.kind = kind        # 'module' | 'func' | 'class' | 'comp'
        self.globals = ()
        self.nonlocals = ()
        self.module = module
        self.cls = cls


class PyFunc(object):
    def __init__(self, node, scope, defaults, kwdefaults, name, module, cls):
        self.node = node
        self.scope = scope
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = name
        self.module = module
        self.cls = cls           # holder with .cls for super()/mangling
        self.d = {}
        self.isgen = _has_yield(node)

    def __repr__(self):
        return '<function %s>' % self.name


_gen_memo = {}


def _has_yield(node):
    r = _gen_memo.get(node)
    if r is None:
        r = False
        if not isinstance(node, ast.Lambda):
            stack = list(node.body)
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                                  ast.GeneratorExp)):
                    continue
                stack.extend(ast.iter_child_nodes(n))
        _gen_memo[node] = r
    return r


class ClassRef(object):
    """late-bound reference to the class being defined"""
    __slots__ = ('cls', 'name')

    def __init__(self, name):
        self.cls = None
        self.name = name


class PyClass(object):
    def __init__(self, name, bases, ns, meta=None, module=None, node=None):
        self.name = name
        self.bases = list(bases)
        self.ns = ns
        self.meta = meta
        self.module = module
        self.node = node
        self.mro = self._mro()

    def _mro(self):
        seqs = []
        for b in self.bases:
            seqs.append(list(b.mro) if isinstance(b, PyClass) else [b])
        seqs.append([b for b in self.bases])
        out = [self]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if c is object and any(len(q) > 1 or q[0] is not object
                                       for q in seqs):
                    continue
                if not any(c in q[1:] for q in seqs):
                    break
            else:
                araise(TypeError, 'Cannot create a consistent MRO')
            out.append(c)
            seqs = [[x for x in q if x is not c] for q in seqs]
            seqs = [q for q in seqs if q]
        if out[-1] is not object:
            out.append(object)
        return out

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, PyClass):
                if name in c.ns:
                    return c.ns[name], c
        return None, None

    def native_base(self):
        for c in self.mro:
            if not isinstance(c, PyClass) and c is not object and \
                    isinstance(c, type):
                return c
        return None

    def __repr__(self):
        return '<class %s>' % self.name


class PyObj(object):
    __slots__ = ('cls', 'd', 'native', 'tag', '__weakref__')

    def __init__(self, cls):
        self.cls = cls
        self.d = {}
        self.native = None
        self.tag = None

    def __repr__(self):
        return '<%s object>' % self.cls.name


class BoundMethod(object):
    __slots__ = ('self', 'func')

    def __init__(self, self_, func):
        self.self = self_
        self.func = func


class StaticM(object):
    def __init__(self, f):
        self.f = f


class ClassM(object):
    def __init__(self, f):
        self.f = f


class Prop(object):
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class WithMeta(object):
    def __init__(self, meta, bases):
        self.meta = meta
        self.bases = bases


class SuperObj(object):
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Partial(object):
    def __init__(self, f, args, kw):
        self.f = f
        self.args = args
        self.kw = kw


class EnumMember(object):
    def __init__(self, cls, name, value):
        self.cls = cls
        self.name = name
        self.value = value

    def __repr__(self):
        return '%s.%s' % (self.cls.name, self.name)


class EnumBase(object):
    pass


class NamedTupleBase(object):
    pass


class Model(object):
    """modelled library function; internal failures mean 'undecided'"""
    __slots__ = ('f', 'name', 'd')

    def __init__(self, f, name=None):
        self.f = f
        self.name = name or getattr(f, '__name__', '?')
        self.d = {}

    def __repr__(self):
        return '<model %s>' % self.name


class Native(object):
    """trusted builtin; python-level errors are the program's errors"""
    __slots__ = ('f', 'name')

    def __init__(self, f, name=None):
        self.f = f
        self.name = name or getattr(f, '__name__', '?')


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class NeedDecision(Exception):
    pass


class Frame(object):
    def __init__(self, func):
        self.func = func
        self.prefix = []
        self.trace = []        # (cond, bool, node)
        self.yields = None
        self.lineno = 0


NATIVE_ERRORS = (ValueError, TypeError, KeyError, IndexError, AttributeError,
                 ZeroDivisionError, StopIteration, OverflowError, AssertionError,
                 NotImplementedError, LookupError, UnboundLocalError)

MUTATORS = {
    list: {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse',
           'clear', '__setitem__', '__delitem__'},
    dict: {'update', 'pop', 'setdefault', 'clear', 'popitem'},
    set: {'add', 'discard', 'remove', 'update', 'clear', 'pop'},
    _array.array: {'append', 'extend', 'insert', 'pop', 'remove', 'reverse'},
}


class Interp(object):

    MAXPATHS = 64

    def __init__(self, root='/repo', package='maxlike', budget=6000000,
                 overlay=None):
        self.root = root
        self.package = package
        self.modules = {}
        self.sources = {}
        self.consulted = set()
        self.frames = []
        self.journals = []
        self.steps = 0
        self.budget = budget
        self.assumed = []
        self.dropped = []    # conditions under which a path raises
        self.writes = []
        self.excstack = []
        self.attr_hook = None
        self.call_hook = None
        self.decide_hook = None
        self.generics = set()   # equalities taken to fail in general
        self.assert_hook = None
        self.warnings = []
        self.touched = set()
        from . import npmodel
        self.np = npmodel
        self.lib = npmodel.libs(self)
        self.builtins = self._builtins()
        A.Hooks.on_write = self._on_write
        A.Hooks.journal = self._journal

    # ------------------------------------------------------------- journal
    def _on_write(self, base):
        if base.tag is not None:
            self.writes.append((base.tag, self.where()))

    def note_mut(self, obj):
        t = getattr(obj, 'tag', None)
        if t is not None:
            self.writes.append((t, self.where()))

    def _journal(self, obj):
        if not self.journals:
            return
        j = self.journals[-1]
        k = id(obj)
        if k in j:
            return
        j[k] = (obj, self._snap(obj))

    @staticmethod
    def _snap(obj):
        if isinstance(obj, A.Base):
            return obj.state
        if isinstance(obj, PyObj):
            n = obj.native
            return (dict(obj.d), list(n) if isinstance(n, list) else n)
        if isinstance(obj, list):
            return list(obj)
        if isinstance(obj, dict):
            return dict(obj)
        if isinstance(obj, set):
            return set(obj)
        if isinstance(obj, _array.array):
            return obj[:]
        if isinstance(obj, (Scope, PyFunc, Module)):
            return dict(obj.d)
        if isinstance(obj, PyClass):
            return dict(obj.ns)
        raise Unsupported('journal of %r' % type(obj))

    @staticmethod
    def _restore(obj, s):
        if isinstance(obj, A.Base):
            obj.state = s
        elif isinstance(obj, PyObj):
            obj.d.clear()
            obj.d.update(s[0])
            if isinstance(obj.native, list):
                obj.native[:] = s[1]
        elif isinstance(obj, (list, _array.array)):
            obj[:] = s
        elif isinstance(obj, (dict, set)):
            obj.clear()
            obj.update(s)
        elif isinstance(obj, PyClass):
            obj.ns.clear()
            obj.ns.update(s)
        else:
            obj.d.clear()
            obj.d.update(s)

    def where(self):
        if not self.frames:
            return '?'
        f = self.frames[-1]
        return '%s:%d in %s' % (f.func.module.name if f.func and f.func.module
                                else '?', f.lineno,
                                f.func.name if f.func else '?')

    # ------------------------------------------------------------- modules
    def load(self, name):
        """load a module of the analysed package by dotted name"""
        if name in self.modules:
            return self.modules[name]
        parts = name.split('.')
        if len(parts) > 1:
            self.load('.'.join(parts[:-1]))     # packages load first
            if name in self.modules:
                return self.modules[name]
        base = os.path.join(self.root, *parts)
        if os.path.isdir(base):
            path = os.path.join(base, '__init__.py')
            pkg = True
        else:
            path = base + '.py'
            pkg = False
        if not os.path.exists(path):
            raise AbsRaise(ImportError('No module named ' + name))
        with open(path) as fh:
            src = fh.read()
        self.consulted.add(path)
        return self.load_source(name, src, path, pkg)

    def load_source(self, name, src, path='<harness>', pkg=False):
        tree = ast.parse(src, path)
        m = Module(name, path)
        m.d['__name__'] = name
        m.d['__pkg__'] = name if pkg else name.rpartition('.')[0]
        m.tree = tree
        self.modules[name] = m
        if '.' in name:
            parent, _, leaf = name.rpartition('.')
            if parent in self.modules:
                self.modules[parent].d.setdefault(leaf, m)
        sc = Scope(None, 'module', m)
        sc.d = m.d
        m.scope = sc
        fr = Frame(None)
        fr.func = PyFunc.__new__(PyFunc)
        fr.func.name = '<module>'
        fr.func.module = m
        self.frames.append(fr)
        try:
            self.block(tree.body, sc)
        finally:
            self.frames.pop()
        return m

    def import_module(self, name):
        if name == self.package or name.startswith(self.package + '.'):
            return self.load(name)
        if name in self.lib:
            return self.lib[name]
        if name == 'pandas':
            from . import pdlib
            return pdlib.module(self)
        return Opaque(name)

    # ------------------------------------------------------------- statements
    def block(self, stmts, sc):
        for s in stmts:
            self.stmt(s, sc)

    def stmt(self, s, sc):
        self.steps += 1
        if self.steps > self.budget:
            raise Unsupported('analysis budget exceeded')
        self.frames[-1].lineno = s.lineno
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(s).__name__)
        m(s, sc)

    def s_Expr(self, s, sc):
        self.ev(s.value, sc)

    def s_Pass(self, s, sc):
        pass

    def s_Return(self, s, sc):
        raise _Return(self.ev(s.value, sc) if s.value else None)

    def s_Break(self, s, sc):
        raise _Break()

    def s_Continue(self, s, sc):
        raise _Continue()

    def s_Global(self, s, sc):
        sc.globals = tuple(sc.globals) + tuple(s.names)

    def s_Nonlocal(self, s, sc):
        sc.nonlocals = tuple(sc.nonlocals) + tuple(s.names)

    def s_Assert(self, s, sc):
        v = self.ev(s.test, sc)
        c = self.cond(v)
        if c is True:
            return
        if c is False:
            msg = [self.ev(s.msg, sc)] if s.msg else []
            raise AbsRaise(AssertionError(*msg))
        if self.assert_hook is not None and self.assert_hook(c) is False:
            raise AbsRaise(AssertionError())
        if not c.fv:
            self.dropped.append(tt.lnot(c))
        self.assumed.append((c, self.where()))

    def s_If(self, s, sc):
        if self.truth(self.ev(s.test, sc), s):
            self.block(s.body, sc)
        else:
            self.block(s.orelse, sc)

    def s_While(self, s, sc):
        n = 0
        while self.truth(self.ev(s.test, sc), s):
            n += 1
            if n > 20000:
                raise Unsupported('unbounded while loop')
            try:
                self.block(s.body, sc)
            except _Break:
                break
            except _Continue:
                continue
        else:
            self.block(s.orelse, sc)

    def s_For(self, s, sc):
        it = self.iterate(self.ev(s.iter, sc), lazy=True)
        for v in it:
            self.assign(s.target, v, sc)
            try:
                self.block(s.body, sc)
            except _Break:
                break
            except _Continue:
                continue
        else:
            self.block(s.orelse, sc)

    def s_Assign(self, s, sc):
        v = self.ev(s.value, sc)
        for t in s.targets:
            self.assign(t, v, sc)

    def s_AnnAssign(self, s, sc):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, sc), sc)

    def s_AugAssign(self, s, sc):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, sc)
            self.assign(t, self.inplace(op, cur, self.ev(s.value, sc)), sc)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, sc)
            nm = self.mangle(t.attr, sc)
            cur = self.getattr(o, nm)
            self.setattr(o, nm, self.inplace(op, cur, self.ev(s.value, sc)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, sc)
            k = self.ev(t.slice, sc)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(op, cur, self.ev(s.value, sc)))
        else:
            raise Unsupported('augmented target')

    def s_Delete(self, s, sc):
        for t in s.targets:
            if isinstance(t, ast.Name):
                d = sc.d
                if t.id not in d:
                    araise(NameError, t.id)
                del d[t.id]
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, sc), self.mangle(t.attr, sc))
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, sc)
                k = self.ev(t.slice, sc)
                if isinstance(o, PyObj) and o.native is not None:
                    o = o.native
                if isinstance(o, (list, dict)):
                    self.note_mut(o)
                    self._journal(o)
                    self.native(_op.delitem, o, k)
                else:
                    raise Unsupported('del item')

    def s_Raise(self, s, sc):
        if s.exc is None:
            if self.excstack:
                raise AbsRaise(self.excstack[-1])
            araise(RuntimeError, 'No active exception to reraise')
        e = self.ev(s.exc, sc)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = e()
        elif isinstance(e, PyClass):
            e = self.call(e, [])
        if isinstance(e, (str, int, float, list, tuple)) or e is None:
            araise(TypeError, 'exceptions must derive from BaseException')
        raise AbsRaise(e)

    def exc_matches(self, e, cls):
        if isinstance(cls, tuple):
            return any(self.exc_matches(e, c) for c in cls)
        if isinstance(cls, Opaque):
            return False
        return self.isinstance(e, cls)

    def s_Try(self, s, sc):
        try:
            try:
                self.block(s.body, sc)
            except AbsRaise as ar:
                e = ar.exc
                for h in s.handlers:
                    if h.type is None or self.exc_matches(
                            e, self.ev(h.type, sc)):
                        if h.name:
                            self.store(h.name, e, sc)
                        self.excstack.append(e)
                        try:
                            self.block(h.body, sc)
                        finally:
                            self.excstack.pop()
                        break
                else:
                    raise
            else:
                self.block(s.orelse, sc)
        except (AbsRaise, _Return, _Break, _Continue):
            if s.finalbody:
                self.block(s.finalbody, sc)
            raise
        else:
            if s.finalbody:
                self.block(s.finalbody, sc)

    def s_With(self, s, sc):
        exits = []
        for it in s.items:
            cm = self.ev(it.context_expr, sc)
            if isinstance(cm, PyObj):
                v = self.call(self.getattr(cm, '__enter__'), [])
                exits.append(cm)
            else:
                v = cm
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, sc)
        try:
            self.block(s.body, sc)
        except AbsRaise as ar:
            for cm in reversed(exits):
                r = self.call(self.getattr(cm, '__exit__'),
                              [self.type_of(ar.exc), ar.exc, None])
                if self.truth(r, s):
                    return
            raise
        except (_Return, _Break, _Continue):
            for cm in reversed(exits):
                self.call(self.getattr(cm, '__exit__'), [None, None, None])
            raise
        else:
            for cm in reversed(exits):
                self.call(self.getattr(cm, '__exit__'), [None, None, None])

    def s_Import(self, s, sc):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store(a.asname, m, sc)
            else:
                top = a.name.split('.')[0]
                self.store(top, self.import_module(top), sc)

    def s_ImportFrom(self, s, sc):
        if s.level:
            pkg = sc.module.d['__pkg__']
            for _ in range(s.level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + s.module if s.module else '')
        else:
            name = s.module
        m = self.import_module(name)
        for a in s.names:
            if a.name == '*':
                for k, v in list(m.d.items()):
                    if not k.startswith('_'):
                        self.store(k, v, sc)
                continue
            if isinstance(m, Opaque):
                v = Opaque(m.name + '.' + a.name)
            elif a.name in m.d:
                v = m.d[a.name]
            else:
                sub = name + '.' + a.name
                if name.startswith(self.package):
                    try:
                        v = self.load(sub)
                    except AbsRaise:
                        araise(ImportError, 'cannot import name ' + a.name)
                elif sub in self.lib:
                    v = self.lib[sub]
                else:
                    v = Opaque(sub)
            self.store(a.asname or a.name, v, sc)

    def mkfunc(self, node, sc):
        a = node.args
        defaults = [self.ev(d, sc) for d in a.defaults]
        kwd = {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[k.arg] = self.ev(d, sc)
        cls = sc.cls
        return PyFunc(node, sc, defaults, kwd,
                      getattr(node, 'name', '<lambda>'), sc.module, cls)

    def s_FunctionDef(self, s, sc):
        f = self.mkfunc(s, sc)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, sc), [f])
        self.store(s.name, f, sc)

    def s_ClassDef(self, s, sc):
        bases, meta = [], None
        for b in s.bases:
            v = self.ev(b, sc)
            if isinstance(v, WithMeta):
                meta = v.meta
                bases += v.bases
            else:
                bases.append(v)
        kws = {}
        for k in s.keywords:
            if k.arg == 'metaclass':
                meta = self.ev(k.value, sc)
            elif k.arg:
                kws[k.arg] = self.ev(k.value, sc)
        bases = [b for b in bases if not (b is object and len(bases) > 1)] \
            or [object]
        ref = ClassRef(s.name)
        csc = Scope(sc, 'class', sc.module, ref)
        csc.d['__module__'] = sc.module.name
        csc.d['__qualname__'] = s.name
        if s.body and isinstance(s.body[0], ast.Expr) and \
                isinstance(s.body[0].value, ast.Constant) and \
                isinstance(s.body[0].value.value, str):
            csc.d['__doc__'] = s.body[0].value.value
        self.block(s.body, csc)
        if meta is None:
            for b in bases:
                if isinstance(b, PyClass) and isinstance(b.meta, PyClass):
                    meta = b.meta
                    break
        c = self.make_class(meta, s.name, tuple(bases), csc.d, kws)
        if isinstance(c, PyClass):
            c.node = s
            c.module = sc.module
        ref.cls = c
        for d in reversed(s.decorator_list):
            c = self.call(self.ev(d, sc), [c])
        self.store(s.name, c, sc)

    def make_class(self, meta, name, bases, ns, kws):
        if isinstance(meta, PyClass):
            new, _ = meta.lookup('__new__')
            if new is not None:
                if isinstance(new, StaticM):
                    new = new.f
                c = self.call(new, [meta, name, bases, ns], kws)
            else:
                c = self.type_new(meta, name, bases, ns)
            init, _ = meta.lookup('__init__')
            if init is not None:
                self.call(init, [c, name, bases, ns], kws)
            return c
        return self.type_new(meta, name, bases, ns)

    def type_new(self, meta, name, bases, ns, **kw):
        bases = [EnumBase if b is EnumBase else b for b in bases]
        c = PyClass(name, [b for b in bases] or [object], dict(ns), meta)
        if EnumBase in c.mro:
            members = []
            for k, v in list(c.ns.items()):
                if k.startswith('_') or isinstance(
                        v, (PyFunc, StaticM, ClassM, Prop)):
                    continue
                m = EnumMember(c, k, v)
                c.ns[k] = m
                members.append(m)
            c.ns['__members__'] = members
        for c2 in c.mro[1:]:
            if isinstance(c2, PyClass) and '__init_subclass__' in c2.ns:
                f = c2.ns['__init_subclass__']
                self.call(f.f if isinstance(f, ClassM) else f, [c])
                break
        return c

    # ------------------------------------------------------------- names
    def store(self, name, v, sc):
        if name in sc.globals:
            self._journal(sc.module)
            sc.module.d[name] = v
            return
        if name in sc.nonlocals:
            p = sc.parent
            while p is not None:
                if p.kind != 'class' and name in p.d:
                    self._journal(p)
                    p.d[name] = v
                    return
                p = p.parent
            araise(NameError, name)
        if sc.kind == 'class':
            name = self.mangle(name, sc)
        sc.d[name] = v

    def name(self, name, sc):
        if sc.kind == 'class':
            if name in sc.d:
                return sc.d[name]
        elif name in sc.d:
            return sc.d[name]
        p = sc.parent
        while p is not None:
            if p.kind != 'class' and name in p.d:
                return p.d[name]
            p = p.parent
        g = sc.module.d
        if name in g:
            return g[name]
        if name in self.builtins:
            return self.builtins[name]
        araise(NameError, "name '%s' is not defined" % name)

    def mangle(self, attr, sc):
        if attr.startswith('__') and not attr.endswith('__'):
            s = sc
            while s is not None and s.cls is None:
                s = s.parent
            if s is not None and s.cls is not None:
                return '_' + s.cls.name.lstrip('_') + attr
        return attr

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            self.store(t.id, v, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, sc), self.mangle(t.attr, sc), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, sc), self.ev(t.slice, sc), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iterate(v))
            star = [k for k, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                if len(vs) < k + after:
                    araise(ValueError, 'not enough values to unpack')
                for e, x in zip(t.elts[:k], vs[:k]):
                    self.assign(e, x, sc)
                self.assign(t.elts[k].value, vs[k:len(vs) - after], sc)
                for e, x in zip(t.elts[k + 1:], vs[len(vs) - after:]):
                    self.assign(e, x, sc)
                return
            if len(vs) != len(t.elts):
                araise(ValueError, 'wrong number of values to unpack')
            for e, x in zip(t.elts, vs):
                self.assign(e, x, sc)
        else:
            raise Unsupported('assignment target')

    # ---------------------------------------------------------- conditions
    def cond(self, v):
        """True / False / symbolic condition term"""
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, T):
            c = tt.tb(v)
            if c is tt.TRUE:
                return True
            if c is tt.FALSE:
                return False
            return c
        if isinstance(v, AArr):
            n = v.size
            if isinstance(n, int):
                if n == 1:
                    return self.cond(A.unwrap(v.elem(tuple(
                        0 for _ in v.shape)), v.dtype))
                if n == 0:
                    return False
            araise(ValueError, 'The truth value of an array with more than '
                   'one element is ambiguous')
        if isinstance(v, PyObj):
            f, _ = v.cls.lookup('__bool__')
            if f is not None:
                return self.cond(self.call(f, [v]))
            if v.native is not None and not isinstance(v.native, BaseException):
                return bool(v.native)
            f, _ = v.cls.lookup('__len__')
            if f is not None:
                return self.cond(self.call(f, [v]))
            return True
        if isinstance(v, (PyFunc, PyClass, BoundMethod, Module, Model, Native,
                          EnumMember, Partial)):
            return True
        if isinstance(v, Opaque):
            raise Unsupported('truth of ' + v.name)
        return bool(v)

    def truth(self, v, node=None):
        c = self.cond(v)
        if c is True or c is False:
            return c
        # equality of generic real values: decided by value numbers
        g = self.generic(c)
        if g is not None:
            return g
        return self.decide(c, node)

    def generic(self, c):
        if c.op == 'eq' and not c.a[0].isint:
            try:
                from . import valnum
                r = valnum.compare(c.a[0], tt.ZERO) is None
                if not r:
                    self.generics.add(c)
                return r
            except NotImplementedError:
                return None
        if c.op == 'not':
            r = self.generic(c.a[0])
            return None if r is None else not r
        if c.op == 'and':
            rs = [self.generic(x) for x in c.a]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
        return None

    def decide(self, c, node=None):
        if self.decide_hook is not None:
            r = self.decide_hook(c, node, self.frames[-1])
            if r is not None:
                return r
        fr = self.frames[-1]
        k = len(fr.trace)
        # already decided on this path?
        for c2, b, _ in fr.trace:
            if c2 is c:
                return b
            if c2 is tt.lnot(c):
                return not b
        if k < len(fr.prefix):
            b = fr.prefix[k]
        else:
            b = True
        fr.trace.append((c, b, node))
        return b

    # --------------------------------------------------------- expressions
    def ev(self, e, sc):
        self.steps += 1
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        return m(e, sc)

    def e_Constant(self, e, sc):
        return e.value

    def e_Name(self, e, sc):
        return self.name(e.id, sc)

    def e_Attribute(self, e, sc):
        return self.getattr(self.ev(e.value, sc), self.mangle(e.attr, sc))

    def e_Subscript(self, e, sc):
        o = self.ev(e.value, sc)
        return self.getitem(o, self.ev(e.slice, sc))

    def e_Slice(self, e, sc):
        return slice(self.ev(e.lower, sc) if e.lower else None,
                     self.ev(e.upper, sc) if e.upper else None,
                     self.ev(e.step, sc) if e.step else None)

    def e_Index(self, e, sc):
        return self.ev(e.value, sc)

    def elts(self, es, sc):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, sc)))
            else:
                out.append(self.ev(x, sc))
        return out

    def e_Tuple(self, e, sc):
        return tuple(self.elts(e.elts, sc))

    def e_List(self, e, sc):
        return self.elts(e.elts, sc)

    def e_Set(self, e, sc):
        return set(self.elts(e.elts, sc))

    def e_Dict(self, e, sc):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, sc))
            else:
                d[self.ev(k, sc)] = self.ev(v, sc)
        return d

    def e_Lambda(self, e, sc):
        return self.mkfunc(e, sc)

    def e_IfExp(self, e, sc):
        c = self.cond(self.ev(e.test, sc))
        if c is not True and c is not False:
            g = self.generic(c)
            if g is None and self.decide_hook is not None:
                g = self.decide(c, e)
            if g is None:
                # gated value when both arms are plain data
                a, b = self.ev(e.body, sc), self.ev(e.orelse, sc)
                return self.join(c, a, b)
            c = g
        return self.ev(e.body if c else e.orelse, sc)

    def e_BoolOp(self, e, sc):
        isand = isinstance(e.op, ast.And)
        v = None
        acc = None
        for k, x in enumerate(e.values):
            v = self.ev(x, sc)
            c = self.cond(v)
            if c is not True and c is not False:
                g = self.generic(c)
                if g is None and self.decide_hook is not None:
                    g = self.decide(c, e)
                if g is not None:
                    c = g
            if c is True or c is False:
                if isand and c is False:
                    return v if acc is None else False
                if not isand and c is True:
                    return v if acc is None else True
                continue
            acc = c if acc is None else (
                tt.land(acc, c) if isand else tt.lor(acc, c))
        if acc is None:
            return v
        return A.unwrap(acc, 'b')

    def e_UnaryOp(self, e, sc):
        v = self.ev(e.operand, sc)
        if isinstance(e.op, ast.Not):
            c = self.cond(v)
            if c is True or c is False:
                return not c
            return A.unwrap(tt.lnot(c), 'b')
        return self.unary(type(e.op).__name__, v)

    def unary(self, op, v):
        if isinstance(v, PyObj):
            nm = {'USub': '__neg__', 'UAdd': '__pos__',
                  'Invert': '__invert__'}[op]
            f, _ = v.cls.lookup(nm)
            if f is None:
                araise(TypeError, 'bad operand type for unary %s: %s'
                       % (op, v.cls.name))
            return self.call(f, [v])
        if isinstance(v, (AArr, T)):
            if op == 'USub':
                return self.np.UF['negative'](self, v)
            if op == 'UAdd':
                return v
            if op == 'Invert':
                return self.np.UF['logical_not'](self, v) if \
                    A.dtype_of(v) == 'b' else self.np.UF['invert'](self, v)
        if isinstance(v, self.np.MaskedArr):
            return self.np.MaskedArr(self.unary(op, v.data), v.mask)
        if isinstance(v, (int, float, complex)):
            if op == 'USub':
                return -v
            if op == 'UAdd':
                return +v
            return self.native(_op.invert, v)
        if isinstance(v, Opaque):
            raise Unsupported('operator on ' + v.name)
        araise(TypeError, 'bad operand type for unary operator: %s'
               % self.tname(v))

    def e_BinOp(self, e, sc):
        a = self.ev(e.left, sc)
        b = self.ev(e.right, sc)
        self.frames[-1].lineno = e.lineno
        return self.binop(type(e.op).__name__, a, b)

    DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv',
              'FloorDiv': 'floordiv', 'Mod': 'mod', 'Pow': 'pow',
              'MatMult': 'matmul', 'BitAnd': 'and', 'BitOr': 'or',
              'BitXor': 'xor', 'LShift': 'lshift', 'RShift': 'rshift'}
    UFN = {'Add': 'add', 'Sub': 'subtract', 'Mult': 'multiply',
           'Div': 'true_divide', 'Pow': 'power', 'FloorDiv': 'floor_divide',
           'Mod': 'remainder', 'BitAnd': 'bitwise_and',
           'BitOr': 'bitwise_or', 'BitXor': 'bitwise_xor',
           'MatMult': 'matmul'}
    PYOP = {'Add': _op.add, 'Sub': _op.sub, 'Mult': _op.mul,
            'Div': _op.truediv, 'FloorDiv': _op.floordiv, 'Mod': _op.mod,
            'Pow': _op.pow, 'BitAnd': _op.and_, 'BitOr': _op.or_,
            'BitXor': _op.xor, 'LShift': _op.lshift, 'RShift': _op.rshift,
            'MatMult': _op.matmul}

    def binop(self, op, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('operator on unmodelled value')
        MA = self.np.MaskedArr
        if isinstance(a, MA) or isinstance(b, MA):
            m = a.mask if isinstance(a, MA) else b.mask
            return MA(self.binop(op, a.data if isinstance(a, MA) else a,
                                 b.data if isinstance(b, MA) else b), m)
        pa, pb = isinstance(a, PyObj), isinstance(b, PyObj)
        if pa or pb:
            if isinstance(a, AArr) and pb and op in self.UFN:
                f, _ = b.cls.lookup('__array_ufunc__')
                if f is not None:
                    return self.np.UF[self.UFN[op]](self, a, b)
                r, _ = b.cls.lookup('__r%s__' % self.DUNDER[op])
                if r is None or b.cls.lookup('__array__')[0] is not None:
                    return self.np.UF[self.UFN[op]](self, a, b)
                # ndarray would broadcast over an object scalar
                raise Unsupported('ndarray op object')
            NI = NotImplemented
            if pa:
                f, _ = a.cls.lookup('__%s__' % self.DUNDER[op])
                if f is not None:
                    r = self.call(f, [a, b])
                    if r is not NI:
                        return r
                elif a.native is not None and not pb and isinstance(
                        a.native, list):
                    return self.native(self.PYOP[op], a.native, b)
            if pb:
                f, _ = b.cls.lookup('__r%s__' % self.DUNDER[op])
                if f is not None:
                    r = self.call(f, [b, a])
                    if r is not NI:
                        return r
            if isinstance(b, AArr) and pa and op in self.UFN:
                if a.cls.lookup('__array__')[0] is not None:
                    return self.np.UF[self.UFN[op]](self, a, b)
            na = a.native if pa and isinstance(a.native, list) else a
            nb = b.native if pb and isinstance(b.native, list) else b
            if na is not a or nb is not b:
                return self.native(self.PYOP[op], na, nb)
            if isinstance(a, AArr) or isinstance(b, AArr):
                raise Unsupported('array op object')
            araise(TypeError, 'unsupported operand type(s) for %s: %s and %s'
                   % (op, self.tname(a), self.tname(b)))
        if isinstance(a, AArr) or isinstance(b, AArr):
            o = b if isinstance(a, AArr) else a
            if o is None or isinstance(o, (str, dict, PyFunc)):
                araise(TypeError, 'unsupported operand')
            if op not in self.UFN:
                raise Unsupported('array operator ' + op)
            return self.np.UF[self.UFN[op]](self, a, b)
        if isinstance(a, T) or isinstance(b, T):
            if isinstance(a, (int, float, T)) and isinstance(
                    b, (int, float, T)):
                return self.scalar_op(op, a, b)
            o = b if isinstance(a, T) else a
            if isinstance(o, str) and op == 'Mod':
                return '<str>'
            if isinstance(o, (list, tuple)) and op == 'Mult':
                raise Unsupported('sequence of unknown length')
            if isinstance(o, (list, tuple)) and op in self.UFN:
                # numpy scalar with sequence
                return self.np.UF[self.UFN[op]](
                    self, *[A.stack_nested(x) if x is o else x
                            for x in (a, b)])
            araise(TypeError, 'unsupported operand')
        if isinstance(a, str) and op == 'Mod':
            try:
                return a % b
            except (TypeError, ValueError):
                return '<str>'
        return self.native(self.PYOP[op], a, b)

    def scalar_op(self, op, a, b):
        x, y = tm(a), tm(b)
        if op == 'Add':
            r = x + y
        elif op == 'Sub':
            r = x - y
        elif op == 'Mult':
            r = x * y
        elif op == 'Div':
            if y.op == 'c' and y.a == 0:
                araise(ZeroDivisionError, 'division by zero')
            r = x / y
        elif op == 'Pow':
            r = tt.power(x, y)
        elif op == 'FloorDiv':
            q = tt.div(x, y)
            r = q if q.isint else tt.fn('floor', q)
        elif op == 'Mod':
            r = tt.fn('mod', x, y)
        elif op == 'BitAnd':
            r = tt.land(x, y)
        elif op == 'BitOr':
            r = tt.lor(x, y)
        else:
            raise Unsupported('scalar operator ' + op)
        return A.unwrap(r, 'i' if r.isint and r.op == 'c' and
                        (not isinstance(a, float)) and
                        (not isinstance(b, float)) and op != 'Div' else 'f')

    def inplace(self, op, cur, v):
        if isinstance(cur, PyObj):
            f, _ = cur.cls.lookup('__i%s__' % self.DUNDER[op])
            if f is not None:
                return self.call(f, [cur, v])
            if isinstance(cur.native, list) and op == 'Add':
                self.note_mut(cur)
                self._journal(cur)
                cur.native.extend(self.iterate(v))
                return cur
            return self.binop(op, cur, v)
        if isinstance(cur, AArr):
            if isinstance(v, PyObj) and v.cls.lookup('__array_ufunc__')[0]:
                # ndarray.__iadd__ -> ufunc(cur, v, out=(cur,))
                return self.np.UF[self.UFN[op]](self, cur, v, out=cur)
            if op not in self.UFN:
                raise Unsupported('in-place array operator')
            r = self.np.UF[self.UFN[op]](self, cur, v)
            ra = r if isinstance(r, AArr) else A.scalar_arr(r)
            if not A.cast_ok(cur.dtype, ra.dtype):
                araise(TypeError, "Cannot cast ufunc '%s' output from %s to %s"
                       % (self.UFN[op], ra.dtype, cur.dtype))
            A.setitem(cur, (Ellipsis,), ra)
            return cur
        if isinstance(cur, list):
            if op == 'Add':
                self.note_mut(cur)
                self._journal(cur)
                self.native(cur.extend, self.iterate(v))
                return cur
            if op == 'Mult' and isinstance(v, int):
                self._journal(cur)
                cur[:] = cur * v
                return cur
        if isinstance(cur, _array.array) and op == 'Add':
            self._journal(cur)
            if not isinstance(v, _array.array):
                araise(TypeError, 'can only extend with array')
            cur.extend(v)
            return cur
        if isinstance(cur, set) and op == 'BitOr':
            self._journal(cur)
            cur |= v
            return cur
        return self.binop(op, cur, v)

    def e_Compare(self, e, sc):
        left = self.ev(e.left, sc)
        res = True
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, sc)
            v = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return v
            c = self.cond(v)
            if c is False:
                return False
            if c is not True:
                acc = c if acc is None else tt.land(acc, c)
            left = right
        return True if acc is None else acc

    CMPD = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__',
            'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}
    CMPU = {'Eq': 'equal', 'NotEq': 'not_equal', 'Lt': 'less',
            'LtE': 'less_equal', 'Gt': 'greater', 'GtE': 'greater_equal'}
    CMPP = {'Eq': _op.eq, 'NotEq': _op.ne, 'Lt': _op.lt, 'LtE': _op.le,
            'Gt': _op.gt, 'GtE': _op.ge}

    def compare(self, op, a, b):
        if op == 'Is':
            return self.same(a, b)
        if op == 'IsNot':
            return not self.same(a, b)
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            c = self.cond(r)
            if c is True or c is False:
                return c if op == 'In' else not c
            return c if op == 'In' else tt.lnot(c)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('comparison of unmodelled value')
        for x, y, o in ((a, b, op), (b, a, {'Lt': 'Gt', 'Gt': 'Lt',
                                            'LtE': 'GtE',
                                            'GtE': 'LtE'}.get(op, op))):
            if isinstance(x, PyObj):
                f, _ = x.cls.lookup(self.CMPD[o])
                if f is not None:
                    return self.call(f, [x, y])
        if isinstance(a, PyObj) or isinstance(b, PyObj):
            na = a.native if isinstance(a, PyObj) and isinstance(
                a.native, list) else a
            nb = b.native if isinstance(b, PyObj) and isinstance(
                b.native, list) else b
            if na is not a or nb is not b:
                return self.compare(op, na, nb)
            if isinstance(a, AArr) or isinstance(b, AArr):
                return self.np.UF[self.CMPU[op]](self, a, b)
            if op == 'Eq':
                return a is b
            if op == 'NotEq':
                return a is not b
            araise(TypeError, 'not supported between instances')
        if isinstance(a, AArr) or isinstance(b, AArr):
            o = b if isinstance(a, AArr) else a
            if o is None or isinstance(o, str):
                raise Unsupported('array compared with non-number')
            return self.np.UF[self.CMPU[op]](self, a, b)
        if isinstance(a, T) or isinstance(b, T):
            if not (isinstance(a, (int, float, T)) and
                    isinstance(b, (int, float, T))):
                if op == 'Eq':
                    return False
                if op == 'NotEq':
                    return True
                araise(TypeError, 'not supported between instances')
            x, y = tm(a), tm(b)
            r = {'Eq': lambda: tt.eq(x, y),
                 'NotEq': lambda: tt.lnot(tt.eq(x, y)),
                 'Lt': lambda: tt.lt(x, y), 'LtE': lambda: tt.le(x, y),
                 'Gt': lambda: tt.lt(y, x),
                 'GtE': lambda: tt.le(y, x)}[op]()
            return A.unwrap(r, 'b')
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and \
                op in ('Eq', 'NotEq'):
            r = self.seq_eq(a, b)
            if op == 'Eq':
                return r
            c = self.cond(r)
            return (not c) if c in (True, False) else tt.lnot(c)
        return self.native(self.CMPP[op], a, b)

    def seq_eq(self, a, b):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        acc = []
        for x, y in zip(a, b):
            if x is y:
                continue
            c = self.cond(self.compare('Eq', x, y))
            if c is False:
                return False
            if c is not True:
                acc.append(c)
        if not acc:
            return True
        return A.unwrap(tt.land(*acc), 'b')

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, (bool, type(None))) or isinstance(
                b, (bool, type(None))):
            return False
        if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
            return False
        return False

    def contains(self, box, x):
        if isinstance(box, PyObj):
            f, _ = box.cls.lookup('__contains__')
            if f is not None:
                return self.call(f, [box, x])
            if box.native is not None:
                box = box.native
        if isinstance(box, (dict, set, str, frozenset)):
            return self.native(_op.contains, box, x)
        if isinstance(box, range) and not isinstance(x, T):
            return x in box
        acc = []
        for y in self.iterate(box):
            if y is x:
                return True
            c = self.cond(self.compare('Eq', y, x))
            if c is True:
                return True
            if c is not False:
                acc.append(c)
        if not acc:
            return False
        return A.unwrap(tt.lor(*acc), 'b')

    def comp(self, gens, sc, emit):
        csc = Scope(sc, 'comp', sc.module, sc.cls)

        def go(k):
            if k == len(gens):
                emit(csc)
                return
            g = gens[k]
            src = self.ev(g.iter, sc if k == 0 else csc)
            for v in self.iterate(src, lazy=True):
                self.assign(g.target, v, csc)
                ok = True
                for c in g.ifs:
                    if not self.truth(self.ev(c, csc), c):
                        ok = False
                        break
                if ok:
                    go(k + 1)
        go(0)

    def e_ListComp(self, e, sc):
        out = []
        self.comp(e.generators, sc,
                  lambda csc: out.append(self.ev(e.elt, csc)))
        return out

    def e_SetComp(self, e, sc):
        return set(self.e_ListComp(e, sc))

    def e_GeneratorExp(self, e, sc):
        return iter(self.e_ListComp(e, sc))

    def e_DictComp(self, e, sc):
        out = {}

        def emit(csc):
            out[self.ev(e.key, csc)] = self.ev(e.value, csc)
        self.comp(e.generators, sc, emit)
        return out

    def e_JoinedStr(self, e, sc):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value, sc)
        return '<str>'

    def e_NamedExpr(self, e, sc):
        v = self.ev(e.value, sc)
        s = sc
        while s.kind == 'comp':
            s = s.parent
        self.store(e.target.id, v, s)
        return v

    def e_Starred(self, e, sc):
        raise Unsupported('starred')

    def e_Yield(self, e, sc):
        fr = self.frames[-1]
        fr.yields.append(self.ev(e.value, sc) if e.value else None)
        return None

    def e_YieldFrom(self, e, sc):
        fr = self.frames[-1]
        fr.yields.extend(self.iterate(self.ev(e.value, sc)))
        return None

    def e_Call(self, e, sc):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and \
                not e.args:
            s = sc
            while s is not None and s.kind != 'func':
                s = s.parent
            f = s.d.get('__func__')
            first = s.d.get('__first__')
            return SuperObj(f.cls.cls, first)
        f = self.ev(e.func, sc)
        args = self.elts(e.args, sc)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, sc)
                if isinstance(d, PyObj):
                    raise Unsupported('** of object')
                kw.update(d)
            else:
                kw[k.arg] = self.ev(k.value, sc)
        self.frames[-1].lineno = e.lineno
        if f is self.builtins['locals']:
            return dict(sc.d)
        return self.call(f, args, kw)

    # ------------------------------------------------------------ iteration
    def iterate(self, v, lazy=False):
        if isinstance(v, (list, tuple)):
            return list(v) if not lazy else v
        if isinstance(v, (range, str, _array.array, set, frozenset)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, PyObj):
            f, _ = v.cls.lookup('__iter__')
            if f is not None:
                return self.iterate(self.call(f, [v]))
            if isinstance(v.native, (list, tuple, dict, set)):
                return list(v.native)
            g, _ = v.cls.lookup('__getitem__')
            if g is not None:
                out = []
                k = 0
                while True:
                    try:
                        out.append(self.call(g, [v, k]))
                    except AbsRaise as ar:
                        if isinstance(ar.exc, IndexError):
                            return out
                        raise
                    k += 1
                    if k > 1000:
                        raise Unsupported('long iteration')
            f, _ = v.cls.lookup('__array__')
            araise(TypeError, "'%s' object is not iterable" % v.cls.name)
        if isinstance(v, AArr):
            if v.ndim == 0:
                araise(TypeError, 'iteration over a 0-d array')
            n = v.shape[0]
            if not isinstance(n, int):
                raise Unsupported('iteration over axis of unknown length')
            return [A.getitem(v, (k,)) for k in range(n)]
        if isinstance(v, PyClass) and '__members__' in v.ns:
            return list(v.ns['__members__'])
        if hasattr(v, '__next__'):
            return v if lazy else list(v)
        if isinstance(v, (type({}.items()), type({}.keys()),
                          type({}.values()))):
            return list(v)
        if isinstance(v, SymRange):
            raise Unsupported('loop of unknown length')
        if isinstance(v, Opaque):
            raise Unsupported('iteration over ' + v.name)
        if v is None or isinstance(v, (int, float, T, PyFunc, PyClass)):
            araise(TypeError, "'%s' object is not iterable" % self.tname(v))
        raise Unsupported('iterate %r' % (type(v),))

    # ---------------------------------------------------------- attributes
    def tname(self, v):
        t = self.type_of(v)
        return getattr(t, 'name', None) or getattr(t, '__name__', str(t))

    def type_of(self, v):
        if isinstance(v, PyObj):
            return v.cls
        if isinstance(v, AArr):
            return self.np.NDARRAY
        if isinstance(v, T):
            return int if v.isint else float
        if isinstance(v, PyClass):
            return v.meta or type
        if isinstance(v, EnumMember):
            return v.cls
        return type(v)

    def bind(self, v, obj, owner):
        if isinstance(v, PyFunc):
            return BoundMethod(obj, v)
        if isinstance(v, Model) and v.d.get('method'):
            return BoundMethod(obj, v)
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return BoundMethod(obj.cls if isinstance(obj, PyObj) else obj, v.f)
        if isinstance(v, Prop):
            return self.call(v.fget, [obj])
        return v

    MISSING = object()

    def getattr(self, o, name, default=MISSING):
        try:
            return self._getattr(o, name)
        except AbsRaise as ar:
            if isinstance(ar.exc, AttributeError) and \
                    default is not Interp.MISSING:
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, PyObj):
            if self.attr_hook:
                self.attr_hook('get', o, name)
            if name == '__dict__':
                return o.d
            if name == '__class__':
                return o.cls
            v, owner = o.cls.lookup(name)
            if isinstance(v, Prop):
                return self.call(v.fget, [o])
            if name in o.d:
                return o.d[name]
            if owner is not None:
                return self.bind(v, o, owner)
            if o.native is not None:
                return self._getattr_native(o.native, name, o)
            g, _ = o.cls.lookup('__getattr__')
            if g is not None:
                return self.call(g, [o, name])
            if name in ('__init__', '__setattr__', '__getattribute__',
                        '__delattr__'):
                return self.object_method(name, o)
            araise(AttributeError, "'%s' object has no attribute '%s'"
                   % (o.cls.name, name))
        if isinstance(o, PyClass):
            v, owner = o.lookup(name)
            if owner is not None:
                if isinstance(v, StaticM):
                    return v.f
                if isinstance(v, ClassM):
                    return BoundMethod(o, v.f)
                return v
            if name == '__name__':
                return o.name
            if name == '__dict__':
                return o.ns
            if name == '__mro__':
                return tuple(o.mro)
            if name == '__bases__':
                return tuple(o.bases)
            if isinstance(o.meta, PyClass):
                v, owner = o.meta.lookup(name)
                if owner is not None:
                    return self.bind(v, o, owner)
            nb = o.native_base()
            if nb is not None and hasattr(nb, name):
                return Native(getattr(nb, name), name)
            if name == '__new__':
                return Model(lambda c, *a, **k: PyObj(c), 'object.__new__')
            if name in ('__setattr__', '__delattr__', '__init__'):
                return self.unbound_object(name)
            if name == '__call__' and EnumBase not in o.mro:
                return o
            araise(AttributeError, "type object '%s' has no attribute '%s'"
                   % (o.name, name))
        if isinstance(o, Module):
            if name in o.d:
                return o.d[name]
            sub = o.name + '.' + name
            if sub in self.lib:
                return self.lib[sub]
            if o.path is None:
                return Opaque(sub)
            araise(AttributeError, "module '%s' has no attribute '%s'"
                   % (o.name, name))
        if isinstance(o, Opaque):
            return Opaque(o.name + '.' + name)
        if isinstance(o, BoundMethod):
            if name == '__self__':
                return o.self
            if name == '__func__':
                return o.func
            return self._getattr(o.func, name)
        if isinstance(o, PyFunc):
            if name in o.d:
                return o.d[name]
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == '__doc__':
                return None
            if name == '__module__':
                return o.module.name
            if name == '__dict__':
                return o.d
            if name == '__call__':
                return o
            if name == '__get__':
                return Model(lambda obj, cls=None: BoundMethod(obj, o))
            araise(AttributeError, "'function' object has no attribute '%s'"
                   % name)
        if isinstance(o, SuperObj):
            return self.super_attr(o, name)
        if isinstance(o, EnumMember):
            if name == 'value':
                return o.value
            if name == 'name':
                return o.name
            v, owner = o.cls.lookup(name)
            if owner is not None:
                return self.bind(v, o, owner)
            araise(AttributeError, name)
        if isinstance(o, Partial):
            if name == 'func':
                return o.f
            araise(AttributeError, name)
        if isinstance(o, Model):
            if name in o.d:
                return o.d[name]
            if name in ('__name__', '__qualname__'):
                return o.name
            araise(AttributeError, name)
        if isinstance(o, Native):
            if name == '__name__':
                return o.name
            araise(AttributeError, name)
        if isinstance(o, (AArr, T)) or (isinstance(o, (int, float)) and
                                        not isinstance(o, type)):
            return self.np.array_attr(self, o, name)
        if isinstance(o, self.np.AttrObj):
            return o.getattr(self, name)
        if isinstance(o, self.np.UFunc):
            return o.attr(self, name)
        if isinstance(o, A.MaskSel):
            if name == 'sum':
                return Model(lambda *a, **k: o.sum(), 'sum')
            raise Unsupported('masked selection attribute ' + name)
        if o is object or isinstance(o, type):
            if o is object and name in ('__setattr__', '__delattr__',
                                        '__init__'):
                return self.unbound_object(name)
            if o is object and name == '__new__':
                return Model(lambda c, *a, **k: PyObj(c), 'object.__new__')
            if o is type and name == '__new__':
                return Model(self.type_new, 'type.__new__')
            if hasattr(o, name):
                return Native(getattr(o, name), name)
            araise(AttributeError, name)
        return self._getattr_native(o, name)

    def _getattr_native(self, n, name, holder=None):
        if isinstance(n, (list, tuple, dict, set, str, _array.array, range,
                          frozenset, slice, BaseException, np.dtype)) or \
                hasattr(n, '__next__') or isinstance(
                    n, (type({}.items()), type({}.keys()))):
            if not hasattr(n, name):
                araise(AttributeError, "'%s' object has no attribute '%s'"
                       % (type(n).__name__, name))
            v = getattr(n, name)
            if not callable(v):
                return v
            for ty, names in MUTATORS.items():
                if isinstance(n, ty) and name in names:
                    tgt = holder if holder is not None else n

                    def mut(*a, **k):
                        self.note_mut(tgt)
                        self._journal(tgt)
                        return self._native_method(v, name, a, k)
                    return Native(mut, name)
            return Native(lambda *a, **k: self._native_method(v, name, a, k),
                          name)
        if n is None:
            araise(AttributeError, "'NoneType' object has no attribute '%s'"
                   % name)
        raise Unsupported('attribute %s of %r' % (name, type(n)))

    def _native_method(self, v, name, a, k):
        if name in ('index', 'count', 'remove'):
            n = v.__self__
            if isinstance(n, (list, tuple)):
                hits = []
                for i, y in enumerate(n):
                    c = self.cond(self.compare('Eq', y, a[0]))
                    if c is True:
                        hits.append(i)
                    elif c is not False:
                        raise Unsupported('search for unknown value')
                if name == 'count':
                    return len(hits)
                if not hits:
                    raise ValueError('%r is not in list' % (a[0],))
                if name == 'index':
                    return hits[0]
                del n[hits[0]]
                return None
        if name == 'extend' or name == 'join':
            if name == 'join':
                return '<str>'
            if isinstance(v.__self__, _array.array):
                return v(*[_array.array('b', self.iterate(x)) if not
                           isinstance(x, _array.array) else x for x in a])
            x = a[0]
            if isinstance(x, (int, float, T)) or x is None:
                raise TypeError("object is not iterable")
            return v(self.iterate(x))
        if name == 'sort':
            lst = v.__self__
            lst[:] = self.sorted(lst, **k)
            return None
        if name == 'format':
            return '<str>'
        return v(*a, **k)

    def sorted(self, x, key=None, reverse=False):
        xs = list(self.iterate(x))
        ks = [self.call(key, [v]) if key is not None else v for v in xs]
        if any(isinstance(k, T) for k in ks):
            raise Unsupported('sort of unknown values')
        order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(reverse))
        return [xs[i] for i in order]

    def object_method(self, name, o):
        u = self.unbound_object(name)
        return BoundMethod(o, u)

    def unbound_object(self, name):
        if name == '__setattr__':
            def f(o, k, v):
                self.note_mut(o)
                self._journal(o)
                o.d[k] = v
            return Model(f, 'object.__setattr__')
        if name == '__delattr__':
            def g(o, k):
                self.note_mut(o)
                self._journal(o)
                if k not in o.d:
                    araise(AttributeError, k)
                del o.d[k]
            return Model(g, 'object.__delattr__')
        return Model(lambda o, *a, **k: None, 'object.__init__')

    def super_attr(self, s, name):
        obj = s.obj
        cls = obj.cls if isinstance(obj, PyObj) else obj
        mro = cls.mro if isinstance(cls, PyClass) else [cls]
        k = mro.index(s.cls) if s.cls in mro else -1
        for c in mro[k + 1:]:
            if isinstance(c, PyClass):
                if name in c.ns:
                    v = c.ns[name]
                    if name == '__new__':
                        return v.f if isinstance(v, StaticM) else v
                    return self.bind(v, obj, c)
            elif c is type or (isinstance(c, Model) and c.name == 'ABCMeta'):
                if name == '__new__':
                    return Model(self.type_new, 'type.__new__')
                if name == '__init__':
                    return Model(lambda *a, **k: None)
            elif isinstance(c, type) and issubclass(c, BaseException):
                if name == '__init__':
                    def init(*args):
                        obj.d['args'] = tuple(args)
                    return Model(init, 'Exception.__init__')
            elif isinstance(c, type) and c is not object and \
                    isinstance(obj, PyObj) and obj.native is not None:
                if name == '__init__':
                    def linit(*args):
                        if args:
                            obj.native.extend(self.iterate(args[0]))
                    return Model(linit, 'native.__init__')
                if hasattr(obj.native, name):
                    return self._getattr_native(obj.native, name, obj)
        if name in ('__init__', '__setattr__', '__delattr__'):
            return self.object_method(name, obj)
        if name == '__new__':
            return Model(lambda c, *a, **k: PyObj(c), 'object.__new__')
        araise(AttributeError, "'super' object has no attribute '%s'" % name)

    def setattr(self, o, name, v):
        if isinstance(o, PyObj):
            f, owner = o.cls.lookup('__setattr__')
            if f is not None:
                self.call(f, [o, name, v])
                return
            p, _ = o.cls.lookup(name)
            if isinstance(p, Prop):
                if p.fset is None:
                    araise(AttributeError, "can't set attribute")
                self.call(p.fset, [o, v])
                return
            if self.attr_hook:
                self.attr_hook('set', o, name)
            self.note_mut(o)
            self._journal(o)
            o.d[name] = v
            return
        if isinstance(o, PyFunc):
            self._journal(o)
            o.d[name] = v
            return
        if isinstance(o, PyClass):
            self._journal(o)
            o.ns[name] = v
            return
        if isinstance(o, Module):
            self._journal(o)
            o.d[name] = v
            return
        if isinstance(o, self.np.AttrObj):
            o.setattr(self, name, v)
            return
        if isinstance(o, AArr):
            if name == 'shape':
                raise Unsupported('in-place reshape')
            araise(AttributeError, name)
        if isinstance(o, Model):
            o.d[name] = v
            return
        if isinstance(o, BoundMethod):
            araise(AttributeError, "'method' object has no attribute")
        raise Unsupported('setattr on %r' % type(o))

    def delattr(self, o, name):
        if isinstance(o, PyObj):
            f, _ = o.cls.lookup('__delattr__')
            if f is not None:
                self.call(f, [o, name])
                return
            self.note_mut(o)
            self._journal(o)
            if name not in o.d:
                araise(AttributeError, name)
            del o.d[name]
            return
        raise Unsupported('delattr')

    def getitem(self, o, k):
        if isinstance(o, AArr):
            return self.model_call(lambda: A.getitem(o, self.np.key(self, k)))
        if isinstance(o, PyObj):
            f, _ = o.cls.lookup('__getitem__')
            if f is not None:
                return self.call(f, [o, k])
            if o.native is not None:
                return self.getitem(o.native, k)
            araise(TypeError, "'%s' object is not subscriptable" % o.cls.name)
        if isinstance(o, self.np.AttrObj):
            return o.getitem(self, k)
        if isinstance(o, PyClass):
            if '__members__' in o.ns:
                return o.ns[k]
            return o
        if isinstance(o, (list, tuple, range, str, _array.array)):
            if isinstance(k, AArr) and k.ndim == 0:
                k = k.item()
            if isinstance(k, slice):
                k = slice(*[x.item() if isinstance(x, AArr) else x
                            for x in (k.start, k.stop, k.step)])
                if any(isinstance(x, T) for x in (k.start, k.stop, k.step)):
                    raise Unsupported('slice at unknown position')
            if isinstance(k, T):
                if k.isint and isinstance(o, (list, tuple)) and o and all(
                        isinstance(x, (int, float, T)) for x in o):
                    raise Unsupported('index of unknown value')
                raise Unsupported('index of unknown value')
            return self.native(_op.getitem, o, k)
        if isinstance(o, dict):
            return self.native(_op.getitem, o, k)
        if isinstance(o, (T, int, float)) and not isinstance(o, type):
            # numbers computed by numpy accept new axes
            if all(x is None or x is Ellipsis for x in (
                    k if isinstance(k, tuple) else (k,))):
                return self.model_call(lambda: A.getitem(
                    A.scalar_arr(o), self.np.key(self, k)))
            araise(TypeError, "'%s' object is not subscriptable"
                   % self.tname(o))
        if o is None:
            araise(TypeError, "'NoneType' object is not subscriptable")
        if isinstance(o, (PyFunc, BoundMethod, Model, Native)):
            araise(TypeError, 'function object is not subscriptable')
        raise Unsupported('subscript of %r' % (o,))

    def setitem(self, o, k, v):
        if isinstance(o, AArr):
            v2 = self.np.coerce(self, v)
            self.model_call(lambda: A.setitem(o, self.np.key(self, k), v2))
            return
        if isinstance(o, PyObj):
            f, _ = o.cls.lookup('__setitem__')
            if f is not None:
                self.call(f, [o, k, v])
                return
            if o.native is not None:
                self.note_mut(o)
                self._journal(o)
                self.native(_op.setitem, o.native, k, v)
                return
            araise(TypeError, 'object does not support item assignment')
        if isinstance(o, self.np.AttrObj):
            o.setitem(self, k, v)
            return
        if isinstance(o, (list, dict, _array.array)):
            if isinstance(k, T):
                raise Unsupported('store at unknown index')
            if isinstance(k, AArr) and k.ndim == 0:
                k = k.item()
            self.note_mut(o)
            self._journal(o)
            if isinstance(k, slice):
                v = list(self.iterate(v))
            self.native(_op.setitem, o, k, v)
            return
        if isinstance(o, (tuple, str, int, float, T)) or o is None:
            araise(TypeError, 'object does not support item assignment')
        raise Unsupported('item store on %r' % type(o))

    # ---------------------------------------------------------------- calls
    def native(self, f, *a, **k):
        try:
            return f(*a, **k)
        except (AbsRaise, Unsupported, _Return, _Break, _Continue):
            raise
        except NATIVE_ERRORS as e:
            raise AbsRaise(e)

    def model_call(self, f, *a, **k):
        try:
            return f(*a, **k)
        except (AbsRaise, Unsupported, _Return, _Break, _Continue,
                RecursionError):
            raise
        except Exception as e:
            raise Unsupported('%s in model: %s' % (type(e).__name__, e))

    def call(self, f, args, kw=None):
        kw = kw or {}
        if self.call_hook is not None:
            r = self.call_hook(f, args, kw)
            if r is not None:
                return r[0]
        if isinstance(f, PyFunc):
            return self.call_func(f, args, kw)
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self] + list(args), kw)
        if isinstance(f, Model):
            return self.model_call(f.f, *args, **kw)
        if isinstance(f, Native):
            return self.native(f.f, *args, **kw)
        if isinstance(f, PyClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, self.np.UFunc):
            return self.model_call(f, self, *args, **kw)
        if isinstance(f, Partial):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.f, list(f.args) + list(args), k2)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kw)
        if isinstance(f, PyObj):
            c, _ = f.cls.lookup('__call__')
            if c is None:
                araise(TypeError, "'%s' object is not callable" % f.cls.name)
            return self.call(self.bind(c, f, None), args, kw)
        if isinstance(f, self.np.AttrObj):
            return self.model_call(f.call, self, args, kw)
        if isinstance(f, Opaque):
            raise Unsupported('call of ' + f.name)
        if isinstance(f, type):
            if issubclass(f, BaseException):
                return f(*args)
            b = self.TYPECALL.get(f)
            if b is not None:
                return self.native(getattr(self, b), *args, **kw)
            if f is object:
                return PyObj(PyClass('object', [object], {}))
            raise Unsupported('call of type %s' % f.__name__)
        if isinstance(f, EnumMember):
            araise(TypeError, 'Enum member is not callable')
        araise(TypeError, "'%s' object is not callable" % self.tname(f))

    def instantiate(self, c, args, kw):
        if EnumBase in c.mro:
            for m in c.ns['__members__']:
                if m.value is args[0]:
                    return m
            araise(ValueError, 'not a valid member')
        if type in c.mro:      # metaclass call
            return self.make_class(c, args[0], args[1], args[2], kw)
        new, _ = c.lookup('__new__')
        if new is not None:
            o = self.call(new.f if isinstance(new, StaticM) else new,
                          [c] + list(args), kw)
            if not (isinstance(o, PyObj) and c in o.cls.mro):
                return o
        else:
            o = PyObj(c)
        nb = c.native_base()
        if nb is not None and o.native is None:
            if issubclass(nb, BaseException):
                o.native = nb()
                o.d['args'] = tuple(args)
            elif nb in (list, dict, set):
                o.native = nb()
        init, _ = c.lookup('__init__')
        if init is not None:
            self.call(self.bind(init, o, None), args, kw)
        elif nb in (list, dict, set):
            if args:
                if nb is dict:
                    o.native.update(args[0])
                elif nb is list:
                    self.native(o.native.extend, self.iterate(args[0]))
        elif (args or kw) and nb is None and new is None:
            araise(TypeError, '%s() takes no arguments' % c.name)
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + \
            [x.arg for x in a.args]
        d = {}
        args = list(args)
        kw = dict(kw)
        if len(args) > len(names):
            if a.vararg is None:
                araise(TypeError, '%s() takes %d positional arguments but %d '
                       'were given' % (f.name, len(names), len(args)))
            d[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            d[a.vararg.arg] = ()
        for n, v in zip(names, args):
            d[n] = v
        for k in list(kw):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in d:
                    araise(TypeError, "%s() got multiple values for argument "
                           "'%s'" % (f.name, k))
                d[k] = kw.pop(k)
        if kw:
            if a.kwarg is None:
                araise(TypeError, "%s() got an unexpected keyword argument "
                       "'%s'" % (f.name, next(iter(kw))))
            d[a.kwarg.arg] = kw
        elif a.kwarg is not None:
            d[a.kwarg.arg] = {}
        nd = len(f.defaults)
        for k, n in enumerate(names):
            if n not in d:
                j = k - (len(names) - nd)
                if j < 0:
                    araise(TypeError, "%s() missing required positional "
                           "argument: '%s'" % (f.name, n))
                d[n] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in d:
                if x.arg not in f.kwdefaults:
                    araise(TypeError, 'missing keyword-only argument')
                d[x.arg] = f.kwdefaults[x.arg]
        return d, (names[0] if names else
                   (a.vararg.arg if a.vararg else None))

    def run_func(self, f, args, kw, prefix=()):
        d, first = self.bind_args(f, args, kw)
        sc = Scope(f.scope, 'func', f.module, f.cls)
        sc.d.update(d)
        sc.d['__func__'] = f
        if first is not None:
            v = d.get(first)
            sc.d['__first__'] = v[0] if isinstance(v, tuple) and v and \
                first not in [x.arg for x in f.node.args.args] else v
        fr = Frame(f)
        fr.prefix = list(prefix)
        if f.isgen:
            fr.yields = []
        self.frames.append(fr)
        if len(self.frames) > 250:
            top = set(id(x.func) for x in self.frames[-200:])
            self.frames.pop()
            if len(top) <= 2:
                araise(RecursionError, 'maximum recursion depth exceeded')
            raise Unsupported('call depth')
        self.touched.add((f.module.name if f.module else '?', f.name,
                          getattr(f.node, 'lineno', 0)))
        try:
            if isinstance(f.node, ast.Lambda):
                r = self.ev(f.node.body, sc)
            else:
                try:
                    self.block(f.node.body, sc)
                    r = None
                except _Return as ret:
                    r = ret.v
            if f.isgen:
                r = iter(fr.yields)
            return fr, ('ret', r)
        except AbsRaise as ar:
            return fr, ('raise', ar)
        finally:
            self.frames.pop()

    def call_func(self, f, args, kw):
        self.journals.append({})
        try:
            fr, out = self.run_func(f, args, kw)
        except BaseException:
            self._commit()
            raise
        if not fr.trace:
            self._commit()
            if out[0] == 'raise':
                raise out[1]
            return out[1]
        # conditions on unknown data: analyse every arm, join at exit
        paths = []
        while True:
            j = self.journals[-1]
            post = {k: (o, self._snap(o)) for k, (o, pre) in j.items()}
            pre = {k: p for k, (o, p) in j.items()}
            for k, (o, p) in j.items():
                self._restore(o, p)
            paths.append((list(fr.trace), out, post, pre))
            if len(paths) > self.MAXPATHS:
                self.journals.pop()
                raise Unsupported('too many data-dependent branches in '
                                  + f.name)
            # next prefix
            tr = [b for _, b, _ in fr.trace]
            while tr and tr[-1] is False:
                tr.pop()
            if not tr:
                break
            tr[-1] = False
            self.journals[-1] = {}
            try:
                fr, out = self.run_func(f, args, kw, tr)
            except BaseException:
                for k, (o, p) in self.journals[-1].items():
                    self._restore(o, p)
                self.journals.pop()
                raise
        self.journals.pop()
        return self.join_paths(f, paths)

    def _commit(self):
        j = self.journals.pop()
        if self.journals:
            o = self.journals[-1]
            for k, e in j.items():
                if k not in o:
                    o[k] = e

    def join_paths(self, f, paths):
        live = [p for p in paths if p[1][0] == 'ret']
        dead = [p for p in paths if p[1][0] == 'raise']
        if not live:
            raise dead[0][1][1]
        for tr, out, post, pre in dead:
            d = tt.land(*[c if b else tt.lnot(c) for c, b, _ in tr])
            if not d.fv:
                self.dropped.append(d)
            self.assumed.append((tt.lnot(tt.land(*[
                c if b else tt.lnot(c) for c, b, _ in tr])),
                '%s: no exception' % f.name))
        conds = [tt.land(*[c if b else tt.lnot(c) for c, b, _ in p[0]])
                 for p in live]
        r = live[-1][1][1]
        for c, p in zip(reversed(conds[:-1]), reversed(live[:-1])):
            r = self.join(c, p[1][1], r)
        # heap
        objs = {}
        for p in live:
            for k, (o, s) in p[2].items():
                objs[k] = (o, p[3][k])
        for k, (o, pre) in objs.items():
            states = [p[2][k][1] if k in p[2] else pre for p in live]
            s = states[-1]
            for c, x in zip(reversed(conds[:-1]), reversed(states[:-1])):
                s = self.join_state(o, c, x, s)
            self._journal(o)
            self._restore(o, s)
        return r

    def join_state(self, o, c, x, y):
        if x is y:
            return x
        if isinstance(o, A.Base):
            return A.State(lambda idx: tt.ite(c, x.get(idx), y.get(idx)),
                           o.shape)
        if isinstance(o, PyObj):
            d = {}
            for k in set(x[0]) | set(y[0]):
                if k not in x[0] or k not in y[0]:
                    raise Unsupported('attribute set on one branch only')
                d[k] = self.join(c, x[0][k], y[0][k])
            return (d, self.join(c, x[1], y[1]))
        if isinstance(o, (list, dict)):
            return self.join(c, x, y)
        raise Unsupported('join of heap object')

    def join(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, (int, float, bool, T)) and \
                isinstance(b, (int, float, bool, T)):
            if type(a) is type(b) and not isinstance(a, T) and a == b:
                return a
            return A.unwrap(tt.ite(c, tm(a), tm(b)),
                            'b' if isinstance(a, bool) and
                            isinstance(b, bool) else 'f')
        if isinstance(a, AArr) and isinstance(b, AArr):
            if a.ndim == b.ndim and all(A.dimeq(p, q) for p, q in
                                        zip(a.shape, b.shape)):
                return A.emap(lambda x, y: tt.ite(c, x, y), [a, b],
                              out_scalar=False)
            raise Unsupported('join of arrays of different shape')
        if isinstance(a, (AArr, T, int, float)) and \
                isinstance(b, (AArr, T, int, float)):
            aa = a if isinstance(a, AArr) else A.scalar_arr(a)
            bb = b if isinstance(b, AArr) else A.scalar_arr(b)
            return self.join(c, aa, bb)
        if type(a) is type(b) and isinstance(a, (list, tuple)) and \
                len(a) == len(b):
            return type(a)(self.join(c, x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
            return {k: self.join(c, a[k], b[k]) for k in a}
        if isinstance(a, PyObj) and isinstance(b, PyObj) and \
                a.cls is b.cls and set(a.d) == set(b.d):
            o = PyObj(a.cls)
            for k in a.d:
                o.d[k] = self.join(c, a.d[k], b.d[k])
            if a.native is not None or b.native is not None:
                o.native = self.join(c, a.native, b.native)
            return o
        try:
            if not isinstance(a, (PyObj, AArr)) and a == b:
                return a
        except Exception:
            pass
        raise Unsupported('join of %s and %s' % (self.tname(a),
                                                 self.tname(b)))

    # ------------------------------------------------------------- builtins
    TYPECALL = {int: 'b_int', float: 'b_float', bool: 'b_bool', str: 'b_str',
                list: 'b_list', tuple: 'b_tuple', dict: 'b_dict', set: 'b_set',
                type: 'b_type', range: 'b_range', enumerate: 'b_enumerate',
                zip: 'b_zip', map: 'b_map', filter: 'b_filter',
                slice: 'b_slice', reversed: 'b_reversed',
                property: 'b_property', staticmethod: 'b_static',
                classmethod: 'b_classm', super: 'b_super',
                frozenset: 'b_frozenset', complex: 'b_float',
                _array.array: 'b_array'}

    def b_array(self, code, init=()):
        out = _array.array(code)
        if isinstance(init, (bytes, str)):
            return _array.array(code, init)
        for x in self.iterate(init):
            if isinstance(x, AArr) and x.ndim == 0:
                x = x.item()
            if isinstance(x, T):
                raise Unsupported('array.array of unknown numbers')
            out.append(int(x) if code not in 'fd' and
                       not isinstance(x, float) else x)
        return out

    def b_int(self, x=0, *a):
        if isinstance(x, AArr):
            if x.ndim:
                n = x.size
                if not (isinstance(n, int) and n == 1):
                    raise TypeError('only size-1 arrays can be converted')
                x = A.unwrap(x.elem((0,) * x.ndim), x.dtype)
            else:
                x = x.item()
        if isinstance(x, T):
            x = tt.numify(x)
            return A.unwrap(tt.fn('int', x), 'i')
        if isinstance(x, PyObj):
            for m in ('__int__', '__float__'):
                f, _ = x.cls.lookup(m)
                if f is not None:
                    return self.b_int(self.call(f, [x]))
            raise TypeError('int() argument')
        return int(x, *a)

    def b_float(self, x=0.0):
        if isinstance(x, AArr):
            n = x.size
            if not (isinstance(n, int) and n == 1):
                raise TypeError('only size-1 arrays can be converted to '
                                'Python scalars')
            x = A.unwrap(x.elem((0,) * x.ndim), x.dtype)
        if isinstance(x, T):
            return tt.numify(x)
        if isinstance(x, PyObj):
            f, _ = x.cls.lookup('__float__')
            if f is None:
                raise TypeError('float() argument must be a number')
            return self.b_float(self.call(f, [x]))
        return float(x)

    def b_bool(self, x=False):
        c = self.cond(x)
        return c

    def b_str(self, *a):
        if a and isinstance(a[0], (str, int, float)) and not isinstance(
                a[0], T):
            return str(a[0])
        return '<str>'

    def b_list(self, x=()):
        return list(self.iterate(x))

    def b_tuple(self, x=()):
        return tuple(self.iterate(x))

    def b_set(self, x=()):
        return set(self.iterate(x))

    def b_frozenset(self, x=()):
        return frozenset(self.iterate(x))

    def b_dict(self, *a, **k):
        if a and isinstance(a[0], PyObj):
            raise Unsupported('dict(object)')
        if a and not isinstance(a[0], dict):
            return dict([tuple(self.iterate(p)) for p in
                         self.iterate(a[0])], **k)
        return dict(*a, **k)

    def b_type(self, *a):
        if len(a) == 1:
            return self.type_of(a[0])
        return self.type_new(type, *a)

    def b_range(self, *a):
        b = []
        for x in a:
            if isinstance(x, AArr) and x.ndim == 0:
                x = x.item()
            if isinstance(x, float):
                raise TypeError("'float' object cannot be interpreted as an "
                                "integer")
            if isinstance(x, T):
                if x.op == 'c':
                    x = int(x.a)
                else:
                    return SymRange(a)
            b.append(x)
        return range(*b)

    def b_enumerate(self, x, start=0):
        return iter([(k + start, v) for k, v in enumerate(self.iterate(x))])

    def b_zip(self, *xs):
        return iter(list(zip(*[self.iterate(x) for x in xs])))

    def b_map(self, f, *xs):
        return iter([self.call(f, list(t)) for t in
                     zip(*[self.iterate(x) for x in xs])])

    def b_filter(self, f, x):
        return iter([v for v in self.iterate(x) if self.truth(
            v if f is None else self.call(f, [v]))])

    def b_slice(self, *a):
        return slice(*a)

    def b_reversed(self, x):
        return iter(list(self.iterate(x))[::-1])

    def b_property(self, fget=None, fset=None, *a):
        return Prop(fget, fset)

    def b_static(self, f):
        return StaticM(f)

    def b_classm(self, f):
        return ClassM(f)

    def b_super(self, cls, obj):
        return SuperObj(cls, obj)

    def isinstance(self, v, cls):
        if isinstance(cls, tuple):
            return any(self.isinstance(v, c) for c in cls)
        if isinstance(cls, PyClass):
            if isinstance(v, PyObj):
                return cls in v.cls.mro
            if isinstance(v, EnumMember):
                return cls in v.cls.mro
            if isinstance(v, PyClass):
                return isinstance(v.meta, PyClass) and cls in v.meta.mro
            return False
        if isinstance(cls, Opaque):
            raise Unsupported('isinstance of ' + cls.name)
        if isinstance(cls, self.np.NpType):
            return cls.check(v)
        if isinstance(v, PyObj):
            if cls is object:
                return True
            return any(isinstance(c, type) and isinstance(cls, type) and
                       issubclass(c, cls) for c in v.cls.mro)
        if isinstance(v, T):
            if v.op in tt.BOOLOPS:
                return cls in (bool, int, object)
            if cls is float:
                return not v.isint
            if cls is int:
                return v.isint
            return cls is object
        if isinstance(v, AArr):
            return cls is object
        if isinstance(v, (PyFunc,)):
            return cls is object
        if isinstance(v, PyClass):
            return cls is type or cls is object
        if isinstance(cls, type):
            return isinstance(v, cls)
        raise Unsupported('isinstance with %r' % (cls,))

    def issubclass(self, c, cls):
        if isinstance(cls, tuple):
            return any(self.issubclass(c, x) for x in cls)
        if isinstance(c, PyClass):
            if isinstance(cls, PyClass):
                return cls in c.mro
            return cls in c.mro
        return isinstance(cls, type) and issubclass(c, cls)

    def b_len(self, x):
        if isinstance(x, AArr):
            if x.ndim == 0:
                raise TypeError('len() of unsized object')
            return x.shape[0]
        if isinstance(x, PyObj):
            f, _ = x.cls.lookup('__len__')
            if f is not None:
                return self.call(f, [x])
            if x.native is not None:
                return len(x.native)
            raise TypeError("object of type '%s' has no len()" % x.cls.name)
        if isinstance(x, (T, int, float)):
            raise TypeError('object of type number has no len()')
        if isinstance(x, self.np.AttrObj):
            return x.len(self)
        return len(x)

    def b_sum(self, xs, start=0):
        r = start
        for x in self.iterate(xs):
            r = self.binop('Add', r, x)
        return r

    def b_minmax(self, which, *a, **k):
        if len(a) == 1:
            xs = list(self.iterate(a[0]))
        else:
            xs = list(a)
        if k.get('key') is not None:
            ks = [self.call(k['key'], [x]) for x in xs]
            if any(isinstance(q, (T, AArr)) for q in ks):
                raise Unsupported('min/max key')
            i = (min if which == 'min' else max)(range(len(xs)),
                                                 key=lambda i: ks[i])
            return xs[i]
        if not xs:
            if 'default' in k:
                return k['default']
            raise ValueError('%s() arg is an empty sequence' % which)
        xs = [self.plain(x) for x in xs]
        r = xs[0]
        for x in xs[1:]:
            if isinstance(r, (T,)) or isinstance(x, T):
                c = self.compare('Lt' if which == 'min' else 'Gt', x, r)
                cc = self.cond(c)
                if cc is True:
                    r = x
                elif cc is False:
                    pass
                else:
                    r = A.unwrap(tt.fn(which, tm(r), tm(x)),
                                 'f')
            else:
                if self.truth(self.compare(
                        'Lt' if which == 'min' else 'Gt', x, r)):
                    r = x
        return r

    def plain(self, x):
        if isinstance(x, AArr):
            n = x.size
            if isinstance(n, int) and n == 1:
                return A.unwrap(x.elem((0,) * x.ndim), x.dtype)
        return x

    def b_abs(self, x):
        if isinstance(x, (AArr, T)):
            return self.np.UF['absolute'](self, x)
        if isinstance(x, PyObj):
            f, _ = x.cls.lookup('__abs__')
            if f is None:
                raise TypeError('bad operand type for abs()')
            return self.call(f, [x])
        return abs(x)

    def b_anyall(self, isall, xs):
        acc = None
        for x in self.iterate(xs):
            c = self.cond(x)
            if c is True:
                if not isall:
                    return True
            elif c is False:
                if isall:
                    return False
            else:
                acc = c if acc is None else (
                    tt.land(acc, c) if isall else tt.lor(acc, c))
        if acc is None:
            return isall
        return acc

    def b_hash(self, x):
        if isinstance(x, PyObj):
            f, _ = x.cls.lookup('__hash__')
            if f is not None:
                return self.call(f, [x])
        if isinstance(x, (AArr, list, dict, set)):
            raise TypeError('unhashable type: %r' % self.tname(x))
        if isinstance(x, T):
            raise Unsupported('hash of an unknown number')
        return hash(x) if isinstance(x, (int, float, str)) else id(x)

    def b_hasattr(self, o, n):
        try:
            self._getattr(o, n)
            return True
        except AbsRaise as ar:
            if isinstance(ar.exc, AttributeError):
                return False
            raise

    def b_callable(self, x):
        if isinstance(x, PyObj):
            return x.cls.lookup('__call__')[0] is not None
        return isinstance(x, (PyFunc, PyClass, BoundMethod, Model, Native,
                              Partial, type, self.np.UFunc))

    def b_next(self, it, *d):
        try:
            return next(it)
        except StopIteration:
            if d:
                return d[0]
            raise

    def b_iter(self, x):
        return iter(list(self.iterate(x)))

    def b_round(self, x, n=0):
        if isinstance(x, T) and not n:
            return tt.fn('floor', x + tt.const(1) / tt.const(2))
        if isinstance(x, (T, AArr)):
            raise Unsupported('round')
        return round(x, n)

    def b_divmod(self, a, b):
        return (self.binop('FloorDiv', a, b), self.binop('Mod', a, b))

    def _builtins(self):
        N = Native
        d = {
            'len': N(self.b_len, 'len'), 'sum': N(self.b_sum, 'sum'),
            'min': N(lambda *a, **k: self.b_minmax('min', *a, **k), 'min'),
            'max': N(lambda *a, **k: self.b_minmax('max', *a, **k), 'max'),
            'abs': N(self.b_abs, 'abs'),
            'all': N(lambda x: self.b_anyall(True, x), 'all'),
            'any': N(lambda x: self.b_anyall(False, x), 'any'),
            'isinstance': N(self.isinstance, 'isinstance'),
            'issubclass': N(self.issubclass, 'issubclass'),
            'getattr': N(lambda o, n, *d: self.getattr(o, n, *d), 'getattr'),
            'setattr': N(self.setattr, 'setattr'),
            'delattr': N(self.delattr, 'delattr'),
            'hasattr': N(self.b_hasattr, 'hasattr'),
            'callable': N(self.b_callable, 'callable'),
            'print': N(lambda *a, **k: None, 'print'),
            'sorted': N(self.sorted, 'sorted'),
            'iter': N(self.b_iter, 'iter'), 'next': N(self.b_next, 'next'),
            'id': N(id, 'id'), 'hash': N(self.b_hash, 'hash'),
            'repr': N(lambda x: '<str>', 'repr'),
            'round': N(self.b_round, 'round'),
            'pow': N(lambda a, b: self.binop('Pow', a, b), 'pow'),
            'divmod': N(self.b_divmod, 'divmod'),
            'vars': N(lambda o: o.d, 'vars'),
            'locals': N(lambda: None, 'locals'),
            'globals': N(lambda: self.frames[-1].func.module.d, 'globals'),
            'NotImplemented': NotImplemented, 'Ellipsis': Ellipsis,
            'True': True, 'False': False, 'None': None, '__debug__': True,
            'object': object,
        }
        for t in (int, float, bool, str, list, tuple, dict, set, type, range,
                  enumerate, zip, map, filter, slice, reversed, property,
                  staticmethod, classmethod, super, frozenset, complex):
            d[t.__name__] = t
        for n in dir(_bi):
            v = getattr(_bi, n)
            if isinstance(v, type) and issubclass(v, BaseException):
                d[n] = v
        return d


class SymRange(object):
    def __init__(self, args):
        self.args = args
