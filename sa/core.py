"""Checker core: obligations, denotation of abstract tensors, reporting."""
import json
import os
import signal
import sys
import time
import traceback
import itertools
from . import terms as tt
from . import arr as A
from . import valnum
from . import interp as I
from .terms import T, tm
from .arr import AArr, AbsRaise, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')


class AnchorMissing(Exception):
    """the construct a property is anchored in no longer exists"""


class Bad(Exception):
    """an obligation is violated"""


class Timeout(Exception):
    pass


class Engine(object):
    """one abstract interpretation universe over the current source tree"""

    def __init__(self, mods=('maxlike',), root=None, **kw):
        self.I = I.Interp(root or REPO, **kw)
        self.n = itertools.count()
        try:
            for m in mods:
                self.I.load(m)
        except AbsRaise as e:
            raise AnchorMissing('module %s does not load: %s' %
                                (m, exc_text(e)))
        except SyntaxError as e:
            raise AnchorMissing('module does not parse: %s' % e)

    # names -----------------------------------------------------------------
    def get(self, path):
        """'maxlike.func.Exp' -> value"""
        parts = path.split('.')
        for k in range(len(parts), 0, -1):
            name = '.'.join(parts[:k])
            f = os.path.join(self.I.root, *parts[:k])
            if os.path.isdir(f) or os.path.exists(f + '.py'):
                o = self.I.load(name)
                break
        else:
            raise AnchorMissing(path)
        for p in parts[k:]:
            try:
                o = self.I.getattr(o, p)
            except AbsRaise:
                raise AnchorMissing(path)
        return o

    def call(self, f, *args, **kw):
        return self.I.call(f, list(args), kw)

    def m(self, o, name, *args, **kw):
        return self.I.call(self.I.getattr(o, name), list(args), kw)

    def new(self, path, *args, **kw):
        return self.I.call(self.get(path), list(args), kw)

    def attr(self, o, name):
        return self.I.getattr(o, name)

    def src(self, src, name=None):
        """load harness code, interpreted in the same universe"""
        return self.I.load_source(name or 'harness%d' % next(self.n), src)

    def loc(self, path):
        """file:line of the definition named by path"""
        try:
            o = self.get(path)
        except Exception:
            return path
        return loc_of(o, path)

    # symbolic inputs --------------------------------------------------------
    def arr(self, name, shape=(), tag=None, dtype='f', **info):
        shape = tuple(tt.size(n) if isinstance(n, str) else n for n in shape)
        tt.SYMINFO.pop(name, None)
        if not shape:
            tt.SYMINFO.setdefault(name, {}).update(info)
            return A.mk((), lambda i: tt.sym(name, ()), dtype, tag)
        return A.symarr(name, shape, dtype, tag, **info)

    def scalar(self, name, **info):
        tt.SYMINFO.pop(name, None)
        tt.SYMINFO.setdefault(name, {}).update(info)
        return tt.sym(name, ())


def loc_of(o, default='?'):
    while isinstance(o, (I.BoundMethod,)):
        o = o.func
    if isinstance(o, (I.PyFunc,)):
        return '%s:%d %s' % (relpath(o.module.path), o.node.lineno, o.name)
    if isinstance(o, I.PyClass) and o.module is not None:
        return '%s:%d %s' % (relpath(o.module.path),
                             getattr(o.node, 'lineno', 0), o.name)
    return default


def relpath(p):
    return os.path.relpath(p, REPO) if p and p.startswith('/') else str(p)


def exc_text(e):
    x = e.exc
    if isinstance(x, I.PyObj):
        return '%s%r' % (x.cls.name, tuple(
            a for a in x.d.get('args', ()) if isinstance(a, (str, int)))[:1])
    return '%s: %s' % (type(x).__name__, x)


def exc_name(e):
    x = e.exc
    if isinstance(x, I.PyObj):
        return x.cls.name
    if isinstance(x, I.PyClass):
        return x.name
    if isinstance(x, type):
        return x.__name__
    return type(x).__name__


# ---------------------------------------------------------------- denotation
class Dense(object):
    """dense array denoted by a tensor: four groups of axes and a term for
    every position.  Axes of length one broadcast."""

    def __init__(self, groups, fn):
        self.groups = tuple(tuple(g) for g in groups)
        self.fn = fn

    @property
    def counts(self):
        return tuple(len(g) for g in self.groups)

    def at(self, idx4):
        """idx4: four index tuples"""
        out = []
        for g, ix_ in zip(self.groups, idx4):
            if len(g) == 0:
                out.append(())
            else:
                if len(ix_) != len(g):
                    raise Bad('axis count %d, expected %d' %
                              (len(g), len(ix_)))
                out.append(tuple(0 if (isinstance(n, int) and n == 1) else i
                                 for n, i in zip(g, ix_)))
        return self.fn(*out)

    @property
    def shape(self):
        return sum(self.groups, ())


def fld(E, o, name):
    try:
        return E.I.getattr(o, name)
    except AbsRaise:
        raise Unsupported('no field %s on %s' % (name, E.I.tname(o)))


def as_arr(v):
    if isinstance(v, AArr):
        return v
    return A.scalar_arr(v)


def dense(E, o):
    """independent reading of the abstract tensor o (or array / number)"""
    if isinstance(o, AArr):
        rd = o.reader()
        return Dense(((), (), o.shape, ()), lambda x, y, n, d: rd(n))
    if isinstance(o, (int, float, bool, T)):
        return Dense(((), (), (), ()), lambda x, y, n, d: tm(o))
    if not isinstance(o, I.PyObj):
        raise Bad('a %s is not a tensor' % E.I.tname(o))
    if 'elements' in o.d:
        els = [dense(E, e) for e in fld(E, o, 'elements')]
        cnt = [fld(E, o, k) for k in ('x_dim', 'y_dim', 'n', 'dim')]
        groups = []
        for k in range(4):
            g = [1] * cnt[k]
            for e in els:
                eg = e.groups[k]
                if len(eg) not in (0, cnt[k]):
                    raise Bad('element of a lazy sum has %d axes in group %d,'
                              ' the sum declares %d' % (len(eg), k, cnt[k]))
                for j, n in enumerate(eg):
                    if isinstance(n, int) and n == 1:
                        continue
                    if isinstance(g[j], int) and g[j] == 1:
                        g[j] = n
                    elif not A.dimeq(g[j], n):
                        raise Bad('elements of a lazy sum have different '
                                  'axis lengths')
            groups.append(tuple(g))

        def fn(*idx):
            r = tt.ZERO
            for e in els:
                r = tt.add(r, e.at(idx))
            return r
        return Dense(groups, fn)
    if 'values' in o.d and 'mask' in o.d:
        return dense(E, as_arr(o.d['values']))
    v = as_arr(fld(E, o, 'values'))
    X, Y, D = (fld(E, o, k) for k in ('x_dim', 'y_dim', 'dim'))
    n = fld(E, o, 'n')
    xm, ym = list(fld(E, o, 'x_map')), list(fld(E, o, 'y_map'))
    if v.ndim != X + Y + D + n or min(X, Y, D, n) < 0:
        raise Bad('axis counts x=%s y=%s n=%s dim=%s do not add up to %d axes'
                  % (X, Y, n, D, v.ndim))
    groups = [v.shape[:X], v.shape[X:X + Y], v.shape[X + Y:X + Y + n],
              v.shape[X + Y + n:]]
    rd = v.reader()
    if len(xm) > X or len(ym) > Y:
        raise Bad('more map entries than derivative axes')
    groups = [list(g) for g in groups]
    sizes = [list(g) for g in groups]
    for off, mp in ((0, xm), (1, ym)):
        for k, f in enumerate(mp):
            if f < 0:
                continue
            if f >= n + D:
                raise Bad('map entry %d beyond the %d value axes' % (f, n + D))
            tg, tj = (2, f) if f < n else (3, f - n)
            m = sizes[tg][tj]
            if isinstance(groups[off][k], int) and groups[off][k] == 1:
                groups[off][k] = m
            elif not A.dimeq(groups[off][k], m):
                raise Bad('mapped axes of different length')

    def fn(x, y, nn, d):
        idx = []
        for g, ii in zip(sizes, (x, y, nn, d)):
            for m, i in zip(g, ii):
                idx.append(0 if isinstance(m, int) and m == 1 else i)
        r = rd(tuple(A.ix(i) if isinstance(i, (int, T)) else i for i in idx))
        nd = tuple(nn) + tuple(d)
        for src, mp in ((x, xm), (y, ym)):
            for k, f in enumerate(mp):
                if f >= 0:
                    r = tt.mul(r, tt.ite(tt.eq(tm(src[k]), tm(nd[f])),
                                         tt.ONE, tt.ZERO))
        return r
    return Dense(groups, fn)


def check_equal(got, groups, fn, strict=(False, False, False, False)):
    """got: Dense; groups: expected four axis groups; fn(x,y,n,d)->term.
    Missing groups and length-one axes of `got` broadcast."""
    names = ('parameter (x)', 'parameter (y)', 'value', 'outcome')
    for k in range(4):
        g, e = got.groups[k], groups[k]
        if len(g) == 0 and len(e) and not strict[k]:
            continue
        if len(g) != len(e):
            raise Bad('%d %s axes, expected %d' % (len(g), names[k], len(e)))
        for a, b in zip(g, e):
            if isinstance(a, int) and a == 1 and not strict[k]:
                continue
            if not A.dimeq(a, b):
                raise Bad('%s axis of length %s, expected %s' % (
                    names[k], tt.show(tm(a)), tt.show(tm(b))))
    idx, ivs, szs = A.generic_index(sum((tuple(g) for g in groups), ()))
    parts, p = [], 0
    for g in groups:
        parts.append(idx[p:p + len(g)])
        p += len(g)
    a = got.at(parts)
    b = tm(fn(*parts))
    w = valnum.compare(a, b, ivs, szs)
    if w is not None:
        raise Bad('at position %s (sizes %s): got %.12g, expected %.12g\n'
                  '      value graph of the result: %s\n'
                  '      expected value graph      : %s' % (
                      w['position'], w['sizes'], w['got'], w['expected'],
                      w['got_term'][:300], w['expected_term'][:300]))


def same(E, got, exp, strict=False):
    """two interpreted values denote the same thing (structurally)"""
    if isinstance(exp, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(got) != len(exp):
            raise Bad('a list of %d entries expected, got %r' %
                      (len(exp), got if not isinstance(got, (list, tuple))
                       else len(got)))
        for g, e in zip(got, exp):
            same(E, g, e)
        return
    d, e = dense(E, got), dense(E, exp)
    groups = []
    for k in range(4):
        if len(d.groups[k]) and len(e.groups[k]) and \
                len(d.groups[k]) != len(e.groups[k]):
            raise Bad('different axis counts %s and %s' %
                      (d.counts, e.counts))
        a, b = d.groups[k] or (1,) * len(e.groups[k]), \
            e.groups[k] or (1,) * len(d.groups[k])
        groups.append(tuple(y if isinstance(x, int) and x == 1 else x
                            for x, y in zip(a, b)))
    check_equal(d, groups, lambda *i: e.at(i))


# -------------------------------------------------------------- obligations
class Checker(object):

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.results = []        # (rule, construct, case, status, detail)
        self.limit = 150 if tier == 'quick' else 600
        self.touched = set()
        self.consulted = set()
        self.notes = []
        self.assumptions = []
        self.floor = 0
        self.rule_text = {}
        self.engines = []
        self.shard = (0, 1)
        self.count = 0
        self.in_unit = False
        self.units = 0
        self.pinned = {}
        self.memos = []
        self.specials = True
        self.order = []          # position of every result

    def engine(self, *a, **k):
        E = Engine(*a, **k)
        self.engines.append(E)
        return E

    def rule(self, name, text):
        self.rule_text[name] = text

    def unit(self, f, *args):
        """obligations made by f share data: keep them in one shard"""
        self.units += 1
        self.count += 1000
        self.count -= self.count % 1000
        if self.units % self.shard[1] != self.shard[0]:
            return
        self.in_unit = True
        try:
            f(*args)
        finally:
            self.in_unit = False

    def ob(self, rule, construct, case, thunk):
        """run one obligation (in the shard it belongs to)"""
        self.count += 1
        if not self.in_unit and \
                self.count % self.shard[1] != self.shard[0]:
            return True
        for e in self.engines:
            e.I.steps = 0
            e.I.generics = set()
            e.I.dropped = []
        t1 = time.time()
        split = False

        def onalarm(*_):
            raise Timeout()
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(self.limit)
        try:
            r = thunk()
            st, detail = ('ok', None) if r is None else ('violated', r)
        except Bad as e:
            st, detail = 'violated', str(e)
        except AbsRaise as e:
            st = 'violated'
            detail = 'raises %s%s' % (exc_text(e), ' (%s)' % e.note
                                      if e.note else '')
        except Unsupported as e:
            st, detail = 'undecided', str(e)
            split = True
        except (NotImplementedError, tt.NoDerivative) as e:
            st, detail = 'undecided', '%s: %s' % (type(e).__name__, e)
        except Timeout:
            st, detail = 'undecided', 'analysis time limit'
        except RecursionError:
            st, detail = 'undecided', 'recursion limit of the analysis'
        except AnchorMissing:
            raise
        except Exception as e:
            if os.environ.get('SA_TRACE'):
                raise
            st = 'undecided'
            detail = 'analysis failed: %s: %s' % (type(e).__name__, e)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        if st == 'undecided' and split:
            st, detail = self.cases(thunk, detail)
        if st == 'ok' and self.specials and any(
                valnum.feasible([(c, True)])
                for e in self.engines for c in e.I.dropped):
            if os.environ.get('SA_TRACE'):
                print('DROPPED', rule, construct, case)
            st, detail = self.cases(thunk, None)
            if st == 'undecided':
                st, detail = 'ok', None
        if st == 'ok' and self.specials:
            st, detail = self.special(rule, construct, thunk)
        if os.environ.get('SA_PROF'):
            print('PROF %.3f %s|%s|%s' % (time.time() - t1, rule, construct,
                                          case))
        if os.environ.get('SA_TRACE') and st != 'ok':
            print('--', rule, construct, case, st, detail)
        self.record((rule, construct, case, st, detail))
        return st == 'ok'

    def cases(self, thunk, why):
        """case analysis on the conditions the code branches on: every case
        is analysed on its own, on interpretations that satisfy it"""
        todo, done, unknown = [[]], 0, []
        t0 = time.time()
        while todo:
            if done >= 24 or time.time() - t0 > self.limit:
                return 'undecided', why
            prefix = todo.pop()
            done += 1
            st, detail, trace = self.case(thunk, prefix, todo)
            if st == 'violated':
                return st, 'when %s: %s' % (' and '.join(
                    '%s%s' % ('' if b else 'not ', tt.show(c)[:80])
                    for c, b in trace), detail)
            if st != 'ok':
                unknown.append(detail)
        if unknown or done < 2:
            return 'undecided', unknown[0] if unknown else why
        return 'ok', None

    def case(self, thunk, prefix, todo):
        trace = []
        A_ = valnum.ASSUME

        def hook(c, node, frame):
            if c.fv:
                return None
            for c2, b in trace:
                if c2 is c:
                    return b
                if c2 is tt.lnot(c):
                    return not b
            k = len(trace)
            if k < len(prefix):
                if prefix[k][0] is not c:
                    raise Unsupported('the cases are not independent')
                b = prefix[k][1]
            else:
                if k >= 8:
                    raise Unsupported('too many cases')
                b = None
                for v in (True, False):
                    if valnum.feasible(trace + [(c, v)]):
                        if b is None:
                            b = v
                        else:
                            todo.append(trace + [(c, v)])
                if b is None:
                    raise Unsupported('no interpretation decides a branch')
            trace.append((c, b))
            A_.append((c, b))
            return b
        self.forget()
        for e in self.engines:
            e.I.steps = 0
            e.I.decide_hook = hook

        def onalarm(*_):
            raise Timeout()
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(self.limit)
        try:
            r = thunk()
            if r is not None:
                raise Bad(r)
            if len(trace) < len(prefix):
                return 'undecided', 'the cases are not independent', trace
            return 'ok', None, trace
        except Bad as e:
            return 'violated', str(e), trace
        except AbsRaise as e:
            return 'violated', 'raises %s' % exc_text(e), trace
        except AnchorMissing:
            raise
        except (Unsupported, Timeout, Exception) as e:
            return 'undecided', '%s: %s' % (type(e).__name__, e), trace
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
            for e in self.engines:
                e.I.decide_hook = None
            del A_[:]
            self.forget()

    def memo(self):
        """results shared by obligations (not beyond a case analysis)"""
        d = {}
        self.memos.append(d)
        return d

    def forget(self):
        for d in self.memos:
            d.clear()

    def special(self, rule, construct, thunk):
        """again with numbers at the special values the code compares them
        with (a result has to agree wherever both sides are defined)"""
        pins = set()
        for e in self.engines:
            pins |= {valnum.pin_of(c) for c in e.I.generics}
        pins.discard(None)
        for pin in sorted(pins):
            key = rule, construct, pin
            k = self.pinned[key] = self.pinned.get(key, 0) + 1
            if k > 3:
                continue

            def onalarm(*_):
                raise Timeout()
            old = signal.signal(signal.SIGALRM, onalarm)
            signal.alarm(self.limit)
            valnum.PINS[pin[0]] = pin[1]
            try:
                r = thunk()
                if r is not None:
                    raise Bad(r)
            except Bad as e:
                return 'violated', 'with %s = %s: %s' % (pin + (e,))
            except AnchorMissing:
                raise
            except (AbsRaise, Unsupported, Timeout, Exception):
                pass
            finally:
                valnum.PINS.clear()
                signal.alarm(0)
                signal.signal(signal.SIGALRM, old)
        return 'ok', None

    def record(self, r):
        self.results.append(r)
        self.order.append((self.count, len(self.results)))

    def fail(self, rule, construct, case, detail):
        if self.shard[0] == 0:
            self.record((rule, construct, case, 'violated', detail))

    def ok(self, rule, construct, case):
        if self.shard[0] == 0:
            self.record((rule, construct, case, 'ok', None))

    def undecided(self, rule, construct, case, detail):
        if self.shard[0] == 0:
            self.record((rule, construct, case, 'undecided', detail))


def load_known(path=None):
    """known-findings file: '<KIND>: property=<id> key=<rule|construct> text'"""
    path = path or os.path.join(VERIF, 'known_findings.txt')
    out = {}
    if not os.path.exists(path):
        return out
    for l in open(path):
        l = l.strip()
        if not l.startswith('finding:'):
            continue
        parts = l[len('finding:'):].strip().split(None, 2)
        pid = parts[0].split('=', 1)[1]
        key = parts[1].split('=', 1)[1]
        out.setdefault(pid, {})[key] = parts[2] if len(parts) > 2 else ''
    return out
