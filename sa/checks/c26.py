"""C26 prepared data arrays line up with the returned axis labels."""
import itertools
from .. import terms as tt
from .. import arr as A
from .. import valnum
from .. import interp as I
from ..core import Bad, as_arr
from ..terms import tm

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of the source over a reference model ' \
    'of labelled tables (concrete label structure, symbolic values)'
EXPLANATION = (
    'prepare_series, prepare_dataframe and df_count are interpreted '
    'abstractly on tables whose label structure is enumerated and whose '
    'values and weights are symbolic; the position of every label '
    'combination in the returned arrays is read off the returned axes and '
    'the value graph found there is compared with the transformation of '
    'exactly the observations carrying that label combination.')
ASSUMPTIONS = ['label structures enumerated (up to three levels); the pandas '
               'operations used behave as in the reference model (checked '
               'against pandas 2.0.3 when the model was written)',
               'labels of one level are comparable and not missing']
FLOOR = 60
P = 'maxlike.preprocessing.'
SRC = '''
import numpy as np
SIZE, SUM, MEAN = np.size, np.sum, np.mean

def zeros(x):
    return (x == 0).sum()

def squares(x):
    return (x ** 2).sum()

def method(x):
    return x.sum()

def first(x):
    return x.values[0]

def spread(x):
    return np.sum(x * x) - np.sum(x) ** 2

LEN = len
'''


def add(xs):
    return tt.add(tm(0), *xs)


FN = {
    'size': ('SIZE', lambda x: tm(len(x))),
    'len': ('LEN', lambda x: tm(len(x))),
    'sum': ('SUM', add),
    'mean': ('MEAN', lambda x: tt.div(add(x), tm(len(x)))),
    'zeros': ('zeros', lambda x: add([tt.ite(tt.eq(v, tt.ZERO), tt.ONE,
                                             tt.ZERO) for v in x])),
    'squares': ('squares', lambda x: add([tt.mul(v, v) for v in x])),
    'method': ('method', add),
    'first': ('first', lambda x: x[0]),
    'spread': ('spread', lambda x: tt.add(
        add([tt.mul(v, v) for v in x]),
        tt.neg(tt.mul(add(x), add(x))))),
    "'sum'": (None, add),
    "'mean'": (None, lambda x: tt.div(add(x), tm(len(x)))),
    "'size'": (None, lambda x: tm(len(x))),
}


class Table(object):
    """label structure: rows (labels or tuples), level pools and names"""

    def __init__(self, name, rows, levels=None, names=None):
        self.name, self.rows = name, list(rows)
        self.levels = levels        # explicit level labels, in given order
        self.names = names
        self.multi = isinstance(self.rows[0], tuple)
        self.nlev = len(self.rows[0]) if self.multi else 1

    def index(self, pd, E):
        if not self.multi:
            return E.call(pd.d['Index'], list(self.rows),
                          name=self.names[0] if self.names else None)
        M = pd.d['MultiIndex']
        if self.levels is None:
            return E.call(E.I.getattr(M, 'from_tuples'), list(self.rows),
                          names=list(self.names) if self.names else None)
        return E.call(M, levels=[list(l) for l in self.levels],
                      codes=[[self.levels[k].index(r[k]) for r in self.rows]
                             for k in range(self.nlev)],
                      names=list(self.names) if self.names else None)

    def observed(self, k):
        return {r[k] for r in self.rows} if self.multi else set(self.rows)

    def allowed(self, k):
        return self.observed(k) | (set(self.levels[k]) if self.levels
                                   else set())


def tables(deep):
    T = [
        Table('plain', ['b', 'a', 'c', 'a']),
        Table('plain one row', ['a']),
        Table('plain repeated', ['a', 'a', 'a']),
        Table('plain integers', [3, 1, 2, 10, 3], names=['t']),
        Table('plain gaps', [5, 0, 9]),
        Table('two levels', [('b', 'y'), ('a', 'x'), ('b', 'x'),
                             ('a', 'x')], names=['p', 'q']),
        Table('two levels square, sparse', [('b', 'y'), ('a', 'x')],
              names=['p', 'q']),
        Table('same labels in both levels', [('a', 'b'), ('b', 'a'),
                                             ('c', 'a'), ('b', 'c')],
              names=['home', 'away']),
        Table('mixed types', [('b', 2), ('a', 10), ('b', 1)],
              names=['p', 'q']),
        Table('unnamed levels', [('b', 2), ('a', 10), ('b', 1)]),
        Table('unsorted levels', [('b', 2), ('a', 3), ('b', 1), ('c', 3)],
              levels=[['c', 'b', 'a'], [3, 1, 2]], names=['p', 'q']),
        Table('unsorted levels of one size', [('b', 2), ('a', 3), ('b', 1)],
              levels=[['b', 'a'], [3, 1, 2]], names=['p', 'q']),
        Table('unused labels', [('b', 2), ('a', 3)],
              levels=[['a', 'b', 'z'], [0, 2, 3]], names=['p', 'q']),
        Table('three levels', [('b', 'y', 1), ('a', 'x', 0), ('b', 'x', 1),
                               ('a', 'x', 0), ('c', 'y', 0)],
              names=['p', 'q', 'r']),
        Table('three levels unsorted', [('b', 'y', 1), ('a', 'x', 0),
                                        ('b', 'x', 1)],
              levels=[['b', 'a'], ['y', 'x'], [1, 0]],
              names=['p', 'q', 'r']),
    ]
    n = 4 if deep else 3
    cells = [('a', 'x'), ('a', 'y'), ('b', 'x'), ('b', 'y')]
    for m in range(1, n + 1):
        for rows in itertools.product(range(4), repeat=m):
            T.append(Table('rows %s' % ''.join(map(str, rows)),
                           [cells[k] for k in rows], names=['p', 'q']))
    for m in range(1, n + 1):
        for rows in itertools.product('abc', repeat=m):
            T.append(Table('rows ' + ''.join(rows), rows))
    return T


def check(C):
    C.rule('axes', 'the returned axes are sorted and hold the observed and '
           'the requested labels')
    C.rule('grid', 'every array has one position per label combination')
    C.rule('values', 'every position holds the transformation of exactly '
           'the observations with these labels, zero without observations')
    C.rule('weights', 'the weights of every label combination are summed')
    C.rule('frame', 'the table of the caller is left as it was')
    C.rule('counts', 'the column of a count marks the observations equal to '
           'it')
    C.rule('overflow', 'the last column marks the observations of at least '
           'that count')
    E = C.engine(('maxlike', 'maxlike.preprocessing'))
    pd = E.I.import_module('pandas')
    mod = E.src(SRC)
    deep = C.tier != 'quick'

    def fun(nm):
        v = FN[nm][0]
        return nm.strip("'") if v is None else mod.d[v]

    def items(x):
        if isinstance(x, A.AArr):
            r = x.reader()
            x = [r((k,)) for k in range(x.shape[0])]
        out = []
        for v in E.I.iterate(x):
            if isinstance(v, tt.T) and v.op == 'c':
                v = int(v.a) if v.a.denominator == 1 else float(v.a)
            out.append(v)
        return out

    def axes(t, axis, extra):
        ax = list(E.I.iterate(axis))
        if not t.multi and not (len(ax) == 1 and isinstance(
                ax[0], (list, tuple, I.PyObj, A.AArr))):
            ax = [axis]
        if len(ax) != t.nlev:
            raise Bad('%d axes returned, expected %d' % (len(ax), t.nlev))
        out = []
        for k, a in enumerate(ax):
            a = items(a)
            if a != sorted(set(a)):
                raise Bad('axis %d is %s: not sorted or repeated' % (k, a))
            want = t.observed(k) | set(extra.get(k, ()))
            if not want <= set(a):
                raise Bad('axis %d is %s: labels %s are missing' % (
                    k, a, sorted(want - set(a))))
            more = set(a) - t.allowed(k) - set(extra.get(k, ()))
            if more:
                raise Bad('axis %d is %s: labels %s are neither observed '
                          'nor requested' % (k, a, sorted(more)))
            out.append(a)
        return out

    def placed(arr, t, ax, vals, f, what):
        a = as_arr(arr)
        shp = tuple(map(len, ax))
        if a.ndim != len(shp) or not all(
                A.dimeq(x, y) for x, y in zip(a.shape, shp)):
            raise Bad('%s has shape %s, the axes %s' % (what, a.shape, shp))
        rd = a.reader()
        for pos in itertools.product(*map(range, shp)):
            lab = tuple(x[p] for x, p in zip(ax, pos))
            rows = [v for r, v in zip(t.rows, vals)
                    if (r if t.multi else (r,)) == lab]
            e = f(rows) if rows else tm(0)
            g = tt.numify(tm(rd(pos)))
            w = valnum.compare(g, tt.numify(e))
            if w is not None:
                raise Bad('%s at %s: got %.10g (%s), expected %.10g (%s)' % (
                    what, lab, w['got'], w['got_term'][:120],
                    w['expected'], w['expected_term'][:120]))

    def series(t, dom='real'):
        vals = [E.scalar('o%d' % k, dom=dom) for k in range(len(t.rows))]
        return vals, E.call(pd.d['Series'], list(vals),
                            index=t.index(pd, E), name='g')

    def snap(o):
        ix = E.I.getattr(o, 'index')
        d = o.d
        return (id(ix), list(ix.d['_labels']),
                [list(l.d['_labels']) for l in ix.d.get('levels', ())],
                list(d['_v']) if '_v' in d else [list(c) for c in
                                                 d['_cols']],
                list(d['columns'].d['_labels']) if 'columns' in d else None,
                d.get('name'))

    def extras(t, full):
        """requested labels: positions -> labels, and the argument"""
        out = [('', {}, None)]
        if t.multi:
            nm = t.names
            if nm is None:
                return out
            pool = {k: [['zz', 'aa'], [7, 0]][
                isinstance(sorted(t.observed(k))[0], int)]
                for k in range(t.nlev)}
            ks = [[0], [t.nlev - 1], list(range(t.nlev))] if full else \
                [[0], list(range(t.nlev))]
            for sel in ks:
                d = {k: pool[k] for k in sel}
                out.append(('extra labels on %s' % [nm[k] for k in sel], d,
                            {nm[k]: list(v) for k, v in d.items()}))
            k = t.nlev - 1
            d = {k: sorted(t.observed(k))[:1] + pool[k][:1]}
            out.append(('extra label already observed', d,
                        {nm[k]: list(d[k])}))
            out.append(('extra labels for another level', {},
                        {'elsewhere': ['q']}))
            out.append(('no extra labels', {}, {}))
            d = {k: [30 - 2 * j if isinstance(sorted(
                t.observed(k))[0], int) else 'l%d' % (j * 7 % 20)
                for j in range(12)] for k in range(t.nlev)}
            if full and t.nlev < 3:
                out.append(('many extra labels', d,
                            {nm[k]: list(v) for k, v in d.items()}))
        else:
            lab = [7, 0] if isinstance(t.rows[0], int) else ['zz', 'aa']
            out.append(('extra labels', {0: lab}, list(lab)))
            lab = lab[:1] + [t.rows[0]]
            out.append(('extra label already observed', {0: lab},
                        list(lab)))
            lab = [30 - 2 * j if isinstance(t.rows[0], int) else
                   'l%d' % (j * 7 % 20) for j in range(12)]
            if full:
                out.append(('many extra labels', {0: lab}, list(lab)))
            out.append(('no extra labels', {}, []))
        return out

    SETS = [None, ['size', 'sum'], ['sum', 'zeros', 'squares'],
            ['mean', 'len', 'method'], ["'sum'", "'size'", "'mean'"],
            ['spread', 'size', 'first'], ['squares']]
    KEYS = ['N', 'X', 'Z']

    # ------------------------------------------------------------- series
    for t in tables(deep):
        small = t.name.startswith('rows ')
        for tag, extra, arg in extras(t, not small)[:3 if small else None]:
            for fs in (SETS[1:3] if small else SETS):
                def one(t=t, extra=extra, arg=arg, fs=fs):
                    vals, s = series(t)
                    before = snap(s)
                    keep = arg if arg is None else (
                        dict(arg) if isinstance(arg, dict) else list(arg))
                    tr = None if fs is None else {
                        k: fun(f) for k, f in zip(KEYS, fs)}
                    kw = {}
                    if tr is not None:
                        kw['transformations'] = tr
                    if arg is not None:
                        kw['add_axis'] = arg
                    r = E.call(E.get(P + 'prepare_series'), s, **kw)
                    if not isinstance(r, (tuple, list)) or len(r) != 2:
                        raise Bad('a pair expected')
                    res, axis = r
                    ax = axes(t, axis, extra)
                    names = KEYS[:len(fs)] if fs else ['N']
                    if sorted(res) != sorted(names):
                        raise Bad('arrays %s returned, requested %s' % (
                            sorted(res), sorted(names)))
                    for k, f in zip(names, fs or ['sum']):
                        placed(res[k], t, ax, vals, FN[f][1], k)
                    if snap(s) != before or (arg is not None and
                                             arg != keep):
                        raise Bad('the arguments are modified')
                C.ob('values', 'prepare_series', '%s; %s; %s' % (
                    t.name, tag or 'as observed',
                    '/'.join(fs or ['default'])), one)

    # -------------------------------------------------------------- frame
    FS = [['sum'], ['sum', 'squares'], ['size', 'method'],
          ["'sum'", 'spread']]
    for t in tables(deep):
        if not t.multi:
            continue
        small = t.name.startswith('rows ')
        for tag, extra, arg in extras(t, not small)[:2 if small else None]:
            for fs in (FS[1:2] if small else FS):
                for order in (('w', 'y'), ('y', 'other', 'w')):
                    if small and order[0] == 'y':
                        continue

                    def one(t=t, extra=extra, arg=arg, fs=fs, order=order):
                        n = len(t.rows)
                        col = {c: [E.scalar('%s%d' % (c, k))
                                   for k in range(n)] for c in order}
                        df = E.call(pd.d['DataFrame'],
                                    {c: list(v) for c, v in col.items()},
                                    index=t.index(pd, E))
                        before = snap(df)
                        tr = {k: fun(f) for k, f in zip('XZ', fs)}
                        kw = {} if arg is None else {'add_axis': arg}
                        r = E.call(E.get(P + 'prepare_dataframe'), df, 'w',
                                   'y', tr, **kw)
                        if not isinstance(r, (tuple, list)) or len(r) != 2:
                            raise Bad('a pair expected')
                        res, axis = r
                        ax = axes(t, axis, extra)
                        if sorted(res) != sorted(['N'] + list(tr)):
                            raise Bad('arrays %s returned, requested %s and '
                                      'the weights' % (sorted(res),
                                                       sorted(tr)))
                        wy = [tt.mul(tm(a), tm(b))
                              for a, b in zip(col['w'], col['y'])]
                        for k, f in zip('XZ', fs):
                            placed(res[k], t, ax, wy, FN[f][1], k)
                        placed(res['N'], t, ax, col['w'], add, 'N')
                        if snap(df) != before:
                            raise Bad('the frame of the caller is modified')
                    C.ob('values', 'prepare_dataframe', '%s; %s; %s; %s' % (
                        t.name, tag or 'as observed', '/'.join(fs),
                        ' '.join(order)), one)

    # -------------------------------------------------------------- counts
    def counts(t, obs, size, name):
        s = E.call(pd.d['Series'], list(obs), index=t.index(pd, E))
        before = snap(s)
        args = (s, size) if name is None else (s, size, name)
        fr = E.call(E.get(P + 'df_count'), *args)
        if snap(s) != before:
            raise Bad('the series of the caller is modified')
        cols = fr.d['columns']
        lab = items(cols)
        if lab != list(range(size)):
            raise Bad('columns %s, expected the counts below %d' % (
                lab, size))
        nm = E.I.getattr(cols, 'name')
        if nm != (name or 'count'):
            raise Bad('columns named %r' % (nm,))
        if [x for x in fr.d['index'].d['_labels']] != [
                x for x in s.d['index'].d['_labels']]:
            raise Bad('the index of the observations is not kept')
        return fr

    def column(fr, k):
        out = []
        for v in fr.d['_cols'][k]:
            if isinstance(v, A.AArr):
                v = v.item()
            out.append(tt.numify(tm(v)))
        return out

    def match(got, exp):
        return all(valnum.compare(g, tt.numify(tm(e))) is None
                   for g, e in zip(got, exp))

    def mark(o, test):
        c = test(o)
        if isinstance(c, bool):
            return tm(int(c))
        return tt.ite(c, tt.ONE, tt.ZERO)

    def eqk(k):
        return lambda o: (o == k) if isinstance(o, int) else tt.eq(o, tm(k))

    def gek(k):
        return lambda o: (o >= k) if isinstance(o, int) else \
            tt.le(tm(k), o)
    T1 = [t for t in tables(False) if not t.name.startswith('rows ')]
    for t in T1[:1] + T1[3:4] + T1[5:6] + T1[10:11] + T1[13:14]:
        for sym in (False, True, 'not whole', 'negative'):
            n = len(t.rows)
            obs = [E.scalar('c%d' % k, dom='count') for k in range(n)] \
                if sym is True else [(0, 3, 1, 7, 2, 4)[k % 6]
                                     for k in range(n)]
            if sym == 'not whole':
                obs = [E.scalar('f%d' % k, dom=(k + .1, k + .9))
                       for k in range(n)]
            elif sym == 'negative':
                obs = [-1, 0, -3, 1, -2, 2][:n]
            for size in (2, 3, 4) + ((5, 6, 8) if deep else (5,)):
                for name in (None, 'goals'):
                    case = '%s; size %d; %s observations; name %s' % (
                        t.name, size, sym if isinstance(sym, str) else
                        'symbolic' if sym else 'given', name)

                    def below():
                        fr = counts(t, obs, size, name)
                        for k in range(size - 2):
                            if not match(column(fr, k),
                                         [mark(o, eqk(k)) for o in obs]):
                                raise Bad('column %d does not mark the '
                                          'observations equal to it' % k)
                        a, b = column(fr, size - 2), column(fr, size - 1)
                        eq = [mark(o, eqk(size - 2)) for o in obs]
                        if isinstance(sym, str):
                            if not match(a, eq) and not match(b, eq):
                                raise Bad('no column marks the observations '
                                          'equal to %d' % (size - 2))
                            return
                        ge = [mark(o, gek(size - 1)) for o in obs]
                        if not (match(a, eq) and match(b, ge)) and not (
                                match(a, ge) and match(b, eq)):
                            raise Bad('the last two columns mark neither '
                                      'the last count nor the overflow')
                    C.ob('counts', 'df_count', case, below)

                    def last():
                        fr = counts(t, obs, size, name)
                        a, b = column(fr, size - 2), column(fr, size - 1)
                        eq = [mark(o, eqk(size - 2)) for o in obs]
                        ge = [mark(o, gek(size - 1)) for o in obs]
                        if match(a, ge) and match(b, eq) and not (
                                match(a, eq) and match(b, ge)):
                            raise Bad('column %d marks the overflow and '
                                      'column %d the observations equal to '
                                      '%d' % (size - 2, size - 1, size - 2))
                    if not isinstance(sym, str):
                        C.ob('overflow', 'df_count', case, last)

                def chain():
                    fr = counts(t, obs, size, None)
                    st = E.m(fr, 'stack')
                    res, axis = E.call(E.get(P + 'prepare_series'), st,
                                       {'N': fun('sum')})
                    rows = [(r if t.multi else (r,)) for r in t.rows]
                    t2 = Table('', [r + (k,) for r in rows
                                    for k in range(size)],
                               levels=[sorted(t.allowed(k))
                                       for k in range(t.nlev)] +
                               [list(range(size))])
                    cell = [column(fr, k) for k in range(size)]
                    vals = [cell[k][i] for i in range(len(rows))
                            for k in range(size)]
                    placed(res['N'], t2, axes(t2, axis, {}), vals, add, 'N')
                if sym is False:
                    C.ob('values', 'prepare_series', 'stacked counts of ' +
                         '%s; size %d' % (t.name, size), chain)
