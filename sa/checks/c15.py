"""C15 Newton fitting never lowers the objective."""
from .. import terms as tt
from ..core import Bad
from ..fitpaths import Explorer, improves, LONG
from .c14 import told

LEVEL = 'other'
EXPLANATION = (
    'All paths of fit(method="newton") over an uninterpreted model and '
    'likelihood are enumerated for small step limits (comparisons of unknown '
    'objective values take both outcomes). Whenever the point at which '
    'derivatives are taken changes, the facts of the path must include that '
    'the objective at the new point is at least that at the old one; every '
    'path must end.')
ASSUMPTIONS = ['step limits 1..2 (quick), 1..3 (thorough)',
               'two parameters with a fixed entry, 0 or 1 constraint',
               'a comparison with an undefined objective is taken as false']
FLOOR = 6


def check(C):
    C.rule('ascent', 'the current point is replaced only when the objective '
           'of the new point is known to be at least that of the old one')
    C.rule('point', 'the compared objective is that of the point accepted, '
           'from the model value at that point')
    C.rule('bounded', 'the number of steps and of halvings is bounded')
    E = C.engine()
    shapes, masks = [(2,), ()], [(0, 1), None]
    for cons in (0, 1):
        X = Explorer(E, shapes, masks, cons, maxdec=200, faults=False)
        for steps in range(1, (2 if C.tier == 'quick' else 3) + 1):
            for state in ('fresh', 'converged')[:1 if steps == 2 and
                                                C.tier == 'quick' else 2]:
                C.unit(scenario, C, X, steps, state)
        X = Explorer(E, shapes, masks, cons, maxdec=2000, faults=False)
        for name, steps, values, tol in LONG:
            C.unit(scenario, C, X, steps, 'fresh', name, values, tol)


def scenario(C, X, steps, state, name=None, *policy):
    case = 'max_steps=%d history=%s constraints=%d' % (steps, state, X.cons)
    if name:
        case = 'long fit (%s) ' % name + case
    paths = []

    def bounded():
        paths.extend([X.follow('newton', steps, *policy)] if name else
                     X.paths('newton', steps, 0, state))
        for p in paths:
            if p.out[0] == 'endless':
                raise Bad('the fit goes on without end')
            cur = current(p)
            if len(p.seen_h) > steps:
                raise Bad('%d steps are made with max_steps=%d' %
                          (len(p.seen_h), steps))

    def ascent():
        for p in paths:
            for a, b in zip(current(p), current(p)[1:]):
                if not improves(p, a, b):
                    raise Bad('point %d replaces point %d though its '
                              'objective may be lower (path: %s)' %
                              (b, a, told(p)))

    def point():
        for p in paths:
            for c, b in p.lits:
                if 'mixed' in tt.show(c):
                    raise Bad('an objective is evaluated with the model value '
                              'of another point: %s' % tt.show(c)[:200])
    C.ob('bounded', 'MaxLike.fit', case, bounded)
    if paths:
        C.ob('ascent', 'MaxLike.fit', case, ascent)
        C.ob('point', 'MaxLike.fit', case, point)


def current(p):
    """points at which derivatives are taken, then the one stored"""
    out = []
    for k in p.seen_d + ([p.end] if p.out[0] == 'ret' else []):
        if not out or out[-1] != k:
            out.append(k)
    return out
