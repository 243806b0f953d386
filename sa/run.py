"""Entry point: python3-vt -m sa.run C01"""
import importlib
import json
import os
import pickle
import sys
import tempfile
import time
import traceback
import threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import core, valnum                                    # noqa: E402


def report_path(pid):
    d = os.path.join(core.VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, pid + '.report.txt')


def run_shard(mod, pid, tier, seed, k, n):
    C = core.Checker(pid, tier, seed)
    C.shard = (k, n)
    err = None
    try:
        mod.check(C)
    except core.AnchorMissing as e:
        err = 'anchor missing: %s' % e
    for E in C.engines:
        C.touched |= E.I.touched
        C.consulted |= E.I.consulted
    return C, err


def shards():
    try:
        n = len(os.sched_getaffinity(0))
    except (AttributeError, OSError):
        n = 1
    return max(1, min(8, int(os.environ.get('SA_PAR', n))))


def run(pid, tier, seed):
    """the obligations of a check are divided over forked processes"""
    mod = importlib.import_module('sa.checks.' + pid.lower())
    n = shards()
    if n == 1 or getattr(mod, 'SERIAL', False):
        C, err = run_shard(mod, pid, tier, seed, 0, 1)
        return finish(C, mod, err)
    kids = []
    for k in range(n):
        fh = tempfile.TemporaryFile()
        sys.stdout.flush()
        p = os.fork()
        if p == 0:
            rc = 3
            try:
                C, err = run_shard(mod, pid, tier, seed, k, n)
                pickle.dump({
                    'res': [(C.order[i], tuple(map(str, r[:4])) + (
                        None if r[4] is None else str(r[4]),))
                        for i, r in enumerate(C.results)],
                    'touched': C.touched, 'consulted': C.consulted,
                    'rule_text': C.rule_text, 'err': err,
                    'stats': (valnum.Stats.nf, valnum.Stats.idtest),
                    'assumptions': C.assumptions,
                    'extra': getattr(C, 'extra', {})}, fh)
                fh.flush()
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(rc)
        kids.append((p, fh))
    C = core.Checker(pid, tier, seed)
    err, res, broken = None, [], False
    for p, fh in kids:
        st = os.waitpid(p, 0)[1]
        if st != 0:
            broken = True
            continue
        fh.seek(0)
        d = pickle.load(fh)
        res += d['res']
        C.touched |= d['touched']
        C.consulted |= d['consulted']
        C.rule_text.update(d['rule_text'])
        C.assumptions = d['assumptions']
        valnum.Stats.nf += d['stats'][0]
        valnum.Stats.idtest += d['stats'][1]
        err = err or d['err']
        if d['extra']:
            C.extra = d['extra']
    if broken:
        err = err or 'part of the analysis ended abnormally'
    C.results = [r for _, r in sorted(res, key=lambda z: z[0])]
    return finish(C, mod, err)


def finish(C, mod, err):
    pid = C.pid
    known = core.load_known().get(pid, {})
    res = C.results
    viol = [r for r in res if r[3] == 'violated']
    und = [r for r in res if r[3] == 'undecided']
    okn = [r for r in res if r[3] == 'ok']
    new, listed = {}, {}
    for r in viol:
        key = '%s|%s' % (r[0], r[1])
        (listed if key.replace(' ', '_') in known else new).setdefault(
            key, []).append(r)
    level = getattr(mod, 'LEVEL', 'other')
    lines = []
    for E in C.engines:
        C.touched |= E.I.touched
        C.consulted |= E.I.consulted
    fns = sorted({'%s:%s@%d' % t for t in C.touched
                  if t[0].startswith('maxlike')})
    rules = {}
    for r in res:
        rules.setdefault(r[0], [0, 0, 0])[
            ('ok', 'violated', 'undecided').index(r[3])] += 1
    cov = {
        'explanation': mod.EXPLANATION,
        'rules': {k: {'text': C.rule_text.get(k, ''), 'discharged': v[0],
                      'violated': v[1], 'undecided': v[2]}
                  for k, v in rules.items()},
        'obligations': len(res), 'discharged': len(okn),
        'undecided': len(und),
        'functions_analysed': fns,
        'files': sorted(core.relpath(p) for p in C.consulted),
        'equalities_by_value_number': valnum.Stats.nf,
        'equalities_by_identity_test': valnum.Stats.idtest,
        'samples': [{'rule': r[0], 'construct': r[1], 'case': r[2],
                     'status': r[3]} for r in
                    res[::max(1, len(res) // 12)][:12]],
        'undecided_list': ['%s|%s|%s: %s' % r[:3] + (r[4],)
                           if False else '%s|%s|%s: %s' %
                           (r[0], r[1], r[2], r[4]) for r in und][:60],
        'known_findings': sorted(listed),
        'checker_cmd': 'python3-vt -m sa.run ' + pid,
        'trusted_base': ['sa/interp.py', 'sa/arr.py', 'sa/terms.py',
                         'sa/valnum.py', 'sa/npmodel.py', 'sa/core.py'],
    }
    cov.update(getattr(C, 'extra', {}))
    ev = {'property': pid, 'tier': C.tier, 'seed': C.seed, 'level': level,
          'coverage': cov, 'assumptions': C.assumptions or
          list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(time.time() - C.t0, 3), 'violations': len(new)}
    d = os.path.join(core.VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    rp = report_path(pid)
    with open(rp, 'w') as fh:
        for key, rs in sorted(new.items()):
            fh.write('VIOLATED %s\n' % key)
            fh.write('  rule: %s\n' % C.rule_text.get(rs[0][0], ''))
            for r in rs:
                fh.write('  case %s: %s\n' % (r[2], r[4]))
        for key, rs in sorted(listed.items()):
            fh.write('KNOWN %s\n' % key)
            for r in rs:
                fh.write('  case %s: %s\n' % (r[2], r[4]))
        for r in und:
            fh.write('UNDECIDED %s|%s|%s: %s\n' % (r[0], r[1], r[2], r[4]))
    print('%s: %d obligations, %d discharged, %d violated, %d undecided, '
          '%d functions, %.1fs' % (pid, len(res), len(okn), len(viol),
                                   len(und), len(fns),
                                   time.time() - C.t0))
    for r in und[:10]:
        print('UNDECIDED %s|%s|%s: %s' % (r[0], r[1], r[2],
                                          str(r[4])[:200]))
    for key, rs in sorted(listed.items()):
        print('KNOWN-FINDING: property=%s %s (%s)' %
              (pid, key, known[key.replace(' ', '_')]))
    if new:
        for key, rs in sorted(new.items()):
            print('  %s [%d case(s)] e.g. %s: %s' % (
                key, len(rs), rs[0][2], str(rs[0][4])[:700]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if err:
        print('ERROR', err)
        return 2
    floor = getattr(mod, 'FLOOR', 1)
    if len(okn) + len(viol) < floor:
        print('ERROR: only %d obligations decided, at least %d expected' %
              (len(okn) + len(viol), floor))
        return 2
    return 0


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    rc = run(pid, tier, seed)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    # SIGALRM needs the main thread; raise the C stack limit instead
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_STACK,
                           (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except (ValueError, OSError):
        pass
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
