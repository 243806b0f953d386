"""python3-vt tools/mkseed.py [ID..]: (re)build seeded/<id>/ from tools/seeds.py,
confirm each change against a scratch copy: builds, existing tests pass, demo
passes without and fails with it; run the property's own check on the copy."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
ns = {}
exec(open(V + '/tools/seeds.py').read(), ns)
DEMO = '''#!/bin/bash
# cwd is the repository
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def one(s):
    out = '%s/seeded/%s' % (V, s['id'])
    d = tempfile.mkdtemp(prefix='seed_')
    try:
        subprocess.check_call('git -C %s archive HEAD | tar x -C %s' % (REPO, d),
                              shell=True)
        subprocess.check_call('git init -q && git add -A && git -c user.name=x -c '
                              'user.email=x@x commit -qm x', shell=True, cwd=d)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/demo.sh', 'w').write(DEMO)
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        before = subprocess.run(['bash', out + '/demo.sh'], cwd=d,
                                capture_output=True, text=True)
        for f, a, b in s['edits']:
            p = '%s/maxlike/%s' % (d, f)
            t = open(p).read()
            if t.count(a) != 1:
                shutil.rmtree(out)
                return s['id'], 'BAD PATTERN %d %r' % (t.count(a), a[:50])
            open(p, 'w').write(t.replace(a, b))
        diff = subprocess.run(['git', 'diff'], cwd=d, capture_output=True,
                              text=True).stdout
        open(out + '/patch.diff', 'w').write(diff)
        after = subprocess.run(['bash', out + '/demo.sh'], cwd=d,
                               capture_output=True, text=True)
        t = subprocess.run(
            [PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-W', 'ignore',
             '-x', '-o', 'python_files=test_*.py *_test.py tests.py', 'tests'],
            cwd=d, capture_output=True, text=True,
            env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1'))
        w = tempfile.mkdtemp(prefix='seedv_')
        subprocess.check_call('cp -a %s/sa %s/known_findings.txt %s/ && mkdir %s/evidence'
                              % (V, V, w, w), shell=True)
        c = subprocess.run(['python3-vt', '-m', 'sa.run', s['property'], 'quick'],
                           cwd=w, capture_output=True, text=True,
                           env=dict(os.environ, SA_REPO=d))
        shutil.rmtree(w)
        # does the patch touch lines of the original repository?
        base = subprocess.run(
            "git -C %s rev-list --max-parents=0 HEAD" % REPO, shell=True,
            capture_output=True, text=True).stdout.split()[0]
        old = set()
        for f in {f for f, _, _ in s['edits']}:
            old |= set(subprocess.run(
                ['git', '-C', REPO, 'show', '%s:maxlike/%s' % (base, f)],
                capture_output=True, text=True).stdout.split('\n'))
        gone = [l[1:] for l in diff.split('\n')
                if l.startswith('-') and not l.startswith('---')]
        foreign = [l for l in gone if l.strip() and l not in old]
        ok = before.returncode == 0 and after.returncode != 0 and \
            t.returncode == 0
        msg = 'demo %d->%d tests %s check rc=%d' % (
            before.returncode, after.returncode,
            'pass' if t.returncode == 0 else 'FAIL ' +
            t.stdout.strip().split('\n')[-1][:80], c.returncode)
        if before.returncode:
            msg += ' BEFORE: ' + before.stderr[-300:]
        elif after.returncode:
            msg += ' | ' + (after.stderr.strip().split('\n') or [''])[-1][:80]
        if foreign:
            msg += ' NOT ORIGINAL: %r' % foreign[:2]
        if not ok:
            shutil.rmtree(out)
            msg = 'NOT KEPT ' + msg
        return s['id'], ('caught ' if c.returncode == 1 else 'MISSED ') + msg
    finally:
        shutil.rmtree(d, ignore_errors=True)


todo = [s for s in ns['SEEDS'] if not sys.argv[1:] or s['id'] in sys.argv[1:]]
with ThreadPoolExecutor(6) as ex:
    for n, r in ex.map(one, todo):
        print(n, '->', r, flush=True)
