"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | what it breaks | what it needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (R, d)))
    rows.append('| %s | %s | %s | %s |' % (
        d, m['what_it_breaks'], m['needs'], m.get('caught_by', m['property'])))
p = R + '/DESIGN.md'
s = open(p).read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
if 'SEEDTABLE' in s:
    s = s.replace('SEEDTABLE', t)
else:
    s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
