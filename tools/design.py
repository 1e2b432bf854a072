"""writes DESIGN.md from DESIGN.tmpl.md, the known-findings file, the planted bugs and the recorded results of seeds.py check"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(H + '/tools/DESIGN.tmpl.md').read()
k = json.load(open(H + '/KNOWN_FINDINGS.json'))
t = t.replace('@@FIXES@@', '\n'.join('* ' + f[len('fixed: '):] for f in k['fixed']))
try:
    R = json.load(open(H + '/tools/seed_results.json'))
except IOError:
    R = {}
rows = ['| bug | property | what it breaks | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(H + '/seeded/%s/meta.json' % d))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'].replace('|', '/'), R.get(d, 'not recorded')))
t = t.replace('@@SEEDS@@', '\n'.join(rows))
open(H + '/DESIGN.md', 'w').write(t)
