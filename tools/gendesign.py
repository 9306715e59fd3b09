"""Fills DESIGN.md from DESIGN.in.md, props.py, design_notes.py and the planted bugs."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS
from design_notes import D
out = []
for p in PROPS:
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('Method: ' + (p['technique'] or '') + '. Beyond the tests: ' + p['why'] + '.')
    out.append(D.get(p['id'], '').rstrip() + '\n')
seeds = []
for d in sorted(os.listdir(V + '/seeded')):
    f = V + '/seeded/' + d + '/meta.json'
    if os.path.exists(f):
        m = json.load(open(f))
        seeds.append((m['property'], d, m['needs'].rstrip('.')))
caught = json.load(open(here + '/caught.json')) if os.path.exists(here + '/caught.json') else {}
rows = ['| property | bug | needs | caught by |', '|---|---|---|---|'] + ['| %s | %s | %s | %s |' % (p, d, n.replace('|', '\\|'), caught.get(d, '?')) for p, d, n in sorted(seeds)]
t = open(here + '/DESIGN.in.md').read()
open(V + '/DESIGN.md', 'w').write(t.replace('@@PROPS@@', '\n'.join(out).strip()).replace('@@SEEDS@@', '\n'.join(rows)))
