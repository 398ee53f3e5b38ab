"""regenerate DESIGN.md from DESIGN.in.md, qmv/props.py, properties.jsonl, known_findings.txt and seeded/*/meta.json"""
import json, os, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from qmv import props
P = {}
for l in open(H + '/properties.jsonl'):
    d = json.loads(l); P[d['id']] = d
tab = []; na = []
for i, d in P.items():
    q = props.PROPS.get(i)
    if q is None: na.append('* **%s %s**: not applicable / not claimed: %s' % (i, d['title'], props.NA.get(i, 'no check built yet'))); continue
    np = '; '.join(q.get('not_proved', [])) or 'replay only'
    tab.append('| %s %s (`contracts/%s`, `harness/%s.cpp`) | %s | %s |' % (i, d['title'], ', '.join(m + '.py' for m in q['modules']), i, q['note'], np))
fx = ['* ' + l[6:].strip() for l in open(H + '/known_findings.txt') if l.startswith('fixed:')]
fx += ['* known finding, not repaired: ' + l[8:].strip() for l in open(H + '/known_findings.txt') if l.startswith('finding:')]
sd = ['| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(f)); c = H + '/tools/catches.json'
    ca = json.load(open(c)) if os.path.exists(c) else {}
    n = os.path.basename(os.path.dirname(f))
    sd.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'], m['needs'], ca.get(n, 'not recorded')))
s = open(H + '/DESIGN.in.md').read()
for k, v in (('@@TABLE@@', '\n'.join(tab)), ('@@NA@@', '\n'.join(na)), ('@@FIXES@@', '\n'.join(fx)), ('@@SEEDS@@', '\n'.join(sd))): s = s.replace(k, v)
open(H + '/DESIGN.md', 'w').write(s)
