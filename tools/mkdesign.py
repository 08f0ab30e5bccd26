#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the harnesses, known findings and the catch table."""
import glob
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
ORACLE = json.load(open(V + '/tools/design_oracles.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = json.load(open(V + '/MANIFEST.json'))
claimed = [c['property'] for c in man['checks']]
out = [open(V + '/tools/design_head.md').read()]
for p in sorted(props, key=lambda p: p['id']):
    i = p['id']
    if i not in claimed:
        continue
    m = importlib.import_module('harness.' + i.lower())
    o = ORACLE[i]
    out.append('### %s %s\n' % (i, p['title']))
    out.append('* Executed: %s (%s)' % (', '.join(a['where'] for a in p['anchors']['mechanism']), ', '.join(p['anchors']['files'])))
    out.append('* Oracle: ' + o[0])
    out.append('* Bounds: ' + m.BOUNDS)
    if m.ASSUMPTIONS:
        out.append('* Assumed: ' + '; '.join(m.ASSUMPTIONS))
    out.append('* Cost: about %s s quick.  Beyond the tests: %s.\n' % (o[1], p['why_tests_cant']))
out.append('## 3. Not applicable\n')
for n in man['not_applicable']:
    t = [p['title'] for p in props if p['id'] == n['property']][0]
    out.append('* **%s** %s: %s' % (n['property'], t, n['reason']))
out.append('\n' + open(V + '/tools/design_tail.md').read())
kf = json.load(open(V + '/known_findings.json'))
kf = kf if isinstance(kf, list) else kf['findings']
out.append('### Repaired defects ("fix:" commits)\n')
for k in kf:
    if k['status'] == 'fixed':
        out.append('* %s %s' % (k['id'], k['what']))
out.append('\n### Known findings (reported as KNOWN-FINDING, not repaired)\n')
for k in kf:
    if k['status'] == 'known':
        out.append('* %s (%s): %s' % (k['id'], k['property'], k['what']))
out.append('\n## 5. Planted bugs\n')
T = json.load(open(V + '/tools/catches.json'))
out.append('Each lives in `seeded/<id>/` (patch, demonstration, meta) and passes the existing tests.  "Caught by" lists the\n'
           'checks (quick tier) that reported a confirmed violation when run against it.\n')
out.append('| bug | property | needs | caught by |\n|---|---|---|---|')
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = d.split('/')[-2]
    m = json.load(open(d))
    out.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], T.get(i, '?')))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
