#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []
NA = {}


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, na=None, note=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    assert len(title) <= 80, (id, len(title))
    P.append((d, na, note))


exec(open(os.path.join(HERE, 'props.txt')).read())

TECH = ('bounded symbolic execution of the current /repo source with symbolic reals (sympy-free polynomial engine) and Z3: every '
        'feasible path within the bounds, solver-decided branches and residuals, counterexamples replayed on the real code')
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d, _, _ in P:
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for d, reason, note in P:
    i = d['id']
    if reason is None and not os.path.exists(os.path.join(HERE, 'harness', i.lower() + '.py')):
        reason = 'check not built yet'
    if reason:
        na.append(dict(property=i, reason=reason))
    else:
        checks.append(dict(property=i, quick_cmd='bash check.sh %s quick' % i, thorough_cmd='bash check.sh %s thorough' % i,
                           technique=TECH, level='model_checking',
                           level_note=note or 'exhaustive over symbolic inputs within the bounds recorded in the evidence file; '
                                              'doubles are modelled as exact reals',
                           evidence_file='evidence/%s.json' % i))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo. Commands run from /verif. The engine reads /repo directly on every run.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
