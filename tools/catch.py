#!/usr/bin/env python3
"""Runs the checks against planted bugs on scratch copies (own use only; registered commands always use /repo).

usage: catch.py [-a] ID...    (-a: every check, not only the property's own)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(id, props=None):
    w = tempfile.mkdtemp()
    try:
        subprocess.run(['cp', '-a', '/repo', w + '/r'], check=True)
        subprocess.run(['cp', '-a', V, w + '/v'], check=True)
        d = os.path.join(V, 'seeded', id)
        subprocess.run(['git', '-C', w + '/r', 'apply', d + '/patch.diff'], check=True)
        meta = json.load(open(d + '/meta.json'))
        out = []
        for p in props or [meta['property']]:
            t = time.time()
            r = subprocess.run(['bash', 'check.sh', p, 'quick'], cwd=w + '/v', capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=w + '/r'))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            if r.returncode != 0 or props is None:
                out.append('%s rc=%d %d viol %.0fs%s' % (p, r.returncode, len(v), time.time() - t,
                                                        '' if v else ' | ' + (r.stdout + r.stderr)[-300:].replace('\n', ' / ')))
        return id, out
    finally:
        shutil.rmtree(w)


a = sys.argv[1:]
props = None
if '-a' in a:
    a.remove('-a')
    props = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(lambda i: run(i, props), a or sorted(os.listdir(V + '/seeded'))):
        print(r[0], *r[1], flush=True)
