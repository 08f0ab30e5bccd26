#!/usr/bin/env python3
"""Writes planted bugs into /verif/seeded and tries them out on a scratch copy.

usage: seeds.py gen FILE      (FILE: python text calling seed(...))
       seeds.py try ID...     (tests and demo on a scratch copy of /repo)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(V, 'seeded')
HEAD = '''import sys, warnings, math, copy, io, contextlib
warnings.simplefilter('ignore')
import numpy as np
class D: pass
def ds(os, cids=None, refs=(), ref_score=None):
    """os: list of per-video opinion scores"""
    d = D()
    cids = cids or [0] * len(os)
    d.dataset_name = 'demo'; d.yuv_fmt = 'yuv420p'; d.width = 2; d.height = 2
    if ref_score is not None: d.ref_score = ref_score
    d.ref_videos = [dict(content_id=c, content_name='c%d' % c, path='r%d' % c) for c in sorted(set(cids))]
    d.dis_videos = [dict(content_id=c, asset_id=i, os=o, path=('r%d' % c if i in refs else 'd%d' % i)) for i, (o, c) in enumerate(zip(os, cids))]
    return d
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)
def near(a, b, tol=1e-6):
    a, b = np.array(a, dtype=float), np.array(b, dtype=float)
    assert a.shape == b.shape, (a, b)
    assert np.all((np.abs(a - b) <= tol) | (np.isnan(a) & np.isnan(b))), (a, b)
nan = float('nan')
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def seed(id, prop, edits, demo, needs, breaks):
    w = tempfile.mkdtemp()
    try:
        sh('git', 'clone', '-q', '/repo', w + '/r')
        for f, old, new, *n in edits:
            p = os.path.join(w, 'r', f)
            s = open(p).read()
            n = n[0] if n else 1
            assert s.count(old) == n or (n < 0 and s.count(old) >= 1), (id, f, s.count(old), old)
            if n < 0:     # only the |n|-th occurrence
                k = -1
                for _ in range(-n):
                    k = s.index(old, k + 1)
                s = s[:k] + new + s[k + len(old):]
            else:
                s = s.replace(old, new)
            open(p, 'w').write(s)
        diff = sh('git', '-C', w + '/r', 'diff').stdout
        assert diff
        d = os.path.join(SD, id)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(HEAD + demo)
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd = repository root
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PATH=/opt/venv/bin:$PATH
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
''')
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
        a = demo_rc(id, '/repo')
        sh('git', '-C', w + '/r', 'status')
        b = demo_rc(id, w + '/r')
        print(id, 'demo clean', a[0], 'patched', b[0], '' if a[0] == 0 and b[0] else '<<<<<< ' + a[1] + b[1])
    finally:
        shutil.rmtree(w)


def demo_rc(id, cwd):
    r = sh('bash', os.path.join(SD, id, 'demo.sh'), cwd=cwd)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def tests(id):
    w = tempfile.mkdtemp()
    try:
        sh('cp', '-a', '/repo', w + '/r')
        if id:
            r = sh('git', '-C', w + '/r', 'apply', os.path.join(SD, id, 'patch.diff'))
            assert r.returncode == 0, r.stderr
        env = dict(os.environ, PATH='/opt/venv/bin:' + os.environ['PATH'], PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=w + '/r',
                   PYTHONHASHSEED='0', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MPLCONFIGDIR=w)
        sh('bash', '-c', 'find workspace/workdir -mindepth 1 ! -name .gitignore -delete', cwd=w + '/r')
        sh('/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300',
           '--continue-on-collection-errors', '--doctest-modules', '-o', 'junit_family=xunit2', '--junitxml=' + w + '/junit.xml',
           cwd=w + '/r', env=env)
        sh('/opt/venv/bin/python', '/opt/vp/results.py', w + '/out.json', 'junit:' + w + '/junit.xml')
        out = json.load(open(w + '/out.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        good = out.get('passed') or out.get('pass')
        want = base.get('passed') or base.get('stable') or base.get('tests') or base.get('pass')
        missing = [t for t in want if t not in set(good)]
        return id, len(good), missing[:4]
    finally:
        shutil.rmtree(w)


if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        exec(compile(open(sys.argv[2]).read(), sys.argv[2], 'exec'))
    else:
        with ThreadPoolExecutor(6) as ex:
            for r in ex.map(tests, sys.argv[2:]):
                print(r, flush=True)
