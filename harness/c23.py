"""C23 stand-alone recovery scripts (P.910, P.913, BT.500)"""
import os
from . import lib
from .c08 import ap_spec, fill
from .c14 import Scratch

BOUNDS = ('1 iteration with every vote symbolic (2x2, 3x2), 2 to 3 iterations on grids up to 5x4 and 3x3x2 with missing votes in '
          'boxes around generic patterns; CSV files with every vote symbolic')
ASSUMPTIONS = ['subjects and videos have non-zero residual deviation (otherwise the standard errors are undefined)',
               'numbers of iterations beyond 3 are covered only by the replayed real runs']
FILES = {'p910': 'itut_p910_demo/demo_p910.py', 'p913': 'itut_p913_demo/demo.py', 'bt500': 'itur_bt500_demo/demo_bt500.py'}


def grid(ctx, E, S, R, sym, missing, local):
    miss = set(tuple(m) for m in missing)
    d, votes = lib.build(ctx, E, S, R, 'list', sym=set(tuple(z) for z in sym) if sym is not None else None, fill=fill,
                         fixed_missing=miss, local=local)
    return votes


def h_csv(ctx, which, E, S, R=1, missing=()):
    m = ctx.script(FILES[which])
    votes = grid(ctx, E, S, R, None, missing, None)
    with Scratch() as w:
        p = os.path.join(w, 'votes.csv')
        with open(p, 'w') as f:
            for r in range(R):
                if r:
                    f.write(',\n')
                for e in range(E):
                    f.write(','.join(ctx.text(votes[e][s][r]) for s in range(S)) + '\n')
        a = m.read_csv_into_3darray(p) if which == 'bt500' else m.read_csv_into_2darray(p)
    ctx.eq('votes', lib.plain(a), votes if which == 'bt500' else [[c[0] for c in row] for row in votes])


def h_run(ctx, which, E, S, R=1, iters=1, sym=None, missing=(), local=None, std=True):
    m = ctx.script(FILES[which])
    votes = grid(ctx, E, S, R, sym, missing, local)
    for k in range(iters or 1):
        one = ap_spec(ctx, votes, k + 1)
        for t in one['v2'] + one['u2']:
            ctx.assume_pos(t)
    if iters is not None:
        ctx.iterations(iters)
    elif ctx.symbolic:
        ctx.iterations(1)
    a = m.np.array(votes) if which == 'bt500' else m.np.array([[c[0] for c in row] for row in votes])
    given = lib.plain(a)
    res = m.run_alternating_projection(a)
    ctx.eq('keys', sorted(res), ['bias_i', 'inconsistency_i', 'mos_j', 'sos_j'])
    n = iters or 1
    sp = ap_spec(ctx, votes, n)
    if iters is None and not ctx.symbolic:
        while sp['deltas'][-1] > 1e-8 and n < 1000:
            n += 1
            sp = ap_spec(ctx, votes, n)
    q, b, v2, u2, idx = [sp[k] for k in ('q', 'b', 'v2', 'u2', 'idx')]
    g = lib.mean(ctx, b)
    ctx.eq('mos', list(res['mos_j']), [t + g for t in q])
    ctx.eq('bias', list(res['bias_i']), [t - g for t in b])
    ctx.eq('votes kept', lib.plain(a), given)
    if std:
        ctx.eq('inconsistency', list(res['inconsistency_i']), [ctx.sqrt(t) for t in v2])
        nj = [sum(1 for k in idx if k[0] == e) for e in range(E)]
        ctx.eq('sos', list(res['sos_j']), [1 / ctx.sqrt(nj[e] / u2[e]) for e in range(E)])


def jobs(tier):
    o = dict(max_terms=45, timeout_ms=300)
    J = []

    def add(h='h_run', nval=1, conc=None, **p):
        d = dict(h=h, p=p, o=o, nval=nval)
        if conc:
            d['conc'] = conc
        J.append(d)
    for w in FILES:
        add(which=w, E=6, S=8, iters=None, sym=[[0, 0, 0], [3, 2, 0]], local=1e-3, std=False, nval=0, conc=3)
        add(which=w, E=2, S=2, std=False)
        add(which=w, E=3, S=3, sym=[[0, 0, 0], [1, 1, 0]], local=0.05)
        add(which=w, E=4, S=5, iters=2, local=1e-4)
        add(which=w, E=4, S=3, iters=2, missing=[[0, 0, 0], [2, 1, 0]], local=1e-4)
        add(which=w, E=4, S=4, iters=3, local=1e-5)
        add(h='h_csv', which=w, E=3, S=2, missing=[[1, 0, 0]])
        add(h='h_csv', which=w, E=2, S=4)
    B = dict(which='bt500')
    add(E=3, S=3, R=2, iters=2, local=1e-4, **B)
    add(E=4, S=3, R=2, iters=1, missing=[[0, 0, 1], [2, 1, 0], [2, 1, 1]], local=1e-4, **B)
    add(E=4, S=3, R=3, iters=2, missing=[[0, 0, 1], [0, 0, 2], [1, 2, 0]], local=1e-5, **B)
    add(h='h_csv', E=3, S=2, R=2, missing=[[1, 0, 1], [0, 1, 0]], **B)
    add(h='h_csv', E=2, S=3, R=3, **B)
    if tier == 'thorough':
        o = dict(max_terms=60, timeout_ms=1000, budget=300)
        for w in FILES:
            add(which=w, E=6, S=6, iters=2, local=1e-5)
            add(which=w, E=4, S=4, iters=5, local=1e-6)
            add(which=w, E=3, S=3, iters=2, sym=[[0, 0, 0], [1, 1, 0]], local=0.02)
        add(E=4, S=4, R=3, iters=3, missing=[[1, 1, 2]], local=1e-5, **B)
    return J
