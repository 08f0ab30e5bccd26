"""C08 alternating projection (P.910 Annex E, MLE_CO_AP, AP2)"""
from . import lib

BOUNDS = ('1 iteration with every vote symbolic (2x2, 2x3, 3x2), 2-3 iterations with 1-3 symbolic votes on grids up to 4x4, '
          '2x2x2 and missing votes; chi-square quantiles concrete; the stopping test is symbolic (it succeeds at the k-th '
          'iteration), on real runs the iteration count is the one reported')
ASSUMPTIONS = ['subjects and videos have non-zero residual deviation (otherwise the standard errors are undefined)',
               'numbers of iterations beyond 3 are covered only by the replayed real runs']


def fill(e, s, r=0):
    return 1.5 + 0.5 * e + 0.25 * s + ((7 * e * e + 5 * s * s + 11 * e * s + 4 * r + r * e) % 17) / 16


def stops(ctx, n, iters, deltas, thr, cap):
    """iters=None: the loop runs freely (real runs only)"""
    ok = n == iters
    if not ctx.symbolic and not ok:
        ok = (n == cap or deltas[-1] < thr * 1.0001) and all(t > thr * 0.9999 for t in deltas[:-1])
    if iters is None and ctx.symbolic:
        ok = True
    ctx.true('stops when and only when settled', ok)


def ap_spec(ctx, votes, iters):
    """P.910 Annex E on votes[e][s][r] -> dict of final quantities"""
    E, S = len(votes), len(votes[0])
    R = len(votes[0][0])
    idx = [(e, s, r) for e in range(E) for s in range(S) for r in range(R) if not ctx.isnan(votes[e][s][r])]
    x = {k: votes[k[0]][k[1]][k[2]] for k in idx}
    q = [lib.mean(ctx, [x[k] for k in idx if k[0] == e]) for e in range(E)]
    b = [lib.mean(ctx, [x[k] - q[k[0]] for k in idx if k[1] == s]) for s in range(S)]
    eps = ctx.num(1) / 10 ** 8
    deltas = []
    for _ in range(iters):
        qp = q
        res = {k: x[k] - q[k[0]] - b[k[1]] for k in idx}
        v2 = [lib.var(ctx, [res[k] for k in idx if k[1] == s]) for s in range(S)]
        u2 = [lib.var(ctx, [res[k] for k in idx if k[0] == e]) for e in range(E)]
        w = [1 / (v + eps) for v in v2]
        q = []
        for e in range(E):
            n, d = ctx.num(0), ctx.num(0)
            for k in idx:
                if k[0] == e:
                    n = n + w[k[1]] * (x[k] - b[k[1]])
                    d = d + w[k[1]]
            q.append(n / d)
        b = [lib.mean(ctx, [x[k] - q[k[0]] for k in idx if k[1] == s]) for s in range(S)]
        if not ctx.symbolic:
            deltas.append(sum((u - v) ** 2 for u, v in zip(q, qp)) ** 0.5)
    return dict(q=q, b=b, v2=v2, u2=u2, idx=idx, x=x, deltas=deltas)


def h_ap(ctx, E, S, R=1, iters=1, sym=None, missing=(), style='list', model='P910', zeromean=True, std=True, local=None):
    from sureal.dataset_reader import RawDatasetReader
    import sureal
    from sureal import subjective_model as sm
    miss = set(tuple(m) for m in missing)
    d, votes = lib.build(ctx, E, S, R, style, sym=set(tuple(z) for z in sym) if sym is not None else None,
                         fill=fill, fixed_missing=miss, local=local)
    if style == 'dict':
        votes = lib.subset(votes, sorted(range(S), key=lambda k: lib.NAMES[k]))
    cls = {'P910': lambda: sureal.P910AnnexEModel, 'AP': lambda: sm.SubjectMLEModelProjectionSolver,
           'AP2': lambda: sm.SubjectMLEModelProjectionSolver2,
           'MLE_CO_AP': lambda: sm.MaximumLikelihoodEstimationModelContentObliviousAlternativeProjection,
           'MLE_CO_AP2': lambda: sm.MaximumLikelihoodEstimationModelContentObliviousAlternativeProjection2}[model]()
    for k in range(iters or 1):
        one = ap_spec(ctx, votes, k + 1)
        for t in one['v2'] + one['u2']:
            ctx.assume_pos(t)
    if iters is None:
        ctx.iterations(1) if ctx.symbolic else None
    else:
        ctx.iterations(iters)
    kw = {} if zeromean is True else dict(force_subjbias_zeromean=zeromean)
    before = lib.snapshot(d)
    res = cls(RawDatasetReader(d)).run_modeling(**kw)
    n = res['num_iter']
    sp = ap_spec(ctx, votes, n)
    stops(ctx, n, iters, sp['deltas'], 1e-8, 1000)
    q, b, v2, u2, idx, x = [sp[k] for k in ('q', 'b', 'v2', 'u2', 'idx', 'x')]
    g = lib.mean(ctx, b) if zeromean in (True, None) else ctx.num(0)
    qz, bz = [t + g for t in q], [t - g for t in b]
    ctx.eq('scores', list(res['quality_scores']), qz)
    ctx.eq('bias', list(res['observer_bias']), bz)
    ctx.eq('raw', res['raw_scores'], votes)
    ctx.eq('reconstructions', res['reconstructions'], [[[qz[e] + bz[s]] * R for s in range(S)] for e in range(E)])
    nj = [sum(1 for k in idx if k[0] == e) for e in range(E)]
    ni = [sum(1 for k in idx if k[1] == s) for s in range(S)]
    if zeromean in (True, None):
        ctx.eq('zero mean', lib.mean(ctx, list(res['observer_bias'])), 0)
    ctx.eq('scores mean', list(res['observer_scores_mean']),
           [lib.mean(ctx, [x[k] for k in idx if k[1] == s]) for s in range(S)])
    ctx.eq('source', lib.snapshot(d), before)
    if not std:
        return
    v = [ctx.sqrt(t) for t in v2]
    ctx.eq('inconsistency', list(res['observer_inconsistency']), v)
    if model in ('AP', 'MLE_CO_AP'):
        se = []
        for e in range(E):
            t = ctx.num(0)
            for k in idx:
                if k[0] == e:
                    t = t + 1 / v2[k[1]]
            se.append(1 / ctx.sqrt(t))
    else:
        se = [1 / ctx.sqrt(nj[e] / u2[e]) for e in range(E)]
    k95 = ctx.num(195996) / 100000
    ctx.eq('std', list(res['quality_scores_std']), se)
    ctx.eq('ci95', res['quality_scores_ci95'], [[k95 * t for t in se]] * 2)
    be = [1 / ctx.sqrt(ni[s] / v2[s]) for s in range(S)]
    ctx.eq('bias std', list(res['observer_bias_std']), be)
    ctx.eq('bias ci95', res['observer_bias_ci95'], [[k95 * t for t in be]] * 2)
    from scipy.stats import chi2 as c2
    lo = [1 - ctx.sqrt(ctx.num(ni[s]) / ctx.num(chi2(0.975, ni[s]))) for s in range(S)]
    hi = [ctx.sqrt(ctx.num(ni[s]) / ctx.num(chi2(0.025, ni[s]))) - 1 for s in range(S)]
    ctx.eq('inconsistency ci95', res['observer_inconsistency_ci95'],
           [[lo[s] * v[s] for s in range(S)], [hi[s] * v[s] for s in range(S)]])
    ctx.eq('scores std', list(res['observer_scores_std']),
           [lib.std(ctx, [x[k] for k in idx if k[1] == s]) for s in range(S)])


CHI2 = {}


def chi2(p, n):
    """inverse of the chi-square distribution function by bisection on the regularised incomplete gamma"""
    k = (p, n)
    if k not in CHI2:
        lo, hi = 0.0, 400.0
        for _ in range(200):
            m = (lo + hi) / 2
            if gammainc(n / 2.0, m / 2) < p:
                lo = m
            else:
                hi = m
        CHI2[k] = (lo + hi) / 2
    return CHI2[k]


def gammainc(a, x):
    import math
    if x <= 0:
        return 0.0
    t = s = 1.0 / a
    k = 1
    while abs(t) > 1e-18 * abs(s) and k < 5000:
        t *= x / (a + k)
        s += t
        k += 1
    return min(1.0, s * math.exp(-x + a * math.log(x) - math.lgamma(a)))


def jobs(tier):
    o = dict(max_terms=45, timeout_ms=300)
    J = [dict(h='h_ap', p=dict(E=6, S=8, iters=None, sym=[[0, 0, 0], [3, 2, 0]], local=1e-3, std=False), o=o, nval=0, conc=3),
         dict(h='h_ap', p=dict(E=6, S=8, iters=None, sym=[[0, 0, 0]], local=1e-3, std=False, model='AP'), o=o, nval=0, conc=3),
         dict(h='h_ap', p=dict(E=2, S=2, iters=1, std=False)),
         dict(h='h_ap', p=dict(E=3, S=3, iters=1, sym=[[1, 2, 0]], model='MLE_CO_AP', zeromean=None)),
         dict(h='h_ap', p=dict(E=3, S=3, iters=1, sym=[[0, 0, 0], [1, 1, 0]], model='AP', local=0.05)),
         dict(h='h_ap', p=dict(E=4, S=5, iters=2, model='P910', local=1e-4), o=o),
         dict(h='h_ap', p=dict(E=3, S=3, iters=2, model='MLE_CO_AP2', zeromean=False, local=1e-4), o=o),
         dict(h='h_ap', p=dict(E=4, S=3, iters=2, missing=[[0, 0, 0], [2, 1, 0]], style='dict', local=1e-4), o=o),
         dict(h='h_ap', p=dict(E=3, S=3, R=2, iters=2, model='AP2', local=1e-4), o=o),
         dict(h='h_ap', p=dict(E=4, S=3, R=2, iters=1, missing=[[0, 0, 1], [2, 1, 0], [2, 1, 1]], model='AP', local=1e-4), o=o),
         dict(h='h_ap', p=dict(E=4, S=4, iters=3, local=1e-5), o=o),
         dict(h='h_ap', p=dict(E=5, S=4, iters=2, missing=[[0, 1, 0], [1, 2, 0]], model='AP', local=1e-5), o=o)]
    if tier == 'thorough':
        o = dict(max_terms=60, timeout_ms=1000, budget=300)
        J += [dict(h='h_ap', p=dict(E=6, S=6, iters=2, local=1e-5), o=o),
              dict(h='h_ap', p=dict(E=4, S=4, iters=5, local=1e-6), o=o),
              dict(h='h_ap', p=dict(E=3, S=3, iters=2, sym=[[0, 0, 0], [1, 1, 0]], local=0.02), o=o),
              dict(h='h_ap', p=dict(E=5, S=5, iters=3, missing=[[4, 4, 0], [0, 3, 0], [2, 2, 0]], local=1e-5), o=o),
              dict(h='h_ap', p=dict(E=4, S=4, R=3, iters=2, missing=[[1, 1, 2]], local=1e-5), o=o)]
    return J
