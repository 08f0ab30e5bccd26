"""C24 densities, weighted means and counts"""
from . import lib

BOUNDS = ('symbolic points, locations and scales (uniform: every case of overlap, equal scales included), arrays up to 2x3x2; '
          'weighted means of up to 3x3 grids with every pattern of missing entries; counts of up to 4 entries with every tie and '
          'missing pattern')
ASSUMPTIONS = ['scales are positive', 'the logistic convolution (numerical quadrature) is not covered',
               'the density of a sum of two uniforms is not compared exactly at the ends of its support']


def arr(ctx, n, shape, lo, hi):
    from sureal.tools import misc

    def mk(pre, sh):
        if not sh:
            return ctx.real(pre, lo, hi)
        return [mk('%s_%d' % (pre, i), sh[1:]) for i in range(sh[0])]
    x = mk(n, shape)
    return x, (misc.np.array(x) if shape else x)


def flat(x):
    x = lib.plain(x)
    if isinstance(x, list):
        return [z for y in x for z in flat(y)]
    return [x]


def h_gauss(ctx, shape, kind, bshape=None):
    from sureal.tools import stats
    x, xa = arr(ctx, 'x', shape, -3, 3)
    m, ma = arr(ctx, 'm', bshape if bshape is not None else shape, -3, 3)
    s, sa = arr(ctx, 's', bshape if bshape is not None else shape, 0.25, 3)
    fn = dict(gauss=stats.vectorized_gaussian, logistic=stats.vectorized_logistic)[kind]
    got = flat(fn(xa, ma, sa))
    X, M, T = flat(x), flat(m), flat(s)
    if len(M) != len(X):
        k = len(X) // len(M)
        M, T = [v for v in M for _ in range(k)], [v for v in T for _ in range(k)]
    pi = ctx.num(3.141592653589793)
    want = []
    for a, b, c in zip(X, M, T):
        z = (a - b) / c
        if kind == 'gauss':
            want.append(ctx.exp(-z * z / 2) / (c * ctx.sqrt(2 * pi)))
        else:
            e = ctx.exp(z / 2)
            want.append(1 / (c * (1 / e + e) * (1 / e + e)))
    ctx.eq('density', got, want)


def overlap(ctx, x, l1, s1, l2, s2):
    """length of the overlap of the two intervals / (s1 s2)"""
    a, b = l1 - s1 / 2, l1 + s1 / 2
    c, d = x - l2 - s2 / 2, x - l2 + s2 / 2
    lo = a if a > c else c
    hi = b if b < d else d
    return (hi - lo) / (s1 * s2) if hi > lo else ctx.num(0)


def h_uniform(ctx, N=1, equal=False, vec=False):
    from sureal.tools import stats
    x, xa = arr(ctx, 'x', [N], -4, 4)
    l1, l1a = arr(ctx, 'l', [N], -2, 2)
    l2, l2a = arr(ctx, 'k', [N], -2, 2)
    s1, s1a = arr(ctx, 's', [N], 0.25, 3)
    if equal:
        s2, s2a = s1, s1a
    else:
        s2, s2a = arr(ctx, 't', [N], 0.25, 3)
    for i in range(N):
        z = x[i] - l1[i] - l2[i]
        h, w = (s1[i] + s2[i]) / 2, (s1[i] - s2[i]) / 2
        for t in (h, -h) + (() if equal else (w, -w)):
            ctx.assume(not ctx.near(z, t))
    if vec:
        got = lib.plain(stats.vectorized_convolution_of_two_uniforms(xa, l1a, s1a, l2a, s2a))
    else:
        got = [stats.convolution_of_two_uniforms(x[i], l1[i], s1[i], l2[i], s2[i]) for i in range(N)]
    ctx.eq('density', got, [overlap(ctx, x[i], l1[i], s1[i], l2[i], s2[i]) for i in range(N)])


def h_loglik(ctx, E, S, R, cids, axis, pdf='gaussian', missing=(), zero=False):
    """log-likelihood of the votes, per video (1) or subject (0)"""
    from sureal.subjective_model import MaximumLikelihoodEstimationModel as M
    from sureal.tools import misc
    C = max(cids) + 1
    x = [[[ctx.nan if [e, s, r] in missing else ctx.num(2 + ((3 * e + 5 * s + 7 * r) % 5) / 4) for r in range(R)] for s in range(S)] for e in range(E)]
    q = [ctx.real('q%d' % e, 1, 5) for e in range(E)]
    b = [ctx.real('b%d' % s, -1, 1) for s in range(S)]
    v = [ctx.real('v%d' % s, 0.5, 2) for s in range(S)]
    a = [ctx.num(0) if zero else ctx.real('a%d' % c, 0.5, 2) for c in range(C)]
    A = misc.np.array
    got = lib.plain(M.loglikelihood_fcn(A(x), A(q), A(b), A(v), A(a), cids, axis, pdf))
    pi = ctx.num(3.141592653589793)
    want = [ctx.num(0) for _ in range(E if axis == 1 else S)]
    for e in range(E):
        for s in range(S):
            for r in range(R):
                if [e, s, r] in missing:
                    continue
                t = v[s] * v[s] + a[cids[e]] * a[cids[e]]
                d = x[e][s][r] - q[e] - b[s]
                k = e if axis == 1 else s
                want[k] = want[k] - ctx.log(2 * pi * t) / 2 - d * d / (2 * t)
    ctx.eq('log-likelihood', got, want)


def h_wmean(ctx, E, S, axis):
    from sureal.tools import misc
    x = [[ctx.nan if ctx.flag('m_%d_%d' % (e, s)) else ctx.real('x_%d_%d' % (e, s), -5, 5) for s in range(S)] for e in range(E)]
    w = [ctx.real('w%d' % i, 0.25, 4) for i in range(S if axis == 1 else E)]
    got = lib.plain(misc.weighed_nanmean_2d(misc.np.array(x), misc.np.array(w), axis))
    want = []
    for i in range(E if axis == 1 else S):
        n, d, k = ctx.num(0), ctx.num(0), 0
        for j in range(S if axis == 1 else E):
            t = x[i][j] if axis == 1 else x[j][i]
            if not ctx.isnan(t):
                n, d, k = n + w[j] * t, d + w[j], k + 1
        want.append(n / d if k else None)
    ctx.eq('length', len(got), len(want))
    for i, t in enumerate(want):
        if t is not None:
            ctx.eq('mean %d' % i, got[i], t)


def h_histc(ctx, N, k=3):
    from sureal.tools.stats import histc
    from sureal.tools import misc
    v = [ctx.nan if c == k else ctx.num(c + 1) for c in (ctx.choice('c%d' % i, k + 1) for i in range(N))]
    got = histc(misc.np.array(v) if ctx.flag('array') else v)
    cnt = {}
    for t in v:
        if not ctx.isnan(t):
            cnt[float(t)] = cnt.get(float(t), 0) + 1
    ctx.eq('values', sorted(float(t) for t in got), sorted(cnt))
    ctx.eq('counts', {str(float(t)): got[t] for t in got}, {str(t): cnt[t] for t in cnt})


def h_lists(ctx, N):
    from sureal.tools.misc import get_unique_sorted_list, indices
    v = [ctx.choice('c%d' % i, 4) for i in range(N)]
    given = list(v)
    got = get_unique_sorted_list(v)
    ctx.eq('unique', list(got), [t for t in range(4) if t in v])
    t = ctx.choice('t', 4)
    ctx.eq('indices', list(indices(v, lambda x: x >= t)), [i for i in range(N) if v[i] >= t])
    ctx.eq('kept', v, given)


def jobs(tier):
    o = dict(timeout_ms=400, budget=120, max_paths=20000)
    J = []

    def add(h, nval=1, **p):
        J.append(dict(h=h, p=p, o=o, nval=nval))
    for k in ('gauss', 'logistic'):
        add('h_gauss', shape=[], kind=k)
        add('h_gauss', shape=[2, 3], kind=k)
        add('h_gauss', shape=[2, 2, 2], bshape=[2, 2, 1], kind=k)
    for v in (False, True):
        add('h_uniform', vec=v)
        add('h_uniform', equal=True, vec=v)
    add('h_loglik', E=2, S=2, R=1, cids=[0, 1], axis=1)
    add('h_loglik', E=2, S=2, R=2, cids=[0, 0], axis=0, missing=[[0, 1, 1], [1, 0, 0]])
    add('h_loglik', E=3, S=2, R=1, cids=[1, 0, 1], axis=0, zero=True)
    add('h_wmean', E=2, S=3, axis=1)
    add('h_wmean', E=2, S=3, axis=0)
    add('h_wmean', E=3, S=2, axis=0)
    add('h_wmean', E=3, S=2, axis=1)
    add('h_histc', N=3)
    add('h_lists', N=3)
    if tier == 'thorough':
        o = dict(timeout_ms=1000, budget=800, max_paths=200000)
        add('h_uniform', N=2, vec=True)
        add('h_wmean', E=3, S=3, axis=1)
        add('h_wmean', E=3, S=3, axis=0)
        add('h_histc', N=4)
        add('h_lists', N=5)
        add('h_loglik', E=3, S=3, R=2, cids=[1, 0, 1], axis=1, missing=[[0, 1, 1], [1, 0, 0], [2, 2, 0]])
    return J
