"""C22 agreement metrics and interval coverage"""
from . import lib

BOUNDS = ('2 to 5 symbolic pairs (RMSE), 3 (PCC, with up to 4 raw scores per ground truth), every order and tie pattern of 3 to 4 '
          'pairs (rank correlations); 1 to 4 symbolic estimates with asymmetric intervals (coverage)')
ASSUMPTIONS = ['correlations are checked where they are defined (neither side constant)', 'the logistic mapping is checked for 3 to 4 pairs in boxes around generic values']


def vals(ctx, n, N, raw=None, lo=-5, hi=5):
    """N numbers, or lists of raw scores with the given lengths"""
    out, flat = [], []
    for i in range(N):
        m = (raw or {}).get(i) if not isinstance(raw, list) else raw[i]
        if m:
            xs = [ctx.real('%s%d_%d' % (n, i, k), lo, hi) for k in range(m)]
            out.append(xs)
            flat.append(lib.mean(ctx, xs))
        else:
            x = ctx.real('%s%d' % (n, i), lo, hi)
            out.append(x)
            flat.append(x)
    return out, flat


def corr(ctx, a, b):
    ma, mb = lib.mean(ctx, a), lib.mean(ctx, b)
    num = sum((u - ma) * (w - mb) for u, w in zip(a, b))
    da = sum((u - ma) * (u - ma) for u in a)
    db = sum((w - mb) * (w - mb) for w in b)
    return num, da, db


def h_metric(ctx, name, N, raw=None, form='list', rng=5, mapping=None, method=None, sep=False):
    from sureal import perf_metric as P
    from sureal.tools import misc
    g, gf = vals(ctx, 'g', N, raw, -rng, rng)
    p, pf = vals(ctx, 'p', N, None, -rng, rng)
    keep = (lib.plain(g), lib.plain(p))
    G, Q = g, p
    if form == 'array':
        G = misc.np.array(g) if not raw else [misc.np.array(x) if isinstance(x, list) else x for x in g]
        Q = misc.np.array(p)
    elif form == 'tuple':
        G, Q = tuple(g), tuple(p)
    cls = dict(rmse=P.RmsePerfMetric, pcc=P.PccPerfMetric, srcc=P.SrccPerfMetric, kendall=P.KendallPerfMetric)[name]
    kw = {} if mapping is None else dict(enable_mapping=mapping)
    if method == 'median':
        kw['aggr_method'] = lambda xs: sorted_mid(xs)
        gf = [sorted_mid(x) if isinstance(x, list) else x for x in g]
    if name in ('pcc', 'srcc', 'kendall'):
        for xs in (gf, pf):
            ctx.assume(any(xs[i] < xs[0] or xs[i] > xs[0] for i in range(1, N)))
        if name != 'pcc':
            for xs in (gf, pf):
                for i in range(N):
                    for j in range(i):
                        ctx.assume(not ctx.near(xs[i], xs[j]))
    s = cls(G, Q).evaluate(**kw)['score']
    if name == 'rmse':
        ctx.eq('squared', s * s, sum((a - b) * (a - b) for a, b in zip(gf, pf)) / N)
        ctx.true('not negative', s >= 0)
    elif name == 'pcc':
        num, da, db = corr(ctx, gf, pf)
        ctx.eq('correlation', s, num / (ctx.sqrt(da) * ctx.sqrt(db)))
    elif name == 'srcc':
        num, da, db = corr(ctx, lib.ranks(ctx, gf), lib.ranks(ctx, pf))
        ctx.eq('rank correlation', s, num / ctx.sqrt(da * db))
    else:
        con = tx = ty = 0
        for i in range(N):
            for j in range(i):
                a = 1 if gf[i] > gf[j] else (-1 if gf[i] < gf[j] else 0)
                b = 1 if pf[i] > pf[j] else (-1 if pf[i] < pf[j] else 0)
                con += a * b
                tx += a != 0
                ty += b != 0
        ctx.eq('tau', s, ctx.num(con) / ctx.sqrt(ctx.num(tx * ty)))
    ctx.eq('inputs kept', [lib.plain(G), lib.plain(Q)], [list(keep[0]), list(keep[1])])
    # swapping the roles of the two sides changes nothing (when both are plain numbers)
    if not raw:
        ctx.eq('symmetric', cls(Q, G).evaluate(**kw)['score'], s)


def sorted_mid(xs):
    xs = list(xs)
    lo = xs[0]
    for x in xs[1:]:
        if x < lo:
            lo = x
    return lo


def h_map(ctx, name, N, raw=None, local=1e-3, swap=False):
    """predictions are first passed through the logistic curve fitted to the ground truth"""
    from sureal import perf_metric as P
    ctx.exact_logs()
    at = lambda n, v: ctx.num(v) + ctx.real(n, -local, local)
    order = list(range(N))[::-1] if swap else list(range(N))
    g = [at('g%d' % i, 1 + 0.75 * i + 0.125 * (i % 3)) for i in order]
    p = [at('p%d' % i, 10 + 7 * i - 3 * (i % 2)) for i in order]
    G = list(g)
    if raw:
        G = [[x - ctx.real('w%d' % i, 0, 1), x + ctx.real('w%d' % i, 0, 1)] if i in raw else x for i, x in enumerate(g)]
    cls = dict(rmse=P.RmsePerfMetric, pcc=P.PccPerfMetric, srcc=P.SrccPerfMetric, kendall=P.KendallPerfMetric)[name]
    s = cls(G, p).evaluate(enable_mapping=True)['score']
    hi, lo = g[order.index(N - 1)] + ctx.num(0.1), g[order.index(0)] - ctx.num(0.1)
    z = [-ctx.log(1 / ((x - lo) / (hi - lo)) - 1) for x in g]
    mz, mp = lib.mean(ctx, z), lib.mean(ctx, p)
    b = sum((u - mz) * (w - mp) for u, w in zip(z, p)) / sum((u - mz) * (u - mz) for u in z)
    a = mp - b * mz
    m = [1 / (1 + ctx.exp(-(x - a) / b)) * (hi - lo) + lo for x in p]
    if name == 'rmse':
        ctx.eq('squared', s * s, sum((x - y) * (x - y) for x, y in zip(g, m)) / N)
    else:
        num, da, db = corr(ctx, g, m)
        ctx.eq('correlation', s, num / (ctx.sqrt(da) * ctx.sqrt(db)))


def h_len(ctx, name):
    from sureal import perf_metric as P
    n, m = ctx.choice('n', 4), ctx.choice('m', 4)
    cls = dict(rmse=P.RmsePerfMetric, pcc=P.PccPerfMetric, srcc=P.SrccPerfMetric, kendall=P.KendallPerfMetric)[name]
    try:
        cls([ctx.num(i) for i in range(n)], [ctx.num(2 * i) for i in range(m)])
        bad = False
    except AssertionError:
        bad = True
    ctx.eq('different lengths refused', bad, n != m)


def h_ci(ctx, N, form='list', nan=None):
    from sureal.routine import get_ci_percentage
    from sureal.tools import misc
    x = [ctx.real('x%d' % i, 0, 5) for i in range(N)]
    y = [ctx.real('y%d' % i, 0, 5) for i in range(N)]
    lo = [ctx.real('lo%d' % i, 0, 2) for i in range(N)]
    hi = [ctx.real('hi%d' % i, 0, 2) for i in range(N)]
    if nan is not None:
        y[nan] = ctx.nan
    a = misc.np.array if form == 'array' else list
    inside = 0
    for i in range(N):
        if ctx.isnan(y[i]):
            continue
        ctx.assume(not ctx.near(x[i], y[i] - lo[i]) and not ctx.near(x[i], y[i] + hi[i]))
        inside += bool(x[i] >= y[i] - lo[i] and x[i] <= y[i] + hi[i])
    got = get_ci_percentage({'quality_scores': a(x), 'other': []}, {'quality_scores': a(y), 'ci': [lo, hi], 'other': []}, 'quality_scores', 'ci')
    ctx.eq('coverage', got, ctx.num(100 * inside) / N)


def jobs(tier):
    o = dict(timeout_ms=300, budget=120, max_paths=20000)
    J = []

    def add(h='h_metric', nval=1, **p):
        J.append(dict(h=h, p=p, o=o, nval=nval))
    for n in (1, 2, 3, 5):
        add(name='rmse', N=n)
    add(name='rmse', N=3, raw=[2, 0, 3], form='tuple')
    add(name='rmse', N=3, raw=[2, 3, 2], form='array', mapping=False)
    add(name='rmse', N=2, raw=[3, 2], method='median')
    add(name='rmse', N=3, form='array', mapping=False)
    add(name='pcc', N=3)
    add(name='pcc', N=4, form='array')
    add(name='pcc', N=3, raw=[2, 0, 4])
    add(h='h_map', name='rmse', N=3)
    add(h='h_map', name='rmse', N=4, raw=[1, 2], swap=True)
    add(h='h_map', name='pcc', N=3)
    add(name='srcc', N=3)
    add(name='srcc', N=3, raw=[2, 0, 2], form='tuple', mapping=False)
    add(name='kendall', N=3)
    add(name='kendall', N=3, raw=[0, 3, 0], form='tuple')
    for m in ('rmse', 'pcc', 'srcc', 'kendall'):
        add(h='h_len', name=m)
    for n in (1, 2, 3):
        add(h='h_ci', N=n, form='list' if n % 2 else 'array')
    add(h='h_ci', N=3, nan=1)
    if tier == 'thorough':
        o = dict(timeout_ms=1000, budget=800, max_paths=200000)
        add(name='srcc', N=4)
        add(name='kendall', N=4)
        add(name='pcc', N=6)
        add(h='h_ci', N=4)
    return J
