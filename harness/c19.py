"""C19 Thurstone model"""
from . import lib
from .c18 import table, residual, zeros, votes

BOUNDS = ('symbolic score vectors and win counts of 2 to 3 videos (4 for the likelihood), uncompared pairs included, any point '
          'returned by the optimiser; every table of 3 videos from one subject and two-valued tables of two subjects through the reader')
ASSUMPTIONS = ['the optimiser (scipy) may return any point; that it finds the minimum is out of scope',
               'the bordered information matrix is nonsingular']


def nll_spec(ctx, v, a):
    M = len(a)
    eps = 1e-8 / M
    t = 0
    for i in range(M):
        for j in range(M):
            t = t - a[i][j] * ctx.log(ctx.cdf(v[i] - v[j]) + eps) - a[j][i] * ctx.log(ctx.cdf(v[j] - v[i]) + eps)
    return t


def h_nll(ctx, M, tab=None, symw=True):
    from sureal.pc_subjective_model import ThurstoneMlePairedCompSubjectiveModel as T
    from sureal.tools import misc
    if tab:
        a = table(ctx, tab, [[i, j] for i in range(M) for j in range(M) if i != j] if symw else [], 1)
    else:
        a = [[ctx.num(0) if i == j else ctx.real('w_%d_%d' % (i, j), 0, 9) for j in range(M)] for i in range(M)]
    v = [ctx.real('v%d' % i, -2, 2) for i in range(M)]
    A, V = misc.np.array(a), misc.np.array(v)
    ctx.eq('likelihood', T.neg_log_likelihood_function(V, A), nll_spec(ctx, v, a))
    ctx.eq('inputs kept', [lib.plain(A), lib.plain(V)], [a, v])


def pdf(ctx, x):
    return ctx.exp(-(x * x) / 2) / ctx.num(2.5066282746310002)


def info(ctx, v, a, known):
    M = len(a)
    t = [[0 for _ in range(M)] for _ in range(M)]
    for i in range(M):
        for j in range(M):
            x = v[i] - v[j]
            P, f = ctx.cdf(x), pdf(ctx, x)
            if known:
                t[i][j] = (a[i][j] + a[j][i]) * (-x * P * f - f * f) / (P * P)
            else:
                Q = ctx.cdf(v[j] - v[i])
                t[i][j] = a[i][j] * (-x * P * f - f * f) / (P * P) + a[j][i] * (x * Q * f - f * f) / (Q * Q)
    return [[sum(t[i]) - t[i][i] if i == j else -t[i][j] for j in range(M)] for i in range(M)]


def check_cov(ctx, v, a, C, std):
    M = len(a)
    ctx.eq('std', [s * s for s in std], [C[i][i] for i in range(M)])
    good = residual(C, info(ctx, v, a, False))
    if not ctx.identical(good, zeros(good)):
        bad = residual(C, info(ctx, v, a, True))
        ctx.eq('covariance', bad, zeros(bad))
    return good


def h_resolve(ctx, tab, sym=(), local=0.1, simplified=None):
    from sureal.pc_subjective_model import ThurstoneMlePairedCompSubjectiveModel as T
    from sureal.tools import misc
    a = table(ctx, tab, [list(s) for s in sym], local)
    M = len(a)
    kw = {} if simplified is None else dict(use_simplified_lbda=simplified)
    v, std, C = T.resolve_model(misc.np.array(a), **kw)
    ctx.eq('one optimisation', len(ctx.opt_calls), 1)
    fun, x0, x, args, k = ctx.opt_calls[0]
    ctx.eq('start', list(x0), [0] * M)
    ctx.true('unconstrained', not k.get('bounds') and not k.get('constraints'))
    w = [ctx.real('at%d' % i, -2, 2) for i in range(M)]
    ctx.eq('objective', fun(misc.np.array(w)), nll_spec(ctx, w, a))
    ctx.eq('scores', list(v), list(x))
    good = check_cov(ctx, list(x), a, [[C[i][j] for j in range(M)] for i in range(M)], list(std))
    ctx.eq('information matrix', good, zeros(good))


def h_model(ctx, E, subjects, pairs, aids, vals=3, zs=None, simplified=None):
    from sureal.dataset_reader import PairedCompDatasetReader
    from sureal import pc_subjective_model as M
    from sureal.tools import misc
    d, a = votes(ctx, E, subjects, pairs, aids, vals)
    ctx.assume(any(a[i][j] > 0 for i in range(E) for j in range(E)))
    for s in subjects:
        ctx.assume(any(k[0] == s for v in d.dis_videos for k in v['os']))
    before = lib.snapshot(d)
    kw = {} if zs is None else dict(zscore_output=zs)
    if simplified is not None:
        kw['use_simplified_lbda'] = simplified
    real = M.ThurstoneMlePairedCompSubjectiveModel

    class T(real):
        @classmethod
        def resolve_model(cls, alpha, **more):
            T.seen = (lib.plain(alpha), more)
            np = misc.np
            T.out = (np.array([ctx.real('x%d' % i, -2, 2) for i in range(E)]), np.array([ctx.real('sd%d' % i, 0, 2) for i in range(E)]),
                     np.zeros([E, E]))
            return T.out
    T.seen = None
    r = T(PairedCompDatasetReader(d)).run_modeling(**kw)
    if T.seen is None:
        return
    ctx.eq('table', T.seen[0], a)
    ctx.eq('variant', bool(T.seen[1].get('use_simplified_lbda', True)), simplified is not False)
    x, sd = list(T.out[0]), list(T.out[1])
    if zs:
        m, s = lib.mean(ctx, x), lib.std(ctx, x)
        x = [(t - m) / s for t in x]
        sd = [t / s for t in sd]
    ctx.eq('scores', list(r['quality_scores']), x)
    ctx.eq('std', list(r['quality_scores_std']), sd)
    c = [1.95996 * t for t in sd]
    ctx.eq('interval', [list(t) for t in r['quality_scores_ci95']], [c, c])
    ctx.eq('observers', list(r['observers']), sorted(subjects))
    ctx.eq('source', lib.snapshot(d), before)


def jobs(tier):
    o = dict(timeout_ms=200, budget=100, max_paths=20000, max_terms=40)
    J = []

    def add(h, nval=1, **p):
        J.append(dict(h=h, p=p, o=o, nval=nval))
    for M in (2, 3, 4):
        add('h_nll', M=M)
    add('h_nll', M=3, tab='gap3', symw=False)
    A2 = [[0, 1], [1, 0]]
    for s in (None, True, False):
        add('h_resolve', tab='two', sym=A2, simplified=s)
        add('h_resolve', tab='full3', sym=[[0, 1], [2, 1]], simplified=s)
    add('h_resolve', tab='gap3', sym=[[0, 1]])
    P3 = [[0, 1], [1, 2], [2, 0]]
    add('h_model', E=3, subjects=['b'], pairs=P3, aids=[1, 0, 2], vals=3, zs=True)
    add('h_model', E=2, subjects=['b', 'a', 'c'], pairs=[[0, 1]], aids=[1, 0], vals=3)
    add('h_model', E=2, subjects=['b', 'a'], pairs=[[0, 1]], aids=[1, 0], vals=4, zs=False, simplified=False)
    if tier == 'thorough':
        o = dict(timeout_ms=1000, budget=800, max_paths=60000, max_terms=60)
        add('h_resolve', tab='full4', sym=[[0, 1]])
        add('h_nll', M=5)
        add('h_model', E=3, subjects=['b', 'a'], pairs=P3, aids=[1, 0, 2], vals=2, zs=True)
    return J
