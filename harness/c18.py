"""C18 Bradley-Terry models"""
from . import lib

BOUNDS = ('symbolic win counts of up to 3 videos (4 with fewer symbolic counts) in boxes around generic tables incl. uncompared '
          'pairs, 1 to 2 iterations; every table of 3 videos from up to 2 subjects with results 0, 0.5, 1 through the reader')
ASSUMPTIONS = ['the bordered information matrix is nonsingular (it is when the comparisons connect all videos)',
               'convergence for every table is out of scope; the iteration count is a parameter']

TABLES = {
    'full3': [[0, 3, 2], [1, 0, 6], [4, 3, 0]],
    'gap3': [[0, 3, 0], [2, 0, 5], [0, 4, 0]],
    'full4': [[0, 3, 2, 7], [1, 0, 6, 3], [4, 3, 0, 0], [1, 2, 5, 0]],
    'two': [[0, 5], [3, 0]],
}


def table(ctx, name, sym, local):
    t = TABLES[name]
    return [[ctx.num(t[i][j]) + (ctx.real('w_%d_%d' % (i, j), -local, local) if [i, j] in sym else 0)
             for j in range(len(t))] for i in range(len(t))]


def mle_spec(a, k):
    M = len(a)
    n = [[a[i][j] + a[j][i] for j in range(M)] for i in range(M)]
    p = [a[0][0] * 0 + 1 for _ in range(M)]
    p = [x / M for x in p]
    for _ in range(k):
        q = []
        for i in range(M):
            w = sum(a[i][j] for j in range(M))
            q.append(w / sum(n[i][j] / (p[i] + p[j]) for j in range(M)))
        z = sum(q)
        p = [x / z for x in q]
    return n, p


def residual(C, L):
    """zero exactly when C is the upper left block of the inverse of [[-L, 1], [1', 0]]"""
    M = len(L)
    X = [[-sum(L[i][k] * C[k][j] for k in range(M)) - (1 if i == j else 0) for j in range(M)] for i in range(M)]
    return [[X[i][j] - X[0][j] for j in range(M)] for i in range(1, M)] + [[sum(C[i][j] for i in range(M)) for j in range(M)]]


def zeros(r):
    return [[0 for _ in row] for row in r]


def check_mle(ctx, a, k, res):
    v, sv, p, sp, Cv, Cp = res
    M = len(a)
    n, want = mle_spec(a, k)
    ctx.eq('strength', list(p), want)
    ctx.eq('score is log strength', list(v), [ctx.log(x) for x in want])
    ctx.eq('strength sums to one', sum(list(p)), 1)
    Cp = [[Cp[i][j] for j in range(M)] for i in range(M)]
    ctx.eq('shape', [len(Cp), len(Cv)], [M, M])
    ctx.eq('strength std', [list(sp)[i] * list(sp)[i] for i in range(M)], [Cp[i][i] for i in range(M)])
    ctx.eq('score std', list(sv), [list(sp)[i] / want[i] for i in range(M)])
    ctx.eq('score covariance', [[Cv[i][j] for j in range(M)] for i in range(M)],
           [[Cp[i][j] / (want[i] * want[j]) for j in range(M)] for i in range(M)])
    p = want

    def hess(off):
        return [[sum(n[i][m] / (p[i] + p[m]) / (p[i] + p[m]) - a[i][m] / p[i] / p[i] for m in range(M)) if i == j else off(i, j)
                 for j in range(M)] for i in range(M)]
    good = residual(Cp, hess(lambda i, j: n[i][j] / (p[i] + p[j]) / (p[i] + p[j])))
    if not ctx.identical(good, zeros(good)):
        # recorded deviation (known_findings.json): 2 n/(p_i+p_j) off the diagonal
        bad = residual(Cp, hess(lambda i, j: n[i][j] / (p[i] + p[j]) * 2))
        ctx.eq('covariance', bad, zeros(bad))
    return good


def h_mle(ctx, tab, sym, local=0.1, k=1):
    from sureal.pc_subjective_model import BradleyTerryMlePairedCompSubjectiveModel as BT
    from sureal.tools import misc
    ctx.exact_logs()
    a = table(ctx, tab, sym, local)
    ctx.iterations(k)
    arr = misc.np.array(a)
    good = check_mle(ctx, a, k, BT.resolve_model(arr, display=False))
    ctx.eq('table kept', lib.plain(arr), a)
    ctx.eq('information matrix', good, zeros(good))


def votes(ctx, E, subjects, pairs, aids, vals):
    d = lib.DS()
    d.dataset_name = 'pc'
    d.yuv_fmt, d.width, d.height, d.ref_score = 'yuv420p', 1920, 1080, 5.0
    d.ref_videos = [{'content_id': 0, 'content_name': 'c', 'path': 'r'}]
    d.dis_videos = [{'content_id': 0, 'asset_id': aids[e], 'path': 'd%d' % e, 'os': {}} for e in range(E)]
    a = [[0 for _ in range(E)] for _ in range(E)]
    for s in subjects:
        for i, j in pairs:
            k = ctx.choice('p_%s_%d_%d' % (s, i, j), vals)
            if k == 3:
                continue
            v = [1, 0, 0.5][k]
            d.dis_videos[i]['os'][s, aids[j]] = v
            a[i][j] = a[i][j] + v
            a[j][i] = a[j][i] + 1 - v
    return d, [[ctx.num(x) for x in row] for row in a]


def h_model(ctx, E, subjects, pairs, aids, vals=3, k=1, model='mle', zs=None):
    from sureal.dataset_reader import PairedCompDatasetReader
    from sureal import pc_subjective_model as M
    ctx.exact_logs()
    d, a = votes(ctx, E, subjects, pairs, aids, vals)
    for i in range(E):
        ctx.assume(sum(a[i]) > 0)
        ctx.assume(sum(a[j][i] for j in range(E)) > 0)
    before = lib.snapshot(d)
    ctx.iterations(k)
    kw = {} if zs is None else dict(zscore_output=zs)
    if model == 'mle':
        m = M.BradleyTerryMlePairedCompSubjectiveModel(PairedCompDatasetReader(d))
        r = m.run_modeling(**kw)
        good = check_mle(ctx, a, k, [r['quality_scores'], r['quality_scores_std'], r['quality_scores_p'], r['quality_scores_p_std'],
                                     r['quality_scores_v_cov'], r['quality_scores_p_cov']])
        c = [1.95996 * x for x in r['quality_scores_std']]
        ctx.eq('interval', [list(x) for x in r['quality_scores_ci95']], [c, c])
    else:
        m = M.BradleyTerryNewtonRaphsonPairedCompSubjectiveModel(PairedCompDatasetReader(d))
        r = m.run_modeling(**kw)
        ctx.true('no deviations', r['quality_scores_std'] is None)
        check_nr(ctx, a, k, list(r['quality_scores']), zs)
    ctx.eq('observers', list(r['observers']), sorted(subjects))
    ctx.eq('source', lib.snapshot(d), before)
    if model == 'mle':
        ctx.eq('information matrix', good, zeros(good))


def nr_eqs(ctx, a, g):
    """gradient and Hessian (first M-1 videos) of the Bradley-Terry log-likelihood at g"""
    M = len(a)
    e = [ctx.exp(x) for x in g]
    r = [[e[i] / (e[i] + e[j]) for j in range(M)] for i in range(M)]
    n = [[a[i][j] + a[j][i] for j in range(M)] for i in range(M)]
    dL = [sum(a[i]) - sum(n[i][j] * r[i][j] for j in range(M) if j != i) for i in range(M - 1)]
    H = [[-sum(n[i][m] * r[i][m] * (1 - r[i][m]) for m in range(M) if m != i) if i == j else n[i][j] * r[i][j] * (1 - r[i][j])
          for j in range(M - 1)] for i in range(M - 1)]
    return dL, H


def solve(ctx, H, b):
    n = len(b)
    if n == 1:
        return [b[0] / H[0][0]]
    if n == 2:
        det = H[0][0] * H[1][1] - H[0][1] * H[1][0]
        return [(b[0] * H[1][1] - b[1] * H[0][1]) / det, (b[1] * H[0][0] - b[0] * H[1][0]) / det]
    return list(ctx.np.linalg.solve(ctx.np.array(H), ctx.np.array(b)))


def check_nr(ctx, a, k, got, zs=None):
    M = len(a)
    g = [ctx.num(0) for _ in range(M)]
    for _ in range(k):
        dL, H = nr_eqs(ctx, a, g)
        st = solve(ctx, H, dL)
        g = [g[i] - st[i] for i in range(M - 1)] + [ctx.num(0)]
    if zs:
        m, s = lib.mean(ctx, g), lib.std(ctx, g)
        g = [(x - m) / s for x in g]
    else:
        ctx.eq('last score is the origin', got[-1], 0)
    ctx.eq('scores', got, g)


def h_nr(ctx, tab, sym, local=0.1, k=1, zs=None):
    """symbolic win counts through a reader whose table is given"""
    from sureal.dataset_reader import PairedCompDatasetReader
    from sureal import pc_subjective_model as M
    from sureal.tools import misc
    a = table(ctx, tab, sym, local)
    E = len(a)

    class R(PairedCompDatasetReader):
        @property
        def opinion_score_3darray(self):
            return misc.np.array([[[x, ctx.nan] for x in row] for row in a])
    d = lib.DS()
    d.dataset_name = 'pc'
    d.yuv_fmt, d.width, d.height, d.ref_score = 'yuv420p', 1920, 1080, 5.0
    d.ref_videos = [{'content_id': 0, 'content_name': 'c', 'path': 'r'}]
    d.dis_videos = [{'content_id': 0, 'asset_id': e, 'path': 'd%d' % e, 'os': {('s', (e + 1) % E): 1}} for e in range(E)]
    ctx.iterations(k)
    kw = {} if zs is None else dict(zscore_output=zs)
    r = M.BradleyTerryNewtonRaphsonPairedCompSubjectiveModel(R(d)).run_modeling(**kw)
    check_nr(ctx, a, k, list(r['quality_scores']), zs)


def jobs(tier):
    o = dict(timeout_ms=200, budget=100, max_paths=20000, max_terms=40)
    J = []

    def add(h, nval=1, **p):
        J.append(dict(h=h, p=p, o=o, nval=nval))
    A2 = [[0, 1], [1, 0]]
    A3 = [[i, j] for i in range(3) for j in range(3) if i != j]
    G3 = [[0, 1], [1, 0], [1, 2], [2, 1]]
    add('h_mle', tab='two', sym=A2, k=1, local=1)
    add('h_mle', tab='two', sym=A2, k=2, local=1)
    add('h_mle', tab='full3', sym=A3, k=1)
    add('h_mle', tab='full3', sym=A3[:3], k=2, local=0.01)
    add('h_mle', tab='gap3', sym=G3, k=1)
    add('h_mle', tab='gap3', sym=G3[:2], k=2, local=0.01)
    add('h_mle', tab='full4', sym=[[0, 1], [3, 2]], k=1)
    P3 = [[0, 1], [1, 2], [2, 0]]
    add('h_model', E=3, subjects=['b', 'a'], pairs=P3, aids=[2, 0, 1], vals=2, k=1)
    add('h_model', E=3, subjects=['b'], pairs=P3, aids=[1, 0, 2], vals=3, k=2)
    add('h_nr', tab='two', sym=A2, k=1)
    add('h_nr', tab='two', sym=A2, k=2)
    add('h_nr', tab='full3', sym=A3, k=1)
    add('h_nr', tab='full3', sym=A3[:2], k=2, local=0.001)
    add('h_nr', tab='gap3', sym=G3, k=1)
    add('h_nr', tab='full4', sym=[[0, 1], [3, 2], [2, 0]], k=1)
    add('h_nr', tab='full3', sym=A3[:2], k=1, zs=True)
    add('h_nr', tab='full3', sym=A3[:2], k=1, zs=False)
    add('h_model', E=3, subjects=['b', 'a'], pairs=P3, aids=[2, 0, 1], vals=2, k=1, model='nr')
    add('h_model', E=3, subjects=['b'], pairs=P3, aids=[1, 0, 2], vals=3, k=2, model='nr')
    if tier == 'thorough':
        o = dict(timeout_ms=1000, budget=800, max_paths=60000, max_terms=60)
        add('h_model', E=3, subjects=['b', 'a'], pairs=P3, aids=[2, 0, 1], vals=3, k=2)
        add('h_mle', tab='full3', sym=A3, k=2, local=0.01)
        add('h_mle', tab='full4', sym=[[0, 1], [3, 2]], k=2, local=0.01)
        add('h_nr', tab='full4', sym=[[0, 1], [3, 2], [2, 0]], k=2, local=0.001)
    return J
