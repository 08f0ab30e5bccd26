"""C30 bootstrapped confidence intervals"""
from . import lib
from .c08 import fill
from .c10 import MODELS

BOUNDS = ('2 to 3 subjects, 2 to 4 videos, 1 to 2 repetitions, missing votes, both styles, 1 to 3 resamples with every outcome of the '
          'resampling draws; the estimates of each resample are arbitrary symbolic numbers (any deterministic function of the resampled '
          'votes), free for up to 2 resamples; real estimates on 3x2 and 3x3 grids for resamples that are permutations')
ASSUMPTIONS = ['a draw is a function of the latest seed, the kind of draw and its position since seeding',
               'every subject has a vote in every resample (otherwise no estimate of that subject exists)',
               'the inner estimation (itself decided by C10) is a deterministic function of the votes it is given']


def pct(ctx, xs, q):
    """linear-interpolation percentile"""
    xs = list(xs)
    out = []
    while xs:
        m = xs[0]
        for x in xs[1:]:
            if x < m:
                m = x
        xs = drop(xs, m)
        out.append(m)
    pos = q * (len(out) - 1)
    lo = int(pos)
    hi = min(lo + 1, len(out) - 1)
    w = pos - lo
    return out[lo] + (out[hi] - out[lo]) * ctx.num(w)


def drop(xs, m):
    for i, x in enumerate(xs):
        if x is m:
            return xs[:i] + xs[i + 1:]
    raise ValueError


def cells(row):
    return [c if isinstance(c, list) else [c] for c in row]


def equal(ctx, a, b):
    for x, y in zip(a, b):
        for u, v in zip(x, y):
            if ctx.isnan(u) or ctx.isnan(v):
                if not (ctx.isnan(u) and ctx.isnan(v)):
                    return False
            elif not (u == v):
                return False
    return True


def find(ctx, lines, pool):
    out = []
    for l in lines:
        m = [i for i, p in enumerate(pool) if equal(ctx, l, p)]
        if len(m) != 1:
            return None
        out.append(m[0])
    return out


def h_boot(ctx, E, S, n, R=1, style='list', missing=(), subjects=True, videos=True, zero=None, co=False, free=True, opts=None):
    from sureal import subjective_model as sm
    from sureal import experimental as X
    from sureal.dataset_reader import RawDatasetReader
    ctx.replay_seeds()
    d, votes = lib.build(ctx, E, S, R, style, fill=fill, local=1e-3, fixed_missing=[tuple(m) for m in missing])
    o = sorted(range(S), key=lambda s: lib.NAMES[s]) if style == 'dict' else list(range(S))
    V = [[votes[e][s] for s in o] for e in range(E)]
    before = lib.snapshot(d)
    calls = []

    def val(n_, c):
        return ctx.real(n_, -5, 5) if free else ctx.num(c) + ctx.real(n_, -1e-3, 1e-3)

    def res(key):
        h = 0
        for x in key[1]:
            h = (h * 5 + x + (3 if key[0] == 'v' else 1)) % 11
        t = '%s_%s' % (key[0], '_'.join(map(str, key[1])))
        return {'quality_scores': [val('q_%s_%d' % (t, e), 2 + ((h * (e + 2)) % 11) / 4) for e in range(E)],
                'quality_scores_ci95': [[0.5] * E] * 2, 'quality_scores_std': [val('qs_%s_%d' % (t, e), 1) for e in range(E)],
                'observer_bias': [val('b_%s_%d' % (t, s), ((h * (s + 3)) % 11) / 8 - 0.5) for s in range(S)],
                'observer_bias_ci95': [[0.25] * S] * 2,
                'observer_inconsistency': [val('i_%s_%d' % (t, s), ((h * (s + 5)) % 11) / 16 + 0.5) for s in range(S)],
                'observer_inconsistency_ci95': [[0.125] * S] * 2, 'aic': val('aic_' + t, 3)}

    def inner(cls, rd, **kw):
        a = [cells(r) for r in lib.plain(rd.opinion_score_3darray)]
        ctx.true('shape of a resample', len(a) == E and all(len(r) == S for r in a))
        cols = find(ctx, [[r[s] for r in a] for s in range(S)], [[r[s] for r in V] for s in range(S)])
        rows = find(ctx, a, V)
        ctx.true('a resample of whole subjects or whole videos', cols is not None or rows is not None)
        if cols is not None and cols != list(range(S)):
            key = ('s', cols)
        elif rows is not None and rows != list(range(E)):
            key = ('v', rows)
        else:
            key = ('id', [])
        calls.append((key, kw, getattr(cls, 'mode', None)))
        return res(key)
    keep = sm.MaximumLikelihoodEstimationModel.__dict__['_run_modeling']
    cls = X.MaximumLikelihoodEstimationModelContentObliviousWithBootstrapping if co else X.MaximumLikelihoodEstimationModelWithBootstrapping
    kw = dict(opts or {}, n_bootstrap=n)
    if subjects is not None and not subjects:
        kw['bootstrap_subjects'] = False
    if not videos:
        kw['boostrap_dis_videos'] = False
    if zero is not None:
        kw['force_subjbias_zeromean'] = zero
    kw0 = dict(kw)
    sm.MaximumLikelihoodEstimationModel._run_modeling = classmethod(inner)
    try:
        r = cls(RawDatasetReader(d)).run_modeling(**kw)
    finally:
        sm.MaximumLikelihoodEstimationModel._run_modeling = keep
    ctx.eq('options kept', kw, kw0)
    ctx.eq('source', lib.snapshot(d), before)
    ctx.eq('estimations', len(calls), 1 + n * (bool(subjects) + bool(videos)))
    for key, k, mode in calls:
        ctx.true('biases of a resample are not shifted', k.get('force_subjbias_zeromean') is False)
        ctx.eq('mode', mode, 'CONTENT_OBLIVIOUS' if co else 'DEFAULT')
        for a in opts or {}:
            ctx.eq('option ' + a, k.get(a), opts[a])
    ks = [k[1] for k, _, _ in calls if k[0] == 's']
    kv = [k[1] for k, _, _ in calls if k[0] == 'v']
    base = res(('id', []))
    want = dict(base)
    ok = True
    if subjects:
        ks = [('s', k) for k in ks] + [('id', list(range(S)))] * (n - len(ks))
        ctx.eq('subject resamples', len(ks), n)
        Q = []
        for k in ks:
            b = res(k if k[0] == 's' else ('id', []))
            off = sum((b['observer_bias'][s] - base['observer_bias'][k[1][s]] for s in range(S)), ctx.num(0)) / S
            Q.append([b['quality_scores'][e] + off for e in range(E)])
        want['quality_scores_ci95'] = [[base['quality_scores'][e] - pct(ctx, [q[e] for q in Q], 0.025) for e in range(E)],
                                       [pct(ctx, [q[e] for q in Q], 0.975) - base['quality_scores'][e] for e in range(E)]]
    else:
        ok = ok and not ks
        del want['quality_scores_ci95']
    if videos:
        kv = [('v', k) for k in kv] + [('id', list(range(E)))] * (n - len(kv))
        ctx.eq('video resamples', len(kv), n)
        B, I = [], []
        for k in kv:
            b = res(k if k[0] == 'v' else ('id', []))
            off = sum((b['quality_scores'][e] - base['quality_scores'][k[1][e]] for e in range(E)), ctx.num(0)) / E
            B.append([b['observer_bias'][s] + off for s in range(S)])
            I.append(b['observer_inconsistency'])
        for name, L in (('observer_bias', B), ('observer_inconsistency', I)):
            want[name + '_ci95'] = [[base[name][s] - pct(ctx, [x[s] for x in L], 0.025) for s in range(S)],
                                    [pct(ctx, [x[s] for x in L], 0.975) - base[name][s] for s in range(S)]]
    else:
        ok = ok and not kv
        del want['observer_bias_ci95'], want['observer_inconsistency_ci95']
    ctx.true('only the requested resamples', ok)
    if zero is not False:
        m = sum(base['observer_bias'], ctx.num(0)) / S
        want['observer_bias'] = [x - m for x in base['observer_bias']]
        want['quality_scores'] = [x + m for x in base['quality_scores']]
    for k in want:
        ctx.true('reports ' + k, k in r)
        if k in r:
            ctx.eq(k, lib.plain(r[k]), want[k])
    for k in ('quality_scores_ci95', 'observer_bias_ci95', 'observer_inconsistency_ci95'):
        ctx.eq('interval ' + k, k in r, k in want)


def h_perm(ctx, E, S, ps, pv, co=True, local=1e-5, missing=(), kw=None):
    """a resample that is a permutation has the same estimates, hence an interval of zero width"""
    from sureal import subjective_model as sm
    from sureal import experimental as X
    from sureal.dataset_reader import RawDatasetReader
    ctx.exact_logs()
    ctx.replay_seeds()
    for i, k in enumerate(ps):
        ctx.preset('draw_choice%d_0_%d' % (S, i + 1), k)
    for i, k in enumerate(pv):
        ctx.preset('draw_choice%d_0_%d' % (E, i + 1), k)
    d, votes = lib.build(ctx, E, S, fill=fill, local=local, fixed_missing=[tuple(m) for m in missing], cids=[e % 2 for e in range(E)])
    cls = X.MaximumLikelihoodEstimationModelContentObliviousWithBootstrapping if co else X.MaximumLikelihoodEstimationModelWithBootstrapping
    plain = sm.MaximumLikelihoodEstimationModelContentOblivious if co else sm.MaximumLikelihoodEstimationModel
    ctx.iterations(1)
    r = cls(RawDatasetReader(d)).run_modeling(n_bootstrap=1, **(kw or {}))
    ctx.iterations(1)
    w = plain(RawDatasetReader(d)).run_modeling(**(kw or {}))
    for k in w:
        if k in ('quality_scores_ci95', 'observer_bias_ci95', 'observer_inconsistency_ci95'):
            ctx.eq(k, lib.plain(r[k]), [[ctx.num(0)] * len(w[k][0])] * 2)
        else:
            ctx.eq(k, lib.plain(r[k]), lib.plain(w[k]))


def jobs(tier):
    o = dict(timeout_ms=300, budget=150, max_paths=8000, max_terms=40)
    J = []

    def boot(nval=1, **p):
        J.append(dict(h='h_boot', p=p, o=o, nval=nval))

    def perm(nval=1, **p):
        J.append(dict(h='h_perm', p=p, o=o, nval=nval))
    boot(E=3, S=2, n=1)
    boot(E=2, S=3, n=1, style='dict')
    boot(E=2, S=3, n=1, style='dict', missing=[[1, 0, 0]], videos=False)
    boot(E=3, S=2, n=1, missing=[[1, 0, 0]], subjects=False)
    boot(E=2, S=2, n=1, R=2, zero=False)
    boot(E=3, S=2, n=2, videos=False)
    boot(E=2, S=2, n=2, subjects=False)
    boot(E=3, S=2, n=2, videos=False, co=True, zero=True, opts=dict(max_iteration=5))
    boot(E=2, S=3, n=3, subjects=False, free=False)
    boot(E=3, S=2, n=3, videos=False, free=False, style='dict', zero=False)
    boot(E=2, S=2, n=2, subjects=False, videos=False)
    boot(E=3, S=2, n=2, videos=False, free=False, R=2, missing=[[0, 1, 1]])
    perm(E=3, S=2, ps=[1, 0], pv=[2, 0, 1])
    perm(E=4, S=3, ps=[2, 0, 1], pv=[1, 0, 3, 2], co=False, kw=dict(force_subjbias_zeromean=False))
    if tier == 'thorough':
        o = dict(timeout_ms=1000, budget=500, max_paths=40000, max_terms=60)
        boot(E=3, S=2, n=4, videos=False, free=False)
        boot(E=4, S=2, n=2, subjects=False, free=False)
        boot(E=3, S=3, n=1, missing=[[0, 1, 0]])
        perm(E=3, S=3, ps=[1, 2, 0], pv=[0, 2, 1], missing=[[1, 1, 0]])
    return J
