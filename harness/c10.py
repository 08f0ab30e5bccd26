"""C10 maximum-likelihood recovery (MLE, MLE_CO, MLE_SO, DMOS variants, legacy)"""
from . import lib
from .c08 import fill, chi2, stops

BOUNDS = ('every vote symbolic in a box (half width 1e-4 to 1e-6) around generic patterns; 1-3 damped Newton iterations; grids '
          'up to 4 videos x 4 subjects, 3x3x2, 2-3 contents, missing votes; simplified and original gradients')
ASSUMPTIONS = ['the numerical-gradient mode (finite differences) is not covered',
               'numbers of iterations beyond 3 are covered only by the validation runs of the real code']

MODELS = {'MLE': 'MaximumLikelihoodEstimationModel', 'MLE_CO': 'MaximumLikelihoodEstimationModelContentOblivious',
          'MLE_SO': 'MaximumLikelihoodEstimationModelSubjectOblivious',
          'DMOS_MLE': 'MaximumLikelihoodEstimationDmosModel',
          'DMOS_MLE_CO': 'MaximumLikelihoodEstimationDmosModelContentOblivious',
          'LEGACY': 'LegacyMaximumLikelihoodEstimationModel'}


def total(ctx, xs):
    t = ctx.num(0)
    for x in xs:
        t = t + x
    return t


def pos(ctx, x):
    return x if x >= 0 else ctx.num(0)


def mle_spec(ctx, votes, raw, cids, C, iters, subj=True, cont=True):
    """damped Newton iterations on sum log N(x; x_e + b_s, v_s^2 + a_c^2)"""
    E, S, R = len(votes), len(votes[0]), len(votes[0][0])
    K = [(e, s, r) for e in range(E) for s in range(S) for r in range(R) if not ctx.isnan(votes[e][s][r])]
    X = {k: votes[k[0]][k[1]][k[2]] for k in K}
    q = [lib.mean(ctx, lib.flat(ctx, row)) for row in raw]
    res0 = {k: X[k] - q[k[0]] for k in K}
    b = [ctx.num(0)] * S
    v = [lib.std(ctx, [res0[k] for k in K if k[1] == s]) if subj else ctx.num(0) for s in range(S)]
    a = [lib.std(ctx, [res0[k] for k in K if cids[k[0]] == c]) if cont else ctx.num(0) for c in range(C)]
    rate = ctx.num(1) / 10
    deltas = []

    def mix(old, new):
        return old * (1 - rate) + new * rate
    out = {}
    for _ in range(iters):
        q0 = q
        if subj:
            w = {k: v[k[1]] ** 2 + a[cids[k[0]]] ** 2 for k in K}
            g2 = [total(ctx, [1 / w[k] for k in K if k[1] == s]) for s in range(S)]
            b = [mix(b[s], total(ctx, [(X[k] - q[k[0]]) / w[k] for k in K if k[1] == s]) / g2[s]) for s in range(S)]
            out['b_std'] = [1 / ctx.sqrt(t) for t in g2]
            d = {k: X[k] - q[k[0]] - b[k[1]] for k in K}
            nv = []
            h = []
            for s in range(S):
                g = total(ctx, [-v[s] / w[k] + v[s] * d[k] ** 2 / w[k] ** 2 for k in K if k[1] == s])
                hh = total(ctx, [(2 * v[s] ** 2 - w[k]) / w[k] ** 2 + d[k] ** 2 * (w[k] - 4 * v[s] ** 2) / w[k] ** 3
                                 for k in K if k[1] == s])
                nv.append(pos(ctx, mix(v[s], v[s] - g / hh)))
                h.append(hh)
            v = nv
            out['v_hess'] = h
        if cont:
            w = {k: v[k[1]] ** 2 + a[cids[k[0]]] ** 2 for k in K}
            d = {k: X[k] - q[k[0]] - b[k[1]] for k in K}
            na = []
            h = []
            for c in range(C):
                kc = [k for k in K if cids[k[0]] == c]
                g = total(ctx, [-a[c] / w[k] + a[c] * d[k] ** 2 / w[k] ** 2 for k in kc])
                hh = total(ctx, [(2 * a[c] ** 2 - w[k]) / w[k] ** 2 + d[k] ** 2 * (w[k] - 4 * a[c] ** 2) / w[k] ** 3
                                 for k in kc])
                na.append(pos(ctx, mix(a[c], a[c] - g / hh)))
                h.append(hh)
            a = na
            out['a_hess'] = h
        w = {k: v[k[1]] ** 2 + a[cids[k[0]]] ** 2 for k in K}
        g2 = [total(ctx, [1 / w[k] for k in K if k[0] == e]) for e in range(E)]
        q = [mix(q[e], total(ctx, [(X[k] - b[k[1]]) / w[k] for k in K if k[0] == e]) / g2[e]) for e in range(E)]
        out['q_std'] = [1 / ctx.sqrt(t) for t in g2]
        if not ctx.symbolic:
            deltas.append(sum((s - t) ** 2 for s, t in zip(q, q0)) ** 0.5)
    out.update(q=q, b=b, v=v, a=a, K=K, X=X, deltas=deltas)
    return out


def legacy_spec(ctx, votes, iters, use_log):
    E, S = len(votes), len(votes[0])
    n = E
    X = [[votes[e][s][0] for s in range(S)] for e in range(E)]
    q = [lib.mean(ctx, row) for row in X]
    b = [ctx.num(0)] * S
    v = [lib.std(ctx, [X[e][s] - q[e] for e in range(E)]) for s in range(S)]
    lv = [ctx.log(t) for t in v] if use_log else None
    rate = ctx.num(1) / 10
    deltas = []

    def mix(old, new):
        return old * (1 - rate) + new * rate
    for _ in range(iters):
        q0 = q
        b = [mix(b[s], lib.mean(ctx, [X[e][s] - q[e] for e in range(E)])) for s in range(S)]
        ss = [total(ctx, [(X[e][s] - q[e] - b[s]) ** 2 for e in range(E)]) for s in range(S)]
        if use_log:
            # Newton on log v:  gradient -n + ss/v^2, curvature -2 ss/v^2
            lv = [mix(lv[s], lv[s] + (ss[s] / v[s] ** 2 - n) / (2 * ss[s] / v[s] ** 2)) for s in range(S)]
            v = [ctx.exp(t) for t in lv]
        else:
            # Newton on v: -n/v + ss/v^3, curvature n/v^2 - 3 ss/v^4
            v = [mix(v[s], v[s] - (-n / v[s] + ss[s] / v[s] ** 3) / (n / v[s] ** 2 - 3 * ss[s] / v[s] ** 4))
                 for s in range(S)]
        wt = [1 / t ** 2 for t in v]
        den = total(ctx, wt)
        q = [mix(q[e], total(ctx, [wt[s] * (X[e][s] - b[s]) for s in range(S)]) / den) for e in range(E)]
        if not ctx.symbolic:
            deltas.append(sum((s - t) ** 2 for s, t in zip(q, q0)) ** 0.5)
    return dict(q=q, b=b, v=v, deltas=deltas)


def h_mle(ctx, E, S, R=1, iters=1, cids=None, model='MLE', grad=None, missing=(), style='list', zeromean=True,
          local=1e-4, refs=None, sym=None, thr=None, std=True):
    from sureal.dataset_reader import RawDatasetReader
    from sureal import subjective_model as sm
    cids = cids or [0] * E
    C = max(cids) + 1
    miss = set(tuple(m) for m in missing)
    refs = {int(k): v for k, v in (refs or {}).items()}
    d, votes = lib.build(ctx, E, S, R, style, cids=cids, sym=set(tuple(z) for z in sym) if sym is not None else None,
                         fill=fill, fixed_missing=miss, local=local, refs=refs)
    if style == 'dict':
        votes = lib.subset(votes, sorted(range(S), key=lambda k: lib.NAMES[k]))
    raw = votes
    if model.startswith('DMOS'):
        votes = lib.dscore(ctx, votes, [refs[c] for c in cids], ctx.num(5))
    if iters is None:
        ctx.iterations(1) if ctx.symbolic else None
    else:
        ctx.iterations(iters)
    kw = {} if zeromean is True else dict(force_subjbias_zeromean=zeromean)
    if grad:
        kw['gradient_method'] = grad
    if thr is not None:
        kw['delta_thr'] = thr
    before = lib.snapshot(d)
    res = getattr(sm, MODELS[model])(RawDatasetReader(d)).run_modeling(**kw)
    n = res['num_iter']
    subj, cont = model != 'MLE_SO', not model.endswith('_CO')
    sp = mle_spec(ctx, votes, raw, cids, C, n, subj, cont)
    stops(ctx, n, iters, sp['deltas'], thr or 1e-8, 10000)
    q, b = sp['q'], sp['b']
    g = lib.mean(ctx, b) if zeromean in (True, None) else ctx.num(0)
    qz, bz = [t + g for t in q], [t - g for t in b]
    ctx.eq('scores', list(res['quality_scores']), qz)
    ctx.eq('raw', res['raw_scores'], votes)
    ctx.eq('reconstructions', res['reconstructions'], [[[qz[e] + bz[s]] * R for s in range(S)] for e in range(E)])
    ctx.eq('source', lib.snapshot(d), before)
    has = [k in res for k in ('observer_bias', 'observer_inconsistency', 'content_ambiguity')]
    ctx.eq('reported parameters', has, [subj, subj, cont])
    k95 = ctx.num(195996) / 100000
    if subj:
        ctx.eq('bias', list(res['observer_bias']), bz)
        ctx.eq('inconsistency', list(res['observer_inconsistency']), sp['v'])
    if cont:
        ctx.eq('ambiguity', list(res['content_ambiguity']), sp['a'])
    if not std:
        return
    ctx.eq('std', list(res['quality_scores_std']), sp['q_std'])
    ctx.eq('ci95', res['quality_scores_ci95'], [[k95 * t for t in sp['q_std']]] * 2)
    if subj:
        ctx.eq('bias std', list(res['observer_bias_std']), sp['b_std'])
        ctx.eq('bias ci95', res['observer_bias_ci95'], [[k95 * t for t in sp['b_std']]] * 2)
        ctx.eq('inconsistency std', list(res['observer_inconsistency_std']), [inv_root(ctx, -t) for t in sp['v_hess']])
        ns = [sum(1 for k in sp['K'] if k[1] == s) for s in range(S)]
        lo = [1 - ctx.sqrt(ctx.num(t) / ctx.num(chi2(0.975, t))) for t in ns]
        hi = [ctx.sqrt(ctx.num(t) / ctx.num(chi2(0.025, t))) - 1 for t in ns]
        ctx.eq('inconsistency ci95', res['observer_inconsistency_ci95'],
               [[l * v for l, v in zip(k, res['observer_inconsistency'])] for k in (lo, hi)])
    if cont:
        a_std = [inv_root(ctx, -t) for t in sp['a_hess']]
        ctx.eq('ambiguity std', list(res['content_ambiguity_std']), a_std)
        ctx.eq('ambiguity ci95', res['content_ambiguity_ci95'], [[k95 * t for t in a_std]] * 2)


def inv_root(ctx, t):
    return 1 / ctx.sqrt(t) if t > 0 else ctx.inf


def h_legacy(ctx, E, S, iters, use_log=False, zeromean=True, local=1e-4):
    from sureal.dataset_reader import RawDatasetReader
    from sureal import subjective_model as sm
    d, votes = lib.build(ctx, E, S, 1, 'list', fill=fill, local=local)
    ctx.iterations(iters)
    kw = {} if zeromean is True else dict(force_subjbias_zeromean=zeromean)
    if use_log:
        kw['use_log'] = True
    res = sm.LegacyMaximumLikelihoodEstimationModel(RawDatasetReader(d)).run_modeling(**kw)
    n = iters
    sp = legacy_spec(ctx, votes, n, use_log)
    g = lib.mean(ctx, sp['b']) if zeromean else ctx.num(0)
    ctx.eq('scores', list(res['quality_scores']), [t + g for t in sp['q']])
    ctx.eq('bias', list(res['observer_bias']), [t - g for t in sp['b']])
    ctx.eq('inconsistency', list(res['observer_inconsistency']), sp['v'])


def jobs(tier):
    o = dict(max_terms=45, timeout_ms=300)
    J = [dict(h='h_mle', p=dict(E=6, S=8, cids=[0, 1, 0, 1, 0, 1], iters=None, sym=[[0, 0, 0]], model='MLE_CO', local=1e-3, std=False), o=o, nval=0, conc=3),
         dict(h='h_mle', p=dict(E=6, S=8, cids=[0, 1, 0, 1, 0, 1], iters=None, sym=[[0, 0, 0]], model='MLE_CO', local=1e-3, std=False, thr=1e-6), o=o, nval=0, conc=3),
         dict(h='h_mle', p=dict(E=4, S=3, cids=[0, 1, 1, 0], iters=1), o=o),
         dict(h='h_mle', p=dict(E=4, S=3, cids=[0, 1, 1, 0], iters=1, grad='original'), o=o),
         dict(h='h_mle', p=dict(E=3, S=3, cids=[1, 0, 1], iters=2, local=1e-6, missing=[[0, 0, 0]]), o=o),
         dict(h='h_mle', p=dict(E=3, S=3, cids=[0, 1, 0], iters=2, local=1e-6, grad='original', missing=[[1, 1, 0]]), o=o),
         dict(h='h_mle', p=dict(E=3, S=3, R=2, cids=[0, 0, 1], iters=1, missing=[[0, 1, 1]]), o=o),
         dict(h='h_mle', p=dict(E=3, S=3, R=2, cids=[0, 0, 1], iters=1, missing=[[0, 1, 1]], grad='original', local=1e-5), o=o),
         dict(h='h_mle', p=dict(E=4, S=3, cids=[0, 1, 0, 1], iters=2, model='MLE_CO', local=1e-5, missing=[[2, 2, 0]], style='dict'), o=o),
         dict(h='h_mle', p=dict(E=4, S=3, cids=[0, 1, 0, 1], iters=2, model='MLE_CO', grad='original', local=1e-5, zeromean=False), o=o),
         dict(h='h_mle', p=dict(E=4, S=3, cids=[0, 1, 0, 1], iters=1, model='MLE_SO', local=1e-5, zeromean=None), o=o),
         dict(h='h_mle', p=dict(E=3, S=3, cids=[0, 1, 0], iters=1, model='MLE_SO', grad='original', missing=[[2, 2, 0]]), o=o),
         dict(h='h_mle', p=dict(E=4, S=3, cids=[0, 1, 0, 1], refs={0: 2, 1: 1}, iters=1, model='DMOS_MLE'), o=o),
         dict(h='h_mle', p=dict(E=4, S=3, cids=[0, 1, 0, 1], refs={0: 2, 1: 1}, iters=1, model='DMOS_MLE_CO'), o=o),
         dict(h='h_legacy', p=dict(E=4, S=3, iters=1), o=o),
         dict(h='h_legacy', p=dict(E=4, S=4, iters=2, use_log=True, local=1e-5), o=o),
         dict(h='h_legacy', p=dict(E=3, S=3, iters=2, zeromean=False, local=1e-5), o=o)]
    if tier == 'thorough':
        o = dict(max_terms=60, timeout_ms=1000, budget=300)
        J += [dict(h='h_mle', p=dict(E=5, S=5, cids=[0, 1, 2, 1, 0], iters=2, local=1e-6), o=o),
              dict(h='h_mle', p=dict(E=4, S=4, cids=[0, 1, 1, 0], iters=3, local=1e-7), o=o),
              dict(h='h_mle', p=dict(E=4, S=3, R=2, cids=[0, 1, 1, 0], iters=2, local=1e-7, missing=[[0, 0, 0]]), o=o),
              dict(h='h_mle', p=dict(E=6, S=4, cids=[0, 1, 2, 0, 1, 2], iters=2, local=1e-6, grad='original'), o=o)]
    return J
