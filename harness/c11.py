"""C11 degrees of freedom, log-likelihood, AIC and BIC are per original vote"""
from . import lib
from .c08 import fill
from .c10 import MODELS

BOUNDS = ('MOS/bias-removal family: every vote symbolic in [1,5] (2x2..3x3) incl. a screening that drops a subject; iterative '
          'models: every vote symbolic in a 1e-4 box around generic patterns, 1 iteration; missing votes and repetitions')
ASSUMPTIONS = ['the likelihood is the Gaussian one evaluated at the reported parameters']


def gauss(ctx, x, m, w):
    """log density, variance w"""
    return -ctx.log(2 * ctx.num(PI) * w) / 2 - (x - m) ** 2 / (2 * w)


PI = 3.141592653589793


def check_ic(ctx, res, ll, dof, n0):
    n0 = ctx.num(n0)
    ctx.eq('dof', res['dof'], ctx.num(dof) / n0)
    ctx.eq('loglikelihood', res['loglikelihood'], ll)
    ctx.eq('aic', res['aic'], 2 * ctx.num(dof) / n0 - 2 * ll)
    ctx.eq('bic', res['bic'], ctx.log(n0) * ctx.num(dof) / n0 - 2 * ll)


def h_mos(ctx, E, S, R=1, missing=(), style='list', model='MOS', local=None, sym=None, out=None):
    """MOS family: votes as used by the model are in raw_scores"""
    from sureal.dataset_reader import RawDatasetReader
    ctx.exact_logs()
    from sureal import subjective_model as sm
    cls = {'MOS': sm.MosModel, 'BR_MOS': sm.BiasremvMosModel, 'SR_MOS': sm.SubjrejMosModelPearson,
           'BR_SR_MOS': sm.BiasremvSubjrejMosModelPearson}[model]
    f = fill
    if out is not None:
        # one contrarian subject that the screening drops
        f = lambda e, s, r=0: (4.5 - e - r / 8 if s == out else 1 + e + ((3 * e * e + s * 5 + r) % 7) / 8)
    d, votes = lib.build(ctx, E, S, R, style, fill=f, local=local, fixed_missing=set(tuple(m) for m in missing),
                         sym=set(tuple(z) for z in sym) if sym is not None else None)
    if local is None:
        lib.spread_all(ctx, votes)
    res = cls(RawDatasetReader(d)).run_modeling()
    n0 = sum(len(lib.flat(ctx, row)) for row in votes)
    used = res['raw_scores']
    kept = len(used[0])
    if out is not None:
        ctx.eq('kept', kept, S - 1)
    tot, n = ctx.num(0), 0
    for e in range(E):
        cell = lib.flat(ctx, [list(used[e][s]) for s in range(kept)])
        m, w = lib.mean(ctx, cell), lib.var(ctx, cell, 1)
        for x in cell:
            tot = tot + gauss(ctx, x, m, w)
            n += 1
    dof = 2 * E + (S * R if model.startswith('BR') else 0)
    check_ic(ctx, res, tot / n, dof, n0)


def h_iter(ctx, E, S, R=1, missing=(), cids=None, model='MLE', local=1e-4, style='list', iters=1, grad=None):
    from sureal.dataset_reader import RawDatasetReader
    ctx.exact_logs()
    from sureal import subjective_model as sm
    import sureal
    cids = cids or [0] * E
    C = max(cids) + 1
    d, votes = lib.build(ctx, E, S, R, style, fill=fill, local=local, cids=cids,
                         fixed_missing=set(tuple(m) for m in missing))
    if style == 'dict':
        votes = lib.subset(votes, sorted(range(S), key=lambda k: lib.NAMES[k]))
    ctx.iterations(iters)
    cls = {'P910': sureal.P910AnnexEModel, 'AP': sm.SubjectMLEModelProjectionSolver}.get(model)
    if cls is None:
        cls = getattr(sm, MODELS[model])
    res = cls(RawDatasetReader(d)).run_modeling(**({'gradient_method': grad} if grad else {}))
    q = res['quality_scores']
    b = res['observer_bias'] if 'observer_bias' in res else [ctx.num(0)] * S
    v = res['observer_inconsistency'] if 'observer_inconsistency' in res else [ctx.num(0)] * S
    a = res['content_ambiguity'] if 'content_ambiguity' in res else [ctx.num(0)] * C
    tot, n = ctx.num(0), 0
    for e in range(E):
        for s in range(S):
            for x in votes[e][s]:
                if not ctx.isnan(x):
                    tot = tot + gauss(ctx, x, q[e] + b[s], v[s] ** 2 + a[cids[e]] ** 2)
                    n += 1
    dof = E + 2 * S * R + (C if model == 'MLE' else 0)
    if model == 'MLE_SO':
        dof = E + C
    check_ic(ctx, res, tot / n, dof, n)


def jobs(tier):
    o = dict(max_terms=60, timeout_ms=300)
    J = [dict(h='h_mos', p=dict(E=2, S=2)),
         dict(h='h_mos', p=dict(E=2, S=3, missing=[[0, 1, 0]], model='BR_MOS', local=0.01), o=o),
         dict(h='h_mos', p=dict(E=3, S=3, R=2, missing=[[0, 0, 1], [2, 1, 0]], local=0.01), o=o),
         dict(h='h_mos', p=dict(E=3, S=3, R=2, missing=[[1, 2, 1]], model='BR_MOS', local=0.01), o=o),
         dict(h='h_mos', p=dict(E=4, S=4, model='SR_MOS', local=0.001, out=3, sym=[[0, 0, 0], [1, 1, 0], [2, 3, 0]]), o=o),
         dict(h='h_mos', p=dict(E=4, S=4, R=2, model='BR_SR_MOS', local=0.0005, out=2, missing=[[3, 1, 0]]), o=o),
         dict(h='h_iter', p=dict(E=4, S=3, cids=[0, 1, 0, 1]), o=o),
         dict(h='h_iter', p=dict(E=3, S=3, R=2, cids=[0, 1, 0], missing=[[0, 0, 0], [1, 1, 1]]), o=o),
         dict(h='h_iter', p=dict(E=4, S=3, cids=[0, 1, 0, 1], model='MLE_CO', missing=[[3, 1, 0]], style='dict', local=1e-5),
              o=dict(max_terms=40, timeout_ms=100)),
         dict(h='h_iter', p=dict(E=4, S=3, cids=[0, 1, 0, 1], model='MLE_SO', missing=[[3, 1, 0]]), o=o),
         dict(h='h_iter', p=dict(E=3, S=3, R=2, model='P910', missing=[[0, 0, 0], [1, 1, 1]]), o=o),
         dict(h='h_iter', p=dict(E=4, S=4, model='AP', missing=[[3, 1, 0]], style='dict'), o=o)]
    if tier == 'thorough':
        o = dict(max_terms=60, timeout_ms=1000, budget=300)
        J += [dict(h='h_iter', p=dict(E=6, S=5, cids=[0, 1, 2, 1, 0, 2], missing=[[3, 1, 0], [0, 0, 0]], local=1e-5), o=o),
              dict(h='h_iter', p=dict(E=5, S=5, R=2, model='P910', missing=[[3, 1, 0], [0, 0, 0]], iters=2, local=1e-6), o=o),
              dict(h='h_mos', p=dict(E=3, S=4, missing=[[0, 1, 0]]), o=o),
              dict(h='h_mos', p=dict(E=5, S=6, R=2, missing=[[0, 1, 0], [2, 2, 1]], model='BR_MOS', local=0.001), o=o)]
    return J
