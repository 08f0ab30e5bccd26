"""C12 fixing the mean bias to zero only moves a constant between scores and biases"""
from . import lib
from .c08 import fill
from .c09 import model_of

BOUNDS = ('every vote symbolic in a 1e-4..1e-6 box around generic patterns, 1-2 iterations, grids up to 4x4 / 3x3x2 with '
          'missing votes; all iterative models; both values of the switch and its default')
ASSUMPTIONS = []


def h_gauge(ctx, E, S, R=1, model='P910AnnexEModel', missing=(), cids=None, local=1e-4, iters=1, style='list', grad=None):
    from sureal.dataset_reader import RawDatasetReader
    ctx.exact_logs()
    cids = cids or [0] * E
    d, votes = lib.build(ctx, E, S, R, style, fill=fill, local=local, cids=cids, fixed_missing=set(tuple(m) for m in missing),
                         refs={c: cids.index(c) for c in set(cids)} if 'DMOS' in model else None)
    kw = {'gradient_method': grad} if grad else {}

    def go(**k):
        ctx.iterations(iters)
        return model_of(model)(RawDatasetReader(d)).run_modeling(**dict(kw, **k))
    off = go(force_subjbias_zeromean=False)
    on = go(force_subjbias_zeromean=True)
    dflt = go()
    none = go(force_subjbias_zeromean=None)
    b = list(off['observer_bias']) if 'observer_bias' in off else [ctx.num(0)] * S
    g = lib.mean(ctx, b)
    ctx.eq('keys', sorted(on), sorted(off))
    for r, lab in ((on, 'on'), (dflt, 'default'), (none, 'none')):
        ctx.eq(lab + ' scores', list(r['quality_scores']), [v + g for v in off['quality_scores']])
        if 'observer_bias' in off:
            ctx.eq(lab + ' bias', list(r['observer_bias']), [v - g for v in b])
            ctx.eq(lab + ' zero', lib.mean(ctx, list(r['observer_bias'])), 0)
        for k in off:
            if k in ('quality_scores', 'observer_bias', 'loglikelihood', 'aic', 'bic', 'raw_scores', 'observers'):
                continue
            ctx.eq('%s %s' % (lab, k), lib.plain(r[k]), lib.plain(off[k]))
        if 'raw_scores' in off:
            ctx.eq(lab + ' raw', lib.plain(r['raw_scores']), votes if 'DMOS' not in model else lib.plain(off['raw_scores']))
    if 'loglikelihood' in off:
        ctx.eq('likelihood', on['loglikelihood'], off['loglikelihood'])
        ctx.eq('aic', on['aic'], off['aic'])
        ctx.eq('bic', on['bic'], off['bic'])


def jobs(tier):
    o = dict(max_terms=60, timeout_ms=300, budget=100)
    om = dict(max_terms=40, timeout_ms=100, budget=100)
    J = [dict(h='h_gauge', p=dict(E=3, S=3), o=o),
         dict(h='h_gauge', p=dict(E=4, S=4, missing=[[0, 1, 0], [3, 2, 0]], model='SubjectMLEModelProjectionSolver'), o=o),
         dict(h='h_gauge', p=dict(E=3, S=3, R=2, missing=[[0, 1, 0], [2, 2, 1]], iters=2, local=1e-6), o=o),
         dict(h='h_gauge', p=dict(E=3, S=3, R=2, missing=[[0, 1, 0], [2, 2, 1]], model='SubjectMLEModelProjectionSolver', style='tuple'), o=o),
         dict(h='h_gauge', p=dict(E=4, S=3, cids=[0, 1, 0, 1], model='MLE', missing=[[1, 2, 0]], local=1e-5), o=om),
         dict(h='h_gauge', p=dict(E=4, S=3, cids=[0, 1, 0, 1], model='MLE_CO', missing=[[1, 2, 0]], local=1e-5), o=om),
         dict(h='h_gauge', p=dict(E=3, S=3, R=2, cids=[0, 1, 0], model='MLE_CO', local=1e-5, missing=[[1, 2, 0]], grad='original'), o=om),
         dict(h='h_gauge', p=dict(E=4, S=3, cids=[0, 1, 0, 1], model='MLE_SO', local=1e-5), o=om),
         dict(h='h_gauge', p=dict(E=4, S=3, cids=[0, 1, 0, 1], model='DMOS_MLE_CO', local=1e-5), o=om),
         dict(h='h_gauge', p=dict(E=3, S=3, model='LEGACY', local=1e-5), o=om)]
    if tier == 'thorough':
        o = dict(max_terms=60, timeout_ms=1000, budget=300)
        om = dict(max_terms=40, timeout_ms=300, budget=300)
        J += [dict(h='h_gauge', p=dict(E=5, S=5, missing=[[0, 1, 0], [3, 2, 0]], iters=2, local=1e-6), o=o),
              dict(h='h_gauge', p=dict(E=5, S=4, cids=[0, 1, 0, 1, 1], model='MLE', missing=[[1, 2, 0]], local=1e-6, iters=2), o=om),
              dict(h='h_gauge', p=dict(E=4, S=3, cids=[0, 1, 0, 1], model='DMOS_MLE', local=1e-5), o=om)]
    return J
