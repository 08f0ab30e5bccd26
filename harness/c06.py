"""C06 correlation-based subject screening"""
from . import lib
from .c02 import check_mos

BOUNDS = ('1-3 symbolic votes in [1,5] (others fixed) on grids 3x3, 4x3, 4x4, 3x3x2, missing votes; every vote/MOS ordering '
          'reachable is explored (rank correlation), thresholds decided by the solver')
ASSUMPTIONS = ['no subject is constant over its videos; correlations exactly on the threshold are excluded']


def h_corr(ctx, E, S, kind, R=1, sym=(), missing=(), model='SR', style='list', agree=False):
    from sureal.dataset_reader import RawDatasetReader
    from sureal import subjective_model as sm
    fill = (lambda e, s, r: 1 + e + 0.25 * ((e * e + 2 * s + e * s * s + r) % 5)) if agree else lib.generic_f
    d, votes = lib.build(ctx, E, S, R, style, sym=set(tuple(x) for x in sym), fill=fill,
                         fixed_missing=set(tuple(x) for x in missing))
    if style == 'dict':
        votes = lib.subset(votes, sorted(range(S), key=lambda k: lib.NAMES[k]))
    x, b = votes, None
    if model == 'BR':
        x, b = lib.debias(ctx, votes)
    avg = [[[lib.mean(ctx, lib.flat(ctx, [c]))] for c in row] for row in x]
    lib.spread_all(ctx, avg, 's')
    lib.spread_all(ctx, x)
    ctx.assume_pos(lib.var(ctx, [lib.mean(ctx, lib.flat(ctx, row)) for row in x]))
    for s in range(S):
        ok = [e for e in range(E) if not ctx.isnan(avg[e][s][0])]
        if len(ok) < E:
            mos = [lib.mean(ctx, lib.flat(ctx, avg[e])) for e in ok]
            ctx.assume_pos(lib.var(ctx, mos))
    if E and kind == 'spearman':
        pass
    rej, r = lib.corr_reject(ctx, x, kind == 'spearman')
    ctx.assume(not all(rej))
    if model == 'SR':
        m = {'pearson': sm.SubjrejMosModelPearson, 'spearman': sm.SubjrejMosModelSpearman}[kind]
        res = m(RawDatasetReader(d)).run_modeling()
    elif model == 'BR':
        m = {'pearson': sm.BiasremvSubjrejMosModelPearson, 'spearman': sm.BiasremvSubjrejMosModelSpearman}[kind]
        res = m(RawDatasetReader(d)).run_modeling()
    else:
        res = sm.MosModel(RawDatasetReader(d)).run_modeling(subject_rejection=True, subject_rejection_type=kind)
    ctx.eq('correlations', list(res['observer_rejected_1st_stats']), r)
    ctx.eq('rejected', [bool(v) for v in res['observer_rejected']], rej)
    keep = [s for s in range(S) if not rej[s]]
    check_mos(ctx, res, lib.subset(x, keep))
    if b is not None:
        ctx.eq('bias', list(res['observer_bias']), b)


def h_affine(ctx, E, S, kind, R=1, missing=(), model='SR', seed=0, style='list'):
    """fixed vote pattern on a symbolic common scale (gain, offset)"""
    from sureal.dataset_reader import RawDatasetReader
    from sureal import subjective_model as sm
    g, o = ctx.real('gain', 0.25, 4), ctx.real('offset', -5, 5)
    miss = set(tuple(x) for x in missing)
    d, _ = lib.build(ctx, E, S, R, style, sym=(), fill=lambda e, s, r: lib.generic_f(e + seed, s, r), fixed_missing=miss)
    votes = [[[ctx.nan if (e, s, r) in miss else lib.generic_f(e + seed, s, r) * g + o for r in range(R)]
              for s in range(S)] for e in range(E)]
    for e in range(E):
        cells = [votes[e][s] if R > 1 else votes[e][s][0] for s in range(S)]
        d.dis_videos[e]['os'] = cells if style == 'list' else \
            {lib.NAMES[s]: c for s, c in enumerate(cells) if R > 1 or (e, s, 0) not in miss}
    if style == 'dict':
        votes = lib.subset(votes, sorted(range(S), key=lambda k: lib.NAMES[k]))
    x = lib.debias(ctx, votes)[0] if model == 'BR' else votes
    rej, r = lib.corr_reject(ctx, x, kind == 'spearman')
    m = {('SR', 'pearson'): sm.SubjrejMosModelPearson, ('SR', 'spearman'): sm.SubjrejMosModelSpearman,
         ('BR', 'pearson'): sm.BiasremvSubjrejMosModelPearson,
         ('BR', 'spearman'): sm.BiasremvSubjrejMosModelSpearman}[model, kind]
    res = m(RawDatasetReader(d)).run_modeling()
    ctx.eq('correlations', list(res['observer_rejected_1st_stats']), r)
    ctx.eq('rejected', [bool(v) for v in res['observer_rejected']], rej)
    check_mos(ctx, res, lib.subset(x, [s for s in range(S) if not rej[s]]))


OPTS = dict(timeout_ms=300)


def jobs(tier):
    a, b = [[0, 0, 0]], [[0, 0, 0], [2, 0, 0]]
    J = [dict(h='h_corr', p=dict(E=4, S=3, kind='pearson', sym=a)),
         dict(h='h_corr', p=dict(E=4, S=4, kind='pearson', sym=[[1, 2, 0]], agree=True)),
         dict(h='h_corr', p=dict(E=4, S=3, kind='spearman', sym=b)),
         dict(h='h_corr', p=dict(E=5, S=4, kind='spearman', sym=[[1, 2, 0]], agree=True)),
         dict(h='h_corr', p=dict(E=5, S=3, kind='spearman', sym=a, missing=[[1, 1, 0], [4, 0, 0]], style='dict')),
         dict(h='h_corr', p=dict(E=4, S=3, R=2, kind='pearson', sym=a, model='MOS')),
         dict(h='h_corr', p=dict(E=4, S=3, R=2, kind='spearman', sym=a, model='MOS')),
         dict(h='h_corr', p=dict(E=4, S=3, kind='pearson', sym=a, model='BR')),
         dict(h='h_corr', p=dict(E=4, S=3, kind='spearman', sym=a, model='BR'))]
    for kind in ('pearson', 'spearman'):
        J += [dict(h='h_affine', p=dict(E=6, S=5, kind=kind, missing=[[0, 1, 0], [2, 3, 0], [5, 1, 0]], style='dict')),
              dict(h='h_affine', p=dict(E=5, S=4, R=2, kind=kind, missing=[[0, 1, 0], [2, 3, 1], [4, 2, 0], [4, 2, 1]], seed=3)),
              dict(h='h_affine', p=dict(E=6, S=6, kind=kind, model='BR', missing=[[3, 1, 0]], seed=5))]
    if tier == 'thorough':
        J += [dict(h='h_corr', p=dict(E=4, S=3, kind='pearson', sym=b), o=dict(budget=300)),
              dict(h='h_corr', p=dict(E=5, S=4, kind='spearman', sym=[[0, 0, 0], [2, 0, 0], [3, 1, 0]]), o=dict(budget=400)),
              dict(h='h_corr', p=dict(E=4, S=4, kind='spearman', sym=[[0, 0, 0], [1, 1, 0], [2, 2, 0]], agree=True), o=dict(budget=400)),
              dict(h='h_corr', p=dict(E=6, S=5, kind='pearson', sym=a), o=dict(budget=300))]
    return J
