"""C07 P.913 subject-bias removal"""
from . import lib
from .c02 import check_mos

BOUNDS = ('votes arbitrary reals in [1,5]; every vote symbolic on grids up to 4x4, 3x2x2; presence patterns of 2x3 and '
          '3x2 symbolic; list and dict styles')
ASSUMPTIONS = ['bias-removed votes of one video are not all identical']


def h_br(ctx, E, S, R=1, style='list', missing=False, fixed=(), how='BR_MOS'):
    from sureal.dataset_reader import RawDatasetReader
    from sureal import subjective_model as sm
    d, votes = lib.build(ctx, E, S, R, style, missing=missing, fixed_missing=set(tuple(x) for x in fixed))
    if missing or fixed:
        for e in range(E):
            ctx.assume(len(lib.flat(ctx, votes[e])) > 0)
        for s in range(S):
            ctx.assume(len(lib.flat(ctx, [votes[e][s] for e in range(E)])) > 0)
    if style == 'dict':
        votes = lib.subset(votes, sorted(range(S), key=lambda k: lib.NAMES[k]))
    want, b = lib.debias(ctx, votes)
    rd = RawDatasetReader(d)
    if how == 'PERSUBJECT':
        res = sm.PerSubjectModel(rd).run_modeling(bias_offset=True)
        ctx.eq('votes', res['quality_scores'], want)
        return
    lib.spread_all(ctx, want)
    res = sm.BiasremvMosModel(rd).run_modeling() if how == 'BR_MOS' else sm.MosModel(rd).run_modeling(bias_offset=True)
    check_mos(ctx, res, want)
    if how == 'BR_MOS':
        ctx.eq('bias', list(res['observer_bias']), b)


def h_shift(ctx, E, S):
    """adding a constant to all votes of one subject (full sampling): that subject's bias-removed relative
    position, and every quality difference, is unchanged"""
    from sureal.dataset_reader import RawDatasetReader
    from sureal import subjective_model as sm
    d, votes = lib.build(ctx, E, S, 1, 'list')
    lib.spread_all(ctx, lib.debias(ctx, votes)[0])
    c = ctx.real('shift', -3, 3)
    d2 = lib.DS()
    d2.__dict__.update(d.__dict__)
    d2.dis_videos = [dict(v, os=[votes[e][0][0] + c] + [votes[e][s][0] for s in range(1, S)])
                     for e, v in enumerate(d.dis_videos)]
    r1 = sm.BiasremvMosModel(RawDatasetReader(d)).run_modeling()
    r2 = sm.BiasremvMosModel(RawDatasetReader(d2)).run_modeling()
    ctx.eq('scores', list(r2['quality_scores']), [q + c / S for q in r1['quality_scores']])
    ctx.eq('std', list(r2['quality_scores_std']), list(r1['quality_scores_std']))
    ctx.eq('bias', list(r2['observer_bias']), [b - c / S + (c if s == 0 else 0) for s, b in enumerate(r1['observer_bias'])])
    tot = ctx.num(0)
    for b in r1['observer_bias']:
        tot = tot + b
    ctx.eq('zero sum', tot, 0)


def jobs(tier):
    J = [dict(h='h_br', p=dict(E=2, S=3, style='dict', missing=True)),
         dict(h='h_br', p=dict(E=3, S=2, style='dict', missing=True)),
         dict(h='h_br', p=dict(E=4, S=4, how='PERSUBJECT')),
         dict(h='h_br', p=dict(E=3, S=3)),
         dict(h='h_br', p=dict(E=3, S=4, fixed=[[0, 0, 0], [2, 1, 0], [2, 3, 0]])),
         dict(h='h_br', p=dict(E=3, S=2, R=2)),
         dict(h='h_br', p=dict(E=2, S=2, R=2, fixed=[[0, 1, 1]])),
         dict(h='h_br', p=dict(E=3, S=3, how='MOS')),
         dict(h='h_shift', p=dict(E=3, S=3))]
    if tier == 'thorough':
        J += [dict(h='h_br', p=dict(E=3, S=3, style='dict', missing=True), o=dict(budget=400)),
              dict(h='h_br', p=dict(E=5, S=5), o=dict(budget=300, max_terms=6000)),
              dict(h='h_br', p=dict(E=8, S=8, how='PERSUBJECT'), o=dict(budget=300, max_terms=6000)),
              dict(h='h_br', p=dict(E=2, S=2, R=2, missing=True), o=dict(budget=300)),
              dict(h='h_shift', p=dict(E=4, S=4), o=dict(budget=300))]
    return J
