"""C04 z-scoring"""
from . import lib
from .c02 import check_mos

BOUNDS = ('votes arbitrary reals in [1,5]; all votes symbolic up to 3x3 (z-score + MOS), 4x4 / 3x3x2 (per-subject z-scores); presence '
          'patterns of 3x2 symbolic; larger grids with a symbolic subset of votes')
ASSUMPTIONS = ['no subject gives the same vote to every video (z-score undefined)',
               'z-scored votes of a video are not all identical']


def setup(ctx, E, S, R, style, missing, sym, cids=None, refs=None, q=5.0):
    d, votes = lib.build(ctx, E, S, R, style, missing=missing, sym=sym, fill=lib.generic, cids=cids, refs=refs, ref_score=q)
    if missing:
        for e in range(E):
            ctx.assume(len(lib.flat(ctx, votes[e])) > 0)
        for s in range(S):
            ctx.assume(len(lib.flat(ctx, [votes[e][s] for e in range(E)])) > 1)
    if style == 'dict':
        votes = lib.subset(votes, sorted(range(S), key=lambda k: lib.NAMES[k]))
    return d, votes


def h_zs(ctx, E, S, R=1, style='list', missing=False, sym=None, how='ZS_MOS'):
    from sureal.dataset_reader import RawDatasetReader
    from sureal import subjective_model as sm
    sym = set(tuple(x) for x in sym) if sym else None
    d, votes = setup(ctx, E, S, R, style, missing, sym)
    lib.spread_all(ctx, votes, 's')
    z = lib.zscore(ctx, votes)
    rd = RawDatasetReader(d)
    if how == 'PERSUBJECT':
        res = sm.PerSubjectModel(rd).run_modeling(zscore_mode=True)
        ctx.eq('z', res['quality_scores'], z)
        return
    lib.spread_all(ctx, z)
    res = sm.ZscoringMosModel(rd).run_modeling() if how == 'ZS_MOS' else sm.MosModel(rd).run_modeling(zscore_mode=True)
    check_mos(ctx, res, z)


def h_live(ctx, E, S, R=1, style='list', missing=False, cids=None, refs=None):
    from sureal.dataset_reader import RawDatasetReader
    from sureal import subjective_model as sm
    cids = cids or [0] * E
    refs = {int(k): v for k, v in (refs or {0: 0}).items()}
    q = ctx.real('ref_score', 1, 10)
    d, votes = setup(ctx, E, S, R, style, missing, None, cids, refs, q)
    dv = lib.dscore(ctx, votes, [refs[c] for c in cids], q)
    lib.spread_all(ctx, dv, 's')
    z = lib.zscore(ctx, dv)
    res = sm.LiveDmosModel(RawDatasetReader(d)).run_modeling()
    ctx.eq('scores', list(res['quality_scores']),
           [lib.mean(ctx, [(v + 3) * 100 / 6 for v in lib.flat(ctx, row)]) for row in z])


def h_invariance(ctx, E, S):
    """rescaling or shifting one subject's scale use does not change anybody's z-scored result"""
    from sureal.dataset_reader import RawDatasetReader
    from sureal import subjective_model as sm
    d, votes = setup(ctx, E, S, 1, 'list', False, None)
    lib.spread_all(ctx, votes, 's')
    a = ctx.real('gain', 0.25, 4)
    b = ctx.real('offset', -5, 5)
    d2 = lib.DS()
    d2.__dict__.update(d.__dict__)
    d2.dis_videos = [dict(v, os=[votes[e][0][0] * a + b] + [votes[e][s][0] for s in range(1, S)])
                     for e, v in enumerate(d.dis_videos)]
    r1 = sm.PerSubjectModel(RawDatasetReader(d)).run_modeling(zscore_mode=True)
    r2 = sm.PerSubjectModel(RawDatasetReader(d2)).run_modeling(zscore_mode=True)
    ctx.eq('z', r2['quality_scores'], r1['quality_scores'])


def jobs(tier):
    J = [dict(h='h_zs', p=dict(E=3, S=2, how='PERSUBJECT', style='dict', missing=True)),
         dict(h='h_zs', p=dict(E=4, S=4, how='PERSUBJECT')),
         dict(h='h_zs', p=dict(E=3, S=3, R=2, how='PERSUBJECT')),
         dict(h='h_zs', p=dict(E=2, S=2, R=1, how='ZS_MOS')),
         dict(h='h_zs', p=dict(E=3, S=2, R=1, how='ZS_MOS')),
         dict(h='h_zs', p=dict(E=3, S=3, R=1, how='ZS_MOS', sym=[[0, 0, 0], [1, 1, 0]])),
         dict(h='h_zs', p=dict(E=2, S=2, R=2, how='MOS', sym=[[0, 0, 0], [1, 1, 0], [1, 0, 1]])),
         dict(h='h_live', p=dict(E=3, S=2)),
         dict(h='h_live', p=dict(E=4, S=2, cids=[0, 1, 1, 0], refs={0: 3, 1: 1})),
         dict(h='h_live', p=dict(E=3, S=2, style='dict', missing=True)),
         dict(h='h_live', p=dict(E=2, S=2, R=2)),
         dict(h='h_invariance', p=dict(E=3, S=2))]
    if tier == 'thorough':
        J += [dict(h='h_zs', p=dict(E=4, S=2, how='PERSUBJECT', style='dict', missing=True), o=dict(budget=300)),
              dict(h='h_zs', p=dict(E=3, S=3, R=1, how='ZS_MOS'), o=dict(budget=300, max_terms=4000)),
              dict(h='h_zs', p=dict(E=6, S=6, how='PERSUBJECT'), o=dict(budget=200)),
              dict(h='h_live', p=dict(E=4, S=3), o=dict(budget=200)),
              dict(h='h_live', p=dict(E=3, S=3, style='dict', missing=True), o=dict(budget=300)),
              dict(h='h_invariance', p=dict(E=4, S=3), o=dict(budget=200))]
    return J
