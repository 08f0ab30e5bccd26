"""C03 DMOS"""
from . import lib
from .c02 import check_mos

BOUNDS = ('votes in [1,5] all symbolic; reference score symbolic in [1,100]; every placement of the reference videos and '
          'content assignment of up to 4 videos/2 contents; grids up to 4x3, 2x2x2; missing patterns on 3x2')
ASSUMPTIONS = ['votes of one video are not all identical']


def h_dmos(ctx, E, S, R, how, style='list', missing=False, free_layout=False, cids=None, refs=None):
    from sureal.dataset_reader import RawDatasetReader
    from sureal import subjective_model as sm
    if free_layout:
        cids = [ctx.choice('cid%d' % e, 2) for e in range(E)]
        refs = {}
        for c in (0, 1):
            mine = [e for e in range(E) if cids[e] == c]
            ctx.assume(len(mine) > 0)
            refs[c] = ctx.choice('ref%d' % c, mine)
    else:
        cids = cids or [0, 1] * (E // 2) + [0] * (E % 2)
        refs = refs or {0: 0, 1: E - 1 if cids[E - 1] == 1 else E - 2}
    refs = {int(k): v for k, v in refs.items()}
    q = ctx.real('ref_score', 1, 100)
    d, votes = lib.build(ctx, E, S, R, style, missing=missing, cids=cids, refs=refs, ref_score=q)
    if missing:
        for e in range(E):
            ctx.assume(len(lib.flat(ctx, votes[e])) > 0)
        for s in range(S):
            ctx.assume(any(lib.flat(ctx, [votes[e][s]]) for e in range(E)))
    lib.spread_all(ctx, votes)
    if style == 'dict':
        votes = lib.subset(votes, sorted(range(S), key=lambda k: lib.NAMES[k]))
    rd = RawDatasetReader(d)
    if how == 'DMOS':
        res = sm.DmosModel(rd).run_modeling()
    elif how == 'MOS':
        res = sm.MosModel(rd).run_modeling(dscore_mode=True)
    elif how == 'PERSUBJECT':
        res = sm.PerSubjectModel(rd).run_modeling(dscore_mode=True)
    want = lib.dscore(ctx, votes, [refs[c] for c in cids], q)
    if how == 'PERSUBJECT':
        ctx.eq('persubject', res['quality_scores'], want)
    else:
        check_mos(ctx, res, want)
        ctx.eq('reference gets the reference score', [res['quality_scores'][refs[c]] for c in cids], [q] * E)


def h_reject(ctx, E, S):
    """no unique reference video for a content / no reference score: refused, not mis-scored"""
    from sureal.dataset_reader import RawDatasetReader
    from sureal import subjective_model as sm
    nref = ctx.choice('nref', [0, 1, 2])
    has = ctx.flag('has_score')
    d, votes = lib.build(ctx, E, S, 1, 'list', ref_score=5.0 if has else None)
    for k in range(nref):
        d.dis_videos[k + 1]['path'] = 'ref_0.yuv'
    lib.spread_all(ctx, votes)
    rd = RawDatasetReader(d)
    for name in ('DmosModel', 'SubjrejDmosModel', 'LiveDmosModel'):
        m = getattr(sm, name)(rd)
        if nref != 1 or not has:
            ctx.true(name + ' refuses', lib.raises(lambda: m.run_modeling()))
    if nref == 1 and has:
        ctx.true('accepts', not lib.raises(lambda: sm.DmosModel(rd).run_modeling()))


def h_family(ctx, name, E, S):
    """the DMOS flavoured estimators see exactly the differential votes: same result as the plain estimator on
    a dataset whose votes are the differential scores"""
    from sureal.dataset_reader import RawDatasetReader
    from sureal import subjective_model as sm
    import copy
    plain, kw, steps = {'SubjrejDmosModel': ('SubjrejMosModel', {}, 0),
                        'ZscoringSubjrejDmosModel': ('ZscoringSubjrejMosModel', {}, 0),
                        'LiveDmosModel': ('PerSubjectModel', {'zscore_mode': True}, 0),
                        'BiasremvMosModel': ('BiasremvMosModel', {}, 0),
                        'PerSubjectModel': ('PerSubjectModel', {}, 0)}[name]
    cids = [0, 1] * (E // 2) + [0] * (E % 2)
    refs = {0: 2, 1: 1}
    q = ctx.real('ref_score', 1, 100)
    sym = {'Z': {(0, 0, 0)}, 'L': None, 'B': {(0, 0, 0), (1, 1, 0), (2, 0, 0)}}.get(name[0])
    d, votes = lib.build(ctx, E, S, 1, 'list', cids=cids, refs=refs, ref_score=q, sym=sym, fill=lib.generic)
    want = lib.dscore(ctx, votes, [refs[c] for c in cids], q)
    lib.spread_all(ctx, votes)
    lib.spread_all(ctx, want, 's')
    kw1 = {} if name in ('SubjrejDmosModel', 'ZscoringSubjrejDmosModel', 'LiveDmosModel') else {'dscore_mode': True}
    res = getattr(sm, name)(RawDatasetReader(d)).run_modeling(**kw1)
    d2 = lib.DS()
    d2.__dict__.update(d.__dict__)
    d2.dis_videos = [dict(v, os=[want[e][s][0] for s in range(S)]) for e, v in enumerate(d.dis_videos)]
    res2 = getattr(sm, plain)(RawDatasetReader(d2)).run_modeling(**kw)
    if name == 'LiveDmosModel':
        ctx.eq('live', list(res['quality_scores']),
               [lib.mean(ctx, [(x + 3) * 100 / 6 for x in [res2['quality_scores'][e][s][0] for s in range(S)]]) for e in range(E)])
        return
    for k in res:
        ctx.eq(k, res[k], res2[k])


def jobs(tier):
    J = [dict(h='h_dmos', p=dict(E=4, S=3, R=1, how='DMOS', free_layout=True)),
         dict(h='h_dmos', p=dict(E=3, S=2, R=1, how='DMOS', style='dict', missing=True)),
         dict(h='h_dmos', p=dict(E=4, S=3, R=1, how='DMOS', style='tuple', cids=[1, 0, 0, 1], refs={0: 2, 1: 3})),
         dict(h='h_dmos', p=dict(E=2, S=2, R=2, how='DMOS')),
         dict(h='h_dmos', p=dict(E=3, S=2, R=1, how='MOS', cids=[1, 1, 0], refs={1: 1, 0: 2})),
         dict(h='h_dmos', p=dict(E=5, S=3, R=1, how='PERSUBJECT', cids=[1, 1, 0, 2, 2], refs={1: 1, 0: 2, 2: 4})),
         dict(h='h_reject', p=dict(E=3, S=3)),
         dict(h='h_family', p=dict(name='SubjrejDmosModel', E=3, S=3)),
         dict(h='h_family', p=dict(name='ZscoringSubjrejDmosModel', E=3, S=3)),
         dict(h='h_family', p=dict(name='LiveDmosModel', E=3, S=2)),
         dict(h='h_family', p=dict(name='BiasremvMosModel', E=3, S=3))]
    if tier == 'thorough':
        J += [dict(h='h_dmos', p=dict(E=5, S=3, R=1, how='DMOS', free_layout=True), o=dict(budget=300)),
              dict(h='h_dmos', p=dict(E=4, S=2, R=1, how='DMOS', style='dict', missing=True), o=dict(budget=300)),
              dict(h='h_dmos', p=dict(E=5, S=4, R=1, how='MOS'), o=dict(budget=200)),
              dict(h='h_dmos', p=dict(E=4, S=2, R=2, how='MOS'), o=dict(budget=200)),
              dict(h='h_family', p=dict(name='SubjrejDmosModel', E=4, S=4), o=dict(budget=200)),
              dict(h='h_family', p=dict(name='LiveDmosModel', E=4, S=3), o=dict(budget=200))]
    return J
