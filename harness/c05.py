"""C05 BT.500 subject screening"""
from . import lib
from .c02 import check_mos

BOUNDS = ('votes of the screened subjects symbolic in [-5,15] (1-4 symbolic votes per dataset, the other votes fixed), grids '
          '2x6, 2x7, 3x6, 2x22 (wide-tail threshold), 39/40 videos x 6 (5% boundary), 2x3x2 repetitions, missing votes; every '
          'ordering of votes versus thresholds and kurtosis class reachable by the symbolic votes is explored; '
          'plus a fully symbolic 2x3 grid (no rejection possible)')
ASSUMPTIONS = ['votes exactly on a threshold (within double rounding) are excluded',
               'votes of one video are not all identical']


def fills(kind):
    if kind == 'mid':      # moderate spread: 2-sigma rule reachable
        base = [3, 2.6, 3.3, 2.9, 3.1, 2.4, 3.6, 2.8]
        return lambda e, s, r: base[(s + 3 * r + e) % len(base)]
    if kind == 'bimodal':  # low kurtosis
        return lambda e, s, r: 1.5 + 2.5 * ((s + e) % 2) + 0.125 * s
    if kind == 'wide':
        return lambda e, s, r: 3 + 0.0625 * ((5 * s + 3 * e) % 7)
    return lib.generic_f


def h_kurt(ctx, E, S, R=1, sym=(), fill='mid', missing=(), model='SR_MOS', lo=-5, hi=15, style='list'):
    from sureal.dataset_reader import RawDatasetReader
    from sureal import subjective_model as sm
    miss = set(tuple(x) for x in missing)
    import sureal
    d, votes = lib.build(ctx, E, S, R, style, sym=set(tuple(x) for x in sym) if sym != 'all' else None,
                         fill=fills(fill), fixed_missing=miss, lo=lo, hi=hi,
                         refs={0: 0} if 'DMOS' in model else None)
    lib.spread_all(ctx, votes)
    cls, kw = {'SR_MOS': ('SubjrejMosModel', {}), 'MOS': ('MosModel', dict(subject_rejection=True)),
               'MOSK': ('MosModel', dict(subject_rejection=True, subject_rejection_type='kurtosis')),
               'BR_SR_MOS': ('BiasremvSubjrejMosModel', {}),
               'ZS_SR_MOS': ('ZscoringSubjrejMosModel', {}), 'SR_DMOS': ('SubjrejDmosModel', {}),
               'BT500': ('BT500Model', {}), 'P913': ('P913124Model', {})}[model]
    if style == 'dict':
        votes = lib.subset(votes, sorted(range(S), key=lambda k: lib.NAMES[k]))
    x = votes
    b = None
    if model in ('BR_SR_MOS', 'P913'):
        x, b = lib.debias(ctx, votes)
    elif model == 'ZS_SR_MOS':
        x = lib.zscore(ctx, votes)
    elif model == 'SR_DMOS':
        x = lib.dscore(ctx, votes, [0] * E, 5)
    rej, st1, st2 = lib.kurt_reject(ctx, x)
    res = getattr(sureal if model in ('BT500', 'P913') else sm, cls)(RawDatasetReader(d)).run_modeling(**kw)
    ctx.eq('rejected', [bool(v) for v in res['observer_rejected']], rej)
    ctx.eq('first stat', list(res['observer_rejected_1st_stats']), st1)
    ctx.eq('second stat', list(res['observer_rejected_2nd_stats']), st2)
    keep = [s for s in range(S) if not rej[s]]
    ctx.true('someone remains', len(keep) > 0)
    check_mos(ctx, res, lib.subset(x, keep))
    if b is not None:
        ctx.eq('bias', list(res['observer_bias']), b)


DESIGN = [[[11, -1, -2, 0, 1, -2], [-8, -3, 2, 1, 0, 2], [0, 6, 9, 10, 8, 9], [-1, -10, -6, -7, -6, -10]],
          [[3, 1, 2, 5, 4, 2], [1, 2, 3, 3, 1, 5], [4, 4, 4, 1, 2, 2], [2, 2, 5, 2, 5, 1]]]


def h_zsr(ctx, design, model, shuffle=0):
    """z-scored screening, each subject with its own symbolic scale use (gain, offset)"""
    from sureal.dataset_reader import RawDatasetReader
    from sureal import subjective_model as sm
    D = DESIGN[design]
    E, S = len(D), len(D[0])
    d, _ = lib.build(ctx, E, S, 1, 'list', sym=(), fill=lib.generic, refs={0: 2})
    perm = [(s + shuffle) % S for s in range(S)]
    votes = []
    gains = [ctx.real('gain%d' % s, 0.25, 4) for s in range(S)]
    offs = [ctx.real('off%d' % s, -5, 5) for s in range(S)]
    for e in range(E):
        votes.append([[gains[s] * D[e][perm[s]] + offs[s]] for s in range(S)])
        d.dis_videos[e]['os'] = [c[0] for c in votes[e]]
    x = votes
    if model == 'ZS_SR_DMOS':
        # a common shift per video: the reference video's MOS is subtracted from every vote
        x = lib.dscore(ctx, votes, [2] * E, 5)
    z = lib.zscore(ctx, x)
    rej, st1, st2 = lib.kurt_reject(ctx, z)
    cls = {'ZS_SR_MOS': sm.ZscoringSubjrejMosModel, 'ZS_SR_DMOS': sm.ZscoringSubjrejDmosModel}[model]
    res = cls(RawDatasetReader(d)).run_modeling()
    ctx.eq('rejected', [bool(v) for v in res['observer_rejected']], rej)
    ctx.eq('first stat', list(res['observer_rejected_1st_stats']), st1)
    ctx.eq('second stat', list(res['observer_rejected_2nd_stats']), st2)
    check_mos(ctx, res, lib.subset(z, [s for s in range(S) if not rej[s]]))


def jobs(tier):
    two = [[0, 0, 0], [1, 0, 0]]
    J = [dict(h='h_kurt', p=dict(E=2, S=6, sym=two)),
         dict(h='h_kurt', p=dict(E=2, S=7, sym=two, fill='bimodal', model='MOS')),
         dict(h='h_kurt', p=dict(E=2, S=22, sym=two, fill='wide', model='MOSK')),
         dict(h='h_kurt', p=dict(E=3, S=6, sym=[[0, 1, 0], [1, 1, 0], [2, 1, 0]]), o=dict(budget=90)),
         dict(h='h_kurt', p=dict(E=2, S=7, sym=[[0, 0, 0], [1, 0, 0], [0, 3, 0], [1, 3, 0]]), o=dict(budget=90)),
         dict(h='h_kurt', p=dict(E=39, S=6, sym=two)),
         dict(h='h_kurt', p=dict(E=40, S=6, sym=two)),
         dict(h='h_kurt', p=dict(E=2, S=3, R=2, sym=[[0, 1, 0], [1, 1, 1]])),
         dict(h='h_kurt', p=dict(E=2, S=3, R=2, sym=[[0, 1, 1], [0, 1, 0]])),
         dict(h='h_kurt', p=dict(E=2, S=7, sym=two, missing=[[0, 3, 0], [1, 1, 0]])),
         dict(h='h_kurt', p=dict(E=3, S=6, sym=two, missing=[[2, 0, 0]], model='BT500')),
         dict(h='h_kurt', p=dict(E=2, S=3, R=2, sym=[[0, 1, 1], [1, 1, 0]], missing=[[1, 1, 1], [0, 0, 1]], style='dict')),
         dict(h='h_kurt', p=dict(E=3, S=6, sym=two, missing=[[2, 0, 0], [2, 4, 0]], model='P913', style='dict')),
         dict(h='h_kurt', p=dict(E=2, S=3, sym='all')),
         dict(h='h_kurt', p=dict(E=2, S=6, sym=two, model='BR_SR_MOS')),
         dict(h='h_kurt', p=dict(E=3, S=6, sym=[[1, 0, 0], [2, 0, 0]], model='SR_DMOS')),
         dict(h='h_zsr', p=dict(design=0, model='ZS_SR_MOS')),
         dict(h='h_zsr', p=dict(design=0, model='ZS_SR_DMOS', shuffle=2)),
         dict(h='h_zsr', p=dict(design=1, model='ZS_SR_MOS'))]
    if tier == 'thorough':
        J += [dict(h='h_kurt', p=dict(E=4, S=6, sym=[[e, 2, 0] for e in range(4)]), o=dict(budget=300)),
              dict(h='h_kurt', p=dict(E=3, S=8, sym=[[0, 0, 0], [1, 0, 0], [2, 0, 0], [0, 3, 0], [1, 3, 0]]), o=dict(budget=300)),
              dict(h='h_kurt', p=dict(E=21, S=3, R=2, sym=two), o=dict(budget=100)),
              dict(h='h_kurt', p=dict(E=3, S=3, sym='all'), o=dict(budget=300)),
              dict(h='h_kurt', p=dict(E=3, S=6, sym=[[1, 0, 0], [2, 0, 0]], model='ZS_SR_MOS'), o=dict(budget=300, timeout_ms=300)),
              dict(h='h_kurt', p=dict(E=3, S=24, sym=[[0, 0, 0], [1, 0, 0], [2, 0, 0]], fill='wide'), o=dict(budget=300))]
    return J
