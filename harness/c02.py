"""C02 MOS: mean, standard error, CI, ambiguity"""
from . import lib

BOUNDS = ('votes: arbitrary reals in [1,5] (also [-2,100]); all presence patterns of 2x2x1, 2x3x1, 1x2x2 grids symbolic; '
          'fixed-pattern grids up to 5 videos x 6 subjects and 3x3x2 with every vote symbolic; list and dict styles')
ASSUMPTIONS = ['votes of one video are not all identical (zero sample deviation makes the likelihood terms undefined)']


def check_mos(ctx, res, votes, pre=''):
    """votes[e][s] = list over repetitions"""
    cells = [lib.flat(ctx, row) for row in votes]
    m = [lib.mean(ctx, c) for c in cells]
    sd = [lib.std(ctx, c, 1) for c in cells]
    se = [s if ctx.isnan(s) else s / ctx.sqrt(len(c)) for s, c in zip(sd, cells)]
    k = ctx.num(195996) / 100000
    ctx.eq(pre + 'scores', list(res['quality_scores']), m)
    ctx.eq(pre + 'std', list(res['quality_scores_std']), se)
    ctx.eq(pre + 'ci95', res['quality_scores_ci95'], [[k * x for x in se], [k * x for x in se]])
    ctx.eq(pre + 'ambiguity', list(res['quality_ambiguity']), sd)
    S, R = len(votes[0]), len(votes[0][0])
    ctx.eq(pre + 'reconstructions', res['reconstructions'], [[[x] * R] * S for x in m])
    ctx.eq(pre + 'raw_scores', res['raw_scores'], votes)


def h_mos(ctx, E, S, R, style, missing=False, lo=1, hi=5, fixed=()):
    from sureal.dataset_reader import RawDatasetReader
    from sureal.subjective_model import MosModel
    d, votes = lib.build(ctx, E, S, R, style, missing=missing, lo=lo, hi=hi,
                         fixed_missing=set(tuple(x) for x in fixed))
    lib.spread_all(ctx, votes)
    if style == 'dict':
        # every subject votes at least once, no subject present only with empty cells
        for s in range(S):
            ctx.assume(any(lib.flat(ctx, [votes[e][s]]) for e in range(E)))
        order = sorted(range(S), key=lambda k: lib.NAMES[k])
    else:
        order = list(range(S))
    votes = [[votes[e][s] for s in order] for e in range(E)]
    if R > 1 and style == 'dict':
        pass
    before = lib.snapshot(d)
    res = MosModel(RawDatasetReader(d)).run_modeling()
    check_mos(ctx, res, votes)
    ctx.eq('source', lib.snapshot(d), before)


def jobs(tier):
    J = [dict(h='h_mos', p=dict(E=2, S=2, R=1, style='dict', missing=True)),
         dict(h='h_mos', p=dict(E=2, S=3, R=1, style='dict', missing=True)),
         dict(h='h_mos', p=dict(E=1, S=2, R=2, style='list', missing=True)),
         dict(h='h_mos', p=dict(E=2, S=2, R=2, style='dict')),
         dict(h='h_mos', p=dict(E=2, S=2, R=2, style='list', fixed=[[0, 0, 1], [1, 1, 0]])),
         dict(h='h_mos', p=dict(E=3, S=4, R=1, style='tuple', lo=-2, hi=100)),
         dict(h='h_mos', p=dict(E=3, S=4, R=1, style='list', fixed=[[0, 0, 0], [1, 2, 0]])),
         dict(h='h_mos', p=dict(E=4, S=5, R=1, style='list'))]
    if tier == 'thorough':
        J += [dict(h='h_mos', p=dict(E=2, S=4, R=1, style='dict', missing=True), o=dict(budget=200)),
              dict(h='h_mos', p=dict(E=3, S=3, R=1, style='list', missing=True), o=dict(budget=400)),
              dict(h='h_mos', p=dict(E=2, S=2, R=2, style='list', missing=True), o=dict(budget=200)),
              dict(h='h_mos', p=dict(E=5, S=6, R=1, style='list'), o=dict(budget=200)),
              dict(h='h_mos', p=dict(E=2, S=4, R=3, style='list'), o=dict(budget=200)),
              dict(h='h_mos', p=dict(E=3, S=3, R=2, style='dict'), o=dict(budget=200))]
    return J
