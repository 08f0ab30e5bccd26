"""C31 least-squares recovery"""
from . import lib
from .c08 import fill

BOUNDS = 'every vote symbolic in [1,5] (boxes for z-scored votes); grids up to 5 videos x 4 subjects without missing votes, all dataset styles'
ASSUMPTIONS = ['every subject has voted once on every video (the model has no estimate otherwise)']


def h_ls(ctx, E, S, style='list', kw=None, local=None, refs=None, cids=None, twice=False):
    from sureal.subjective_model import LeastSquaresModel
    from sureal.dataset_reader import RawDatasetReader
    kw = kw or {}
    d, votes = lib.build(ctx, E, S, 1, style, fill=fill, local=local, refs={int(a): b for a, b in refs.items()} if refs else None, cids=cids)
    o = sorted(range(S), key=lambda s: lib.NAMES[s]) if style == 'dict' else list(range(S))
    V = [[votes[e][s] for s in o] for e in range(E)]
    before = lib.snapshot(d)
    if kw.get('dscore_mode'):
        V = lib.dscore(ctx, V, [refs[str(c)] for c in (cids or [0] * E)], ctx.num(5))
    if kw.get('zscore_mode'):
        lib.spread_all(ctx, V, 's')
        V = lib.zscore(ctx, V)
    m = LeastSquaresModel(RawDatasetReader(d))
    r = m.run_modeling(**kw)
    q = [lib.mean(ctx, [c[0] for c in row]) for row in V]
    b = [sum((V[e][s][0] - q[e] for e in range(E)), ctx.num(0)) / E for s in range(S)]
    ctx.eq('scores', lib.plain(r['quality_scores']), q)
    ctx.eq('biases', lib.plain(r['observer_bias']), b)
    ctx.eq('biases cancel', sum(lib.plain(r['observer_bias']), ctx.num(0)), ctx.num(0))
    if twice:
        r = m.run_modeling(**kw)
        ctx.eq('scores again', lib.plain(r['quality_scores']), q)
    ctx.eq('source', lib.snapshot(d), before)


def h_refuse(ctx, E, S, R, kw=None):
    from sureal.subjective_model import LeastSquaresModel
    from sureal.dataset_reader import RawDatasetReader
    d, votes = lib.build(ctx, E, S, R)
    ctx.true('refused', lib.raises(lambda: LeastSquaresModel(RawDatasetReader(d)).run_modeling(**(kw or {}))))


def jobs(tier):
    o = dict(timeout_ms=300, budget=150, max_paths=2000, max_terms=40)
    J = []

    def ls(nval=1, **p):
        J.append(dict(h='h_ls', p=p, o=o, nval=nval))
    for E, S in ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (4, 3), (5, 4)):
        ls(E=E, S=S)
    ls(E=3, S=3, style='dict')
    ls(E=3, S=3, style='tuple', twice=True)
    ls(E=4, S=3, kw=dict(dscore_mode=True), cids=[0, 1, 1, 0], refs={'0': 3, '1': 1})
    ls(E=3, S=2, kw=dict(zscore_mode=True), local=1e-3)
    J.append(dict(h='h_refuse', p=dict(E=2, S=2, R=2), o=o, nval=1))
    J.append(dict(h='h_refuse', p=dict(E=3, S=2, R=1, kw=dict(subject_rejection=True)), o=o, nval=1))
    if tier == 'thorough':
        ls(E=8, S=6)
        ls(E=6, S=5, style='dict')
        ls(E=4, S=4, kw=dict(zscore_mode=True, dscore_mode=True), local=1e-3, cids=[0, 1, 1, 0], refs={'0': 3, '1': 1})
    return J
