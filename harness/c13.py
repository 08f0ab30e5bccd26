"""C13 final normalisation and polynomial transform of the quality scores"""
from . import lib
from .c08 import fill
from .c09 import model_of

BOUNDS = ('symbolic polynomial coefficients in [-10,10] (any subset of p2, p1, p0), normalisation on/off; MOS with every vote '
          'symbolic in [1,5] (2x2..4x3, missing votes), other models with votes in boxes around generic patterns; '
          'the reference is the same model run without the option')
ASSUMPTIONS = ['normalisation: the scores are not all equal']


def h_final(ctx, E, S, R=1, model='MosModel', missing=(), cids=None, local=None, iters=None, coef=('p2', 'p1', 'p0'),
            norm=False, order=None, spread='e'):
    from sureal.dataset_reader import RawDatasetReader
    cids = cids or [0] * E
    d, votes = lib.build(ctx, E, S, R, 'list', fill=fill, local=local, cids=cids, fixed_missing=set(tuple(m) for m in missing),
                         refs={c: cids.index(c) for c in set(cids)} if 'DMOS' in model or 'Dmos' in model else None)
    if local is None:
        lib.spread_all(ctx, votes, spread)

    def go(**k):
        if iters:
            ctx.iterations(iters)
        return model_of(model)(RawDatasetReader(d)).run_modeling(**k)
    base = go()
    q = list(base['quality_scores'])
    kw = {}
    if norm is not None:
        kw['normalize_final'] = norm
    if coef is not None:
        kw['transform_final'] = {k: ctx.real(k, -10, 10) for k in coef}
    if norm:
        ctx.assume_pos(lib.var(ctx, q))
    before = lib.snapshot(d)
    keep = dict(kw.get('transform_final') or {})
    got = go(**kw)
    want = q
    if norm:
        m, s = lib.mean(ctx, q), lib.std(ctx, q)
        want = [(v - m) / s for v in q]
        if coef is None:
            ctx.eq('zero mean', lib.mean(ctx, list(got['quality_scores'])), 0)
            ctx.eq('unit deviation', lib.var(ctx, list(got['quality_scores'])), 1)
    if coef is not None:
        t = keep
        want = [t.get('p2', 0) * v * v + t.get('p1', 0) * v + t.get('p0', 0) for v in want]
    ctx.eq('scores', list(got['quality_scores']), want)
    ctx.eq('keys', sorted(got), sorted(base))
    for k in base:
        if k not in ('quality_scores', 'observers'):
            ctx.eq(k, lib.plain(got[k]), lib.plain(base[k]))
    ctx.eq('source', lib.snapshot(d), before)
    if coef is not None:
        ctx.eq('coefficients', kw['transform_final'], keep)


def jobs(tier):
    o = dict(max_terms=60, timeout_ms=300, budget=100)
    it = dict(local=1e-4, iters=1)
    J = []

    def add(nval=2, **p):
        J.append(dict(h='h_final', p=p, o=o, nval=nval))
    for c in (['p2', 'p1', 'p0'], ['p1'], ['p0'], ['p2'], ['p2', 'p0'], ['p1', 'p0'], []):
        add(E=2, S=2, coef=c)
    add(E=3, S=2, coef=None, norm=True)
    add(E=4, S=3, coef=None, norm=True, missing=[[0, 0, 0]], local=0.1)
    add(E=3, S=3, coef=['p2', 'p1', 'p0'], norm=True, local=0.1)
    add(E=2, S=2, coef=None, norm=False)
    add(E=2, S=2, coef=['p1', 'p0'], norm=None)
    add(E=3, S=3, R=2, coef=['p2', 'p1', 'p0'], norm=True, local=0.01, model='BiasremvMosModel', missing=[[1, 1, 1]])
    add(E=3, S=3, coef=['p1', 'p0'], norm=False, local=0.01, model='ZscoringMosModel', spread='s')
    add(E=4, S=3, coef=['p1', 'p0'], norm=False, local=0.01, model='DmosModel', cids=[0, 1, 0, 1])
    add(E=4, S=3, coef=['p2', 'p0'], norm=True, local=0.001, model='LiveDmosModel', cids=[0, 1, 0, 1])
    add(E=4, S=4, coef=['p2', 'p1'], norm=False, local=0.001, model='SubjrejMosModelPearson')
    add(E=3, S=3, coef=['p2', 'p1', 'p0'], norm=True, model='P910AnnexEModel', **it)
    add(E=3, S=3, coef=['p2', 'p1'], norm=False, model='P910AnnexEModel', missing=[[1, 1, 0]], **it)
    add(E=3, S=3, coef=['p2', 'p1', 'p0'], norm=True, model='MLE_CO', local=1e-5, iters=1)
    if tier == 'thorough':
        o = dict(max_terms=60, timeout_ms=1000, budget=300)
        add(E=4, S=4, coef=['p2', 'p1', 'p0'], norm=True, model='MLE', cids=[0, 1, 0, 1], local=1e-5, iters=1)
        add(E=6, S=5, coef=['p2', 'p1', 'p0'], norm=True, local=0.01)
        add(E=4, S=3, coef=None, norm=True)
    return J
