"""C32 runs are independent of the history of runs"""
from . import lib
from .c08 import fill
from .c09 import model_of

BOUNDS = ('histories of 2 to 3 runs, each of any model and options of a pool of 4 to 8, on one shared reader and, for the same model, one shared '
          'model object; results overwritten by the caller in between; datasets of up to 4 videos, 4 subjects and 2 repetitions with missing '
          'votes, symbolic in boxes around generic patterns')
ASSUMPTIONS = ['iterative models stop after one iteration on both sides of the comparison']

POOL = {
    'mos': [('MosModel', {}), ('MosModel', dict(normalize_final=True)), ('ZscoringMosModel', {}), ('BiasremvMosModel', {}),
            ('MosModel', dict(transform_final=dict(p1=2.0, p0=-1.0))), ('BiasremvMosModel', dict(transform_final=dict(p0=3.0)))],
    'ref': [('MosModel', {}), ('DmosModel', {}), ('LiveDmosModel', {}), ('ZscoringMosModel', dict(dscore_mode=True))],
    'sr': [('SubjrejMosModelPearson', {}), ('MosModel', {}), ('BiasremvMosModel', {}), ('BiasremvSubjrejMosModelPearson', {})],
    'iter': [('P910AnnexEModel', {}), ('P910AnnexEModel', dict(force_subjbias_zeromean=False)), ('MosModel', {}), ('MLE_CO', {})],
}


def wipe(r):
    for k in list(r):
        v = r[k]
        if isinstance(v, list):
            for i in range(len(v)):
                v[i] = 0
        elif hasattr(v, 'shape') and hasattr(v, 'fill') and v.shape:
            v[...] = 0
    r.clear()


def h_hist(ctx, pool, K, E, S, R=1, style='list', missing=(), local=1e-3, refs=None, cids=None, wiping=True):
    from sureal.dataset_reader import RawDatasetReader
    ctx.exact_logs()
    d, votes = lib.build(ctx, E, S, R, style, fill=fill, local=local, fixed_missing=[tuple(m) for m in missing],
                         refs={int(a): b for a, b in refs.items()} if refs else None, cids=cids)
    before = lib.snapshot(d)
    rd = RawDatasetReader(d)
    P = POOL[pool]
    objs, held = {}, []
    for k in range(K):
        name, kw = P[ctx.choice('run%d' % k, len(P))]
        kw = {a: dict(b) if isinstance(b, dict) else b for a, b in kw.items()}
        kw0 = {a: dict(b) if isinstance(b, dict) else b for a, b in kw.items()}
        if name not in objs:
            objs[name] = model_of(name)(rd)
        ctx.iterations(1)
        r = objs[name].run_modeling(**kw)
        ctx.eq('options kept %d' % k, kw, kw0)
        ctx.iterations(1)
        w = model_of(name)(RawDatasetReader(lib.as_ds(lib.build_again(before)))).run_modeling(**kw0)
        ctx.eq('quantities %d' % k, sorted(r), sorted(w))
        for q in w:
            ctx.eq('%s of run %d' % (q, k), lib.plain(r[q]), lib.plain(w[q]))
        for (j, h, want) in held:
            for q in want:
                ctx.eq('%s of run %d kept after run %d' % (q, j, k), lib.plain(h[q]), want[q])
        g = objs[name].to_aggregated_dataset()
        ctx.eq('exported scores %d' % k, [lib.plain(v['groundtruth']) for v in g.dis_videos], lib.plain(w['quality_scores']))
        if wiping and k < K - 1 and ctx.flag('wipe%d' % k):
            wipe(r)
            objs.pop(name)
        else:
            held = [x for x in held if x[1] is not r] + [(k, r, {q: lib.plain(w[q]) for q in w})]
        ctx.eq('source %d' % k, lib.snapshot(d), before)


def jobs(tier):
    o = dict(timeout_ms=300, budget=200, max_paths=4000, max_terms=40)
    J = []

    def hist(nval=1, **p):
        J.append(dict(h='h_hist', p=p, o=o, nval=nval))
    hist(pool='mos', K=2, E=3, S=3, missing=[[1, 1, 0]])
    hist(pool='mos', K=2, E=3, S=2, R=2, style='dict', missing=[[1, 1, 0]])
    hist(pool='ref', K=2, E=4, S=3, cids=[0, 1, 1, 0], refs={'0': 3, '1': 1})
    hist(pool='sr', K=2, E=4, S=4, local=1e-4)
    hist(pool='iter', K=2, E=3, S=3, local=1e-5)
    hist(pool='iter', K=2, E=3, S=3, local=1e-5, style='dict', missing=[[0, 0, 0]], wiping=False)
    if tier == 'thorough':
        o = dict(timeout_ms=500, budget=700, max_paths=20000, max_terms=60)
        hist(pool='mos', K=3, E=3, S=3, missing=[[1, 1, 0]])
        hist(pool='ref', K=3, E=4, S=3, cids=[0, 1, 1, 0], refs={'0': 3, '1': 1})
        hist(pool='sr', K=3, E=4, S=4, local=1e-4)
        hist(pool='iter', K=3, E=3, S=3, local=1e-5)
    return J
