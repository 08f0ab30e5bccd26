"""C09 results follow the data: reordering, relabelling and shifting votes"""
from . import lib
from .c08 import fill
from .c10 import MODELS

BOUNDS = ('pairs of runs of the real models on a dataset and its transformed copy; every vote symbolic (MOS family: free in '
          '[1,5] on 2x2/2x3 or in boxes; iterative models: 1e-4 boxes around generic patterns, 1-2 iterations); grids up to '
          '4x4 and 3x3x2 with missing votes; transformations: permutations of subjects / videos / repetitions, renamed '
          'subjects, list versus dictionary style, relabelled contents, constant shift')
ASSUMPTIONS = ['for the iterative models the number of iterations is the same on both sides (1-2)']


def model_of(name):
    from sureal import subjective_model as sm
    import sureal
    if name in ('P910AnnexEModel', 'BT500Model', 'P913124Model'):
        return getattr(sureal, name)
    return getattr(sm, MODELS.get(name, name))


def run(ctx, model, d, iters, kw):
    from sureal.dataset_reader import RawDatasetReader
    if iters:
        ctx.iterations(iters)
    return model_of(model)(RawDatasetReader(d)).run_modeling(**kw)


def perm(xs, p):
    return [xs[i] for i in p]


def same(ctx, A, B, pe, ps, pc, shift=0, keep=None, skip=()):
    """B is the result on the transformed dataset; entry i of B must be entry p[i] of A"""
    ctx.eq('reported quantities', sorted(map(str, A)), sorted(map(str, B)))
    for k in sorted(A):
        if k in skip or k not in B:
            continue
        a, b = A[k], B[k]
        if k in ('loglikelihood', 'aic', 'bic', 'dof', 'num_iter'):
            ctx.eq(k, b, a)
        elif k == 'observers':
            pass
        elif k in ('raw_scores', 'reconstructions'):
            a = [[list(c) for c in row] for row in a]
            sub = ps if keep is None else keep
            ctx.eq(k, b, [[[v + shift for v in a[e][s]] for s in sub] for e in pe])
        else:
            p = ps if k.startswith('observer') else pc if k.startswith('content') else pe
            if 'ci95' in k:
                ctx.eq(k, [list(z) for z in b], [perm(list(z), p) for z in a])
            else:
                c = shift if k in ('quality_scores', 'observer_scores_mean') else 0
                a, b = list(a), list(b)
                if k == 'observer_rejected':
                    a, b = [bool(v) for v in a], [bool(v) for v in b]
                    ctx.eq(k, b, perm(a, p))
                else:
                    ctx.eq(k, b, [v + c for v in perm(a, p)])


def remake(ctx, votes, cids, style, names, refs=(), ref_score=5.0):
    """dataset over given votes"""
    E, S, R = len(votes), len(votes[0]), len(votes[0][0])
    d = lib.DS()
    d.dataset_name, d.yuv_fmt, d.width, d.height = 'test_ds', 'yuv420p', 1920, 1080
    d.ref_score = ref_score
    d.ref_videos = [{'content_id': c, 'content_name': 'c%d' % c, 'path': 'ref_%d.yuv' % c} for c in range(max(cids) + 1)]
    d.dis_videos = []
    for e in range(E):
        cells = [v[0] if R == 1 else list(v) for v in votes[e]]
        if style == 'dict':
            os_ = {names[s]: cells[s] for s in range(S)
                   if any(not ctx.isnan(v) for v in votes[e][s])}
        else:
            os_ = cells
        d.dis_videos.append({'content_id': cids[e], 'asset_id': e, 'os': os_,
                             'path': 'ref_%d.yuv' % cids[e] if e in refs else 'dis_%d.yuv' % e})
    return d


def h_eqv(ctx, E, S, R=1, model='MosModel', what='subjects', missing=(), cids=None, local=None, iters=None, pe=None, ps=None,
          kw=None, refs=(), spread=None, sym=None, out=None, lo=1, hi=5, ll=True):
    ctx.exact_logs()
    cids = cids or [0] * E
    miss = set(tuple(m) for m in missing)
    f = fill
    if out is not None:
        f = lambda e, s, r=0: (4.5 - e - r / 8 if s == out else 1 + e + ((3 * e * e + s * 5 + r) % 7) / 8)
    _, votes = lib.build(ctx, E, S, R, 'list', fill=f, local=local, cids=cids, fixed_missing=miss, lo=lo, hi=hi,
                         sym=set(tuple(z) for z in sym) if sym is not None else None)
    if local is None:
        lib.spread_all(ctx, votes, spread or 'e')
    kw = dict(kw or {})
    names = ['n%d' % s for s in range(S)]
    A = run(ctx, model, remake(ctx, votes, cids, 'list', names, refs), iters, kw)
    pe = list(pe) if pe else list(range(E))
    ps = list(ps) if ps else list(range(S))
    pc = list(range(max(cids) + 1))
    v2, c2, style, n2, sh = votes, cids, 'list', names, 0
    r2 = refs
    if what == 'subjects':
        v2 = [[row[s] for s in ps] for row in votes]
    elif what == 'names':      # same subjects under names that sort differently
        n2 = [None] * S
        for i, s in enumerate(ps):
            n2[s] = 'm%d' % i
        style = 'dict'
    elif what == 'style':
        style = 'dict'
    elif what == 'videos':
        v2 = [votes[e] for e in pe]
        c2 = [cids[e] for e in pe]
        r2 = [i for i, e in enumerate(pe) if e in refs]
    elif what == 'contents':
        pc = list(reversed(pc))
        c2 = [pc[c] for c in cids]
    elif what == 'reps':
        v2 = [[list(reversed(c)) for c in row] for row in votes]
    elif what == 'shift':
        sh = ctx.real('shift', -2, 2)
        v2 = [[[v if ctx.isnan(v) else v + sh for v in c] for c in row] for row in votes]
    B = run(ctx, model, remake(ctx, v2, c2, style, n2, r2), iters, kw)
    skip = ['observers'] + ([] if ll else ['loglikelihood', 'aic', 'bic'])
    if 'observers' in B and 'observers' not in A:
        B.pop('observers')
    if what == 'reps':
        skip.append('raw_scores')
    keep = None
    if 'observer_rejected' in A:
        # raw scores and reconstructions list the remaining subjects only
        ra = [bool(v) for v in A['observer_rejected']]
        ka = [s for s in range(S) if not ra[s]]
        keep = [ka.index(s) for s in ps if not ra[s]]
    if model == 'ZscoringMosModel':
        sh = 0      # z-scores do not move at all
    same(ctx, A, B, pe, ps, pc, sh, keep, skip)


def jobs(tier):
    o = dict(max_terms=60, timeout_ms=300, budget=100)
    it = dict(E=4, S=4, iters=1, local=1e-4, ps=[2, 0, 3, 1], pe=[3, 1, 0, 2], cids=[0, 1, 0, 1], missing=[[1, 2, 0]])
    J = []

    def add(**p):
        oo = o
        if p.get('model', '') in MODELS:
            oo = dict(o, max_terms=40, timeout_ms=100)
        J.append(dict(h='h_eqv', p=p, o=oo, nval=1))
    for w, p in (('subjects', [2, 0, 1]), ('names', [1, 2, 0]), ('videos', [0, 1, 2]), ('shift', [0, 1, 2]), ('style', [0, 1, 2])):
        add(E=2, S=3, what=w, ps=p, pe=[1, 0] if w == 'videos' else None, model='MosModel')
    add(E=3, S=3, R=2, what='reps', missing=[[0, 0, 1], [2, 1, 1]], local=0.01)
    add(E=3, S=3, R=2, what='names', ps=[2, 1, 0], missing=[[0, 0, 1], [2, 1, 1]], local=0.01, model='BiasremvMosModel')
    add(E=3, S=3, R=2, what='videos', pe=[2, 0, 1], missing=[[0, 0, 1], [2, 1, 1]], local=0.01, model='BiasremvMosModel')
    add(E=3, S=3, what='shift', local=0.01, model='BiasremvMosModel')
    add(E=3, S=3, what='shift', spread='s', local=0.01, model='ZscoringMosModel', missing=[[0, 1, 0]])
    add(E=3, S=3, R=2, what='videos', pe=[2, 0, 1], spread='s', local=0.01, model='ZscoringMosModel', missing=[[0, 1, 0]])
    for w in ('subjects', 'videos', 'shift', 'names'):
        add(E=4, S=4, what=w, ps=[2, 0, 3, 1] if w in ('subjects', 'names') else None, pe=[3, 1, 0, 2] if w == 'videos' else None, out=3,
            model='SubjrejMosModelPearson', local=0.001, sym=[[0, 0, 0], [1, 1, 0], [2, 3, 0]])
    add(E=3, S=6, what='subjects', ps=[5, 2, 0, 4, 3, 1], model='BT500Model', sym=[[0, 0, 0], [1, 0, 0]], lo=-5, hi=15)
    add(E=3, S=6, what='videos', pe=[2, 0, 1], model='BT500Model', sym=[[0, 0, 0], [1, 0, 0]], lo=-5, hi=15)
    add(E=3, S=6, what='shift', model='P913124Model', sym=[[0, 0, 0]], lo=-5, hi=15)
    add(E=4, S=3, what='videos', pe=[2, 3, 0, 1], cids=[0, 0, 1, 1], refs=[0, 3], model='DmosModel', local=0.1)
    add(E=4, S=3, what='shift', cids=[0, 0, 1, 1], refs=[0, 3], model='BiasremvMosModel', local=0.01)
    for m in ('P910AnnexEModel', 'SubjectMLEModelProjectionSolver', 'MLE', 'MLE_CO', 'MLE_SO'):
        for w in ('subjects', 'videos', 'names', 'shift', 'style') + (('contents',) if m in ('MLE', 'MLE_SO') else ()):
            if m == 'MLE_CO' and w in ('style', 'shift') or m == 'MLE_SO' and w in ('names', 'style'):
                continue
            q = dict(it, model=m, what=w)
            if w not in ('subjects', 'names'):
                q['ps'] = None
            if w != 'videos':
                q['pe'] = None
            if m.startswith('MLE'):
                q.update(E=4, S=3, local=1e-5)
                if m == 'MLE':
                    q['ll'] = w != 'videos'
                if q['ps']:
                    q['ps'] = [2, 0, 1]
            add(**q)
    add(E=3, S=3, R=2, what='reps', missing=[[0, 0, 1], [2, 1, 0]], local=1e-5, iters=1, model='P910AnnexEModel')
    add(E=3, S=3, R=2, what='subjects', ps=[1, 2, 0], missing=[[0, 0, 1], [2, 1, 0]], local=1e-5, iters=1, model='P910AnnexEModel')
    add(E=3, S=3, R=2, what='videos', pe=[1, 2, 0], missing=[[0, 0, 1], [2, 1, 0]], local=1e-5, iters=2, model='SubjectMLEModelProjectionSolver')
    if tier == 'thorough':
        o = dict(max_terms=60, timeout_ms=1000, budget=300)
        for m in ('P910AnnexEModel', 'MLE', 'MLE_CO', 'MLE_SO', 'DMOS_MLE', 'DMOS_MLE_CO'):
            add(E=5, S=5, what='subjects', ps=[4, 2, 0, 3, 1], local=1e-6, iters=2, model=m, cids=[0, 1, 0, 1, 1], missing=[[4, 2, 0]], refs=[0, 1])
            add(E=5, S=5, what='videos', pe=[4, 2, 0, 3, 1], local=1e-6, iters=2, model=m, cids=[0, 1, 0, 1, 1], missing=[[4, 2, 0]], refs=[0, 1])
        add(E=3, S=4, what='subjects', ps=[3, 0, 2, 1], model='BiasremvMosModel')
        add(E=3, S=4, what='shift', model='BiasremvMosModel')
    return J
