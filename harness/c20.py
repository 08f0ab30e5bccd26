"""C20 combined run and output tables"""
import os
from . import lib
from .c08 import fill
from .c09 import model_of
from .c14 import Scratch

BOUNDS = ('up to 3 models with symbolic results for up to 4 videos, 3 subjects, 3 contents and every listed combination of '
          'optional entries; dataset files (Python and JSON) with symbolic votes, missing and repeated votes')
ASSUMPTIONS = ['plots are not part of the output checked here', 'symbolic numbers are written to files as opaque tokens']

VK = ['quality_scores_std', 'quality_scores_ci95']
OK = ['observer_bias_std', 'observer_bias_ci95', 'observer_inconsistency', 'observer_inconsistency_std', 'observer_inconsistency_ci95',
      'observer_scores_mean', 'observer_scores_std']
CK = ['content_ambiguity_std', 'content_ambiguity_ci95']
ONE = {'quality_scores': 'quality_score', 'quality_scores_std': 'quality_score_std', 'quality_scores_ci95': 'quality_score_ci95'}


def expect(results, types, paths, observers, contents):
    """tables from the results, entry by entry"""
    out = {'dis_videos': [], 'observers': None, 'contents': None, 'stats': None}
    for e, p in enumerate(paths):
        out['dis_videos'].append({'dis_video_name': p, 'models': {}})
        for t, r in zip(types, results):
            m = out['dis_videos'][e]['models'].setdefault(t, {})
            for k, n in ONE.items():
                if r.get(k) is not None:
                    m[n] = [r[k][0][e], r[k][1][e]] if k.endswith('ci95') else r[k][e]
    for t, r in zip(types, results):
        if 'observer_bias' in r:
            if out['observers'] is None:
                out['observers'] = [{'observer': o, 'models': {}} for o in observers]
            for s in range(len(observers)):
                m = out['observers'][s]['models'].setdefault(t, {})
                for k in ['observer_bias'] + OK:
                    if k in r:
                        m[k] = [r[k][0][s], r[k][1][s]] if k.endswith('ci95') else r[k][s]
        if 'content_ambiguity' in r:
            if out['contents'] is None:
                out['contents'] = [{'content': c, 'models': {}} for c in contents]
            for c in range(len(contents)):
                m = out['contents'][c]['models'].setdefault(t, {})
                for k in ['content_ambiguity'] + CK:
                    if k in r:
                        m[k] = [r[k][0][c], r[k][1][c]] if k.endswith('ci95') else r[k][c]
        for k in ('aic', 'bic'):
            if k in r:
                if out['stats'] is None:
                    out['stats'] = {'models': {}}
                out['stats']['models'].setdefault(t, {})[k] = r[k]
    return {k: v for k, v in out.items() if v is not None}


def same_tables(ctx, got, want):
    ctx.eq('tables', sorted(got), sorted(want))
    for t in ('dis_videos', 'observers', 'contents'):
        if t in want:
            ctx.eq('rows ' + t, len(got[t]), len(want[t]))
            for i, (g, w) in enumerate(zip(got[t], want[t])):
                ctx.eq('row %s %d' % (t, i), lib.plain(g), w)
    if 'stats' in want:
        ctx.eq('stats', lib.plain(got['stats']), want['stats'])


def h_format(ctx, E, S, C, models, refs=None, named=True, npy=False):
    """models: list of (TYPE, [optional keys])"""
    from sureal.routine import format_output_of_run_subjective_models
    from sureal.tools import misc
    n = [0]

    def val():
        n[0] += 1
        return ctx.real('x%d' % n[0], -5, 5)

    def vec(k, size):
        if k.endswith('ci95'):
            return [[val() for _ in range(size)] for _ in range(2)]
        v = [val() for _ in range(size)]
        return misc.np.array(v) if npy else v

    class Mod(object):
        def __init__(self, t):
            self.TYPE = t
    d = lib.DS()
    refs = refs or list(range(C))
    d.ref_videos = [{'content_id': c, 'content_name': 'name%d' % c, 'path': 'r%d' % c} for c in refs]
    paths = ['p%d' % ((3 * e) % E) for e in range(E)] if E % 3 else ['p%d' % e for e in range(E)]
    if E > 2:
        paths[-1] = paths[0]
    names = lib.NAMES[:S] if named else ['observer%d' % s for s in range(S)]
    results = []
    for t, keys in models:
        r = {'quality_scores': vec('q', E), 'dis_video_names': list(paths)}
        for k in keys:
            if k == 'none_std':
                r['quality_scores_std'] = None
            elif k in VK:
                r[k] = vec(k, E)
            elif k.startswith('observer_'):
                r[k] = vec(k, S)
                if named:
                    r['observers'] = list(names)
            elif k.startswith('content_'):
                r[k] = vec(k, C)
            else:
                r[k] = val()
        results.append(r)
    keep = [{k: lib.plain(v) for k, v in r.items()} for r in results]
    got = format_output_of_run_subjective_models(d, [Mod(t) for t, _ in models], results)
    want = expect(keep, [t for t, _ in models], paths, names, ['name%d' % c for c in sorted(refs)])
    same_tables(ctx, got, want)


def h_run(ctx, E, S, R=1, style='list', kind='py', models=('MosModel',), cids=None, missing=(), local=1e-3, iters=1, aids=None, stats=True):
    from sureal.routine import run_subjective_models, format_output_of_run_subjective_models
    from sureal.dataset_reader import RawDatasetReader
    ctx.exact_logs()
    d, votes = lib.build(ctx, E, S, R, style, cids=cids, asset_ids=aids, fill=fill, local=local, fixed_missing=[tuple(m) for m in missing])
    before = lib.snapshot(d)
    cls = [model_of(m) for m in models]
    with Scratch() as w:
        p = os.path.join(w, 'ds.' + kind)
        if kind == 'py':
            RawDatasetReader.write_out_dataset(d, p)
        else:
            with open(p, 'w') as fp:
                ctx.json.dump({k: v for k, v in d.__dict__.items()}, fp)
        ctx.iterations(iters)
        if len(models) > 1:
            ctx.iterations(1)
        ds, ms, rs = run_subjective_models(p, cls)
    ctx.eq('models', [m.TYPE for m in ms], [c.TYPE for c in cls])
    ctx.eq('votes read', [lib.plain(v['os']) for v in ds.dis_videos], [lib.plain(v['os']) for v in before['dis_videos']])
    single = []
    for c in cls:
        ctx.iterations(iters)
        single.append(c(RawDatasetReader(d)).run_modeling())
    for c, r, s in zip(cls, rs, single):
        ctx.eq(c.TYPE + ' names', r['dis_video_names'], [v['path'] for v in before['dis_videos']])
        for k in s:
            ctx.eq('%s %s' % (c.TYPE, k), lib.plain(r[k]), lib.plain(s[k]))
        if 'reconstructions' in s and stats:
            a = [x for row in lib.plain(s['raw_scores']) for cell in row for x in (cell if isinstance(cell, list) else [cell])]
            b = [x for row in lib.plain(s['reconstructions']) for cell in row for x in (cell if isinstance(cell, list) else [cell])]
            ab = [(x, y) for x, y in zip(a, b) if not ctx.isnan(x) and not ctx.isnan(y)]
            mse = sum((x - y) * (x - y) for x, y in ab) / len(ab)
            g = r['reconstruction_stats']
            ctx.eq(c.TYPE + ' rmse', g['rmse'] * g['rmse'], mse)
            ctx.eq(c.TYPE + ' stats', sorted(g), ['cc', 'rmse', 'srocc'])
    if 'content_ambiguity' in rs[0] and cids and max(cids) + 1 != len(set(cids)):
        return
    names = sorted(lib.NAMES[:S]) if style == 'dict' else list(rs[0].get('observers', ['observer%d' % s for s in range(S)]))
    want = expect([{k: lib.plain(v) for k, v in s.items()} for s in single], [c.TYPE for c in cls],
                  [v['path'] for v in before['dis_videos']], names, [v['content_name'] for v in before['ref_videos']])
    same_tables(ctx, format_output_of_run_subjective_models(ds, ms, rs), want)


def jobs(tier):
    o = dict(timeout_ms=200, budget=150, max_paths=4000, max_terms=40)
    J = []

    def fmt(nval=1, **p):
        J.append(dict(h='h_format', p=p, o=o, nval=nval))

    def run(nval=1, **p):
        J.append(dict(h='h_run', p=p, o=o, nval=nval))
    full = VK + ['observer_bias'] + OK + ['content_ambiguity'] + CK + ['aic', 'bic']
    fmt(E=4, S=3, C=2, models=[['M1', full]])
    fmt(E=3, S=2, C=3, refs=[2, 0, 1], models=[['M1', full], ['M2', []], ['M3', ['aic', 'quality_scores_std']]], npy=True)
    fmt(E=3, S=2, C=2, models=[['M2', []], ['M1', full]])
    fmt(E=2, S=3, C=2, models=[['M1', ['observer_bias', 'quality_scores_ci95']], ['M2', ['observer_bias', 'observer_inconsistency', 'bic']]], named=False)
    fmt(E=2, S=2, C=1, models=[['M1', ['none_std']], ['M2', ['quality_scores_std']]])
    fmt(E=2, S=2, C=2, models=[['M1', ['content_ambiguity', 'content_ambiguity_std']], ['M2', ['content_ambiguity', 'content_ambiguity_ci95', 'observer_scores_mean']]])
    for k in range(len(full)):
        if full[k] not in ('observer_bias', 'content_ambiguity'):
            fmt(E=2, S=2, C=2, models=[['M1', [x for i, x in enumerate(full) if i != k]], ['M2', full]], nval=0)
    run(E=3, S=3, models=['MosModel'], missing=[[1, 1, 0]])
    run(E=3, S=3, models=['MosModel'], kind='json', style='dict', missing=[[1, 1, 0]], aids=[2, 0, 1])
    run(E=3, S=2, R=2, models=['BiasremvMosModel'], kind='json', cids=[1, 0, 1], missing=[[0, 1, 1]])
    run(E=3, S=3, models=['P910AnnexEModel'], local=1e-4)
    run(E=3, S=3, models=['P910AnnexEModel'], local=1e-4, kind='json', style='dict', missing=[[0, 0, 0]])
    run(E=4, S=3, models=['MLE'], local=1e-5, cids=[0, 1, 0, 1])
    run(E=3, S=3, models=['MosModel', 'BiasremvMosModel', 'ZscoringMosModel'])
    run(E=4, S=4, models=['SubjrejMosModelPearson', 'MosModel'])
    if tier == 'thorough':
        o = dict(timeout_ms=1000, budget=500, max_paths=20000, max_terms=60)
        run(E=4, S=4, R=2, models=['P910AnnexEModel', 'MosModel'], local=1e-4, missing=[[0, 0, 0], [2, 1, 1]])
        run(E=5, S=4, models=['MLE_CO', 'BiasremvMosModel'], local=1e-5)
    return J
