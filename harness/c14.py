"""C14 exported datasets: every video keeps its own score"""
import os
import shutil
import tempfile
from . import lib
from .c08 import fill
from .c09 import model_of

BOUNDS = ('symbolic scores, deviations and votes; up to 4 videos, 3 contents, permuted/sparse asset ids, every subset of kept '
          'contents/assets in the listed configurations, list/tuple/dictionary votes with repetitions and missing votes; '
          'files are written to a scratch directory and loaded again')
ASSUMPTIONS = ['symbolic numbers are written as opaque tokens; decimal formatting of doubles is Python repr']


class Scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp()
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def public(d):
    return {k: lib.plain(v) for k, v in d.__dict__.items() if not k.startswith('_')}


def extra(d):
    d.quality_height = 540
    d.license = 'free'
    d.subjects = [{'name': 'x', 'age': 3}]
    d.dis_videos[0]['note'] = ['n', 1]
    return d


def h_agg(ctx, E, S, cids, aids=None, keepc=None, keepa=None, std='list', form='list', file=True, style='list', R=1, opts=None,
          nanscore=None):
    from sureal.dataset_reader import RawDatasetReader
    from sureal.tools.misc import import_python_file
    d, votes = lib.build(ctx, E, S, R, style, cids=cids, asset_ids=aids)
    extra(d)
    before = lib.snapshot(d)
    sc = [ctx.real('score%d' % e, 0, 100) for e in range(E)]
    if nanscore is not None:
        sc[nanscore] = ctx.nan
    sd = [ctx.real('std%d' % e, 0, 10) for e in range(E)]
    given = sc
    if form != 'list':
        import numpy as np
        given = np.array([ctx.num(0) for _ in range(E)]) if False else sc
        if form == 'array':
            from sureal.tools import misc as tm
            given = tm.np.array(sc)
        elif form == 'vec':
            from sureal.tools import misc as tm
            given = [tm.np.array([s]) for s in sc]
        elif form == 'vec2':
            from sureal.tools import misc as tm
            given = [tm.np.array([s, s + 1]) for s in sc]
    kw = dict(opts or {})
    if keepc is not None:
        kw['aggregate_content_ids'] = list(keepc)
    if keepa is not None:
        kw['aggregate_asset_ids'] = list(keepa)
    if std:
        kw['scores_std'] = sd
    rd = RawDatasetReader(d)
    res = [rd.to_aggregated_dataset(given, **kw)]
    if file:
        with Scratch() as w:
            p = os.path.join(w, 'agg_out.py')
            rd.to_aggregated_dataset_file(p, given, **kw)
            res.append(import_python_file(p))
    want = []
    for e in range(E):
        v = before['dis_videos'][e]
        if keepc is not None and v['content_id'] not in keepc:
            continue
        if keepa is not None and v['asset_id'] not in keepa:
            continue
        w = {k: x for k, x in v.items() if k != 'os'}
        w['groundtruth'] = [sc[e], sc[e] + 1] if form == 'vec2' else sc[e]
        if std:
            w['groundtruth_std'] = sd[e]
        want.append(w)
    for n, new in enumerate(res):
        lab = ['object', 'file'][n]
        got = public(new)
        exp = dict(before, dis_videos=want)
        exp.update({k: v for k, v in (opts or {}).items() if v is not None})
        ctx.eq(lab + ' attributes', sorted(got), sorted(exp))
        for k in exp:
            ctx.eq('%s %s' % (lab, k), got.get(k), lib.plain(exp[k]))
    ctx.eq('source', lib.snapshot(d), before)
    # the export shares nothing with the source
    for v in res[0].dis_videos:
        v['path'] = 'changed'
        if 'note' in v:
            v['note'].append(2)
    for v in res[0].ref_videos:
        v['path'] = 'changed'
    ctx.eq('independent of source', lib.snapshot(d), before)


def h_model(ctx, E, S, model, cids, iters=None, local=None, R=1, missing=(), style='list', aids=None, keepa=None):
    """the score written for a video is the score of that video"""
    from sureal.dataset_reader import RawDatasetReader
    from sureal.tools.misc import import_python_file
    d, votes = lib.build(ctx, E, S, R, style, cids=cids, asset_ids=aids, fill=fill, local=local,
                         fixed_missing=set(tuple(m) for m in missing))
    if local is None:
        lib.spread_all(ctx, votes)
    if iters:
        ctx.iterations(iters)
    m = model_of(model)(RawDatasetReader(d))
    before = lib.snapshot(d)
    r = m.run_modeling()
    q = list(r['quality_scores'])
    s = list(r['quality_scores_std']) if 'quality_scores_std' in r else None
    kw = {} if keepa is None else dict(aggregate_asset_ids=keepa)
    outs = [m.to_aggregated_dataset(**kw)]
    with Scratch() as w:
        p = os.path.join(w, 'agg_model.py')
        m.to_aggregated_dataset_file(p, **kw)
        outs.append(import_python_file(p))
    keep = [e for e in range(E) if keepa is None or d.dis_videos[e]['asset_id'] in keepa]
    for lab, o in zip(('object', 'file'), outs):
        ctx.eq(lab + ' assets', [v['asset_id'] for v in o.dis_videos], [d.dis_videos[e]['asset_id'] for e in keep])
        ctx.eq(lab + ' score', [v['groundtruth'] for v in o.dis_videos], [q[e] for e in keep])
        ctx.eq(lab + ' std', [v.get('groundtruth_std', -1) for v in o.dis_videos],
               [s[e] if s else -1 for e in keep])
        ctx.eq(lab + ' votes gone', ['os' in v for v in o.dis_videos], [False] * len(keep))
    ctx.eq('source', lib.snapshot(d), before)


def h_persubj(ctx, E, S, R=1, style='list', missing=(), file=True, cids=None):
    from sureal.dataset_reader import RawDatasetReader
    from sureal.subjective_model import PerSubjectModel
    from sureal.tools.misc import import_python_file
    cids = cids or [0] * E
    d, votes = lib.build(ctx, E, S, R, style, cids=cids, fixed_missing=set(tuple(m) for m in missing))
    extra(d)
    before = lib.snapshot(d)
    m = PerSubjectModel(RawDatasetReader(d))
    m.run_modeling()
    order = list(range(S))
    if style == 'dict':
        order = sorted(order, key=lambda k: lib.NAMES[k])
    want = []
    for e in range(E):
        for s in order:
            c = votes[e][s]
            if style == 'dict' and all(ctx.isnan(v) for v in c):
                continue
            w = {k: x for k, x in before['dis_videos'][e].items() if k != 'os'}
            w['groundtruth'] = c[0] if R == 1 else list(c)
            want.append(w)
    outs = [m.to_aggregated_dataset()]
    if file:
        with Scratch() as w:
            p = os.path.join(w, 'persubj.py')
            m.to_aggregated_dataset_file(p)
            outs.append(import_python_file(p))
    for lab, o in zip(('object', 'file'), outs):
        ctx.eq(lab + ' entries', lib.plain(o.dis_videos), lib.plain(want))
        ctx.eq(lab + ' refs', o.ref_videos, before['ref_videos'])
    ctx.eq('source', lib.snapshot(d), before)


def jobs(tier):
    J = []

    def add(h, **p):
        J.append(dict(h=h, p=p, o=dict(budget=60)))
    C = [0, 1, 0, 2]
    add('h_agg', E=4, S=2, cids=C)
    add('h_agg', E=4, S=2, cids=C, aids=[7, 3, 0, 1], keepa=[3, 1])
    add('h_agg', E=4, S=2, cids=C, aids=[3, 1, 0, 2], keepc=[2, 0])
    add('h_agg', E=4, S=2, cids=C, aids=[3, 1, 0, 2], keepc=[0], keepa=[3, 2, 1], std=None)
    add('h_agg', E=4, S=2, cids=C, keepc=[], std='list')
    add('h_agg', E=4, S=2, cids=C, keepa=[], std='list')
    add('h_agg', E=2, S=2, cids=[0, 1], keepc=[0, 1], keepa=[0, 1], form='array')
    add('h_agg', E=3, S=2, cids=[0, 1, 1], form='vec', opts=dict(quality_width=640, quality_height=480, resampling_type='bicubic'))
    add('h_agg', E=3, S=2, cids=[0, 1, 1], form='vec2', opts=dict(quality_width=640))
    add('h_agg', E=3, S=3, cids=[0, 1, 1], style='dict', R=2, opts=dict(resampling_type='lanczos', quality_width=None), std=None)
    add('h_agg', E=3, S=2, cids=[0, 1, 1], nanscore=1)
    for m in ('MosModel', 'BiasremvMosModel', 'BT500Model'):
        add('h_model', E=3, S=3, model=m, cids=[0, 1, 0], aids=[2, 0, 1], local=0.01)
    add('h_model', E=3, S=3, R=2, model='MosModel', cids=[0, 1, 0], aids=[5, 9, 4], keepa=[4, 5], missing=[[0, 0, 1]], style='dict')
    add('h_model', E=3, S=3, model='P910AnnexEModel', cids=[0, 1, 0], aids=[2, 0, 1], local=1e-4, iters=1, keepa=[1, 2])
    add('h_model', E=2, S=2, model='MosModel', cids=[0, 1], missing=[[1, 1, 0]])
    add('h_persubj', E=2, S=2)
    add('h_persubj', E=2, S=3, style='dict', missing=[[0, 1, 0], [1, 2, 0]])
    add('h_persubj', E=2, S=3, R=2, missing=[[0, 1, 0], [1, 2, 1]], style='tuple')
    add('h_persubj', E=2, S=3, R=2, style='dict', missing=[[0, 1, 0], [1, 2, 1], [1, 0, 0], [1, 0, 1]], cids=[0, 1])
    add('h_persubj', E=3, S=2, missing=[[0, 1, 0]])
    if tier == 'thorough':
        for c in ([0], [1], [2], [0, 1], [1, 2], [0, 1, 2]):
            for a in (None, [3], [3, 1], [0, 2, 3]):
                add('h_agg', E=5, S=2, cids=[0, 1, 0, 2, 1], aids=[3, 1, 0, 2, 8], keepc=c, keepa=a)
    return J
