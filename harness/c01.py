"""C01 raw dataset reading fidelity"""
from . import lib

BOUNDS = ('votes: arbitrary reals in [-2,10]; grids up to 3 videos x 3 subjects x 2 repetitions with every '
          'presence/cell-kind pattern symbolic (2x2 full, 3x2/2x3 partially), plus a 12x12 and a 6x5x3 grid with all '
          'votes symbolic and fixed pattern; list, tuple and dict styles')
ASSUMPTIONS = ['dataset objects follow the documented format (ref_videos/dis_videos, unique subject keys)']


def cell(ctx, name, kinds):
    """one vote cell: kind is symbolic"""
    k = ctx.choice('kind_' + name, kinds)
    a = ctx.real(name + '_0', -2, 10)
    b = ctx.real(name + '_1', -2, 10)
    return {'none': (None, []), 's': (a, [a]), 'l1': ([a], [a]), 'l2': ([a, b], [a, b]),
            't2': ((a, b), [a, b]), 'nan': (float('nan'), [ctx.nan]), 'ln': ([float('nan'), b], [ctx.nan, b])}[k]


def h_cells(ctx, E, S, style, kinds):
    from sureal.dataset_reader import RawDatasetReader
    d = lib.DS()
    d.dataset_name = 'x'
    d.ref_videos = [{'content_id': 0, 'path': 'r0'}, {'content_id': 1, 'path': 'r1'}]
    d.dis_videos = []
    exp = []
    for e in range(E):
        os_ = {} if style == 'dict' else []
        row = {}
        for s in range(S):
            raw, vs = cell(ctx, 'c%d_%d' % (e, s), kinds)
            if style == 'dict':
                if raw is not None:
                    os_[lib.NAMES[s]] = raw
                    row[lib.NAMES[s]] = vs
            else:
                os_.append(raw)
                row[s] = vs
        d.dis_videos.append({'content_id': e % 2, 'asset_id': 7 - e, 'path': 'p%d' % e,
                             'os': tuple(os_) if style == 'tuple' else os_})
        exp.append(row)
    if style == 'dict':
        obs = sorted(set(n for row in exp for n in row))
    else:
        obs = list(range(S))
    R = max([1] + [len(v) for row in exp for v in row.values()])
    want = [[[(row[o][r] if o in row and r < len(row[o]) else ctx.nan) for r in range(R)]
             for o in obs] for row in exp]
    before = lib.snapshot(d)
    rd = RawDatasetReader(d)
    got = rd.opinion_score_3darray
    ctx.eq('shape', list(got.shape), [E, len(obs), R])
    ctx.eq('scores', got, want)
    ctx.eq('observers', rd.num_observers, len(obs))
    if style == 'dict':
        from sureal.subjective_model import MosModel
    ctx.eq('unchanged', lib.snapshot(d), before)
    got[...] = 0.0
    ctx.eq('reread', rd.opinion_score_3darray, want)


def h_grid(ctx, E, S, R, style):
    """large all-symbolic grid, fixed pattern of missing votes"""
    from sureal.dataset_reader import RawDatasetReader
    miss = set((e, s, r) for e in range(E) for s in range(S) for r in range(R) if style == 'dict' and R == 1 and (3 * e + 5 * s) % 7 == 0)
    names = ['s%02d' % ((5 * k) % S if S % 5 else (3 * k) % S) for k in range(S)]
    d, votes = lib.build(ctx, E, S, R, style, names=names, fixed_missing=miss, lo=-2, hi=10)
    rd = RawDatasetReader(d)
    got = rd.opinion_score_3darray
    order = sorted(range(S), key=lambda k: names[k]) if style == 'dict' else list(range(S))
    ctx.eq('scores', got, [[votes[e][s] for s in order] for e in range(E)])
    ctx.eq('counts', [rd.num_dis_videos, rd.num_observers, rd.max_repetitions, rd.num_ref_videos], [E, S, R, 1])


def h_observers(ctx, E, S):
    """result lists the observers in score-column order (dict style)"""
    from sureal.dataset_reader import RawDatasetReader
    from sureal.subjective_model import PerSubjectModel
    d, votes = lib.build(ctx, E, S, 1, 'dict', missing=True)
    present = [s for s in range(S) if any(not ctx.isnan(votes[e][s][0]) for e in range(E))]
    ctx.assume(len(present) > 0)
    order = sorted(present, key=lambda s: lib.NAMES[s])
    m = PerSubjectModel(RawDatasetReader(d))
    res = m.run_modeling()
    ctx.eq('observers', list(res['observers']), [lib.NAMES[s] for s in order])
    ctx.eq('columns', res['quality_scores'], [[votes[e][s] for s in order] for e in range(E)])


def h_video_metadata(ctx, E):
    """content ids, reference-video flags and ref score follow the dataset, in dataset order"""
    from sureal.dataset_reader import RawDatasetReader
    cids = [ctx.choice('cid%d' % e, 2) for e in range(E)]
    isref = [ctx.flag('isref%d' % e) for e in range(E)]
    has = ctx.flag('has_ref_score')
    q = ctx.real('ref_score', 0, 100)
    d, votes = lib.build(ctx, E, 2, 1, 'list', cids=cids, ref_score=q if has else None)
    d.ref_videos = [{'content_id': 1, 'path': 'B'}, {'content_id': 0, 'path': 'A'}]
    for e in range(E):
        d.dis_videos[e]['path'] = {0: 'A', 1: 'B'}[cids[e]] if isref[e] else 'dis%d' % e
    rd = RawDatasetReader(d)
    ctx.eq('content', list(rd.content_id_of_dis_videos), cids)
    ctx.eq('isref', list(rd.disvideo_is_refvideo), isref)
    ctx.eq('ref_score', rd.ref_score, q if has else None)
    ctx.eq('maxcid', rd.max_content_id_of_ref_videos, 1)


def jobs(tier):
    J = []
    K3 = ['none', 's', 'l2']
    J.append(dict(h='h_cells', p=dict(E=2, S=2, style='dict', kinds=['none', 's', 'l1', 't2'])))
    J.append(dict(h='h_cells', p=dict(E=2, S=2, style='list', kinds=['s', 'nan', 'l2', 'ln'])))
    J.append(dict(h='h_cells', p=dict(E=2, S=2, style='tuple', kinds=['s', 'l1', 't2'])))
    J.append(dict(h='h_cells', p=dict(E=1, S=3, style='dict', kinds=K3)))
    J.append(dict(h='h_cells', p=dict(E=3, S=2, style='dict', kinds=['none', 's'])))
    J.append(dict(h='h_cells', p=dict(E=2, S=3, style='dict', kinds=['none', 's'])))
    J.append(dict(h='h_grid', p=dict(E=12, S=12, R=1, style='list')))
    J.append(dict(h='h_grid', p=dict(E=11, S=12, R=1, style='dict')))
    J.append(dict(h='h_grid', p=dict(E=6, S=5, R=3, style='tuple')))
    J.append(dict(h='h_grid', p=dict(E=5, S=6, R=3, style='dict')))
    J.append(dict(h='h_observers', p=dict(E=2, S=3)))
    J.append(dict(h='h_video_metadata', p=dict(E=3)))
    if tier == 'thorough':
        J.append(dict(h='h_cells', p=dict(E=2, S=2, style='dict', kinds=['none', 's', 'l1', 'l2', 't2', 'ln'])))
        J.append(dict(h='h_cells', p=dict(E=3, S=2, style='dict', kinds=K3), o=dict(budget=300)))
        J.append(dict(h='h_cells', p=dict(E=2, S=3, style='dict', kinds=K3), o=dict(budget=300)))
        J.append(dict(h='h_cells', p=dict(E=2, S=3, style='list', kinds=['s', 'nan', 'l2']), o=dict(budget=300)))
        J.append(dict(h='h_cells', p=dict(E=3, S=3, style='dict', kinds=['none', 's']), o=dict(budget=300)))
        J.append(dict(h='h_grid', p=dict(E=20, S=24, R=1, style='dict')))
        J.append(dict(h='h_grid', p=dict(E=8, S=9, R=4, style='dict')))
        J.append(dict(h='h_observers', p=dict(E=3, S=3), o=dict(budget=200)))
        J.append(dict(h='h_video_metadata', p=dict(E=5), o=dict(budget=200)))
    return J
