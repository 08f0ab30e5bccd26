"""C17 reading paired-comparison datasets"""
import itertools
from . import lib

BOUNDS = ('up to 4 videos with every order of asset ids in the listed configurations, up to 3 subjects, every pattern of recorded '
          'pairs (one or both directions, with the sparse ones listed) and results 0, 0.5, 1')
ASSUMPTIONS = ['where both directions of a pair are recorded they agree']


def h_read(ctx, E, pairs, subjects, aids=None, perm=False, both=False, vals=3, cids=None):
    """pairs: positions (i, j) a subject may have compared; each absent/present with any result"""
    from sureal.dataset_reader import PairedCompDatasetReader
    if perm:
        left, aids = list(range(E)), []
        for e in range(E):
            aids.append(left.pop(ctx.choice('aid%d' % e, len(left))))
    aids = aids or list(range(E))
    d = lib.DS()
    d.dataset_name = 'pc'
    d.yuv_fmt, d.width, d.height, d.ref_score = 'yuv420p', 1920, 1080, 5.0
    cids = cids or [0] * E
    d.ref_videos = [{'content_id': c, 'content_name': 'c%d' % c, 'path': 'r%d' % c} for c in sorted(set(cids))]
    d.dis_videos = [{'content_id': cids[e], 'asset_id': aids[e], 'path': 'd%d' % e, 'os': {}} for e in range(E)]
    want = {}
    used = []
    opt = [0, 1, 0.5][:vals]
    for i, j in pairs:
        for s in subjects:
            k = ctx.choice('p_%d_%d_%s' % (i, j, s), vals + 1)
            if k == vals:
                continue
            v = opt[k]
            used.append(s)
            want[i, j, s] = v
            want[j, i, s] = 1 - v
            d.dis_videos[i]['os'][s, aids[j]] = v
            if both:
                d.dis_videos[j]['os'][s, aids[i]] = 1 - v
    obs = sorted(set(used))
    if not obs:
        return
    before = lib.snapshot(d)
    rd = PairedCompDatasetReader(d)
    ctx.eq('subjects', rd._get_list_observers(), obs)
    ctx.eq('number of subjects', rd.num_observers, len(obs))
    ctx.eq('number of videos', rd.num_dis_videos, E)
    for rep in range(2):
        a = rd.opinion_score_3darray
        ctx.eq('shape', list(a.shape), [E, E, len(obs)])
        for i in range(E):
            for j in range(E):
                for n, s in enumerate(obs):
                    w = want.get((i, j, s))
                    ctx.eq('result %d %d %s' % (i, j, s), a[i][j][n], ctx.nan if w is None else w)
    ctx.eq('source', lib.snapshot(d), before)


def h_chain(ctx, E, S, cids, aids, style='list', symv=None, fixed_missing=(), within=True):
    """rating dataset -> paired comparison -> reader: every comparable pair of votes sums to one"""
    from sureal.dataset_reader import RawDatasetReader, PairedCompDatasetReader
    sym = None if symv is None else set((e, s, 0) for e, s in symv)
    fm = [tuple(m) for m in fixed_missing]
    d, votes = lib.build(ctx, E, S, 1, style, cids=cids, asset_ids=aids, sym=sym, fill=lambda e, s, r: (e * 2 + s * 3) % 5 + 1,
                         fixed_missing=fm)
    pc = RawDatasetReader(d).to_pc_dataset(pc_type='within_subject' if within else 'within_subject_within_content')
    a = PairedCompDatasetReader(pc).opinion_score_3darray
    names = lib.NAMES[:S] if style == 'dict' else [str(s) for s in range(S)]
    order = sorted(range(S), key=lambda s: names[s])
    for i in range(E):
        for j in range(E):
            for n, s in enumerate(order):
                x, y = votes[i][s][0], votes[j][s][0]
                if i == j or ctx.isnan(x) or ctx.isnan(y) or not (within or cids[i] == cids[j]):
                    w = ctx.nan
                else:
                    w = 1 if x > y else (0 if x < y else 0.5)
                ctx.eq('cell %d %d %d' % (i, j, s), a[i][j][n], w)


def h_refuse(ctx, what):
    from sureal.dataset_reader import PairedCompDatasetReader
    d = lib.DS()
    d.dataset_name = 'pc'
    d.yuv_fmt, d.width, d.height, d.ref_score = 'yuv420p', 1920, 1080, 5.0
    d.ref_videos = [{'content_id': 0, 'content_name': 'c', 'path': 'r'}]
    aids = [0, 1]
    v = ctx.real('value', -1, 2)
    ok = (v == 0) or (v == 1) or (v == 0.5)
    key = ('s', 1)
    bad = False
    if what == 'value':
        bad = not ok
    else:
        ctx.assume(ok)
        if what == 'asset':
            k = ctx.choice('asset', 5)
            aids[1] = k - 1
            key = ('s', aids[1])
            bad = k - 1 not in (0, 1)
            ctx.assume(k - 1 != 0)
        elif what == 'key':
            k = ctx.choice('key', 3)
            key = [('s', 1), (5, 1), ('s', '1')][k]
            bad = k > 0
        elif what == 'list':
            bad = ctx.flag('list')
    d.dis_videos = [{'content_id': 0, 'asset_id': aids[e], 'path': 'd%d' % e, 'os': {}} for e in range(2)]
    d.dis_videos[0]['os'][key] = v
    if what == 'list' and bad:
        d.dis_videos[1]['os'] = [1]
    try:
        PairedCompDatasetReader(d).opinion_score_3darray
        refused = False
    except (AssertionError, ValueError, KeyError, TypeError):
        refused = True
    ctx.eq('refused', refused, bad)


def jobs(tier):
    o = dict(timeout_ms=300, budget=100, max_paths=20000)
    J = []

    def add(h='h_read', nval=1, **p):
        J.append(dict(h=h, p=p, o=o, nval=nval))
    P3 = [[0, 1], [0, 2], [1, 2]]
    add(E=3, pairs=P3, subjects=['s'], perm=True)
    add(E=3, pairs=[[1, 0], [0, 2], [2, 1]], subjects=['s'], perm=True, both=True)
    add(E=2, pairs=[[1, 0]], subjects=['z', 'a', 'm'], perm=True)
    add(E=4, pairs=[[0, 3], [2, 1], [3, 2]], subjects=['z'], perm=True, cids=[0, 0, 1, 1])
    add(E=3, pairs=[[0, 1], [2, 0]], subjects=['b', 'a'], aids=[2, 0, 1])
    add(E=4, pairs=[[0, 1], [2, 0], [3, 1]], subjects=['b', 'a'], aids=[2, 0, 3, 1], vals=2)
    C = dict(h='h_chain')
    add(E=3, S=1, cids=[0, 0, 0], aids=[2, 0, 1], **C)
    add(E=3, S=2, cids=[0, 1, 0], aids=[1, 2, 0], style='dict', within=False, **C)
    add(E=4, S=2, cids=[0, 1, 0, 1], aids=[3, 2, 0, 1], symv=[[0, 0], [1, 0], [3, 1]], fixed_missing=[[1, 1, 0]], **C)
    add(E=3, S=3, cids=[0, 0, 0], aids=[0, 1, 2], symv=[[0, 0], [1, 1], [2, 2]], style='dict', fixed_missing=[[0, 1, 0]], **C)
    for w in ('value', 'asset', 'key', 'list'):
        add(h='h_refuse', what=w)
    if tier == 'thorough':
        o = dict(timeout_ms=1000, budget=600, max_paths=100000)
        add(E=4, pairs=[list(p) for p in itertools.combinations(range(4), 2)], subjects=['s'], aids=[2, 0, 3, 1])
        add(E=3, S=2, cids=[0, 0, 0], aids=[2, 0, 1], **C)
        add(E=4, S=1, cids=[0, 0, 0, 0], aids=[2, 0, 1, 3], **C)
    return J
