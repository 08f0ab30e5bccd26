"""C21 simulated, selected and corrupted readers"""
from . import lib

BOUNDS = ('up to 4 videos, 3 subjects, 2 repetitions, 3 contents, both dataset styles, missing votes; symbolic votes, parameters, '
          'probabilities and random draws; every choice of selected subjects/videos of the listed sizes and orders')
ASSUMPTIONS = ['random draws are arbitrary reals of their range taken in row-major order (video, subject, repetition); their '
               'distribution is the generator of numpy']


class Draws(object):
    def __init__(self, ctx, start=0):
        self.ctx, self.n = ctx, start

    def real(self, lo, hi):
        self.n += 1
        return self.ctx.real('draw_%d' % self.n, lo, hi)

    def grid(self, E, S, lo, hi):
        return [[self.real(lo, hi) for _ in range(S)] for _ in range(E)]

    def pick(self, n):
        self.n += 1
        return self.ctx.choice('draw_%d' % self.n, n)


def seeded(ctx, seed, start=0, first=0):
    if seed is None:
        ctx.true('not seeded', not ctx.seed_log[first:])
    else:
        ctx.true('seeded before drawing', [list(x[1]) for x in ctx.seed_log[first:]] == [[seed]] and ctx.seed_log[first][0] == start)


def h_synth(ctx, E, S, cids, logistic=False, ambiguity=False, seed=None, todataset=True):
    from sureal import dataset_reader as D
    from sureal.tools import misc
    d, _ = lib.build(ctx, E, 2, cids=cids)
    C = max(cids) + 1
    before = lib.snapshot(d)

    def vec(n, m, lo=0, hi=3):
        return misc.np.array([ctx.real('%s%d' % (n, i), lo, hi) for i in range(m)])
    p = dict(quality_scores=vec('q', E, 1, 5), observer_bias=vec('b', S, -2, 2), observer_inconsistency=vec('s', S),
             content_bias=vec('mu', C, -2, 2), content_ambiguity=vec('de', C))
    if ambiguity:
        p['quality_ambiguity'] = vec('ph', E)
    if seed is not None:
        p['seed'] = seed
    keep = {k: lib.plain(v) for k, v in p.items()}
    rd = (D.SyntheticLogisticRawDatasetReader if logistic else D.SyntheticRawDatasetReader)(d, input_dict=p)
    ctx.eq('subjects', rd.num_observers, S)
    a = lib.plain(rd.opinion_score_3darray)
    seeded(ctx, seed)
    dr = Draws(ctx)
    R = 8 if logistic else 4
    k = 1 / (ctx.num(3.141592653589793) / ctx.sqrt(ctx.num(3))) if logistic else 1
    want = [[keep['quality_scores'][e] + keep['observer_bias'][s] + keep['content_bias'][cids[e]] for s in range(S)] for e in range(E)]
    z = dr.grid(E, S, -R, R)
    y = dr.grid(E, S, -R, R)
    f = dr.grid(E, S, -R, R) if ambiguity else None
    for e in range(E):
        for s in range(S):
            want[e][s] = want[e][s] + z[e][s] * keep['observer_inconsistency'][s] * k + y[e][s] * keep['content_ambiguity'][cids[e]] * k
            if f:
                want[e][s] = want[e][s] + f[e][s] * keep['quality_ambiguity'][e]
    ctx.eq('votes', a, [[[want[e][s]] for s in range(S)] for e in range(E)])
    ctx.eq('draws', ctx.ndraw, dr.n)
    ctx.eq('parameters kept', {k: lib.plain(v) for k, v in p.items()}, keep)
    ctx.eq('source', lib.snapshot(d), before)


def reread(ctx, rd, d, arr, before):
    """the dataset of a reader reads back as the votes of the reader"""
    from sureal.dataset_reader import RawDatasetReader
    n = rd.to_dataset()
    ctx.eq('copied fields', [{k: v for k, v in x.items() if k != 'os'} for x in n.dis_videos],
           [{k: v for k, v in x.items() if k != 'os'} for x in before['dis_videos']])
    ctx.eq('copied references', n.ref_videos, before['ref_videos'])
    ctx.eq('copied name', n.dataset_name, before['dataset_name'])
    ctx.eq('source', lib.snapshot(d), before)
    return lib.plain(RawDatasetReader(n).opinion_score_3darray)


def order_of(style, S):
    return sorted(range(S), key=lambda s: lib.NAMES[s]) if style == 'dict' else list(range(S))


def h_missing(ctx, E, S, R=1, style='list', missing=(), seed=None, prob=None, todataset=False):
    from sureal.dataset_reader import MissingDataRawDatasetReader
    d, votes = lib.build(ctx, E, S, R, style, fixed_missing=[tuple(m) for m in missing])
    before = lib.snapshot(d)
    p = dict(missing_probability=ctx.real('p', 0, 1) if prob is None else prob)
    if seed is not None:
        p['seed'] = seed
    rd = MissingDataRawDatasetReader(d, input_dict=p)
    if todataset:
        a = reread(ctx, rd, d, None, before)
    else:
        a = lib.plain(rd.opinion_score_3darray)
    seeded(ctx, seed)
    dr = Draws(ctx)
    want = []
    for e in range(E):
        row = []
        for s in order_of(style, S):
            cell = []
            for r in range(R):
                u = dr.real(0, 1)
                ctx.assume_apart(u, p['missing_probability'])
                cell.append(votes[e][s][r] if u > p['missing_probability'] else ctx.nan)
            row.append(cell)
        want.append(row)
    ctx.eq('votes', a, want)
    ctx.eq('source', lib.snapshot(d), before)


def h_select(ctx, E, S, R=1, style='list', k=2, missing=(), model=True):
    from sureal.dataset_reader import SelectSubjectRawDatasetReader
    d, votes = lib.build(ctx, E, S, R, style, fixed_missing=[tuple(m) for m in missing])
    before = lib.snapshot(d)
    left, sel = list(range(S)), []
    for i in range(k):
        sel.append(left.pop(ctx.choice('sel%d' % i, len(left))))
    rd = SelectSubjectRawDatasetReader(d, input_dict=dict(selected_subjects=list(sel)))
    o = order_of(style, S)
    want = [[votes[e][o[s]] for s in sel] for e in range(E)]
    ctx.eq('votes', lib.plain(rd.opinion_score_3darray), want)
    ctx.eq('number of subjects', rd.num_observers, k)
    if style == 'dict':
        ctx.eq('names', rd._get_list_observers(), [lib.NAMES[o[s]] for s in sel])
    a = reread(ctx, rd, d, want, before)
    m = [max([len([1 for v in c if True]) for row in want for c in row])]
    ctx.eq('reread', a, want)
    if model:
        from sureal.subjective_model import MosModel
        r = MosModel(rd).run_modeling()
        for e in range(E):
            vs = [v for s in sel for v in votes[e][o[s]] if not ctx.isnan(v)]
            if vs:
                ctx.eq('mean %d' % e, r['quality_scores'][e], lib.mean(ctx, vs))
        if style == 'dict':
            ctx.eq('model subjects', list(r['observers']), [lib.NAMES[o[s]] for s in sel])
    ctx.eq('source', lib.snapshot(d), before)


def h_video(ctx, E, S, R=1, style='list', k=2, cids=None, aids=None, missing=()):
    from sureal.dataset_reader import SelectDisVideoRawDatasetReader
    from sureal.subjective_model import MosModel
    d, votes = lib.build(ctx, E, S, R, style, cids=cids, asset_ids=aids, fixed_missing=[tuple(m) for m in missing])
    before = lib.snapshot(d)
    left, sel = list(range(E)), []
    for i in range(k):
        sel.append(left.pop(ctx.choice('sel%d' % i, len(left))))
    rd = SelectDisVideoRawDatasetReader(d, input_dict=dict(selected_dis_videos=list(sel)))
    o = order_of(style, S)
    ctx.eq('number of videos', rd.num_dis_videos, k)
    if not (style == 'dict' and any(all(ctx.isnan(v) for e in sel for v in votes[e][s]) for s in range(S))):
        ctx.eq('votes', lib.plain(rd.opinion_score_3darray), [[votes[e][s] for s in o] for e in sel])
    ctx.eq('contents', list(rd.content_id_of_dis_videos), [before['dis_videos'][e]['content_id'] for e in sel])
    ctx.eq('paths', [v['path'] for v in rd.dis_videos], [before['dis_videos'][e]['path'] for e in sel])
    r = MosModel(rd).run_modeling()
    for i, e in enumerate(sel):
        ctx.eq('mean %d' % i, r['quality_scores'][i], lib.mean(ctx, [v for s in range(S) for v in votes[e][s] if not ctx.isnan(v)]))
    ctx.eq('source', lib.snapshot(d), before)


def extremes(ctx, votes):
    xs = [v for row in votes for c in row for v in c if not ctx.isnan(v)]
    lo = hi = xs[0]
    for x in xs[1:]:
        if x < lo:
            lo = x
        elif x > hi:
            hi = x
    return lo, hi


def h_corrupt(ctx, E, S, how, sel, R=1, style='list', prob=None, missing=(), fillv=False, symv=None, todataset=False):
    from sureal.dataset_reader import CorruptSubjectRawDatasetReader
    sym = None if symv is None else set(tuple(v) for v in symv)
    d, votes = lib.build(ctx, E, S, R, style, fixed_missing=[tuple(m) for m in missing], sym=sym,
                         fill=lambda e, s, r: (e * 2 + s * 3 + r) % 5 + 1)
    before = lib.snapshot(d)
    p = dict(selected_subjects=list(sel))
    if how is not None:
        p['corrupt_behavior'] = how
    if prob:
        p['corrupt_probability'] = ctx.real('p', 0, 1) if prob is True else prob
    rd = CorruptSubjectRawDatasetReader(d, input_dict=p)
    a = reread(ctx, rd, d, None, before) if todataset else lib.plain(rd.opinion_score_3darray)
    o = order_of(style, S)
    want = [[list(votes[e][s]) for s in o] for e in range(E)]
    lo = hi = None
    if how not in (None, 'shuffle'):
        lo, hi = extremes(ctx, votes)
    dr = Draws(ctx)
    for s in sel:
        const = None
        if how == 'constant':
            const = lo + dr.real(0, 1) * (hi - lo)
        vids = list(range(E))
        if prob:
            vids = []
            for e in range(E):
                u = dr.real(0, 1)
                ctx.assume_apart(u, p['corrupt_probability'])
                if u < p['corrupt_probability']:
                    vids.append(e)
        if how in (None, 'shuffle'):
            # some rearrangement of the subject's own rows, every draw pattern a permutation
            got = [a[e][s] for e in vids]
            pool = [want[e][s] for e in vids]
            for i, g in enumerate(got):
                hit = [n for n, q in enumerate(pool) if ctx.identical(list(g), list(q))]
                ctx.true('row %d of subject %d is one of its own' % (i, s), bool(hit))
                if hit:
                    pool.pop(hit[0])
            for e in vids:
                want[e][s] = a[e][s]
            dr.n += max(0, len(vids) - 1)
        else:
            for e in vids:
                for r in range(R):
                    v = want[e][s][r]
                    if ctx.isnan(v) and how != 'flip':
                        v = a[e][s][r]          # what a missing vote becomes is left open
                    elif how == 'flip':
                        v = lo + hi - v
                    else:
                        v = dict(min=lo, max=hi, mid=(lo + hi) / 2 if how == 'mid' else None, constant=const)[how]
                    want[e][s][r] = v
    ctx.eq('votes', a, want)
    ctx.eq('source', lib.snapshot(d), before)


def h_noise(ctx, E, S, R=1, style='list', prob=None, missing=(), ref=5.0):
    from sureal.dataset_reader import CorruptDataRawDatasetReader
    d, votes = lib.build(ctx, E, S, R, style, fixed_missing=[tuple(m) for m in missing], ref_score=ref)
    before = lib.snapshot(d)
    p = dict(corrupt_probability=ctx.real('p', 0, 1) if prob is None else prob)
    a = lib.plain(CorruptDataRawDatasetReader(d, input_dict=p).opinion_score_3darray)
    o = order_of(style, S)
    dr = Draws(ctx)
    bad = []
    for e in range(E):
        for i in range(S):
            for r in range(R):
                u = dr.real(0, 1)
                ctx.assume_apart(u, p['corrupt_probability'])
                if u < p['corrupt_probability']:
                    bad.append((e, i, r))
    want = [[list(votes[e][s]) for s in o] for e in range(E)]
    for e, i, r in bad:
        want[e][i][r] = 1 + dr.real(0, 1) * (ref - 1)
    ctx.eq('votes', a, want)
    ctx.eq('source', lib.snapshot(d), before)


def jobs(tier):
    o = dict(timeout_ms=200, budget=100, max_paths=20000)
    J = []

    def add(h, nval=1, **p):
        J.append(dict(h=h, p=p, o=o, nval=nval))
    add('h_synth', E=3, S=2, cids=[1, 0, 1])
    add('h_synth', E=4, S=3, cids=[2, 0, 1, 2], ambiguity=True, seed=7)
    add('h_synth', E=3, S=3, cids=[0, 0, 1], logistic=True)
    add('h_synth', E=3, S=2, cids=[1, 0, 0], logistic=True, seed=3)
    add('h_synth', E=2, S=2, cids=[0, 0], seed=0)
    add('h_missing', E=2, S=3)
    add('h_missing', E=2, S=2, R=2, seed=3)
    add('h_missing', E=2, S=2, style='dict', missing=[[0, 1, 0]], seed=0)
    add('h_missing', E=2, S=2, R=2, style='dict', prob=0.3, todataset=True)
    add('h_missing', E=2, S=2, todataset=True)
    add('h_select', E=2, S=3, k=2)
    add('h_select', E=3, S=3, k=2, style='dict', missing=[[0, 1, 0]])
    add('h_select', E=2, S=3, k=3, style='dict')
    add('h_select', E=2, S=3, k=2, R=2)
    add('h_select', E=2, S=4, k=1, R=2, style='tuple', missing=[[0, 0, 1]])
    add('h_select', E=2, S=3, k=2, R=2, style='dict', missing=[[0, 0, 1], [1, 1, 1]])
    add('h_video', E=3, S=2, k=2, aids=[2, 0, 1], cids=[0, 1, 0])
    add('h_video', E=4, S=2, k=3, aids=[9, 4, 7, 1], cids=[0, 1, 1, 0], style='dict')
    add('h_video', E=3, S=2, R=2, k=1, missing=[[0, 0, 1]])
    for how in (None, 'shuffle', 'flip', 'min', 'mid', 'max', 'constant'):
        add('h_corrupt', E=2, S=3, how=how, sel=[2, 0], symv=[[0, 0, 0], [1, 0, 0], [1, 1, 0]])
        add('h_corrupt', E=3, S=2, how=how, sel=[1], prob=True, symv=[[0, 0, 0], [1, 1, 0]])
        add('h_corrupt', E=2, S=3, R=2, how=how, sel=[0, 1], prob=0.6, style='dict', missing=[[0, 1, 1]], symv=[[0, 2, 0], [1, 0, 1]])
    add('h_corrupt', E=3, S=3, how='shuffle', sel=[1, 2])
    add('h_corrupt', E=2, S=3, how='flip', sel=[1], todataset=True, R=2, symv=[[0, 0, 0], [1, 1, 1]])
    add('h_noise', E=2, S=2)
    add('h_noise', E=2, S=1, R=2, ref=9.0)
    add('h_noise', E=2, S=2, style='dict', missing=[[1, 0, 0]], prob=0.4)
    if tier == 'thorough':
        o = dict(timeout_ms=1000, budget=500, max_paths=60000)
        add('h_missing', E=3, S=3)
        add('h_select', E=3, S=5, k=3)
        add('h_video', E=5, S=2, k=3)
        for how in ('flip', 'min', 'mid', 'max', 'constant'):
            add('h_corrupt', E=2, S=3, how=how, sel=[2, 0], prob=True)
    return J
