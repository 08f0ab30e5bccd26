"""C29 subsampled statistics and validation on synthetic data"""
import os
from . import lib
from .c08 import fill
from .c09 import model_of
from .c14 import Scratch

BOUNDS = ('up to 2 dataset files of up to 4 videos, 4 subjects, 2 repetitions with missing votes, every drawn subset and order of subjects, '
          'five fractions; synthetic datasets of 3 videos and 3 subjects with symbolic parameters and noise in boxes around generic values, '
          'missing probability included, 1 to 2 models')
ASSUMPTIONS = ['a draw is a function of the latest seed, the kind of draw and its position since seeding',
               'models stop after one iteration on both sides of the comparison', 'nothing is plotted']


def write(ctx, d, p):
    from sureal.dataset_reader import RawDatasetReader
    if p.endswith('.py'):
        RawDatasetReader.write_out_dataset(d, p)
    else:
        with open(p, 'w') as fp:
            ctx.json.dump(dict(d.__dict__), fp)


def who(ctx, col, votes, S):
    """the subjects whose votes are this column"""
    out = []
    for s in range(S):
        ok = True
        for e in range(len(col)):
            for a, b in zip(col[e], votes[e][s]):
                if ctx.isnan(a) or ctx.isnan(b):
                    ok = ok and ctx.isnan(a) and ctx.isnan(b)
                elif ok and not (a == b):
                    ok = False
        if ok:
            out.append(s)
    return out


def same(ctx, tag, got, want, drop=()):
    ctx.eq(tag + ' quantities', sorted(k for k in got if k not in ('dis_video_names', 'reconstruction_stats', 'observers')),
           sorted(k for k in want if k not in drop))
    for k in want:
        if k not in drop:
            ctx.eq('%s %s' % (tag, k), lib.plain(got[k]), lib.plain(want[k]))


def h_sample(ctx, E, S, fraction, R=1, style='list', kind='py', models=('MosModel',), missing=(), seed=None, n=1, local=1e-3, wrapper=False):
    from sureal import routine
    from sureal.dataset_reader import RawDatasetReader
    ctx.exact_logs()
    ctx.replay_seeds()
    cls = [model_of(m) for m in models]
    data = []
    for i in range(n):
        f = (lambda e, s, r=0: fill(e + i, s, r)) if i else fill
        d, votes = lib.build(ctx, E, S - i, R, style, fill=f, local=local, fixed_missing=[tuple(m) for m in missing])
        data.append((d, votes, lib.snapshot(d), S - i))
    with Scratch() as w:
        sets = []
        for i, (d, _, _, _) in enumerate(data):
            p = os.path.join(w, 'ds%d.%s' % (i, kind))
            write(ctx, d, p)
            sets.append({'name': 'x%d' % i, 'path': p})

        def go():
            ctx.iterations(1)
            if wrapper:
                return routine._get_sample_stats_wrapper(sets[0], fraction, cls[0].TYPE, seed)
            kw = {} if fraction is None else dict(subj_fraction=fraction)
            if seed is not None:
                kw['random_seed'] = seed
            return routine.get_sample_stats(sets, cls, **kw)
        res = go()
        again = go() if seed is not None else None
        if wrapper:     # the same statistics without the raw votes
            ctx.iterations(1)
            full = routine.get_sample_stats(sets[:1], cls, subj_fraction=fraction, random_seed=seed)
            ctx.eq('wrapped', [len(res), len(res[0])], [1, 1])
            same(ctx, cls[0].TYPE, res[0][0], {k: v for k, v in full[0][0].items() if k not in ('dis_video_names', 'reconstruction_stats')},
                 ('raw_scores', 'reconstructions', 'observers'))
            same(ctx, 'again', again[0][0], {k: v for k, v in res[0][0].items() if k not in ('dis_video_names', 'reconstruction_stats')}, ('observers',))
            return
    ctx.eq('datasets', len(res), n)
    for i, (d, votes, before, S_) in enumerate(data):
        o = sorted(range(S_), key=lambda s: lib.NAMES[s]) if style == 'dict' else list(range(S_))
        k = S_ if fraction is None else int(fraction * S_ + 1e-9)
        ctx.eq('models', len(res[i]), len(cls))
        raw = lib.plain(res[i][0]['raw_scores'])
        ctx.eq('videos', len(raw), E)
        sel = []
        for s in range(len(raw[0])):
            m = who(ctx, [row[s] if isinstance(row[s], list) else [row[s]] for row in raw], votes, S_)
            ctx.true('votes of one subject', len(m) == 1)
            if len(m) != 1:
                return
            sel += m
        ctx.eq('number of subjects', len(sel), k)
        ctx.eq('distinct subjects', len(set(sel)), len(sel))
        if fraction is None:
            ctx.eq('all subjects', sel, o)
        sub = lib.DS()
        for a, v in before.items():
            setattr(sub, a, v)
        sub.dis_videos = [dict(v, os=[votes[e][s][0] if R == 1 else list(votes[e][s]) for s in sel]) for e, v in enumerate(before['dis_videos'])]
        for j, c in enumerate(cls):
            ctx.iterations(1)
            want = c(RawDatasetReader(sub)).run_modeling()
            same(ctx, c.TYPE, res[i][j], want, ('observers',))
            if again is not None:
                same(ctx, c.TYPE + ' again', again[i][j], {a: b for a, b in res[i][j].items() if a not in ('dis_video_names', 'reconstruction_stats')})
        ctx.eq('source', lib.snapshot(d), before)


def h_validate(ctx, E, S, models=('MosModel',), cids=None, logistic=False, seed=7, missing=None, out=False, local=1e-4, width=1.0, opts=None):
    from sureal import routine
    from sureal import dataset_reader as D
    from sureal.tools import misc
    ctx.exact_logs()
    ctx.replay_seeds()
    cids = cids or [e % 2 for e in range(E)]
    C = max(cids) + 1
    cls = [model_of(m) for m in models]
    d, _ = lib.build(ctx, E, S, cids=cids)
    R = D.SyntheticLogisticRawDatasetReader if logistic else D.SyntheticRawDatasetReader
    at = lambda n, v: ctx.num(v) + ctx.real(n, -local, local)
    par = dict(quality_scores=[at('q%d' % e, 2 + 0.5 * e * width) for e in range(E)],
               observer_bias=[at('b%d' % s, [0.3, -0.4, 0.2, 0.5][s]) for s in range(S)],
               observer_inconsistency=[at('s%d' % s, [0.5, 0.75, 0.3, 0.4][s]) for s in range(S)],
               content_bias=[at('mu%d' % c, 0) for c in range(C)], content_ambiguity=[at('de%d' % c, 0.25 + 0.125 * c) for c in range(C)],
               seed=seed)
    par = {k: misc.np.array(v) if isinstance(v, list) else v for k, v in par.items()}
    tag = 'logistic' if logistic else 'normal'
    for i in range(2 * E * S):      # noise in boxes around generic values
        ctx.box_draw('draw_%s_%s_%d' % (tag, seed, i + 1), ((7 * i * i + 3 * i) % 16) / 8 - 0.9, local)
    if missing is not None:
        for i in range(E * S):
            ctx.box_draw('draw_unit_%s_%d' % (seed, i + 1), ((5 * i + 3) % (E * S)) / (E * S) + 0.01, local)
    keep = {k: lib.plain(v) for k, v in par.items()}
    with Scratch() as w:
        p = os.path.join(w, 'ds.py')
        write(ctx, d, p)
        kw = dict(opts or {})
        if missing is not None:
            kw['missing_probability'] = missing
        q = os.path.join(w, 'out.py')
        if out:
            kw['output_synthetic_dataset_filepath'] = q
        ctx.iterations(1)
        for _ in models[1:]:
            ctx.iterations(1)
        ret = routine.validate_with_synthetic_dataset(R, cls, p, par, None, **kw)
        rd = R(d, input_dict=dict(par))
        if missing is not None:
            rd = D.MissingDataRawDatasetReader(rd.to_dataset(), input_dict=dict(missing_probability=missing, seed=seed))
        votes = lib.plain(rd.opinion_score_3darray)
        if out:
            ctx.eq('written votes', lib.plain(D.RawDatasetReader(misc.import_python_file(q)).opinion_score_3darray), votes)
            ctx.true('written to', ret['output_synthetic_dataset_filepath'] == q)
    ctx.eq('parameters kept', {k: lib.plain(v) for k, v in par.items()}, keep)
    ctx.eq('models', sorted(ret['results']), sorted(c.TYPE for c in cls))
    sub = lib.DS()
    for a, v in lib.snapshot(d).items():
        setattr(sub, a, v)
    sub.dis_videos = [dict(v, os=[votes[e][s][0] for s in range(S)]) for e, v in enumerate(sub.dis_videos)]
    for c in cls:
        ctx.iterations(1)
        want = dict(c(D.RawDatasetReader(sub)).run_modeling(**(opts or {})))
        got = dict(ret['results'][c.TYPE])
        for k in ('quality_scores', 'observer_bias', 'observer_inconsistency'):
            if k + '_ci95' in want and k in want:
                ci = lib.plain(want[k + '_ci95'])
                est = lib.plain(want[k])
                n = 0
                for x, y, l, u in zip(keep[k], est, ci[0], ci[1]):
                    if ctx.isnan(l) or ctx.isnan(u):
                        continue
                    ctx.assume_apart(x, y - l)
                    ctx.assume_apart(x, y + u)
                    n += 1 if (y - l <= x and x <= y + u) else 0
                want[k + '_ci_perc'] = ctx.num(100 * n) / len(est)
        same(ctx, c.TYPE, got, want, ('observers',))
    ctx.eq('source', len(d.dis_videos), E)


def jobs(tier):
    o = dict(timeout_ms=200, budget=150, max_paths=4000, max_terms=40)
    J = []

    def smp(nval=1, **p):
        J.append(dict(h='h_sample', p=p, o=o, nval=nval))

    def val(nval=1, **p):
        J.append(dict(h='h_validate', p=p, o=o, nval=nval))
    smp(E=3, S=3, fraction=None)
    smp(E=3, S=4, fraction=0.5, missing=[[1, 1, 0]])
    smp(E=3, S=4, fraction=0.5, seed=3, n=2)
    smp(E=3, S=4, fraction=0.74, style='dict', kind='json', models=['MosModel', 'BiasremvMosModel'], missing=[[0, 2, 0]])
    smp(E=2, S=3, fraction=1.0, R=2, seed=1)
    smp(E=3, S=3, fraction=0.67, R=2, kind='json', n=2)
    smp(E=3, S=3, fraction=0.7, models=['MosModel', 'P910AnnexEModel'], local=1e-5)
    smp(E=3, S=4, fraction=0.5, wrapper=True, seed=5)
    smp(E=3, S=3, fraction=0.7, wrapper=True, seed=0, models=['BiasremvMosModel'])
    val(E=3, S=3)
    val(E=3, S=3, models=['MosModel', 'BiasremvMosModel'], out=True)
    val(E=3, S=3, missing=0.2, out=True)
    val(E=3, S=3, models=['P910AnnexEModel'], local=1e-5)
    val(E=3, S=3, models=['P910AnnexEModel', 'MosModel'], missing=0.3, local=1e-5)
    val(E=3, S=3, logistic=True, models=['BiasremvMosModel'])
    val(E=4, S=3, width=0.2, models=['MosModel', 'P910AnnexEModel'], local=1e-5, opts=dict(force_subjbias_zeromean=False))
    if tier == 'thorough':
        o = dict(timeout_ms=1000, budget=400, max_paths=20000, max_terms=60)
        smp(E=4, S=4, fraction=0.75, R=2, style='dict', models=['MosModel', 'BiasremvMosModel', 'ZscoringMosModel'])
        val(E=4, S=4, models=['MLE_CO', 'MosModel'], local=1e-5)
    return J
