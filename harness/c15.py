"""C15 conversion to paired comparison"""
import os
from . import lib
from .c14 import Scratch, extra, public

BOUNDS = ('up to 4 videos, 3 subjects, 2 contents, permuted and sparse asset ids, every order and tie pattern of the votes, '
          'missing votes in both dataset styles; sampling, coin-toss and noise settings (global and per asset) with symbolic '
          'rates, levels, mean scores and random draws')
ASSUMPTIONS = ['random draws are arbitrary reals of their range, taken in the order subject (first appearance), then pairs by '
               'ascending asset id, which a seeded run fixes',
               'a sampling rate above one repeats a pair; repeated pairs are checked without noise or coin toss only']


def rate_of(g, per, i, j):
    if g is not None:
        return g
    if per is not None:
        return (per[i] + per[j]) / 2
    return None


def spec(ctx, vids, o):
    """[(video, {(subject, asset id): result})] for the votes of vids"""
    nd = [0]

    def unit(k):
        nd[0] += 1
        u = ctx.real('draw_%d' % nd[0], 0, 1)
        ctx.assume_apart(u, k)
        return u

    def normal():
        nd[0] += 1
        return ctx.real('draw_%d' % nd[0], -4, 4)
    byaid = {v['asset_id']: i for i, v in enumerate(vids)}
    subj = []
    vote = {}
    for i, v in enumerate(vids):
        items = v['os'].items() if isinstance(v['os'], dict) else [(str(s), x) for s, x in enumerate(v['os'])]
        for s, x in items:
            if ctx.isnan(x):
                continue
            if s not in subj:
                subj.append(s)
            vote[s, i] = x
    out = [{} for _ in vids]
    for s in subj:
        aids = sorted(vids[i]['asset_id'] for (s2, i) in vote if s2 == s)
        for a in range(len(aids)):
            for b in range(a):
                A, B = aids[a], aids[b]
                i, j = byaid[A], byaid[B]
                if o.get('pc_type') != 'within_subject' and vids[i]['content_id'] != vids[j]['content_id']:
                    continue
                r = rate_of(o.get('sampling_rate'), o.get('per_asset_sampling_rates'), i, j)
                n = 1
                if r is not None:
                    n = 0
                    while r >= 1:
                        n += 1
                        r = r - 1
                    if r > 0 and unit(r) < r:
                        n += 1
                for _ in range(n):
                    c = rate_of(o.get('cointoss_rate'), o.get('per_asset_cointoss_rates'), i, j)
                    if c is not None and unit(c) < c:
                        win = 1 if unit(0.5) > 0.5 else -1
                    else:
                        m = o.get('per_asset_mean_scores')
                        x, y = (vote[s, i], vote[s, j]) if m is None else (m[i], m[j])
                        if o.get('noise_level') is not None:
                            x = x + normal() * o['noise_level']
                            y = y + normal() * o['noise_level']
                        elif o.get('per_asset_noise_levels') is not None:
                            x = x + normal() * o['per_asset_noise_levels'][i]
                            y = y + normal() * o['per_asset_noise_levels'][j]
                        win = 1 if x > y else (-1 if x < y else 0)
                        if win == 0 and o.get('tiebreak_method') == 'coin_toss':
                            win = 1 if unit(0.5) > 0.5 else -1
                    if win >= 0:
                        out[i][s, B] = 1 if win else 0.5
                    if win <= 0:
                        out[j][s, A] = 1 if win else 0.5
    return out


def h_pc(ctx, E, S, cids, aids, style='list', missing=None, symv=None, opts=None, symo=None, file=False, fixed_missing=()):
    from sureal.dataset_reader import RawDatasetReader
    from sureal.tools.misc import import_python_file
    kw = {}
    if missing:
        kw['missing'] = [tuple(m) for m in missing]
    sym = None if symv is None else set((e, s, 0) for e, s in symv)
    d, votes = lib.build(ctx, E, S, 1, style, cids=cids, asset_ids=aids, sym=sym, fill=lambda e, s, r: (e * 2 + s * 3) % 5 + 1,
                         fixed_missing=[tuple(m) for m in fixed_missing], **kw)
    extra(d)
    if style == 'dict':
        # a subject may also be listed with an undefined vote
        for (e, s, r) in [tuple(m) for m in fixed_missing]:
            d.dis_videos[e]['os'][lib.NAMES[s]] = ctx.nan
    before = lib.snapshot(d)
    o = dict(opts or {})
    for k, (lo, hi) in (symo or {}).items():
        if k.startswith('per_asset'):
            o[k] = [ctx.real('%s_%d' % (k, e), lo, hi) for e in range(E)]
        else:
            o[k] = ctx.real(k, lo, hi)
    given = {k: list(v) if isinstance(v, list) else v for k, v in o.items()}
    rd = RawDatasetReader(d)
    res = [rd.to_pc_dataset(**o)]
    nd = ctx.ndraw
    if 'sampling_seed' in o:
        ctx.true('seeded before any draw', any(n == 0 and a == (o['sampling_seed'],) for n, a in ctx.seed_log) and
                 len(ctx.seed_log) == 1)
    elif nd:
        ctx.true('not seeded', not ctx.seed_log)
    if file:
        with Scratch() as w:
            p = os.path.join(w, 'pc_out.py')
            rd.to_pc_dataset_file(p, **o)
            res.append(import_python_file(p))
    want = spec(ctx, before['dis_videos'], given)
    for g in res:
        ctx.eq('videos', len(g.dis_videos), E)
        for e in range(E):
            v, b = g.dis_videos[e], before['dis_videos'][e]
            for k in b:
                if k != 'os':
                    ctx.eq('field %d %s' % (e, k), v.get(k), b[k])
            ctx.eq('compared %d' % e, sorted(v['os']), sorted(want[e]))
            for k in want[e]:
                ctx.eq('result %d %s' % (e, k), v['os'].get(k), want[e][k])
        ctx.eq('references', g.ref_videos, before['ref_videos'])
        ctx.eq('name', g.dataset_name, before['dataset_name'])
        # ctx.eq('height', g.quality_height, before['quality_height'])
    ctx.eq('source', lib.snapshot(d), before)
    ctx.eq('options', {k: list(v) if isinstance(v, list) else v for k, v in o.items()}, given)


def h_noise_pc(ctx, **p):
    h_pc(ctx, **p)


def jobs(tier):
    o = dict(timeout_ms=300, budget=120, max_paths=6000)
    J = []

    def add(E=3, S=2, cids=(0, 0, 0), aids=(2, 0, 1), nval=2, **p):
        J.append(dict(h='h_pc', p=dict(E=E, S=S, cids=list(cids), aids=list(aids), **p), o=o, nval=nval))
    W = dict(pc_type='within_subject')
    add(S=1, file=False)
    add(S=1, style='dict', file=True, opts=W, cids=(0, 1, 0), symv=[[0, 0], [1, 0]])
    add(S=2, cids=(0, 1, 0), style='dict')
    add(S=2, cids=(0, 1, 0), opts=dict(pc_type='within_subject_within_content'))
    add(E=2, S=3, cids=(0, 0), aids=(7, 3), style='dict', missing=[[0, 0, 0], [1, 1, 0], [0, 2, 0]], opts=W)
    add(E=3, S=2, aids=(0, 2, 1), symv=[[0, 0], [1, 0], [2, 0]], opts=dict(pc_type='within_subject', tiebreak_method='coin_toss'))
    add(E=4, S=1, cids=(1, 0, 1, 0), aids=(3, 1, 0, 2), style='dict', missing=[[0, 0, 0], [2, 0, 0]], symv=[[0, 0], [1, 0], [3, 0]], opts=W)
    add(E=3, S=2, fixed_missing=[[0, 0, 0], [2, 1, 0]], opts=W)
    add(E=3, S=2, style='dict', fixed_missing=[[0, 0, 0], [2, 1, 0]], opts=W)
    add(E=3, S=2, fixed_missing=[[0, 0, 0]], opts=dict(pc_type='within_subject', tiebreak_method='coin_toss'), symv=[[1, 0], [2, 0]])
    # sampling
    add(S=1, symv=[], symo=dict(sampling_rate=(0, 1.5)), opts=dict(sampling_seed=5))
    add(S=1, symv=[], opts=dict(sampling_rate=2.5), aids=(5, 9, 1))
    add(S=2, symv=[], opts=dict(sampling_rate=0), aids=(5, 9, 1))
    add(S=1, symv=[], symo=dict(per_asset_sampling_rates=(0, 1)), opts=W, cids=(0, 1, 0))
    add(S=1, symv=[], symo=dict(per_asset_sampling_rates=(0, 1)), aids=(12, 3, 7), style='dict')
    add(E=4, S=1, cids=(0, 0, 0, 0), aids=(1, 3, 0, 2), symv=[], symo=dict(per_asset_sampling_rates=(0, 0.9)), fixed_missing=[[2, 0, 0]])
    # coin toss
    add(S=1, symv=[[0, 0]], symo=dict(cointoss_rate=(0, 1)))
    add(S=1, symv=[], symo=dict(per_asset_cointoss_rates=(0, 1)), aids=(12, 3, 7), style='dict')
    add(E=4, S=1, cids=(0, 0, 0, 0), aids=(1, 3, 0, 2), symv=[], symo=dict(per_asset_cointoss_rates=(0, 1)), fixed_missing=[[3, 0, 0]])
    # noise
    add(S=1, symv=[[0, 0]], symo=dict(noise_level=(0, 2)))
    add(S=1, symv=[], symo=dict(per_asset_noise_levels=(0, 2)), aids=(12, 3, 7), style='dict')
    add(E=2, S=2, cids=(0, 0), aids=(1, 0), symv=[], symo=dict(per_asset_noise_levels=(0, 2), per_asset_mean_scores=(0, 100)))
    add(E=3, S=1, aids=(1, 4, 0), symv=[], symo=dict(per_asset_mean_scores=(0, 100)), opts=W, cids=(0, 1, 1))
    # combined
    add(E=2, S=1, cids=(0, 0), aids=(1, 0), symv=[], symo=dict(sampling_rate=(0, 0.9), cointoss_rate=(0, 1), noise_level=(0, 2)),
        opts=dict(sampling_seed=0, tiebreak_method='coin_toss'))
    if tier == 'thorough':
        o = dict(timeout_ms=1000, budget=600, max_paths=60000)
        add(E=4, S=1, cids=(0, 1, 1, 0), aids=(3, 1, 0, 2), opts=W)
        add(E=3, S=2, opts=W)
        add(E=3, S=2, symv=[[0, 0], [1, 1]], symo=dict(sampling_rate=(0, 1)), opts=W)
        add(E=2, S=3, cids=(0, 0), aids=(1, 0), symv=[[0, 0]], symo=dict(sampling_rate=(0, 0.9), cointoss_rate=(0, 1)))
    return J
