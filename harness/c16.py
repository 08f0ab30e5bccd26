"""C16 dictionary-style conversion and combination of overlapping datasets"""
import os
from . import lib
from .c14 import Scratch, extra, public

BOUNDS = ('two datasets of up to 4 videos each with every overlap pattern of paths in the listed configurations, up to 3 subjects '
          'in each, shared subjects, single votes, lists and tuples of repeated votes, both styles; symbolic votes')
ASSUMPTIONS = ['videos are matched by equal path strings']


def as_list(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]


def h_dict(ctx, E, S, R=1, style='list', missing=None, cids=None, aids=None, file=True):
    from sureal.dataset_reader import RawDatasetReader
    from sureal.tools.misc import import_python_file
    kw = dict(missing=[tuple(m) for m in missing]) if missing else {}
    d, votes = lib.build(ctx, E, S, R, style, cids=cids, asset_ids=aids, names=['n%d' % s for s in range(S)] if S > 6 else None, **kw)
    extra(d)
    before = lib.snapshot(d)
    rd = RawDatasetReader(d)
    res = [rd.to_dictionary_style_dataset()]
    if file:
        with Scratch() as w:
            p = os.path.join(w, 'dict_out.py')
            rd.to_dictionary_style_dataset_file(p)
            res.append(import_python_file(p))
    for g in res:
        ctx.eq('number of videos', len(g.dis_videos), E)
        for e in range(E):
            v, b = g.dis_videos[e], before['dis_videos'][e]
            ctx.eq('fields %d' % e, {k: x for k, x in v.items() if k != 'os'}, {k: x for k, x in b.items() if k != 'os'})
            want = b['os'] if style == 'dict' else {'test_ds_subject%d' % s: b['os'][s] for s in range(S)}
            ctx.eq('subjects %d' % e, sorted(v['os']), sorted(want))
            for k in want:
                ctx.eq('votes %d %s' % (e, k), as_list(v['os'].get(k)), as_list(want[k]))
        ctx.eq('references', g.ref_videos, before['ref_videos'])
        ctx.eq('name', g.dataset_name, before['dataset_name'])
        # the converted dataset reads as the same votes
        r2 = RawDatasetReader(g)
        a2 = r2.opinion_score_3darray
        obs = r2._get_list_observers()
        if style != 'dict':
            ctx.eq('shape', list(a2.shape), [E, S, R])
            for s in range(S):
                k = obs.index('test_ds_subject%d' % s)
                for e in range(E):
                    ctx.eq('array %d %d' % (e, s), [a2[e][k][r] for r in range(R)], votes[e][s])
    ctx.eq('source', lib.snapshot(d), before)


def h_comb(ctx, A, B, styleA='dict', styleB='dict', cidsA=None, cidsB=None, names=None, namesB=None, reps=None, same_name=False,
           opts=None, file=False, sp=None):
    """A, B: paths of the videos (letters); reps: {'A'|'B': number of votes per cell}"""
    from sureal.dataset_reader import RawDatasetReader
    from sureal.tools.misc import import_python_file
    reps = reps or {}
    names = names or ['subjA', 'subjB']
    namesB = namesB or ['subjB', 'subjC']
    D = []
    for tag, paths, style, cids, nm in (('A', A, styleA, cidsA, names), ('B', B, styleB, cidsB, namesB)):
        R = reps.get(tag, 1)
        d = lib.DS()
        d.dataset_name = 'ds' if same_name else 'ds' + tag
        d.yuv_fmt = 'yuv420p'
        d.width, d.height = 1920, 1080
        cids = cids or [0] * len(paths)
        d.ref_videos = [{'content_id': c, 'content_name': tag + 'c%d' % c, 'path': tag + 'ref%d.yuv' % c} for c in sorted(set(cids))]
        d.dis_videos = []
        for e, p in enumerate(paths):
            cells = []
            for s in range(len(nm)):
                vs = [ctx.real('v%s_%d_%d_%d' % (tag, e, s, r), 1, 5) for r in range(R)]
                cells.append(vs[0] if R == 1 else (vs if (e + s) % 2 else tuple(vs)))
            os_ = dict(zip(nm, cells)) if style == 'dict' else cells
            if style == 'dict' and sp and [tag, e] in sp:
                del os_[nm[0]]
            d.dis_videos.append({'content_id': cids[e], 'asset_id': 3 * e + (tag == 'B'), 'path': p + '.yuv', 'os': os_, 'from': tag})
        D.append(extra(d))
    before = [lib.snapshot(d) for d in D]
    r1, r2 = RawDatasetReader(D[0]), RawDatasetReader(D[1])
    res = [r1.to_combined_overlap_dataset(r2, **(opts or {}))]
    if file:
        with Scratch() as w:
            p = os.path.join(w, 'comb_out.py')
            r1.to_combined_overlap_dataset_file(p, r2, **(opts or {}))
            res.append(import_python_file(p))

    def os_of(b, v):
        if isinstance(v['os'], dict):
            return v['os']
        return {b['dataset_name'] + '_subject%d' % s: x for s, x in enumerate(v['os'])}
    want, seen = [], []
    for v in before[0]['dis_videos']:
        for u in before[1]['dis_videos']:
            if v['path'] == u['path']:
                if v['content_id'] not in seen:
                    seen.append(v['content_id'])
                w = {k: x for k, x in v.items() if k != 'os'}
                w['content_id'] = seen.index(v['content_id'])
                o1, o2 = os_of(before[0], v), os_of(before[1], u)
                w['os'] = {k: [x for o in (o1, o2) if k in o for x in as_list(o[k])] for k in set(o1) | set(o2)}
                want.append(w)
    refs = []
    for n, c in enumerate(seen):
        rv = [dict(r) for r in before[0]['ref_videos'] if r['content_id'] == c]
        rv[0]['content_id'] = n
        refs.append(rv[0])
    for g in res:
        ctx.eq('number of videos', len(g.dis_videos), len(want))
        for e, w in enumerate(want):
            v = g.dis_videos[e]
            ctx.eq('fields %d' % e, {k: x for k, x in v.items() if k != 'os'}, {k: x for k, x in w.items() if k != 'os'})
            ctx.eq('subjects %d' % e, sorted(v['os']), sorted(w['os']))
            for k in w['os']:
                ctx.eq('votes %d %s' % (e, k), as_list(v['os'].get(k)), w['os'][k])
        ctx.eq('references', g.ref_videos, refs)
    for d, b, t in zip(D, before, 'AB'):
        ctx.eq('source ' + t, lib.snapshot(d), b)
    # the result shares no mutable state with its sources
    for v in res[0].dis_videos:
        for k in v['os']:
            if isinstance(v['os'][k], list):
                v['os'][k].append(0)
        v['os']['zz'] = 1
        v['path'] = None
    for r in res[0].ref_videos:
        r['path'] = None
    for d, b, t in zip(D, before, 'AB'):
        ctx.eq('source kept ' + t, lib.snapshot(d), b)


def jobs(tier):
    o = dict(timeout_ms=300, budget=100, max_paths=6000)
    J = []

    def dic(nval=1, **p):
        J.append(dict(h='h_dict', p=p, o=o, nval=nval))

    def comb(nval=1, **p):
        J.append(dict(h='h_comb', p=p, o=o, nval=nval))
    dic(E=3, S=3, cids=[0, 1, 0], aids=[4, 0, 2])
    dic(E=2, S=12)
    dic(E=2, S=2, R=3)
    dic(E=2, S=3, R=2, style='tuple')
    dic(E=3, S=2, missing=[[0, 0, 0], [2, 1, 0]])
    dic(E=2, S=2, R=2, missing=[[0, 0, 1], [1, 1, 0]])
    dic(E=3, S=3, style='dict', missing=[[0, 0, 0]])
    dic(E=2, S=2, R=2, style='dict')
    comb(A='abc', B='cbd', cidsA=[2, 0, 1])
    comb(A='abc', B='cba', cidsA=[1, 1, 0], file=True)
    comb(A='ab', B='cd')
    comb(A='abcd', B='dbac', cidsA=[3, 1, 3, 1], cidsB=[0, 1, 2, 3])
    comb(A='ab', B='ba', reps=dict(A=2))
    comb(A='ab', B='ba', reps=dict(B=2))
    comb(A='ab', B='ba', reps=dict(A=2, B=3), namesB=['subjB', 'subjA'], file=True)
    comb(A='ab', B='ba', reps=dict(A=3, B=2), names=['subjA'], namesB=['subjA'])
    comb(A='aba', B='ab')
    comb(A='ab', B='aba')
    comb(A='abc', B='bca', styleA='list', file=True)
    comb(A='abc', B='bca', styleB='list', reps=dict(B=2))
    comb(A='abc', B='bca', styleA='list', styleB='list')
    comb(A='abc', B='bca', styleA='list', styleB='list', same_name=True, reps=dict(A=2))
    comb(A='abc', B='cab', sp=[['A', 0], ['B', 1]])
    if tier == 'thorough':
        comb(A='abcde', B='edcxab', cidsA=[4, 2, 4, 0, 2], names=['p', 'q', 'r'], namesB=['q', 'r', 's', 't'], reps=dict(A=2, B=2), file=True)
        dic(E=4, S=4, missing=True)
    return J
