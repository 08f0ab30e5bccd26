"""C28 loading and filtering dataset files"""
import itertools
import os
import sys
from . import lib
from .c08 import fill
from .c09 import model_of
from .c14 import Scratch, extra, public

BOUNDS = ('histories of up to 4 loads of 2 or 3 files of equal names with symbolic votes, any of them altered in memory in between or '
          'overwritten on disk; every subset of contents and assets of up to 4 videos, alone and together, for 4 models')
ASSUMPTIONS = ['symbolic numbers are written to files as opaque tokens']


def h_load(ctx, K, files=2, kind='py', rewrite=True):
    """any sequence of loads gives each time what is in the file"""
    from sureal.dataset_reader import RawDatasetReader
    from sureal.tools.misc import import_python_file, import_json_file
    sys.dont_write_bytecode = False     # as for a user; the files lie in a scratch directory
    load = import_python_file if kind == 'py' else import_json_file
    with Scratch() as w:
        paths, data = [], []

        def write(i, tag):
            d = lib.DS()
            d.dataset_name = 'd%d' % i
            d.yuv_fmt, d.width, d.height = 'yuv420p', 1920, 1080
            d.ref_videos = [{'content_id': 0, 'content_name': 'c', 'path': 'r%d' % i}]
            d.dis_videos = [{'content_id': 0, 'asset_id': e, 'path': 'p%d_%d' % (i, e),
                             'os': [ctx.real('v_%s_%d_%d' % (tag, e, s), 1, 5) for s in range(2)]} for e in range(2)]
            if i == 1:
                d.ref_score = 5.0
            if kind == 'py':
                RawDatasetReader.write_out_dataset(d, paths[i])
            else:
                with open(paths[i], 'w') as fp:
                    ctx.json.dump(dict(d.__dict__), fp)
            # same size and time whatever was written
            with open(paths[i], 'a') as fp:
                fp.write('\n' + ' ' * (5000 - os.path.getsize(paths[i])))
            os.utime(paths[i], (10 ** 9, 10 ** 9))
            return lib.snapshot(d)
        for i in range(files):
            os.makedirs(os.path.join(w, 's%d' % i))
            paths.append(os.path.join(w, 's%d' % i, 'ds.' + kind))
            data.append(write(i, 'a%d' % i))
        held = []
        for k in range(K):
            i = ctx.choice('file%d' % k, files)
            g = load(paths[i])
            ctx.eq('load %d' % k, public(g), data[i])
            for h, want in held:
                ctx.eq('earlier after load %d' % k, public(h), want)
            if ctx.flag('alter%d' % k):
                g.dis_videos[0]['os'][1] = 0
                g.dis_videos.pop()
                g.dataset_name = 'altered'
            held.append((g, public(g)))
            if rewrite and k < K - 1 and ctx.flag('rewrite%d' % k):
                data[i] = write(i, 'b%d' % k)


def h_filter(ctx, E, S, model='MosModel', cids=None, aids=None, style='list', local=1e-3, missing=(), ft='both'):
    from sureal.dataset_reader import RawDatasetReader
    ctx.exact_logs()
    cids = cids or [e % 2 for e in range(E)]
    aids = aids or list(range(E))
    d, votes = lib.build(ctx, E, S, 1, style, cids=cids, asset_ids=aids, fill=fill, local=local, fixed_missing=[tuple(m) for m in missing])
    before = lib.snapshot(d)
    kw = {}
    if ft in ('content', 'both'):
        kw['content_ids'] = [c for c in sorted(set(cids)) if ctx.flag('c%d' % c)]
    if ft in ('asset', 'both'):
        kw['asset_ids'] = [a for a in aids if ctx.flag('a%d' % a)]
    keep = [e for e in range(E) if ('content_ids' not in kw or cids[e] in kw['content_ids'])
            and ('asset_ids' not in kw or aids[e] in kw['asset_ids'])]
    ctx.assume(len(keep) >= 1)
    if style == 'dict':
        keys = set(k for e in keep for k in before['dis_videos'][e]['os'])
        ctx.assume(len(keys) >= 1)
    cls = model_of(model)
    if model != 'MosModel':
        ctx.assume(len(keep) >= 3)      # fewer videos leave deviations of zero
    with Scratch() as w:
        p = os.path.join(w, 'ds.py')
        RawDatasetReader.write_out_dataset(d, p)
        ctx.iterations(1)
        m = cls.from_dataset_file(p, **kw)
        got = m.run_modeling()
    sub = lib.DS()
    sub.__dict__.update(lib.snapshot(d))
    sub.dis_videos = [sub.dis_videos[e] for e in keep]
    ctx.eq('videos', [v['path'] for v in m.dataset_reader.dataset.dis_videos], [before['dis_videos'][e]['path'] for e in keep])
    ctx.iterations(1)
    want = cls(RawDatasetReader(sub)).run_modeling()
    ctx.eq('quantities', sorted(got), sorted(want))
    for k in want:
        ctx.eq(k, lib.plain(got[k]), lib.plain(want[k]))
    ctx.eq('scores', len(got['quality_scores']), len(keep))


def jobs(tier):
    o = dict(timeout_ms=200, budget=150, max_paths=6000, max_terms=40)
    J = []

    def add(h='h_filter', nval=1, **p):
        J.append(dict(h=h, p=p, o=o, nval=nval))
    add('h_load', K=3)
    add('h_load', K=3, kind='json')
    add('h_load', K=3, files=3, rewrite=False)
    add(E=4, S=3)
    add(E=4, S=3, aids=[5, 0, 9, 2], cids=[2, 0, 1, 0], ft='content')
    add(E=4, S=3, aids=[5, 0, 9, 2], cids=[2, 0, 1, 0], ft='asset', style='dict', missing=[[0, 0, 0], [2, 1, 0]])
    add(E=4, S=3, model='BiasremvMosModel', ft='asset', aids=[2, 0, 3, 1])
    add(E=4, S=3, model='P910AnnexEModel', ft='asset', local=1e-4)
    add(E=4, S=3, model='ZscoringMosModel', ft='both')
    if tier == 'thorough':
        o = dict(timeout_ms=1000, budget=600, max_paths=60000, max_terms=60)
        add('h_load', K=4)
        add('h_load', K=4, kind='json', files=3, rewrite=False)
        add(E=5, S=3, cids=[0, 1, 2, 0, 1])
        add(E=4, S=4, model='P910AnnexEModel', ft='both', local=1e-4)
    return J
