"""C25 command line and model lookup"""
import os
import sys
from . import lib
from .c08 import fill
from .c14 import Scratch
from .c20 import expect, same_tables

BOUNDS = ('every model name and every pair of a rating and a paired-comparison model; datasets of up to 4 videos and 4 subjects with symbolic '
          'votes in boxes around a generic pattern, missing and repeated votes, both styles and file formats, one to three models; '
          'paired-comparison datasets of 3 videos with symbolic results')
ASSUMPTIONS = ['every video of a paired-comparison dataset has won at least half a comparison (otherwise no estimate exists)', 'plots are not requested', 'models stop after one iteration on both sides of the comparison']

NAMES = {'MOS': 'MosModel', 'DMOS': 'DmosModel', 'LIVE_DMOS': 'LiveDmosModel', 'LS': 'LeastSquaresModel',
         'MLE': 'MaximumLikelihoodEstimationModel', 'MLE_CO': 'MaximumLikelihoodEstimationModelContentOblivious',
         'MLE_SO': 'MaximumLikelihoodEstimationModelSubjectOblivious', 'SR_MOS': 'SubjrejMosModel',
         'SR_MOS_PCC': 'SubjrejMosModelPearson', 'SR_MOS_SRCC': 'SubjrejMosModelSpearman', 'ZS_MOS': 'ZscoringMosModel',
         'ZS_SR_MOS': 'ZscoringSubjrejMosModel', 'SR_DMOS': 'SubjrejDmosModel', 'ZS_SR_DMOS': 'ZscoringSubjrejDmosModel',
         'BR_MOS': 'BiasremvMosModel', 'BR_SR_MOS': 'BiasremvSubjrejMosModel', 'PERSUBJECT': 'PerSubjectModel',
         'DMOS_MLE': 'MaximumLikelihoodEstimationDmosModel', 'Subject_MLE_Projection2': 'SubjectMLEModelProjectionSolver2',
         'Subject_MLE_Projection': 'SubjectMLEModelProjectionSolver'}
PC = {'BT_NR': 'BradleyTerryNewtonRaphsonPairedCompSubjectiveModel', 'BT_MLE': 'BradleyTerryMlePairedCompSubjectiveModel',
      'THURSTONE_MLE': 'ThurstoneMlePairedCompSubjectiveModel'}
# the recommendations and the models they stand for
ALIAS = {'P910': 'Subject_MLE_Projection2', 'P913': 'BR_SR_MOS', 'BT500': 'SR_MOS'}


def cls_of(t):
    from sureal import subjective_model as sm
    from sureal import pc_subjective_model as pm
    t = ALIAS.get(t, t)
    return getattr(sm, NAMES[t]) if t in NAMES else getattr(pm, PC[t])


def h_lookup(ctx):
    from sureal.subjective_model import SubjectiveModel
    from sureal.pc_subjective_model import PairedCompSubjectiveModel
    import sureal.routine   # noqa
    import sureal
    known = sorted(NAMES) + sorted(PC) + sorted(ALIAS)
    unknown = ['', 'mos', 'MOS ', 'P911', 'SubjectiveModel']
    t = ctx.choice('name', len(known) + len(unknown))
    t = (known + unknown)[t]
    try:
        c = SubjectiveModel.find_subclass(t)
    except AssertionError:
        c = None
    ctx.eq('found', c is not None, t in known)
    if c is not None:
        ctx.eq('type', c.TYPE, t)
        ctx.true('right model', issubclass(c, cls_of(t)))
        ctx.eq('paired comparison', issubclass(c, PairedCompSubjectiveModel), t in PC)
    # names are unique over all models
    ts = [s.TYPE for s in SubjectiveModel.get_subclasses_recursively() if isinstance(getattr(s, 'TYPE', None), str)]
    ctx.eq('unique', [x for x in ts if x in known and ts.count(x) > 1], [])


def call(argv):
    """main with these arguments -> what it printed"""
    import sureal.__main__ as m
    printed = []
    old = sys.argv
    sys.argv = ['sureal'] + argv
    m.print = lambda *a, **k: printed.append(' '.join(str(x) for x in a))
    try:
        ret = m.main()
    finally:
        sys.argv = old
        del m.print
    return ret, '\n'.join(printed)


def h_main(ctx, E, S, R=1, style='list', kind='py', models=('MOS',), cids=None, missing=(), local=1e-3, out='dir', aids=None):
    from sureal.dataset_reader import RawDatasetReader
    ctx.exact_logs()
    d, votes = lib.build(ctx, E, S, R, style, cids=cids, asset_ids=aids, fill=fill, local=local, fixed_missing=[tuple(m) for m in missing])
    before = lib.snapshot(d)
    single = []
    for t in models:
        ctx.iterations(1)
        single.append(cls_of(t)(RawDatasetReader(d)).run_modeling())
    with Scratch() as w:
        p = os.path.join(w, 'ds.' + kind)
        if kind == 'py':
            RawDatasetReader.write_out_dataset(d, p)
        else:
            with open(p, 'w') as fp:
                ctx.json.dump({k: v for k, v in d.__dict__.items()}, fp)
        ctx.iterations(1)
        o = os.path.join(w, 'a', 'b')
        ret, text = call(['--dataset', p, '--models'] + list(models) + (['--output-dir', o] if out == 'dir' else []))
        if out == 'dir':
            ctx.eq('files', sorted(os.listdir(o)), ['output.json'])
            with open(os.path.join(o, 'output.json')) as fp:
                got = ctx.json.load(fp)
        else:
            got = ctx.json.loads(text)
            ctx.eq('nothing written', sorted(x for x in os.listdir(w) if x != '__pycache__'), ['ds.' + kind])
    ctx.eq('exit code', ret, 0)
    names = sorted(lib.NAMES[:S]) if style == 'dict' else list(single[0].get('observers', ['observer%d' % s for s in range(S)]))
    want = expect([{k: lib.plain(v) for k, v in s.items()} for s in single], list(models),
                  [v['path'] for v in before['dis_videos']], names, [v['content_name'] for v in before['ref_videos']])
    same_tables(ctx, got, want)


def pcds(ctx, aids, pairs, subjects, vals):
    d = lib.DS()
    d.dataset_name = 'pc'
    d.yuv_fmt, d.width, d.height, d.ref_score = 'yuv420p', 1920, 1080, 5.0
    d.ref_videos = [{'content_id': 0, 'content_name': 'c0', 'path': 'r0'}]
    d.dis_videos = [{'content_id': 0, 'asset_id': a, 'path': 'd%d' % e, 'os': {}} for e, a in enumerate(aids)]
    for s in subjects:
        for i, j in pairs:
            v = 0.5 if s == 'tie' else [0.5, 1, 0][ctx.choice('r_%s_%d_%d' % (s, i, j), vals)]
            d.dis_videos[i]['os'][s, aids[j]] = v
            d.dis_videos[j]['os'][s, aids[i]] = 1 - v
    return d


def h_pc(ctx, aids, pairs, subjects, models=('BT_MLE',), vals=2, kind='py'):
    from sureal.dataset_reader import PairedCompDatasetReader
    d = pcds(ctx, aids, pairs, subjects, vals)
    single = []
    for t in models:
        ctx.iterations(1)
        single.append(cls_of(t)(PairedCompDatasetReader(d)).run_modeling())
    with Scratch() as w:
        p = os.path.join(w, 'ds.' + kind)
        PairedCompDatasetReader.write_out_dataset(d, p)
        ctx.iterations(1)
        ret, text = call(['--dataset', p, '--models'] + list(models) + ['--output-dir', w])
        with open(os.path.join(w, 'output.json')) as fp:
            got = ctx.json.load(fp)
    want = expect([{k: lib.plain(v) for k, v in s.items()} for s in single], list(models),
                  ['d%d' % e for e in range(len(aids))], [], ['c0'])
    ctx.eq('tables', sorted(got), sorted(want))
    ctx.eq('rows', len(got['dis_videos']), len(aids))
    for e in range(len(aids)):
        ctx.eq('row %d' % e, lib.plain(got['dis_videos'][e]), want['dis_videos'][e])


def h_mixed(ctx):
    from sureal.dataset_reader import RawDatasetReader
    a = ctx.choice('a', len(NAMES) + len(ALIAS))
    b = ctx.choice('b', len(PC))
    ms = [(sorted(NAMES) + sorted(ALIAS))[a], sorted(PC)[b]]
    if ctx.flag('swap'):
        ms.reverse()
    d, votes = lib.build(ctx, 3, 3, 1, 'list', fill=fill, local=1e-3)
    with Scratch() as w:
        p = os.path.join(w, 'ds.py')
        RawDatasetReader.write_out_dataset(d, p)
        o = os.path.join(w, 'o')
        try:
            call(['--dataset', p, '--models'] + ms + ['--output-dir', o])
            bad = False
        except (AssertionError, SystemExit):
            bad = True
        ctx.true('refused', bad)
        ctx.true('nothing written', not os.path.exists(os.path.join(o, 'output.json')))


def jobs(tier):
    o = dict(timeout_ms=200, budget=150, max_paths=4000, max_terms=40)
    J = [dict(h='h_lookup', p={}, o=o, nval=1), dict(h='h_mixed', p={}, o=o, nval=1)]

    def add(h='h_main', nval=1, **p):
        J.append(dict(h=h, p=p, o=o, nval=nval))
    add(E=3, S=3, models=['MOS'], missing=[[1, 1, 0]])
    add(E=3, S=3, models=['MOS', 'BR_MOS'], out='print')
    add(E=3, S=3, models=['P910'], local=1e-4, kind='json', style='dict', missing=[[0, 0, 0]])
    add(E=4, S=4, models=['P913', 'BT500', 'MOS'], local=1e-4)
    add(E=3, S=2, R=2, models=['BR_MOS'], kind='json', cids=[1, 0, 1], missing=[[0, 1, 1]])
    add(E=4, S=3, models=['MLE'], local=1e-5, cids=[0, 1, 0, 1])
    add(E=3, S=3, models=['ZS_MOS', 'BT500'], style='dict', aids=[2, 0, 1])
    add(h='h_pc', aids=[2, 0, 1], pairs=[[0, 1], [1, 2], [2, 0]], subjects=['s', 'tie'], vals=3)
    add(h='h_pc', aids=[0, 1, 2], pairs=[[0, 1], [1, 2], [2, 0]], subjects=['tie', 's'], models=['BT_NR'], vals=2)
    if tier == 'thorough':
        o = dict(timeout_ms=1000, budget=600, max_paths=20000, max_terms=60)
        add(E=4, S=4, R=2, models=['P910', 'MOS'], local=1e-4, missing=[[0, 0, 0], [2, 1, 1]], out='print')
        add(E=5, S=4, models=['MLE_CO', 'BR_MOS'], local=1e-5)
        add(h='h_pc', aids=[1, 0, 2], pairs=[[0, 1], [1, 2], [2, 0]], subjects=['s', 'tie', 't'], models=['BT_MLE', 'BT_NR'], vals=2)
    return J
