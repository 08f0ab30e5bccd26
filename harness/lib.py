"""Shared dataset builders and reference formulas (specs) for the harnesses.
Everything here works on plain numbers and on symbolic reals alike."""
import itertools


class DS(object):
    """a dataset module stand-in"""
    pass


NAMES = ['subjC', 'subjA', 'subjD', 'subjB', 'subjF', 'subjE']


def build(ctx, E, S, R=1, style='list', missing=False, cids=None, lo=1, hi=5, ref_score=5.0,
          asset_ids=None, refs=None, sym=None, fill=None, names=None, fixed_missing=(), local=None):
    """dataset with symbolic votes.
    style: list | tuple | dict ; R>1: every cell is a list of R votes
    missing: True - each vote may be missing (symbolic flag);
    local: symbolic votes range over fill(e,s,r) +- local
    sym: set of (e,s,r) that are symbolic, the others come from fill(e,s,r)
    refs: dict content -> index of the dis video that is its reference
    returns (dataset, votes) with votes[e][s] = list of R values (nan: missing)"""
    cids = cids or [0] * E
    asset_ids = asset_ids or list(range(E))
    names = names or NAMES[:S]
    refs = refs or {}
    d = DS()
    d.dataset_name = 'test_ds'
    d.yuv_fmt = 'yuv420p'
    d.width, d.height = 1920, 1080
    if ref_score is not None:
        d.ref_score = ref_score
    C = max(cids) + 1
    d.ref_videos = [{'content_id': c, 'content_name': 'c%d' % c, 'path': 'ref_%d.yuv' % c} for c in range(C)]
    d.dis_videos = []
    votes = []
    for e in range(E):
        row = []
        cell = []
        for s in range(S):
            vs = []
            for r in range(R):
                if (e, s, r) in fixed_missing:
                    vs.append(ctx.nan)
                    continue
                if missing and (missing is True or (e, s, r) in missing) and ctx.flag('miss_%d_%d_%d' % (e, s, r)):
                    vs.append(ctx.nan)
                elif local is not None and (sym is None or (e, s, r) in sym):
                    vs.append(ctx.num(fill(e, s, r)) + ctx.real('t_%d_%d_%d' % (e, s, r), -local, local))
                elif sym is None or (e, s, r) in sym:
                    vs.append(ctx.real('v_%d_%d_%d' % (e, s, r), lo, hi))
                else:
                    vs.append(ctx.num(fill(e, s, r)))
            row.append(vs)
        votes.append(row)
        if style == 'dict':
            os_ = {}
            for s in range(S):
                got = [v for v in row[s] if not ctx.isnan(v)]
                if not got:
                    continue
                os_[names[s]] = got[0] if R == 1 else (list(row[s]) if s % 2 == 0 else tuple(row[s]))
        else:
            os_ = [row[s][0] if R == 1 else (list(row[s]) if s % 2 == 0 else tuple(row[s])) for s in range(S)]
            if style == 'tuple':
                os_ = tuple(os_)
        path = 'ref_%d.yuv' % cids[e] if refs.get(cids[e]) == e else 'dis_%d.yuv' % e
        d.dis_videos.append({'content_id': cids[e], 'asset_id': asset_ids[e], 'path': path, 'os': os_})
    return d, votes


def snapshot(d):
    import copy
    return {k: copy.deepcopy(v) for k, v in d.__dict__.items() if not k.startswith('__')}


def flat(ctx, cell_lists):
    """all available votes of a list of cells"""
    return [v for c in cell_lists for v in c if not ctx.isnan(v)]


def mean(ctx, xs):
    if not xs:
        return ctx.nan
    t = ctx.num(0)
    for x in xs:
        t = t + x
    return t / len(xs)


def var(ctx, xs, ddof=0):
    n = len(xs)
    if n - ddof <= 0:
        return ctx.nan
    m = mean(ctx, xs)
    t = ctx.num(0)
    for x in xs:
        t = t + (x - m) * (x - m)
    return t / (n - ddof)


def std(ctx, xs, ddof=0):
    v = var(ctx, xs, ddof)
    return v if ctx.isnan(v) else ctx.sqrt(v)


def spread_all(ctx, votes, axis='e'):
    """assume the sample variance of every video / subject is positive"""
    E, S = len(votes), len(votes[0])
    if axis == 'e':
        for e in range(E):
            xs = flat(ctx, votes[e])
            if len(xs) > 1:
                ctx.assume_pos(var(ctx, xs))
    else:
        for s in range(S):
            xs = flat(ctx, [votes[e][s] for e in range(E)])
            if len(xs) > 1:
                ctx.assume_pos(var(ctx, xs))


def generic(e, s, r=0):
    """deterministic 'ordinary looking' votes"""
    return [3, 4, 2, 5, 1, 4, 3, 2, 5, 3, 1, 4, 2][(7 * e + 3 * s + 5 * r + e * s) % 13]


def generic_f(e, s, r=0):
    return 1 + ((37 * e + 23 * s + 11 * r + 7 * e * s + 3 * s * s) % 41) / 10.25


# --------------------------------------------------------------- reference preprocessing
def dscore(ctx, votes, ref_of, ref_score):
    m = [mean(ctx, flat(ctx, row)) for row in votes]
    return [[[v + ref_score - m[ref_of[e]] for v in c] for c in row] for e, row in enumerate(votes)]


def zscore(ctx, votes):
    E, S = len(votes), len(votes[0])
    per = [flat(ctx, [votes[e][s] for e in range(E)]) for s in range(S)]
    mu = [mean(ctx, p) for p in per]
    sd = [std(ctx, p, 1) for p in per]
    return [[[(v - mu[s]) / sd[s] for v in votes[e][s]] for s in range(S)] for e in range(E)]


def bias(ctx, votes):
    E, S = len(votes), len(votes[0])
    m = [mean(ctx, flat(ctx, row)) for row in votes]
    return [mean(ctx, [v - m[e] for e in range(E) for v in votes[e][s] if not ctx.isnan(v)]) for s in range(S)]


def debias(ctx, votes):
    b = bias(ctx, votes)
    return [[[v - b[s] for v in c] for s, c in enumerate(row)] for row in votes], b


def subset(votes, subjects):
    return [[row[s] for s in subjects] for row in votes]


def raises(fn):
    try:
        fn()
    except Exception:
        return True
    return False


def kurt_reject(ctx, votes):
    """ITU-R BT.500 screening; -> (rejected flags, 1st stats, 2nd stats)"""
    E, S, R = len(votes), len(votes[0]), len(votes[0][0])
    ps, qs = [0] * S, [0] * S
    for e in range(E):
        xs = flat(ctx, votes[e])
        if not xs:
            continue
        mu = mean(ctx, xs)
        m2 = var(ctx, xs)
        m4 = mean(ctx, [(x - mu) * (x - mu) * (x - mu) * (x - mu) for x in xs])
        sg = ctx.sqrt(m2)
        ctx.assume(not ctx.near(m4, 2 * m2 * m2) and not ctx.near(m4, 4 * m2 * m2))
        ku = m4 / (m2 * m2)
        mid = (ku >= 2) and (ku <= 4)
        w = sg * 2 if mid else sg * ctx.sqrt(20)
        for s in range(S):
            for v in votes[e][s]:
                if ctx.isnan(v):
                    continue
                ctx.assume(not ctx.near(v, mu + w) and not ctx.near(v, mu - w))
                if v >= mu + w:
                    ps[s] += 1
                if v <= mu - w:
                    qs[s] += 1
    rej, st1, st2 = [], [], []
    for s in range(S):
        p, q = ps[s], qs[s]
        st1.append(ctx.num(p + q) / (E * R))
        st2.append(ctx.num(abs(p - q)) / (p + q) if p + q else ctx.nan)
        # (p+q)/(E*R) > 0.05 and |p-q|/(p+q) < 0.3
        rej.append(20 * (p + q) > E * R and p + q > 0 and 10 * abs(p - q) < 3 * (p + q))
    if all(rej):
        rej = [False] * S
    return rej, st1, st2


def corr_reject(ctx, votes, spearman=False):
    E, S = len(votes), len(votes[0])
    x = [[mean(ctx, flat(ctx, [votes[e][s]])) for s in range(S)] for e in range(E)]
    mos = [mean(ctx, [v for v in row if not ctx.isnan(v)]) for row in x]
    r = []
    for s in range(S):
        ok = [e for e in range(E) if not ctx.isnan(x[e][s])]
        a, b = [x[e][s] for e in ok], [mos[e] for e in ok]
        if spearman:
            a, b = ranks(ctx, a), ranks(ctx, b)
        ma, mb = mean(ctx, a), mean(ctx, b)
        num = ctx.num(0)
        da, db = ctx.num(0), ctx.num(0)
        for u, w in zip(a, b):
            num = num + (u - ma) * (w - mb)
            da = da + (u - ma) * (u - ma)
            db = db + (w - mb) * (w - mb)
        r.append(num / (ctx.sqrt(da) * ctx.sqrt(db)))
    t = mean(ctx, r) - std(ctx, r)
    ctx.assume(not ctx.near(t, 0.7))
    thr = ctx.num(7) / 10 if t > ctx.num(7) / 10 else t
    rej = []
    for v in r:
        ctx.assume(not ctx.near(v, thr))
        rej.append(bool(v <= thr))
    return rej, r


def ranks(ctx, xs):
    """average ranks"""
    out = []
    for i, x in enumerate(xs):
        less = eq = 0
        for j, y in enumerate(xs):
            if j == i:
                eq += 1
            else:
                ctx.assume(not ctx.near(x, y))
                if y < x:
                    less += 1
                elif not (y > x):
                    eq += 1
        out.append(ctx.num(2 * less + eq + 1) / 2)
    return out


def plain(x):
    """nested lists of any array/list/tuple structure"""
    if hasattr(x, 'tolist') and hasattr(x, 'shape') and getattr(x, 'shape') != ():
        return [plain(v) for v in x]
    if hasattr(x, 'item') and getattr(x, 'shape', None) == ():
        return x.item()
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def build_again(snap):
    """an independent copy of the attributes of a dataset"""
    import copy
    return {k: copy.deepcopy(v) for k, v in snap.items()}


def as_ds(attrs):
    d = DS()
    for k, v in attrs.items():
        setattr(d, k, v)
    return d
