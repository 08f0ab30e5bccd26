"""Stand-ins for scipy / pandas / random / math / builtins, and the loader
that executes /repo's current sources against them."""
import builtins
import importlib
import math as real_math
import os
import random as real_random
import sys
import types
from fractions import Fraction

import numpy as real_np

from . import npx
from . import sym as S
from .npx import asarr, plain, wrap, sy, ssum, smean, svar, conc, obj, SymArray
from .sym import Sym, Engine, Unsupported, PathAbort

REPO = os.environ.get('VERIF_REPO', '/repo')


# ------------------------------------------------------------------- random

class RandomSource(object):
    """environment stub: every draw is an arbitrary value of its range"""

    def draw(self, lo, hi, tag):
        ctx = Engine.cur.ctx
        return ctx.draw(tag, lo, hi)


SRC = RandomSource()


def _n(size):
    if size is None:
        return None
    if isinstance(size, (int, real_np.integer)):
        return (int(size),)
    return tuple(int(x) for x in size)


def _arr(size, f):
    shp = _n(size)
    if shp is None:
        return f()
    o = real_np.empty(shp, dtype=obj)
    for idx in real_np.ndindex(*shp):
        o[idx] = f()
    return o.view(SymArray)


def std_normal():
    return SRC.draw(-4, 4, 'normal')


def unit():
    return SRC.draw(0, 1, 'unit')


class NpRandom(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.random')

    def seed(self, *a):
        c = Engine.cur.ctx
        c.on_seed(a)

    def normal(self, loc=0.0, scale=1.0, size=None):
        z = _arr(size, std_normal)
        if size is None and (real_np.ndim(loc) or real_np.ndim(scale)):
            z = _arr(real_np.broadcast(plain(asarr(loc)), plain(asarr(scale))).shape, std_normal)
        return z * scale + loc

    def randn(self, *shape):
        return _arr(shape if shape else None, std_normal)

    def standard_normal(self, size=None):
        return _arr(size, std_normal)

    def logistic(self, loc=0.0, scale=1.0, size=None):
        return _arr(size, lambda: SRC.draw(-8, 8, 'logistic')) * scale + loc

    def uniform(self, low=0.0, high=1.0, size=None):
        u = _arr(size, unit)
        if (isinstance(low, (int, float)) and low == 0) and (isinstance(high, (int, float)) and high == 1):
            return u
        return u * (high - low) + low

    def rand(self, *shape):
        return _arr(shape if shape else None, unit)

    def random(self, size=None):
        return _arr(size, unit)

    random_sample = random

    def _perm(self, n):
        ctx = Engine.cur.ctx
        left = list(range(n))
        out = []
        while left:
            k = ctx.draw_choice('perm', len(left)) if len(left) > 1 else 0
            out.append(left.pop(k))
        return out

    def permutation(self, x):
        if isinstance(x, (int, real_np.integer)):
            return real_np.array(self._perm(int(x)), dtype=int)
        a = asarr(x)
        return a[self._perm(len(a))]

    def shuffle(self, x):
        p = self._perm(len(x))
        if isinstance(x, list):
            x[:] = [x[i] for i in p]
        else:
            x[...] = x[p].copy()

    def choice(self, a, size=None, replace=True, p=None):
        ctx = Engine.cur.ctx
        items = list(range(a)) if isinstance(a, (int, real_np.integer)) else list(a)
        if p is not None:
            raise Unsupported('choice p')
        if size is None:
            return items[ctx.draw_choice('choice', len(items))]
        n = int(real_np.prod(_n(size)))
        out = []
        left = list(items)
        for _ in range(n):
            if replace:
                out.append(items[ctx.draw_choice('choice', len(items))])
            else:
                out.append(left.pop(ctx.draw_choice('choice', len(left))))
        ctx.choice_log.append(list(out))
        return asarr(out).reshape(_n(size)) if not builtins.all(isinstance(o, (int, real_np.integer)) for o in out) \
            else real_np.array(out, dtype=int).reshape(_n(size))

    def randint(self, low, high=None, size=None, **k):
        if high is None:
            low, high = 0, low
        ctx = Engine.cur.ctx
        f = lambda: low + ctx.draw_choice('randint', high - low)
        if size is None:
            return f()
        return real_np.array([f() for _ in range(int(real_np.prod(_n(size))))], dtype=int).reshape(_n(size))

    def RandomState(self, seed=None):
        return self

    def default_rng(self, seed=None):
        return self

    def integers(self, low, high=None, size=None, **k):
        return self.randint(low, high, size)


class PyRandom(types.ModuleType):
    def __init__(self):
        super().__init__('random')

    def seed(self, *a):
        c = Engine.cur.ctx
        c.on_seed(a)

    def random(self):
        return unit()

    def uniform(self, a, b):
        return a + (b - a) * unit()

    def gauss(self, mu=0.0, sigma=1.0):
        return sigma * std_normal() + mu

    normalvariate = gauss

    def randint(self, a, b):
        return a + Engine.cur.ctx.draw_choice('randint', b - a + 1)

    def randrange(self, a, b=None):
        if b is None:
            a, b = 0, a
        return a + Engine.cur.ctx.draw_choice('randrange', b - a)

    def choice(self, seq):
        return seq[Engine.cur.ctx.draw_choice('choice', len(seq))]

    def shuffle(self, x):
        NPR.shuffle(x)

    def sample(self, pop, k):
        left = list(pop)
        return [left.pop(Engine.cur.ctx.draw_choice('sample', len(left))) for _ in range(k)]

    def Random(self, *a):
        if a:
            self.seed(*a)
        return self


NPR = NpRandom()
PYR = PyRandom()


# -------------------------------------------------------------------- scipy

def _flat(a):
    return [sy(x) for x in plain(asarr(a)).reshape(-1)]


class Res(tuple):
    """(statistic, pvalue)"""
    statistic = property(lambda s: s[0])
    correlation = property(lambda s: s[0])
    pvalue = property(lambda s: s[1])

    def __new__(cls, a, b):
        return tuple.__new__(cls, (a, b))


def pearsonr(x, y, **k):
    x, y = _flat(x), _flat(y)
    if len(x) != len(y):
        raise ValueError('x and y must have the same length.')
    if len(x) < 2:
        raise ValueError('x and y must have length at least 2.')
    if npx.any_nan(x + y):
        return Res(Sym.of(float('nan')), Sym.of(float('nan')))
    mx, my = smean(x), smean(y)
    dx = [a - mx for a in x]
    dy = [b - my for b in y]
    sxx = ssum([a * a for a in dx])
    syy = ssum([b * b for b in dy])
    den = S.sqrt(sxx) * S.sqrt(syy)
    return Res(ssum([a * b for a, b in zip(dx, dy)]) / den, Sym.of(float('nan')))


def rankdata(x, **k):
    if k.get('method', 'average') != 'average':
        raise Unsupported('rankdata method')
    x = _flat(x)
    out = []
    for i, a in enumerate(x):
        less = eq = 0
        for j, b in enumerate(x):
            if i == j:
                eq += 1
            elif b < a:
                less += 1
            elif b == a:
                eq += 1
        out.append(Sym.of(Fraction(2 * less + eq + 1, 2)))
    return asarr(out)


def spearmanr(x, y=None, **k):
    if y is None:
        raise Unsupported('spearmanr matrix')
    x, y = _flat(x), _flat(y)
    if len(x) < 3:
        return Res(Sym.of(float('nan')), Sym.of(float('nan')))
    if npx.any_nan(x + y):
        return Res(Sym.of(float('nan')), Sym.of(float('nan')))
    rx, ry = rankdata(x), rankdata(y)
    if all_same(rx) or all_same(ry):
        return Res(Sym.of(float('nan')), Sym.of(float('nan')))
    return pearsonr(rx, ry)


def all_same(r):
    for e in r:
        if not (e == r[0]):
            return False
    return True


def kendalltau(x, y, **k):
    if k.get('variant', 'b') != 'b':
        raise Unsupported('kendall variant')
    x, y = _flat(x), _flat(y)
    n = len(x)
    con = tx = ty = 0
    for i in range(n):
        for j in range(i):
            a = (x[i] - x[j]).sign3()
            b = (y[i] - y[j]).sign3()
            con += a * b
            tx += a == 0
            ty += b == 0
    tot = n * (n - 1) // 2
    if tot == tx or tot == ty:
        return Res(Sym.of(float('nan')), Sym.of(float('nan')))
    return Res(Sym.of(con) / S.sqrt(Sym.of((tot - tx) * (tot - ty))), Sym.of(float('nan')))


def kurtosis(a, axis=0, fisher=True, bias=True, **k):
    a = asarr(a)
    if a.ndim != 1 and axis is not None:
        return npx.reduce_axis(a, axis, False, lambda xs: kurtosis(asarr(xs), 0, fisher, bias))
    if not bias:
        raise Unsupported('kurtosis bias')
    xs = _flat(a)
    if not xs or npx.any_nan(xs):
        return Sym.of(float('nan'))
    m = smean(xs)
    d = [x - m for x in xs]
    m2 = ssum([x * x for x in d]) / len(xs)
    if m2 == 0:
        return Sym.of(float('nan'))
    m4 = ssum([x * x * x * x for x in d]) / len(xs)
    r = m4 / (m2 * m2)
    return r - 3 if fisher else r


def skew(a, **k):
    raise Unsupported('skew')


def sem(a, axis=0, ddof=1, **k):
    a = asarr(a)
    n = a.shape[axis]
    return npx.OVERRIDES['std'](a, axis=axis, ddof=ddof) / S.sqrt(Sym.of(n))


def zscore(a, axis=0, ddof=0, **k):
    a = asarr(a)
    m = npx.OVERRIDES['mean'](a, axis=axis, keepdims=True)
    s = npx.OVERRIDES['std'](a, axis=axis, ddof=ddof, keepdims=True)
    return (a - m) / s


def elem(f):
    def g(*args):
        r = real_np.frompyfunc(f, len(args), 1)(*[npx.as_obj(a) for a in args])
        return npx.finish(r, 'x', scalar=True)
    return g


_SQ2PI = Sym


class Norm(object):
    def __init__(self, loc=None, scale=None):
        self.loc, self.scale = loc, scale

    def __call__(self, loc=0, scale=1):
        return Norm(loc, scale)

    def _ls(self, loc, scale):
        return (0 if loc is None else loc) if self.loc is None else self.loc, \
               (1 if scale is None else scale) if self.scale is None else self.scale

    def pdf(self, x, loc=None, scale=None):
        loc, scale = self._ls(loc, scale)

        def f(x, l, s):
            x, l, s = sy(x), sy(l), sy(s)
            if s.kind == S.NAN or s.kind or s.sign_is({-1, 0}):
                return Sym.of(float('nan'))
            z = (x - l) / s
            return S.exp(-(z * z) / 2) / (Sym.of(real_math.sqrt(2 * real_math.pi)) * s)
        return elem(f)(x, loc, scale)

    def logpdf(self, x, loc=None, scale=None):
        return elem(S.log)(self.pdf(x, loc, scale))

    def cdf(self, x, loc=None, scale=None):
        loc, scale = self._ls(loc, scale)
        return elem(lambda x, l, s: S.norm_cdf((sy(x) - sy(l)) / sy(s)))(x, loc, scale)

    def sf(self, x, loc=None, scale=None):
        return 1 - self.cdf(x, loc, scale)

    def logcdf(self, x, loc=None, scale=None):
        return elem(S.log)(self.cdf(x, loc, scale))

    def __getattr__(self, n):
        import scipy.stats as st
        f = getattr(st.norm, n)

        def g(*a, **k):
            return wrap(f(*[cc(x) for x in a], **{q: cc(v) for q, v in k.items()}))
        return g


def cc(x):
    if isinstance(x, Sym):
        c = x.const()
        if c is None and not x.kind:
            raise Unsupported('symbolic argument of a special function')
        return float(x)
    if isinstance(x, SymArray):
        return conc(x)
    if isinstance(x, list) and npx.has_sym(x):
        return conc(x)
    return x


class ConcreteDist(object):
    def __init__(self, d):
        self.d = d

    def __getattr__(self, n):
        f = getattr(self.d, n)

        def g(*a, **k):
            return wrap(f(*[cc(x) for x in a], **{q: cc(v) for q, v in k.items()}))
        return g

    def __call__(self, *a, **k):
        return ConcreteDist(self.d(*[cc(x) for x in a], **{q: cc(v) for q, v in k.items()}))


class ScipyProxy(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        v = getattr(self.__dict__['_real'], n)
        if isinstance(v, types.ModuleType):
            return proxy_module(v.__name__) or v
        if isinstance(v, type) or not callable(v):
            return v
        if hasattr(v, 'ppf'):
            return ConcreteDist(v)

        def g(*a, **k):
            return wrap(v(*[cc(x) for x in a], **{q: cc(w) for q, w in k.items()}))
        g.__name__ = n
        return g


class OptResult(dict):
    __getattr__ = dict.__getitem__


def minimize(fun, x0, *a, **k):
    """optimiser stub: any point may be returned as the minimiser"""
    ctx = Engine.cur.ctx
    n = len(x0)
    x = asarr([ctx.draw('opt', -3, 3) for _ in range(n)])
    ctx.opt_calls.append((fun, x0, x, a, k))
    return OptResult(x=x, success=True, fun=None)


def fftconvolve(a, b, mode='full', **k):
    a, b = _flat(a), _flat(b)
    n = len(a) + len(b) - 1
    out = [Sym.of(0)] * n
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] = out[i + j] + x * y
    if mode == 'same':
        st = (n - len(a)) // 2
        out = out[st:st + len(a)]
    return asarr(out)


# ------------------------------------------------------------------- pandas

class SeriesX(object):
    """tiny pandas.Series: positional labels, nan-skipping reductions"""
    __array_priority__ = 200

    def __init__(self, a):
        self.a = asarr(a)
        if npx.native(self.a):
            self.a = npx.to_sym(self.a)

    def _symarr(self):
        return self.a

    def __array__(self, *a, **k):
        return plain(self.a)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        ins = tuple(x.a if isinstance(x, SeriesX) else x for x in inputs)
        out = kw.get('out')
        if out is not None:
            out = tuple(x.a if isinstance(x, SeriesX) else x for x in out)
            kw['out'] = out
            r = npx.array_ufunc(ufunc, method, ins, kw)
            return self
        r = npx.array_ufunc(ufunc, method, ins, kw)
        return SeriesX(r) if isinstance(r, SymArray) else r

    def __array_function__(self, func, types_, args, kwargs):
        args = tuple(x.a if isinstance(x, SeriesX) else x for x in args)
        return getattr(NP, func.__name__)(*args, **kwargs)

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        return iter(self.a)

    def __getitem__(self, k):
        r = self.a[k]
        return SeriesX(r) if isinstance(r, SymArray) else r

    iloc = property(lambda s: s)
    loc = property(lambda s: s)

    def __setitem__(self, k, v):
        self.a[k] = v

    @property
    def values(self):
        return self.a

    def to_numpy(self, *a, **k):
        return self.a

    def tolist(self):
        return list(self.a)

    shape = property(lambda s: s.a.shape)
    ndim = property(lambda s: s.a.ndim)
    size = property(lambda s: s.a.size)

    def copy(self, deep=True):
        return SeriesX(self.a.copy())

    def mean(self, *a, **k):
        return npx.OVERRIDES['nanmean'](self.a)

    def sum(self, *a, **k):
        return npx.OVERRIDES['nansum'](self.a)

    def std(self, ddof=1, **k):
        return npx.OVERRIDES['nanstd'](self.a, ddof=ddof)

    def _b(self, o, f):
        if isinstance(o, SeriesX):
            o = o.a
        return SeriesX(f(self.a, o))

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._b(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._b(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._b(o, lambda a, b: b / a)

    def __pow__(self, o):
        return self._b(o, lambda a, b: a ** b)

    def __neg__(self):
        return SeriesX(-self.a)

    def __iadd__(self, o):
        self.a += (o.a if isinstance(o, SeriesX) else o)
        return self

    def __isub__(self, o):
        self.a -= (o.a if isinstance(o, SeriesX) else o)
        return self


class Frame(object):
    def __init__(self, a, *x, **k):
        self.a = asarr(a)
        if npx.native(self.a):
            self.a = npx.to_sym(self.a)
        if self.a.ndim != 2:
            raise Unsupported('DataFrame')

    def _symarr(self):
        return self.a

    def _r(self, name, axis, **k):
        return SeriesX(npx.OVERRIDES[name](self.a, axis=axis, **k))

    def mean(self, axis=0, **k):
        return self._r('nanmean', axis)

    def sum(self, axis=0, **k):
        return self._r('nansum', axis)

    def std(self, axis=0, ddof=1, **k):
        return self._r('nanstd', axis, ddof=ddof)

    def var(self, axis=0, ddof=1, **k):
        return self._r('nanvar', axis, ddof=ddof)

    @property
    def values(self):
        return self.a

    shape = property(lambda s: s.a.shape)

    def __array__(self, *a, **k):
        return plain(self.a)

    def __getattr__(self, n):
        raise Unsupported('DataFrame.' + n)


class PandasProxy(types.ModuleType):
    def __init__(self):
        super().__init__('pandas')
        self.DataFrame = Frame
        self.Series = SeriesX

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('pandas.' + n)


# --------------------------------------------------------------------- math

class MathProxy(types.ModuleType):
    def __init__(self):
        super().__init__('math')

    def isnan(self, x):
        if isinstance(x, Sym):
            return x.kind == S.NAN
        if isinstance(x, SymArray):
            if x.size == 1:
                return plain(x).reshape(-1)[0].kind == S.NAN
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return real_math.isnan(x)

    def isinf(self, x):
        return sy(x).kind in (S.PINF, S.NINF)

    def isfinite(self, x):
        return sy(x).kind == 0

    def sqrt(self, x):
        if isinstance(x, Sym):
            if x < 0:
                raise ValueError('math domain error')
            return S.sqrt(x)
        return real_math.sqrt(x)

    def log(self, x, *b):
        if isinstance(x, Sym):
            if x <= 0:
                raise ValueError('math domain error')
            return S.log(x) if not b else S.log(x) / real_math.log(float(b[0]))
        return real_math.log(x, *b)

    def exp(self, x):
        return S.exp(x) if isinstance(x, Sym) else real_math.exp(x)

    def pow(self, x, y):
        return S.power(sy(x), sy(y)) if npx.has_sym([x, y]) else real_math.pow(x, y)

    def fabs(self, x):
        return abs(x)

    def fsum(self, xs):
        return ssum([sy(x) for x in xs])

    def __getattr__(self, n):
        f = getattr(real_math, n)
        if not callable(f):
            return f

        def g(*a):
            return wrap(f(*[cc(x) for x in a]))
        return g


class StatisticsProxy(types.ModuleType):
    def __init__(self):
        super().__init__('statistics')

    def mean(self, xs):
        return smean(_flat(list(xs)))

    fmean = mean

    def stdev(self, xs):
        return S.sqrt(svar(_flat(list(xs)), 1))

    def pstdev(self, xs):
        return S.sqrt(svar(_flat(list(xs)), 0))

    def variance(self, xs):
        return svar(_flat(list(xs)), 1)

    def pvariance(self, xs):
        return svar(_flat(list(xs)), 0)

    def median(self, xs):
        return npx.smedian(_flat(list(xs)))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('statistics.' + n)


# ----------------------------------------------------------------- builtins

class _FMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or isinstance(x, Sym)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float) or c is Sym

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class float_(metaclass=_FMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymArray):
            if x.size == 1:
                return plain(x).reshape(-1)[0]
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        if isinstance(x, str) and x.strip().startswith('__sym__('):
            return Sym.of(x)
        return builtins.float(x)

    fromhex = builtins.float.fromhex


float_.__name__ = 'float'


class _IMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class int_(metaclass=_IMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, Sym):
            if x.kind:
                builtins.int(builtins.float(x.kind))
            c = x.const()
            if c is None:
                return Engine.cur.ctx.int_of(x)
            return real_math.trunc(c)
        return builtins.int(x, *a)

    from_bytes = builtins.int.from_bytes


int_.__name__ = 'int'


def sum_(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def round_(x, n=None):
    return builtins.round(x, n) if n is not None else builtins.round(x)


def type_(*a):
    if len(a) == 1:
        t = builtins.type(a[0])
        if t is Sym:
            return builtins.float
        return t
    return builtins.type(*a)


class TypeMeta(type):
    def __call__(cls, *a, **k):
        if len(a) == 1:
            t = builtins.type(a[0])
            return builtins.float if t is Sym else t
        return builtins.type(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, builtins.type)


class type_p(metaclass=TypeMeta):
    pass


# ------------------------------------------------------------------- loader

NP = None
_mods = {}


def proxy_module(name):
    return _mods.get(name)


def setup():
    global NP
    import scipy
    import scipy.linalg
    import scipy.optimize
    import scipy.signal
    import scipy.special
    import scipy.stats
    NP = npx.NumpyProxy(npx.LinalgProxy(real_np.linalg), NPR)
    norm = Norm()
    st = ScipyProxy(scipy.stats, dict(
        pearsonr=pearsonr, spearmanr=spearmanr, kendalltau=kendalltau,
        kurtosis=kurtosis, skew=skew, rankdata=rankdata, norm=norm, sem=sem,
        zscore=zscore, chi2=ConcreteDist(scipy.stats.chi2),
        t=ConcreteDist(scipy.stats.t)))
    op = ScipyProxy(scipy.optimize, dict(minimize=minimize))
    sg = ScipyProxy(scipy.signal, dict(fftconvolve=fftconvolve, convolve=fftconvolve))
    la = npx.LinalgProxy(scipy.linalg)
    sp = ScipyProxy(scipy.special, dict(ndtr=norm.cdf))
    sc = ScipyProxy(scipy, dict(stats=st, optimize=op, signal=sg, linalg=la, special=sp))
    _mods.update({'numpy': NP, 'numpy.linalg': NP.linalg, 'numpy.random': NPR,
                  'scipy': sc, 'scipy.stats': st, 'scipy.optimize': op,
                  'scipy.signal': sg, 'scipy.linalg': la, 'scipy.special': sp,
                  'random': PYR, 'pandas': PandasProxy(), 'math': MathProxy(),
                  'statistics': StatisticsProxy()})
    b = dict(vars(builtins))
    b['float'] = float_
    b['int'] = int_
    b['sum'] = sum_
    b['type'] = type_p
    b['__import__'] = import_
    b['print'] = lambda *a, **k: None
    global BUILTINS
    BUILTINS = b

    def __sym__(k):
        return Engine.cur.lib[k]
    b['__sym__'] = __sym__
    builtins.__sym__ = __sym__
    sys.meta_path.insert(0, Finder())


BUILTINS = None


def import_(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split('.')[0]
        if name == 'json':
            return JSONP
        if top in ('numpy', 'scipy', 'random', 'pandas', 'math', 'statistics'):
            if name not in _mods:
                m = builtins.__import__(name, globals, locals, ['x'])
                if fromlist:
                    return m
                return _mods[top]
            if fromlist:
                m = _mods[name]
                return m
            return _mods[top]
    return builtins.__import__(name, globals, locals, fromlist, level)


class QuietOut(object):
    def write(self, s):
        return len(s)

    def flush(self):
        pass


class Finder(object):
    """loads sureal.* from REPO with the stand-in builtins"""

    def find_spec(self, name, path=None, target=None):
        if name != 'sureal' and not name.startswith('sureal.'):
            return None
        parts = name.split('.')
        base = os.path.join(REPO, *parts)
        import importlib.util as iu
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            f = os.path.join(base, '__init__.py')
            return iu.spec_from_file_location(name, f, loader=Loader(f), submodule_search_locations=[base])
        f = base + '.py'
        if os.path.exists(f):
            return iu.spec_from_file_location(name, f, loader=Loader(f))
        return None


LOADED = []


class Loader(object):
    def __init__(self, f):
        self.f = f

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.f) as fh:
            src = fh.read()
        code = compile(src, self.f, 'exec')
        module.__dict__['__builtins__'] = BUILTINS
        LOADED.append(self.f)
        exec(code, module.__dict__)


class JsonProxy(types.ModuleType):
    """json with symbolic numbers written as opaque tokens"""

    def __init__(self):
        super().__init__('json')
        import json
        self.__dict__['_real'] = json

    def __getattr__(self, n):
        return getattr(self.__dict__['_real'], n)

    def _enc(self, x):
        if isinstance(x, real_np.ndarray) and x.ndim == 0:
            x = x.item()
        if isinstance(x, Sym):
            lib = Engine.cur.lib
            k = len(lib)
            lib[k] = x
            return {'__sym__': k}
        if isinstance(x, dict):
            return {k: self._enc(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [self._enc(v) for v in x]
        return x

    def _dec(self, x):
        if set(x) == {'__sym__'}:
            return Engine.cur.lib[x['__sym__']]
        return x

    def dump(self, o, fp, **k):
        return self._real.dump(self._enc(o), fp, **k)

    def dumps(self, o, **k):
        return self._real.dumps(self._enc(o), **k)

    def load(self, fp, **k):
        k.setdefault('object_hook', self._dec)
        return self._real.load(fp, **k)

    def loads(self, s, **k):
        k.setdefault('object_hook', self._dec)
        return self._real.loads(s, **k)


JSONP = JsonProxy()


def load_script(path, name='script'):
    """execute a stand-alone script of the repo as a module"""
    path = os.path.join(REPO, path)
    m = types.ModuleType(name)
    m.__file__ = path
    m.__dict__['__builtins__'] = BUILTINS
    with open(path) as fh:
        src = fh.read()
    LOADED.append(path)
    exec(compile(src, path, 'exec'), m.__dict__)
    return m
