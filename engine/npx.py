"""numpy stand-in: real numpy arrays of dtype object holding Syms.

Shape work is done by real numpy; arithmetic goes through Sym; comparisons
and truth tests fork the run.  Only the functions whose numpy implementation
does not work on object arrays are re-stated here, each from its numpy
documentation.
"""
import itertools
import math
import types

import numpy as real_np

from . import sym as S
from .convf import ConvFloat
from .sym import Sym, Engine, Unsupported, PathAbort

obj = real_np.dtype(object)


class SymArray(real_np.ndarray):
    __array_priority__ = 50.0

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        h = OVERRIDES.get(getattr(func, '__name__', None))
        if h is not None and not getattr(func, '__module__', '').endswith('random'):
            return h(*args, **kwargs)
        r = super().__array_function__(func, types_, args, kwargs)
        return wrap(r)

    def __getitem__(self, k):
        r = super().__getitem__(fix_index(k))
        return r

    def __setitem__(self, k, v):
        k = fix_index(k)
        if isinstance(v, real_np.ndarray) and v.dtype != obj:
            v = to_sym(v)
        elif isinstance(v, (list, tuple)):
            v = asarr(v)
        elif not isinstance(v, (Sym, real_np.ndarray)):
            s = Sym.of(v)
            if s is None:
                raise TypeError('float() argument must be a string or a real number, not %r' % type(v).__name__)
            v = s
        if isinstance(v, Sym):
            z = real_np.empty((), dtype=obj)
            z[()] = v
            v = z
        super().__setitem__(k, v)

    # reductions as methods
    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return OVERRIDES['mean'](self, axis=axis, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return OVERRIDES['std'](self, axis=axis, ddof=ddof, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return OVERRIDES['var'](self, axis=axis, ddof=ddof, keepdims=keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return OVERRIDES['sum'](self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return OVERRIDES['prod'](self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return OVERRIDES['max'](self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return OVERRIDES['min'](self, axis=axis, keepdims=keepdims)

    def argmax(self, axis=None, out=None, **k):
        return OVERRIDES['argmax'](self, axis=axis)

    def argmin(self, axis=None, out=None, **k):
        return OVERRIDES['argmin'](self, axis=axis)

    def argsort(self, axis=-1, kind=None, order=None, **k):
        return OVERRIDES['argsort'](self, axis=axis)

    def sort(self, axis=-1, kind=None, order=None):
        self[...] = OVERRIDES['sort'](self, axis=axis)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return tobool(self).any(axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return tobool(self).all(axis=axis, keepdims=keepdims)

    def dot(self, b):
        return wrap(OVERRIDES['dot'](self, b))

    def round(self, decimals=0, out=None):
        return OVERRIDES['round'](self, decimals)

    def clip(self, lo=None, hi=None, out=None, **k):
        return OVERRIDES['clip'](self, lo, hi)

    def tolist(self):
        return plain(self).tolist()

    def nonzero(self):
        return tobool(self).nonzero()

    def astype(self, t, *a, **k):
        if is_float_t(t):
            return self.copy()
        if t in (bool, real_np.bool_, 'bool'):
            return tobool(self)
        if t in (int, real_np.int64, real_np.int32, 'int', 'int64'):
            return real_np.vectorize(int, otypes=[int])(plain(self)) if self.size else real_np.zeros(self.shape, int)
        return wrap(super().astype(t))

    def item(self, *a):
        return super().item(*a)

    def __contains__(self, x):
        return any(bool(e == x) for e in plain(self).ravel())

    def __float__(self):
        raise Unsupported('float(array)')

    def __bool__(self):
        if self.size == 1:
            return bool(plain(self).ravel()[0])
        return super().__bool__()

    def __deepcopy__(self, memo):
        return self.copy()

    def __repr__(self):
        return repr(plain(self).tolist())

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        return '{arr}'

    @property
    def real(self):
        return self


def is_float_t(t):
    if t is None:
        return True
    try:
        if isinstance(t, type) and issubclass(t, (float, Sym)):
            return True
        return real_np.dtype(t).kind in 'fO'
    except TypeError:
        return getattr(t, '__name__', '') == 'float'


def fix_index(k):
    if isinstance(k, tuple):
        return tuple(fix_index(x) for x in k)
    if isinstance(k, SymArray):
        return index_arr(k)
    if isinstance(k, Sym):
        return k.__index__()
    if isinstance(k, list) and any(isinstance(x, Sym) for x in k):
        return [x.__index__() if isinstance(x, Sym) else x for x in k]
    return k


def index_arr(a):
    f = plain(a).ravel()
    if all(isinstance(x, (bool, real_np.bool_)) for x in f) and len(f):
        return real_np.array([bool(x) for x in f], dtype=bool).reshape(a.shape)
    if all(isinstance(x, (int, real_np.integer)) for x in f):
        return real_np.array([int(x) for x in f], dtype=int).reshape(a.shape)
    raise IndexError('arrays used as indices must be of integer (or boolean) type')


def plain(a):
    return a.view(real_np.ndarray) if isinstance(a, SymArray) else a


def to_sym(a):
    """native numeric array -> SymArray"""
    a = real_np.asarray(a) if not isinstance(a, SymArray) else plain(a)
    out = real_np.empty(a.shape, dtype=obj)
    fo, fa = out.reshape(-1), a.reshape(-1)
    for i in range(fa.size):
        s = Sym.of(fa[i]) if not isinstance(fa[i], Sym) else fa[i]
        fo[i] = fa[i] if s is None else s
    return out.view(SymArray)


def has_sym(x, depth=0):
    if isinstance(x, (Sym, SymArray)):
        return True
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(e, depth + 1) for e in x)
    if type(x).__name__ == 'Frame' or type(x).__name__ == 'SeriesX':
        return True
    return False


def asarr(x):
    """anything array-like -> ndarray (SymArray when floats/Syms)"""
    if isinstance(x, SymArray):
        return x
    if hasattr(x, '_symarr'):
        return x._symarr()
    if isinstance(x, Sym):
        o = real_np.empty((), dtype=obj)
        o[()] = x
        return o.view(SymArray)
    if isinstance(x, real_np.ndarray):
        if x.dtype.kind == 'f':
            return to_sym(x)
        if x.dtype == obj:
            return wrap(x)
        return x
    if isinstance(x, (types.GeneratorType, map, filter, range, zip)) or \
            type(x).__name__ in ('dict_values', 'dict_keys'):
        if isinstance(x, range):
            return real_np.asarray(x)
        x = list(x)
    if isinstance(x, (list, tuple)):
        if has_sym(x):
            shape = shape_of(x)
            if shape is None:
                raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
            flat = []
            flatten(x, flat)
            out = real_np.empty(len(flat), dtype=obj)
            for i, e in enumerate(flat):
                if isinstance(e, (str, bytes)):
                    raise Unsupported('string in symbolic array')
                s = Sym.of(e)
                out[i] = e if s is None else s
            return out.reshape(shape).view(SymArray)
        a = real_np.array(x)
        if a.dtype.kind == 'f':
            return to_sym(a)
        return a
    a = real_np.asarray(x)
    if a.dtype.kind == 'f':
        return to_sym(a)
    return a


def shape_of(x):
    if isinstance(x, real_np.ndarray):
        return x.shape
    if hasattr(x, '_symarr'):
        return x._symarr().shape
    if isinstance(x, (list, tuple)):
        if not x:
            return (0,)
        s0 = shape_of(x[0])
        for e in x[1:]:
            if shape_of(e) != s0:
                return None
        if s0 is None:
            return None
        return (len(x),) + s0
    return ()


def flatten(x, out):
    if hasattr(x, '_symarr'):
        x = x._symarr()
    if isinstance(x, real_np.ndarray):
        out.extend(plain(x).reshape(-1).tolist() if x.dtype != obj else list(plain(x).reshape(-1)))
    elif isinstance(x, (list, tuple)):
        for e in x:
            flatten(e, out)
    else:
        out.append(x)


def wrap(r):
    """result of a numpy call -> our kinds"""
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r) if type(r) is tuple else r
    if isinstance(r, list):
        return [wrap(x) for x in r]
    if isinstance(r, real_np.ndarray):
        if r.dtype.kind == 'f':
            return to_sym(r)
        if r.dtype == obj:
            if r.ndim == 0:
                e = r[()]
                return Sym.of(e) if Sym.of(e) is not None else e
            f = plain(r).reshape(-1)
            if f.size and all(isinstance(x, (bool, real_np.bool_)) for x in f):
                return real_np.array([bool(x) for x in f], dtype=bool).reshape(r.shape)
            v = r.view(SymArray) if not isinstance(r, SymArray) else r
            for i in range(f.size):
                if not isinstance(f[i], Sym):
                    return to_sym_mixed(r)
            return v
        return plain(r)
    if isinstance(r, (float, real_np.floating)):
        return Sym.of(r)
    return r


def to_sym_mixed(r):
    f = plain(r).reshape(-1)
    out = real_np.empty(f.size, dtype=obj)
    for i in range(f.size):
        s = Sym.of(f[i])
        if s is None:
            return plain(r)
        out[i] = s
    return out.reshape(r.shape).view(SymArray)


def tobool(a):
    a = asarr(a)
    if a.dtype == bool:
        return a
    f = plain(a).reshape(-1)
    return real_np.array([bool(x) for x in f], dtype=bool).reshape(a.shape)


# ------------------------------------------------------------------ ufuncs

def _isnan(x):
    return isinstance(x, Sym) and x.kind == S.NAN or (not isinstance(x, Sym) and x != x)


def _max(a, b):
    a, b = Sym.of(a), Sym.of(b)
    if a.kind == S.NAN:
        return a
    if b.kind == S.NAN:
        return b
    return a if a >= b else b


def _min(a, b):
    a, b = Sym.of(a), Sym.of(b)
    if a.kind == S.NAN:
        return a
    if b.kind == S.NAN:
        return b
    return a if a <= b else b


def _fmax(a, b):
    a, b = Sym.of(a), Sym.of(b)
    if a.kind == S.NAN:
        return b
    if b.kind == S.NAN:
        return a
    return a if a >= b else b


def _fmin(a, b):
    a, b = Sym.of(a), Sym.of(b)
    if a.kind == S.NAN:
        return b
    if b.kind == S.NAN:
        return a
    return a if a <= b else b


def _sign(a):
    a = Sym.of(a)
    if a.kind == S.NAN:
        return a
    return Sym.of(a.sign3())


def sy(x):
    s = Sym.of(x)
    if s is None:
        raise TypeError('ufunc not supported for the input types')
    return s


def const_fn(name):
    fn = getattr(math, name)

    def f(a):
        a = sy(a)
        c = a.const()
        if c is not None:
            return Sym.of(fn(float(c)))
        if a.kind == S.NAN:
            return a
        if a.kind and name in ('floor', 'ceil'):
            return a
        return S.generic(name, a, fn)
    S.FN.setdefault(name, fn)
    return f


def _floor(a):
    a = sy(a)
    if a.kind:
        return a
    c = a.const()
    if c is not None:
        return Sym.of(math.floor(c))
    raise Unsupported('floor')


def _ceil(a):
    return -_floor(-sy(a))


def _rint(a):
    a = sy(a)
    if a.kind:
        return a
    c = a.const()
    if c is not None:
        return Sym.of(round(c))
    raise Unsupported('rint')


def _pow(a, b):
    return S.power(sy(a), sy(b))


def _divmod_const(a, b):
    return sy(a) % sy(b)


U1 = {
    'isnan': lambda a: bool(_isnan(a)),
    'isfinite': lambda a: sy(a).kind == 0,
    'isinf': lambda a: sy(a).kind in (S.PINF, S.NINF),
    'sqrt': lambda a: S.sqrt(sy(a)),
    'exp': lambda a: S.exp(sy(a)),
    'log': lambda a: S.log(sy(a)),
    'log2': lambda a: S.log(sy(a)) / Sym.of(math.log(2)),
    'log10': lambda a: S.log(sy(a)) / Sym.of(math.log(10)),
    'log1p': lambda a: S.log(sy(a) + 1),
    'expm1': lambda a: S.exp(sy(a)) - 1,
    'absolute': lambda a: abs(sy(a)), 'fabs': lambda a: abs(sy(a)),
    'negative': lambda a: -sy(a), 'positive': lambda a: sy(a),
    'square': lambda a: sy(a) * sy(a), 'reciprocal': lambda a: Sym.of(1) / sy(a),
    'sign': _sign, 'conjugate': sy, 'floor': _floor, 'ceil': _ceil, 'rint': _rint,
    'logical_not': lambda a: not bool(a),
    'tanh': lambda a: (S.exp(2 * sy(a)) - 1) / (S.exp(2 * sy(a)) + 1),
    'sinh': lambda a: (S.exp(sy(a)) - S.exp(-sy(a))) / 2, 'cosh': lambda a: (S.exp(sy(a)) + S.exp(-sy(a))) / 2,
    'sin': const_fn('sin'), 'cos': const_fn('cos'),
    'signbit': lambda a: bool(sy(a) < 0),
}
U2 = {
    'add': lambda a, b: sy(a) + sy(b), 'subtract': lambda a, b: sy(a) - sy(b),
    'multiply': lambda a, b: sy(a) * sy(b), 'divide': lambda a, b: sy(a) / sy(b),
    'true_divide': lambda a, b: sy(a) / sy(b), 'power': _pow, 'float_power': _pow,
    'maximum': _max, 'minimum': _min, 'fmax': _fmax, 'fmin': _fmin,
    'greater': lambda a, b: bool(sy(a) > sy(b)), 'less': lambda a, b: bool(sy(a) < sy(b)),
    'greater_equal': lambda a, b: bool(sy(a) >= sy(b)),
    'less_equal': lambda a, b: bool(sy(a) <= sy(b)),
    'equal': lambda a, b: bool(Sym.of(a) == Sym.of(b)) if Sym.of(a) is not None and Sym.of(b) is not None else a == b,
    'not_equal': lambda a, b: not bool(Sym.of(a) == Sym.of(b)) if Sym.of(a) is not None and Sym.of(b) is not None else a != b,
    'logical_and': lambda a, b: bool(a) and bool(b),
    'logical_or': lambda a, b: bool(a) or bool(b),
    'logical_xor': lambda a, b: bool(a) != bool(b),
    'mod': _divmod_const, 'remainder': _divmod_const,
    'floor_divide': lambda a, b: sy(a) // sy(b),
    'hypot': lambda a, b: S.sqrt(sy(a) * sy(a) + sy(b) * sy(b)),
    'logaddexp': lambda a, b: S.log(S.exp(sy(a)) + S.exp(sy(b))),
    'bitwise_and': lambda a, b: bool(a) and bool(b),
    'bitwise_or': lambda a, b: bool(a) or bool(b),
    'copysign': lambda a, b: abs(sy(a)) if sy(b) >= 0 else -abs(sy(a)),
}
BOOL_OUT = {'isnan', 'isfinite', 'isinf', 'greater', 'less', 'greater_equal',
            'less_equal', 'equal', 'not_equal', 'logical_and', 'logical_or',
            'logical_xor', 'logical_not', 'bitwise_and', 'bitwise_or', 'signbit'}
_pyf = {}


def pyfunc(name, nin):
    f = _pyf.get(name)
    if f is None:
        tab = U1 if nin == 1 else U2
        if name not in tab:
            raise Unsupported('ufunc ' + name)
        f = _pyf[name] = real_np.frompyfunc(tab[name], nin, 1)
    return f


def as_obj(x):
    if isinstance(x, real_np.ndarray):
        if x.dtype == obj:
            return plain(x)
        return x.astype(obj) if x.dtype.kind not in 'f' else plain(to_sym(x))
    if hasattr(x, '_symarr'):
        return plain(x._symarr())
    if isinstance(x, (list, tuple)):
        return as_obj(asarr(x))
    o = real_np.empty((), dtype=obj)
    o[()] = x
    return o


def finish(r, name, out=None, scalar=False):
    if not isinstance(r, real_np.ndarray):
        if name in BOOL_OUT:
            return real_np.bool_(r)
        s = Sym.of(r)
        return r if s is None else s
    if name in BOOL_OUT:
        r = r.astype(bool)
    else:
        r = r.view(SymArray)
    if r.ndim == 0 and scalar:
        return finish(r[()], name)
    return r


def array_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.get('out')
    if isinstance(out, tuple):
        out = out[0]
    where = kw.get('where', True)
    if method == '__call__':
        if name == 'matmul':
            return wrap(real_np.dot(as_obj(inputs[0]), as_obj(inputs[1]))) if max(real_np.ndim(i) for i in inputs) <= 2 else _unsup('matmul')
        if name == 'clip':
            return OVERRIDES['clip'](*inputs)
        if name in ('modf', 'divmod', 'frexp'):
            raise Unsupported(name)
        f = pyfunc(name, ufunc.nin)
        objs = [as_obj(x) for x in inputs]
        if where is not True:
            w = tobool(where)
            bs = real_np.broadcast_arrays(*(objs + [w]))
            w = bs[-1]
            if out is None:
                res = real_np.empty(w.shape, dtype=obj)
                res[...] = Sym.of(0)
            else:
                res = plain(out)
            g = (U1 if ufunc.nin == 1 else U2)[name]
            for idx in real_np.ndindex(*w.shape):
                if w[idx]:
                    res[idx] = g(*[b[idx] for b in bs[:-1]])
            return out if out is not None else finish(res, name, scalar=True)
        r = f(*objs)
        if out is not None:
            if isinstance(out, real_np.ndarray) and out.dtype.kind == 'f':
                raise Unsupported('out= native float array')
            real_np.ndarray.__setitem__(out, Ellipsis, r)
            return out
        return finish(r, name, scalar=True)
    a = asarr(inputs[0])
    if method == 'reduce':
        axis = kw.get('axis', 0)
        keep = kw.get('keepdims', False)
        if where is not True and where is not real_np._NoValue:
            raise Unsupported('reduce where')
        if name == 'add':
            return OVERRIDES['sum'](a, axis=axis, keepdims=keep)
        if name == 'multiply':
            return OVERRIDES['prod'](a, axis=axis, keepdims=keep)
        if name == 'maximum':
            return OVERRIDES['max'](a, axis=axis, keepdims=keep)
        if name == 'minimum':
            return OVERRIDES['min'](a, axis=axis, keepdims=keep)
        if name in ('logical_and', 'logical_or'):
            b = tobool(a)
            return (b.all if name == 'logical_and' else b.any)(axis=axis, keepdims=keep)
    if method == 'accumulate' and name == 'add':
        return OVERRIDES['cumsum'](a, axis=kw.get('axis', 0))
    if method == 'outer':
        x, y = as_obj(inputs[0]), as_obj(inputs[1])
        f = pyfunc(name, 2)
        return finish(f(x.reshape(x.shape + (1,) * y.ndim), y), name)
    if method == 'at' and name in ('add', 'subtract'):
        arr, idx = inputs[0], inputs[1]
        val = as_obj(inputs[2])
        if isinstance(idx, tuple):
            raise Unsupported('ufunc.at')
        idx = real_np.asarray(fix_index(idx))
        val = real_np.broadcast_to(val, idx.shape + arr.shape[1:])
        for k, i in enumerate(idx):
            arr[i] = arr[i] + val[k] if name == 'add' else arr[i] - val[k]
        return None
    raise Unsupported('ufunc %s.%s' % (name, method))


def _unsup(n):
    raise Unsupported(n)


# ------------------------------------------------------- function overrides

OVERRIDES = {}


def ov(f):
    OVERRIDES[f.__name__.strip('_')] = f
    return f


def reduce_axis(a, axis, keepdims, fn):
    """apply fn(list of elements) along axis"""
    a = asarr(a)
    b = plain(a)
    if axis is None:
        r = fn(list(b.reshape(-1)))
        if keepdims:
            o = real_np.empty((1,) * b.ndim, dtype=obj)
            o.reshape(-1)[0] = r
            return wrap(o)
        return r
    if isinstance(axis, (tuple, list)):
        axes = [ax % b.ndim for ax in axis]
    else:
        axes = [int(axis) % b.ndim]
        if int(axis) >= b.ndim or int(axis) < -b.ndim:
            raise real_np.AxisError(int(axis), b.ndim)
    keep = [i for i in range(b.ndim) if i not in axes]
    t = b.transpose(keep + axes)
    shp = [b.shape[i] for i in keep]
    out = real_np.empty(shp, dtype=obj)
    for idx in real_np.ndindex(*shp):
        out[idx] = fn(list(t[idx].reshape(-1)))
    if keepdims:
        out = out.reshape([1 if i in axes else b.shape[i] for i in range(b.ndim)])
    if out.ndim == 0:
        return out[()]
    return wrap(out)


def native(a):
    return isinstance(a, real_np.ndarray) and a.dtype.kind in 'iub'


def ssum(xs):
    r = Sym.of(0)
    # balanced to keep common denominators small
    for x in xs:
        r = r + x
    return r


def nanfilter(xs):
    return [x for x in xs if not _isnan(x)]


def smean(xs):
    if not xs:
        return Sym.of(float('nan'))
    return ssum(xs) / len(xs)


def svar(xs, ddof=0):
    n = len(xs)
    if n - ddof <= 0:
        return Sym.of(float('nan'))
    m = smean([sy(x) for x in xs])
    return ssum([(x - m) * (x - m) for x in xs]) / (n - ddof)


def _keep(k):
    return bool(k) if k is not real_np._NoValue else False


def _where(where, a):
    if where is True or where is real_np._NoValue:
        return None
    return real_np.broadcast_to(tobool(where), asarr(a).shape)


def red(name, fn, nan=False):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, *, initial=None, where=True, **k):
        a = asarr(a)
        if native(a):
            return wrap(getattr(real_np, name)(a, axis=axis, keepdims=_keep(keepdims)))
        w = _where(where, a)
        if w is not None:
            sent = object()
            b = plain(a).copy()
            for idx in real_np.ndindex(*b.shape):
                if not w[idx]:
                    b[idx] = sent
            g = lambda xs: fn([x for x in xs if x is not sent])
            return reduce_axis_raw(b, axis, _keep(keepdims), g)
        g = fn
        if nan:
            g = lambda xs: fn(nanfilter(xs))
        r = reduce_axis(a, axis, _keep(keepdims), g)
        if initial is not None and initial is not real_np._NoValue:
            r = {'sum': lambda: r + initial, 'max': lambda: maximum_(r, initial),
                 'min': lambda: minimum_(r, initial)}.get(name, lambda: _unsup('initial'))()
        return r
    OVERRIDES[name] = f
    return f


def reduce_axis_raw(b, axis, keepdims, fn):
    if axis is None:
        return fn(list(b.reshape(-1)))
    t = real_np.moveaxis(b, axis, -1)
    out = real_np.empty(t.shape[:-1], dtype=obj)
    for idx in real_np.ndindex(*t.shape[:-1]):
        out[idx] = fn(list(t[idx]))
    if keepdims:
        out = real_np.expand_dims(out, axis)
    return out[()] if out.ndim == 0 else wrap(out)


def smax(xs):
    if not xs:
        raise ValueError('zero-size array to reduction operation maximum which has no identity')
    r = sy(xs[0])
    for x in xs[1:]:
        r = _max(r, x)
    return r


def smin(xs):
    if not xs:
        raise ValueError('zero-size array to reduction operation minimum which has no identity')
    r = sy(xs[0])
    for x in xs[1:]:
        r = _min(r, x)
    return r


def snanmax(xs):
    ys = nanfilter(xs)
    return smax(ys) if ys else Sym.of(float('nan'))


def snanmin(xs):
    ys = nanfilter(xs)
    return smin(ys) if ys else Sym.of(float('nan'))


def sprod(xs):
    r = Sym.of(1)
    for x in xs:
        r = r * x
    return r


red('sum', ssum)
red('nansum', ssum, nan=True)
red('prod', sprod)
red('nanprod', sprod, nan=True)
red('mean', smean)
red('nanmean', smean, nan=True)
red('max', smax)
red('min', smin)
OVERRIDES['amax'] = OVERRIDES['max']
OVERRIDES['amin'] = OVERRIDES['min']
red('nanmax', snanmax)
red('nanmin', snanmin)


def maximum_(a, b):
    return array_ufunc(real_np.maximum, '__call__', (a, b), {})


def minimum_(a, b):
    return array_ufunc(real_np.minimum, '__call__', (a, b), {})


def ssort(xs):
    """insertion sort by forking comparisons, nan last"""
    nans = [x for x in xs if _isnan(x)]
    out = []
    for x in xs:
        if _isnan(x):
            continue
        k = len(out)
        while k > 0 and x < out[k - 1]:
            k -= 1
        out.insert(k, x)
    return out + nans


def sargsort(xs):
    out = []
    nans = [i for i, x in enumerate(xs) if _isnan(x)]
    for i, x in enumerate(xs):
        if _isnan(x):
            continue
        k = len(out)
        while k > 0 and x < xs[out[k - 1]]:
            k -= 1
        out.insert(k, i)
    return out + nans


def smedian(xs):
    if not xs:
        return Sym.of(float('nan'))
    if any(_isnan(x) for x in xs):
        return Sym.of(float('nan'))
    s = ssort(xs)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


red('median', smedian)
red('nanmedian', smedian, nan=True)


def vred(name, post, nan):
    def f(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, *, where=True, **k):
        a = asarr(a)
        w = _where(where, a)
        if w is not None:
            raise Unsupported(name + ' where')
        g = (lambda xs: post(svar(nanfilter(xs), ddof))) if nan else (lambda xs: post(svar(xs, ddof)))
        return reduce_axis(a, axis, _keep(keepdims), g)
    OVERRIDES[name] = f


vred('var', lambda v: v, False)
vred('std', S.sqrt, False)
vred('nanvar', lambda v: v, True)
vred('nanstd', S.sqrt, True)


@ov
def any_(a, axis=None, out=None, keepdims=False, **k):
    return tobool(a).any(axis=axis, keepdims=_keep(keepdims))


@ov
def all_(a, axis=None, out=None, keepdims=False, **k):
    return tobool(a).all(axis=axis, keepdims=_keep(keepdims))


@ov
def average(a, axis=None, weights=None, returned=False, **k):
    a = asarr(a)
    if weights is None:
        return OVERRIDES['mean'](a, axis=axis)
    w = asarr(weights)
    if w.shape != a.shape:
        if axis is None or w.ndim != 1:
            raise TypeError('1D weights expected')
        w = real_np.broadcast_to(w, (a.ndim - 1) * (1,) + w.shape)
        w = w.swapaxes(-1, axis)
    num = OVERRIDES['sum'](a * w, axis=axis)
    den = OVERRIDES['sum'](asarr(w) * ones(a.shape), axis=axis)
    r = num / den
    return (r, den) if returned else r


@ov
def cumsum(a, axis=None, **k):
    a = asarr(a)
    if native(a):
        return real_np.cumsum(a, axis=axis)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    t = real_np.moveaxis(plain(a).copy(), axis, 0)
    for i in range(1, t.shape[0]):
        t[i] = t[i - 1] + t[i]
    return wrap(real_np.moveaxis(t, 0, axis))


@ov
def where(c, x=None, y=None):
    cb = tobool(c)
    if x is None and y is None:
        return real_np.where(cb)
    r = real_np.where(cb, as_obj(asarr(x)), as_obj(asarr(y)))
    return wrap(r)


@ov
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    a = asarr(x)
    f = real_np.frompyfunc(lambda e: Sym.of(nan) if _isnan(e) else (
        Sym.of(1.7976931348623157e308 if posinf is None else posinf) if sy(e).kind == S.PINF else (
            Sym.of(-1.7976931348623157e308 if neginf is None else neginf) if sy(e).kind == S.NINF else e)), 1, 1)
    return finish(f(plain(a)), 'x', scalar=True)


@ov
def clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get('min', a_min)
    a_max = k.get('max', a_max)
    r = asarr(a)
    if a_min is not None:
        r = maximum_(r, a_min)
    if a_max is not None:
        r = minimum_(r, a_max)
    if r.__class__ is SymArray and r.ndim == 0:
        return r[()]
    return r


@ov
def sort(a, axis=-1, **k):
    a = asarr(a)
    if native(a):
        return real_np.sort(a, axis=axis)
    t = real_np.moveaxis(plain(a).copy(), axis, -1)
    for idx in real_np.ndindex(*t.shape[:-1]):
        xs = ssort(list(t[idx]))
        for i, x in enumerate(xs):
            t[idx + (i,)] = x
    return wrap(real_np.moveaxis(t, -1, axis))


@ov
def argsort(a, axis=-1, **k):
    a = asarr(a)
    if native(a):
        return real_np.argsort(a, axis=axis)
    t = real_np.moveaxis(plain(a), axis, -1)
    out = real_np.zeros(t.shape, dtype=int)
    for idx in real_np.ndindex(*t.shape[:-1]):
        out[idx] = sargsort(list(t[idx]))
    return real_np.moveaxis(out, -1, axis)


def arg_ext(xs, better, skipnan=False):
    best = None
    for i, x in enumerate(xs):
        if _isnan(x):
            if skipnan:
                continue
            return i
        if best is None or better(x, xs[best]):
            best = i
    if best is None:
        raise ValueError('All-NaN slice encountered')
    return best


def argx(name, better, skip):
    def f(a, axis=None, out=None, **k):
        a = asarr(a)
        if native(a):
            return getattr(real_np, name)(a, axis=axis)
        if axis is None:
            return arg_ext(list(plain(a).reshape(-1)), better, skip)
        t = real_np.moveaxis(plain(a), axis, -1)
        out = real_np.zeros(t.shape[:-1], dtype=int)
        for idx in real_np.ndindex(*t.shape[:-1]):
            out[idx] = arg_ext(list(t[idx]), better, skip)
        return out
    OVERRIDES[name] = f


argx('argmax', lambda a, b: a > b, False)
argx('argmin', lambda a, b: a < b, False)
argx('nanargmax', lambda a, b: a > b, True)
argx('nanargmin', lambda a, b: a < b, True)


@ov
def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = asarr(a)
    if native(a) or a.dtype.kind in 'US':
        return real_np.unique(a, return_index, return_inverse, return_counts, axis)
    if axis is not None or return_index:
        raise Unsupported('unique')
    flat = list(plain(a).reshape(-1))
    out = []
    for x in ssort(flat):
        if not out or not (out[-1] == x):
            out.append(x)
    res = asarr(out) if out else zeros(0)
    extra = []
    if return_inverse:
        inv = []
        for x in flat:
            for i, u in enumerate(out):
                if u == x:
                    inv.append(i)
                    break
        extra.append(real_np.array(inv, dtype=int))
    if return_counts:
        extra.append(real_np.array([sum_py(1 for x in flat if x == u) for u in out], dtype=int))
    return (res,) + tuple(extra) if extra else res


def sum_py(g):
    n = 0
    for x in g:
        n += x
    return n


@ov
def percentile(a, q, axis=None, **k):
    if k.get('method', k.get('interpolation', 'linear')) not in ('linear', None):
        raise Unsupported('percentile method')

    def one(xs, qq):
        if any_nan(xs):
            return Sym.of(float('nan'))
        s = ssort(xs)
        n = len(s)
        c = sy(qq).const()
        pos = c / 100 * (n - 1)
        i = math.floor(pos)
        fr = pos - i
        if i >= n - 1:
            return sy(s[n - 1])
        return s[i] + (s[i + 1] - s[i]) * Sym.of(fr)
    if real_np.ndim(q) == 0:
        return reduce_axis(a, axis, False, lambda xs: one(xs, q))
    return wrap_list([reduce_axis(a, axis, False, lambda xs, qq=qq: one(xs, qq)) for qq in list(q)])


@ov
def quantile(a, q, axis=None, **k):
    if real_np.ndim(q) == 0:
        return percentile(a, sy(q) * 100, axis, **k)
    return percentile(a, [sy(x) * 100 for x in q], axis, **k)


def any_nan(xs):
    for x in xs:
        if _isnan(x):
            return True
    return False


def wrap_list(xs):
    return asarr([x for x in xs])


@ov
def diff(a, n=1, axis=-1, **k):
    a = asarr(a)
    if native(a):
        return real_np.diff(a, n=n, axis=axis)
    for _ in range(n):
        sl1 = [slice(None)] * a.ndim
        sl2 = [slice(None)] * a.ndim
        sl1[axis] = slice(1, None)
        sl2[axis] = slice(None, -1)
        a = a[tuple(sl1)] - a[tuple(sl2)]
    return a


@ov
def dot(a, b, out=None):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    r = real_np.dot(as_obj(a), as_obj(b))
    return wrap(r) if isinstance(r, real_np.ndarray) else sy(r)


OVERRIDES['matmul'] = dot
OVERRIDES['inner'] = lambda a, b: dot(a, asarr(b).T)
OVERRIDES['vdot'] = lambda a, b: dot(asarr(a).ravel(), asarr(b).ravel())


@ov
def outer(a, b, out=None):
    return array_ufunc(real_np.multiply, 'outer', (asarr(a).ravel(), asarr(b).ravel()), {})


@ov
def einsum(sub, *ops, **k):
    if '->' not in sub:
        raise Unsupported('einsum implicit')
    ins, outs = sub.replace(' ', '').split('->')
    ins = ins.split(',')
    ops = [as_obj(asarr(o)) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dims[c] = n
    rest = [c for c in dims if c not in outs]
    out = real_np.empty([dims[c] for c in outs], dtype=obj)
    for idx in real_np.ndindex(*out.shape):
        env = dict(zip(outs, idx))
        tot = Sym.of(0)
        for ridx in itertools.product(*[range(dims[c]) for c in rest]):
            env.update(zip(rest, ridx))
            t = Sym.of(1)
            for s, o in zip(ins, ops):
                t = t * o[tuple(env[c] for c in s)]
            tot = tot + t
        out[idx] = tot
    return wrap(out) if out.ndim else out[()]


@ov
def corrcoef(x, y=None, rowvar=True, **k):
    c = cov(x, y, rowvar)
    d = asarr([c[i, i] for i in range(c.shape[0])])
    sd = array_ufunc(real_np.sqrt, '__call__', (d,), {})
    return c / sd[:, None] / sd[None, :]


@ov
def cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    X = asarr(m)
    if X.ndim == 1:
        X = X.reshape(1, -1)
    elif not rowvar:
        X = X.T
    if y is not None:
        Y = asarr(y)
        X = wrap(real_np.concatenate([as_obj(X), as_obj(Y.reshape(1, -1) if Y.ndim == 1 else Y)], axis=0))
    if ddof is None:
        ddof = 0 if bias else 1
    X = to_sym_mixed(as_obj(X))
    X = X - OVERRIDES['mean'](X, axis=1)[:, None]
    return dot(X, X.T) / (X.shape[1] - ddof)


@ov
def array_equal(a, b, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        if _isnan(x) and _isnan(y):
            if equal_nan:
                continue
            return False
        if not (x == y):
            return False
    return True


@ov
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = asarr(a), asarr(b)
    d = abs(a - b) if has_sym([a, b]) else abs(to_sym(a) - b)
    return d <= (atol + rtol * abs(b))


@ov
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    # used as a convergence test: same treatment as comparison with a tiny threshold
    a, b = asarr(a), asarr(b)
    d = a - b
    if real_np.all([sy(x).const() is not None for x in real_np.ravel(as_obj(d))]):
        return bool(real_np.all(isclose(a, b, rtol, atol, equal_nan)))
    return S.conv_test({-1})


@ov
def isscalar(x):
    return isinstance(x, Sym) or real_np.isscalar(x)


@ov
def round_(a, decimals=0, out=None):
    a = asarr(a)
    if native(a):
        return real_np.round(a, decimals)
    f = real_np.frompyfunc(lambda e: e if sy(e).kind else (Sym.of(real_np.round(float(sy(e).const()), decimals)) if sy(e).const() is not None else _unsup('round')), 1, 1)
    return finish(f(plain(a)), 'x', scalar=True)


OVERRIDES['around'] = round_
OVERRIDES['round_'] = round_


@ov
def count_nonzero(a, axis=None, **k):
    return real_np.count_nonzero(tobool(a), axis=axis)


@ov
def nonzero(a):
    return tobool(a).nonzero()


OVERRIDES['flatnonzero'] = lambda a: tobool(a).ravel().nonzero()[0]


@ov
def argwhere(a):
    return real_np.argwhere(tobool(a))


@ov
def isin(a, b, **k):
    a = asarr(a)
    bl = list(real_np.ravel(as_obj(asarr(b))))
    if native(a) and not has_sym(bl):
        return real_np.isin(a, bl, **k)
    f = real_np.frompyfunc(lambda e: builtins_any(e, bl), 1, 1)
    r = f(as_obj(a)).astype(bool)
    return ~r if k.get('invert') else r


OVERRIDES['in1d'] = isin


def builtins_any(e, bl):
    for x in bl:
        if e == x:
            return True
    return False


@ov
def apply_along_axis(fn, axis, arr, *args, **kw):
    a = asarr(arr)
    t = real_np.moveaxis(a, axis, -1)
    res = {}
    for idx in real_np.ndindex(*t.shape[:-1]):
        res[idx] = fn(t[idx], *args, **kw)
    first = asarr(next(iter(res.values())))
    out = real_np.empty(t.shape[:-1] + first.shape, dtype=obj)
    for idx, v in res.items():
        out[idx] = as_obj(v) if first.shape else v
    if first.shape:
        out = real_np.moveaxis(out, -1, axis)
    return wrap(out)


@ov
def copy(a, **k):
    a = asarr(a)
    return a.copy()


@ov
def vectorize(pyfunc=None, otypes=None, doc=None, excluded=None, cache=False, signature=None):
    if pyfunc is None:
        raise Unsupported('vectorize decorator')

    def f(*args):
        objs = [as_obj(x) for x in args]
        r = real_np.frompyfunc(pyfunc, len(args), 1)(*objs)
        return finish(r, 'x', scalar=True) if has_float(r) else r
    return f


def has_float(r):
    return True


@ov
def histogram(*a, **k):
    raise Unsupported('histogram')


@ov
def searchsorted(a, v, side='left', sorter=None):
    a = asarr(a)

    def one(x):
        n = 0
        for e in a:
            if (e < x) if side == 'left' else (e <= x):
                n += 1
            else:
                break
        return n
    if real_np.ndim(v) == 0:
        return one(v)
    return real_np.array([one(x) for x in v], dtype=int)


@ov
def interp(*a, **k):
    raise Unsupported('interp')


@ov
def trapz(y, x=None, dx=1.0, axis=-1):
    y = asarr(y)
    if x is None:
        d = dx
    else:
        d = diff(asarr(x))
    return OVERRIDES['sum'](d * (y[1:] + y[:-1]) / 2.0)


@ov
def real(a):
    return a


@ov
def size(a, axis=None):
    a = asarr(a)
    return a.size if axis is None else a.shape[axis]


@ov
def shape(a):
    return shape_of(a) if shape_of(a) is not None else real_np.shape(a)


@ov
def ndim(a):
    return asarr(a).ndim


# ---------------------------------------------------------------- creation

def filled(shape, val):
    o = real_np.empty(shape if not isinstance(shape, list) else tuple(int(x) for x in shape), dtype=obj)
    s = Sym.of(val)
    o.fill(s)
    return o.view(SymArray)


def creator(name, val):
    def f(shape, dtype=None, order='C', **k):
        if isinstance(shape, Sym):
            shape = int(shape)
        if dtype is not None and not is_float_t(dtype):
            return getattr(real_np, name)(shape, dtype=map_dtype(dtype))
        return filled(shape, val)
    f.__name__ = name
    return f


def map_dtype(d):
    n = getattr(d, '__name__', None)
    if n == 'int':
        return real_np.int64
    if n == 'bool':
        return real_np.bool_
    if n == 'float':
        return None
    return d


zeros = creator('zeros', 0)
ones = creator('ones', 1)
empty = creator('empty', 0)


def full(shape, fill_value, dtype=None, **k):
    if dtype is not None and not is_float_t(dtype):
        return real_np.full(shape, fill_value, dtype=map_dtype(dtype))
    if dtype is None and isinstance(fill_value, (bool, int, real_np.integer, real_np.bool_, str)):
        return real_np.full(shape, fill_value)
    if isinstance(fill_value, (real_np.ndarray, list)):
        o = filled(shape, 0)
        o[...] = fill_value
        return o
    return filled(shape, fill_value)


def like(fn, name, val):
    def f(a, dtype=None, order='K', subok=True, shape=None, **k):
        arr = asarr(a)
        shp = arr.shape if shape is None else shape
        if dtype is not None and not is_float_t(dtype):
            return getattr(real_np, name)(shp, dtype=map_dtype(dtype))
        if dtype is None and native(arr):
            return getattr(real_np, name)(shp, dtype=arr.dtype)
        return filled(shp, val)
    return f


def full_like(a, fill_value, dtype=None, **k):
    arr = asarr(a)
    if dtype is None and native(arr):
        return real_np.full_like(arr, fill_value)
    return full(arr.shape, fill_value, dtype if dtype is not None else real_np.float64)


def array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0, **k):
    if dtype is not None and not is_float_t(dtype):
        d = map_dtype(dtype)
        if has_sym(x):
            return asarr(x).astype(d)
        return real_np.array(x, dtype=d, ndmin=ndmin)
    a = asarr(x)
    if dtype is not None and a.dtype.kind in 'US':
        a = to_sym(a)
        if any(isinstance(t, str) for t in plain(a).reshape(-1)):
            raise ValueError('could not convert string to float')
    if dtype is not None and native(a):
        a = to_sym(a)
    if a is x and copy:
        a = a.copy()
    if ndmin > a.ndim:
        a = a.reshape((1,) * (ndmin - a.ndim) + a.shape)
    return a


def asarray(x, dtype=None, **k):
    return array(x, dtype=dtype, copy=False)


def arange(*a, **k):
    a = [int(x) if isinstance(x, Sym) and x.const() is not None and x.const().denominator == 1 else (float(x) if isinstance(x, Sym) else x) for x in a]
    return wrap(real_np.arange(*a, **k))


CREATE = {
    'zeros': zeros, 'ones': ones, 'empty': empty, 'full': full,
    'zeros_like': like(zeros, 'zeros', 0), 'ones_like': like(ones, 'ones', 1),
    'empty_like': like(empty, 'zeros', 0), 'full_like': full_like,
    'array': array, 'asarray': asarray, 'asanyarray': asarray,
    'ascontiguousarray': asarray, 'arange': arange,
    'copy': copy,
}


def conv_args(x):
    if isinstance(x, (list, tuple)) and has_sym(x):
        # sequences of arrays (hstack, concatenate) keep their structure
        return type(x)([conv_args(e) for e in x]) if type(x) in (list, tuple) else x
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymArray):
        return x
    if hasattr(x, '_symarr'):
        return x._symarr()
    return x


SEQ_FUNCS = {'hstack', 'vstack', 'dstack', 'stack', 'concatenate', 'column_stack', 'block', 'append', 'insert'}


def wrap_func(name, f):
    def g(*args, **kw):
        if name in SEQ_FUNCS:
            args = tuple([asarr(e) for e in a] if isinstance(a, (list, tuple)) and k == 0 else a
                         for k, a in enumerate(args))
            args = tuple(asarr(a) if isinstance(a, (Sym,)) else a for a in args)
            if isinstance(args[0], (list, tuple)) and real_np.any([isinstance(a, SymArray) for a in args[0]]):
                args = ([a if isinstance(a, SymArray) else to_sym(a) for a in args[0]],) + args[1:]
        else:
            args = tuple(asarr(a) if isinstance(a, (list, tuple)) and has_sym(a) or hasattr(a, '_symarr')
                         or isinstance(a, (map, filter, types.GeneratorType))
                         else (asarr(a) if isinstance(a, Sym) else a) for a in args)
        kw = {k: (asarr(v) if isinstance(v, (list, tuple)) and has_sym(v) else v) for k, v in kw.items()}
        return wrap(f(*args, **kw))
    g.__name__ = name
    g.__wrapped__ = f
    return g


class Errstate(object):
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


class NumpyProxy(types.ModuleType):
    def __init__(self, linalg, random):
        super().__init__('numpy')
        self.__dict__['_cache'] = {}
        self.__dict__['linalg'] = linalg
        self.__dict__['random'] = random
        self.__dict__['errstate'] = Errstate
        self.__dict__['seterr'] = lambda **k: {}
        self.__dict__['ndarray'] = real_np.ndarray
        self.__dict__['vectorize'] = vectorize

    def __getattr__(self, name):
        c = self.__dict__['_cache']
        if name in c:
            return c[name]
        if name in CREATE:
            r = CREATE[name]
        elif name in OVERRIDES:
            r = OVERRIDES[name]
        else:
            v = getattr(real_np, name)
            if isinstance(v, real_np.ufunc):
                r = UfuncProxy(v)
            elif isinstance(v, type) or not callable(v) or isinstance(v, types.ModuleType):
                if isinstance(v, type) and issubclass(v, real_np.floating):
                    r = FloatType(v)
                else:
                    r = v
            else:
                r = wrap_func(name, v)
        c[name] = r
        return r


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Sym, real_np.floating)) and not (isinstance(x, Sym) and False)


def FloatType(v):
    class F(metaclass=_FloatMeta):
        __name__ = v.__name__

        def __new__(cls, x=0.0):
            if isinstance(x, (list, tuple, real_np.ndarray)):
                return asarray(x, dtype=float)
            return Sym.of(x)
    F.dtype = real_np.dtype(v)
    F.__name__ = v.__name__
    return F


class UfuncProxy(object):
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__
        self.nin = u.nin

    def __call__(self, *a, **k):
        ins = a[:self.u.nin]
        if len(a) > self.u.nin:
            k['out'] = a[self.u.nin]
        k.pop('dtype', None)
        if self._native(ins) and 'out' not in k and 'where' not in k:
            return wrap(self.u(*ins, **k)) if self.__name__ in INT_NATIVE else array_ufunc(self.u, '__call__', ins, k)
        return array_ufunc(self.u, '__call__', ins, k)

    def _native(self, ins):
        for x in ins:
            if isinstance(x, (int, bool, real_np.integer, real_np.bool_)):
                continue
            if isinstance(x, real_np.ndarray) and x.dtype.kind in 'iub':
                continue
            return False
        return True

    def reduce(self, a, **k):
        a = asarr(a)
        if native(a):
            return self.u.reduce(a, **k)
        return array_ufunc(self.u, 'reduce', (a,), k)

    def accumulate(self, a, **k):
        a = asarr(a)
        return array_ufunc(self.u, 'accumulate', (a,), k)

    def outer(self, a, b, **k):
        return array_ufunc(self.u, 'outer', (a, b), k)

    def at(self, *a):
        if isinstance(a[0], SymArray):
            return array_ufunc(self.u, 'at', a, {})
        return self.u.at(*a)


INT_NATIVE = {'add', 'subtract', 'multiply', 'mod', 'remainder', 'floor_divide',
              'logical_not', 'logical_and', 'logical_or', 'logical_xor', 'invert', 'bitwise_and',
              'bitwise_or', 'bitwise_xor', 'maximum', 'minimum', 'absolute',
              'greater', 'less', 'greater_equal', 'less_equal', 'equal', 'not_equal',
              'isnan', 'isfinite', 'isinf', 'negative', 'sign', 'square', 'power', 'left_shift', 'right_shift'}


# ---------------------------------------------------------------- linalg

def norm(a, ord=None, axis=None, **k):
    v = norm0(a, ord, axis, **k)
    E = Engine.cur
    if E is not None and E.it_state is not None and sy(v).const() is not None:
        # a known change: same rule as in the concrete context
        return ConvFloat.make(float(v), E.it_state)
    return v


def norm0(a, ord=None, axis=None, **k):
    a = asarr(a)
    if native(a):
        a = to_sym(a)
    if axis is not None or ord not in (None, 2, 1, real_np.inf, 'fro') or (ord == 2 and a.ndim > 1):
        raise Unsupported('norm')
    xs = list(plain(a).reshape(-1))
    if ord == 1:
        return ssum([abs(x) for x in xs])
    if ord == real_np.inf:
        return smax([abs(x) for x in xs])
    if any_nan(xs):
        return Sym.of(float('nan'))
    E = Engine.cur
    if all_const(xs) or len(xs) == 1:
        return S.sqrt(ssum([x * x for x in xs]))
    work = 0
    for x in xs:
        x = sy(x)
        work += len(x.num) ** 2 if x.kind == 0 else 0
        if x.den:
            work += 10000
    if work <= 4000:
        t = ssum([x * x for x in xs])
        if t.kind == 0 and t.const() is None and not t.den:
            q, k = S.canon(t.num)
            key = S.p_key(q)
            E.known[key] = E.sign_info(q) & ({0, 1} if k > 0 else {-1, 0})
        return S.sqrt(t)
    # large: in the code under test this only feeds a convergence test; a
    # fresh non-negative quantity over-approximates it
    at = E.new_atom('norm', 'norm', ssum_lazy(xs))
    E.nn_ids.add(at.id)
    E.add_z(at.z >= 0, [at.id])
    return Sym.atom(at)


def ssum_lazy(xs):
    return Lazy(xs)


class Lazy(object):
    def __init__(self, xs):
        self.xs = xs


def all_const(xs):
    for x in xs:
        if sy(x).const() is None:
            return False
    return True


def conc(a):
    """concrete float array or Unsupported"""
    a = asarr(a)
    b = as_obj(a)
    out = real_np.empty(b.shape)
    for idx in real_np.ndindex(*b.shape):
        s = sy(b[idx])
        c = s.const()
        if c is None and not s.kind:
            raise Unsupported('symbolic matrix in linear algebra')
        out[idx] = float(s)
    return out


def pinv(a, **k):
    a = asarr(a)
    if a.ndim == 2 and a.shape[0] == a.shape[1] and not native(a):
        try:
            return inv(a)
        except real_np.linalg.LinAlgError:
            pass
    if a.ndim == 2 and a.shape[0] > a.shape[1]:
        m = conc(a)
        if real_np.linalg.matrix_rank(m) == a.shape[1]:      # full column rank: exact left inverse
            t = asarr(a).T
            return dot(inv(dot(t, a)), t)
    return snap(real_np.linalg.pinv(conc(a)))


def snap(m):
    """double matrix -> SymArray; values that are within 1e-12 of a rational
    with a small denominator are read as that rational"""
    from fractions import Fraction
    o = real_np.empty(m.shape, dtype=obj)
    for idx in real_np.ndindex(*m.shape):
        v = float(m[idx])
        f = Fraction(v).limit_denominator(5000)
        if abs(float(f) - v) < 1e-12:
            o[idx] = Sym.of(f)
        else:
            o[idx] = Sym.of(v)
    return o.view(SymArray)


def solve(a, b, **k):
    A = [[sy(x) for x in row] for row in as_obj(asarr(a))]
    B = as_obj(asarr(b))
    vec = B.ndim == 1
    Bm = [[sy(x)] for x in B] if vec else [[sy(x) for x in row] for row in B]
    n = len(A)
    for c in range(n):
        p = None
        for r in range(c, n):
            if A[r][c].const() not in (None, 0) or (A[r][c].const() is None and not A[r][c].sign_is({0})):
                p = r
                break
        if p is None:
            raise real_np.linalg.LinAlgError('Singular matrix')
        A[c], A[p] = A[p], A[c]
        Bm[c], Bm[p] = Bm[p], Bm[c]
        for r in range(n):
            if r != c:
                f = A[r][c] / A[c][c]
                A[r] = [x - f * y for x, y in zip(A[r], A[c])]
                Bm[r] = [x - f * y for x, y in zip(Bm[r], Bm[c])]
    X = [[x / A[c][c] for x in Bm[c]] for c in range(n)]
    return asarr([x[0] for x in X]) if vec else asarr(X)


def inv(a, **k):
    a = asarr(a)
    n = a.shape[0]
    return solve(a, real_np.eye(n).astype(int))


def lstsq(a, b, rcond=None, **k):
    if not (rcond is None or rcond == 'warn' or rcond <= 1e-8 or rcond >= 1):     # LAPACK: <= 0 or >= 1 is machine precision
        raise Unsupported('lstsq rcond')
    a = asarr(a)
    if not native(a) and a.shape[0] >= a.shape[1]:
        t = a.T
        return solve(dot(t, a), dot(t, b)), None, None, None
    return dot(pinv(a), b), None, None, None


class LinalgProxy(types.ModuleType):
    def __init__(self, real_mod):
        super().__init__(real_mod.__name__)
        self._real = real_mod
        self.norm = norm
        self.pinv = pinv
        self.solve = solve
        self.inv = inv
        self.lstsq = lstsq
        self.pinv2 = pinv

    def __getattr__(self, n):
        f = getattr(self.__dict__['_real'], n)
        if isinstance(f, type) or not callable(f):
            return f

        def g(*a, **k):
            return wrap(f(*[conc(x) if isinstance(x, (SymArray, list)) else x for x in a], **k))
        return g
