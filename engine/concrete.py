"""Concrete side: runs a harness on the real code with real numpy.
Used (a) to replay solver counterexamples, (b) to validate the encoding."""
import io
import json
import math
import os
import random
import sys
import traceback
import warnings


class Skip(BaseException):
    pass


class ConcCtx(object):
    symbolic = False

    def __init__(self, values, seed=0, tol=1e-6, search=False):
        import numpy as np
        self._np = np
        self.np = np
        self.values = dict(values)
        self.used = {}
        self.undo = []
        self.rng = random.Random(seed)
        self.ndraw = 0
        self.seed_log = []
        self.choice_log = []
        self._replay = None
        self._boxes = {}
        self.json = json
        self.fails = []
        self.observed = []
        self.tol = tol
        self.nan = np.float64('nan')
        self.inf = np.float64('inf')
        self.opt_calls = []
        self.reached = 0
        self.search = search

    def real(self, name, lo, hi):
        v = self.values.get(name)
        if v is None:
            v = self.rng.uniform(lo, hi)
            if self.search and self.rng.random() < 0.5:
                v = min(max(float(round(v)), lo), hi)
        v = float(v)
        self.used[name] = v
        return self._np.float64(v)

    def text(self, x):
        return repr(float(x))

    def script(self, path):
        import types
        path = os.path.join(os.environ.get('VERIF_REPO', '/repo'), path)
        m = types.ModuleType('script')
        m.__file__ = path
        with open(path) as f:
            exec(compile(f.read(), path, 'exec'), m.__dict__)
        return m

    def flag(self, name):
        return bool(self.choice(name, 2))

    def choice(self, name, n):
        if isinstance(n, (list, tuple)):
            return n[self.choice(name, len(n))]
        v = self.values.get(name)
        if v is None:
            if name in self.used:
                return self.used[name]
            v = self.rng.randrange(n)
        v = int(v)
        if v >= n:
            raise Skip('choice range')
        self.used[name] = v
        return v

    def replay_seeds(self):
        """from now on draws are a function of the latest seed, the kind of draw and its position since seeding"""
        self._replay = [None, {}, {}]

    def on_seed(self, a):
        self.seed_log.append((self.ndraw, a))
        if self._replay is not None:
            self._replay[0], self._replay[1] = a, {}

    def _draw_name(self, tag):
        self.ndraw += 1
        r = self._replay
        if r is None:
            return 'draw_%d' % self.ndraw
        at = r[2] if r[0] is None else r[1]
        at[tag] = at.get(tag, 0) + 1
        return 'draw_%s_%s_%d' % (tag, '_'.join(map(str, r[0])) if r[0] is not None else 'unseeded', at[tag])

    def draw(self, tag, lo, hi):
        n = self._draw_name(tag)
        if n in self._boxes:
            c, w = self._boxes[n]
            return self.num(c) + self.real(n, -w, w)
        return self.real(n, lo, hi)

    def preset(self, name, v):
        """fix the outcome of a draw"""
        self.values[name] = v

    def box_draw(self, name, centre, width):
        self._boxes[name] = (centre, width)

    def draw_choice(self, tag, n):
        return self.choice(self._draw_name('%s%d' % (tag, n)), n)

    def assume(self, cond):
        if not cond:
            raise Skip('assume')

    def assume_pos(self, x, margin=1e-6):
        if not (x > (margin or 1e-6)):
            raise Skip('assume_pos')

    def assume_apart(self, a, b):
        if abs(a - b) < 1e-6:
            raise Skip('apart')

    def near(self, a, b):
        """float rounding could flip a comparison of a and b"""
        return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))

    def exact_logs(self):
        pass

    def iterations(self, k):
        """the k-th convergence test (a norm measured in /repo compared with
        a tiny threshold) reports no change, so the real loop stops after k
        rounds"""
        import scipy.linalg
        import numpy
        import numpy.linalg
        from .convf import ConvFloat
        self.it_state = state = [0, k]
        for mod in (scipy.linalg, numpy.linalg):
            orig = mod.norm

            def norm(*a, orig=orig, **kw):
                v = orig(*a, **kw)
                if self.it_state is state and numpy.ndim(v) == 0 and \
                        sys._getframe(1).f_code.co_filename.startswith(os.environ.get('VERIF_REPO', '/repo') + '/'):
                    return ConvFloat.make(v, state)
                return v
            mod.norm = norm
            self.undo.append((mod, 'norm', orig))

    def num(self, x):
        return self._np.float64(x)

    def sqrt(self, x):
        return self._np.sqrt(self._np.float64(x))

    def log(self, x):
        return self._np.log(self._np.float64(x))

    def exp(self, x):
        return self._np.exp(self._np.float64(x))

    def cdf(self, x):
        from scipy.stats import norm
        return norm.cdf(x)

    def isnan(self, x):
        return bool(self._np.isnan(x))

    def abs(self, x):
        return abs(x)

    def eq(self, label, got, want, tol=None):
        self.reached += 1
        np = self._np
        from .jsonx import jsonable
        leaves = []
        err = compare(got, want, leaves, '', np)
        self.observed.append((label, jsonable(got)))
        if err:
            self.fails.append((label, err))
            return
        t = tol or self.tol
        scale = 1.0
        for _, a, b in leaves:
            for v in (a, b):
                if math.isfinite(v):
                    scale = max(scale, min(abs(v), 1e12))
        for path, a, b in leaves:
            if math.isnan(a) and math.isnan(b):
                continue
            if a == b:
                continue
            if math.isfinite(a) and math.isfinite(b) and abs(a - b) <= t * max(1.0, abs(a), abs(b)):
                continue
            self.fails.append((label, 'at %s: got %r, property requires %r' % (path, a, b)))
            return

    def identical(self, got, want):
        leaves = []
        if compare(got, want, leaves, '', self._np):
            return False
        return all((math.isnan(a) and math.isnan(b)) or a == b or abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b)) for _, a, b in leaves)

    def true(self, label, cond):
        self.reached += 1
        self.observed.append((label, bool(cond)))
        if not cond:
            self.fails.append((label, 'condition is false'))


def compare(a, b, leaves, path, np):
    def is_num(x):
        return isinstance(x, (int, float, np.generic)) and not isinstance(x, (bool, np.bool_, str, np.str_))
    try:
        import pandas as pd
        if isinstance(a, (pd.Series, pd.DataFrame)):
            a = a.to_numpy()
        if isinstance(b, (pd.Series, pd.DataFrame)):
            b = b.to_numpy()
    except ImportError:
        pass
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
            return None if bool(a) == bool(b) else 'at %s: %s vs %s' % (path, a, b)
        if is_num(a) or is_num(b):
            a = a if is_num(a) else int(a)
            b = b if is_num(b) else int(b)
        else:
            return 'at %s: %r vs %r' % (path, a, b)
    if is_num(a) and is_num(b):
        leaves.append((path, float(a), float(b)))
        return None
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return compare(a[()], b, leaves, path, np)
    if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
        if len(a) != len(b):
            return 'at %s: length %d vs %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            e = compare(x, y, leaves, path + '[%d]' % i, np)
            if e:
                return e
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return 'at %s: keys %r vs %r' % (path, list(a), list(b))
        for k in b:
            e = compare(a[k], b[k], leaves, path + '[%r]' % (k,), np)
            if e:
                return e
        return None
    if a is None and b is None:
        return None
    if isinstance(a, str) and isinstance(b, str):
        return None if a == b else 'at %s: %r vs %r' % (path, a, b)
    if type(a) == type(b) and not is_num(a):
        return None if a == b else 'at %s: %r vs %r' % (path, a, b)
    return 'at %s: %r vs %r' % (path, type(a).__name__, type(b).__name__)


# ------------------------------------------------- RNG and optimiser stubs

def install_stubs():
    """replace the sources of randomness (environment) by ctx-driven ones"""
    import numpy as np
    import random as pyr

    def cx():
        return CUR[0]

    def arr(size, f):
        if size is None:
            return f()
        shp = (int(size),) if isinstance(size, (int, np.integer)) else tuple(int(x) for x in size)
        o = np.empty(shp)
        for idx in np.ndindex(*shp):
            o[idx] = f()
        return o

    z = lambda: cx().draw('normal', -4, 4)
    u = lambda: cx().draw('unit', 0, 1)

    def perm(n):
        left = list(range(n))
        out = []
        while left:
            k = cx().draw_choice('perm', len(left)) if len(left) > 1 else 0
            out.append(left.pop(k))
        return out

    R = np.random

    def normal(loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(loc, scale).shape
        return arr(size, z) * scale + loc

    def uniform(low=0.0, high=1.0, size=None):
        return arr(size, u) * (high - low) + low

    def permutation(x):
        if isinstance(x, (int, np.integer)):
            return np.array(perm(int(x)))
        return np.asarray(x)[perm(len(x))]

    def shuffle(x):
        p = perm(len(x))
        if isinstance(x, list):
            x[:] = [x[i] for i in p]
        else:
            x[...] = x[p].copy()

    def choice(a, size=None, replace=True, p=None):
        items = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if size is None:
            return items[cx().draw_choice('choice', len(items))]
        n = int(np.prod(size))
        out, left = [], list(items)
        for _ in range(n):
            if replace:
                out.append(items[cx().draw_choice('choice', len(items))])
            else:
                out.append(left.pop(cx().draw_choice('choice', len(left))))
        cx().choice_log.append(list(out))
        return np.array(out).reshape(size)

    def randint(low, high=None, size=None, **k):
        if high is None:
            low, high = 0, low
        f = lambda: low + cx().draw_choice('randint', high - low)
        if size is None:
            return f()
        return np.array([f() for _ in range(int(np.prod(size)))], dtype=int).reshape(size)

    R.seed = lambda *a: cx().on_seed(a)
    R.normal = normal
    R.randn = lambda *s: arr(s if s else None, z)
    R.standard_normal = lambda size=None: arr(size, z)
    R.logistic = lambda loc=0.0, scale=1.0, size=None: arr(size, lambda: cx().draw('logistic', -8, 8)) * scale + loc
    R.uniform = uniform
    R.rand = lambda *s: arr(s if s else None, u)
    R.random = lambda size=None: arr(size, u)
    R.random_sample = R.random
    R.permutation = permutation
    R.shuffle = shuffle
    R.choice = choice
    R.randint = randint

    class Gen(object):
        pass
    g = Gen()
    for n in ('seed', 'normal', 'randn', 'standard_normal', 'logistic', 'uniform', 'rand', 'random',
              'permutation', 'shuffle', 'choice', 'randint'):
        setattr(g, n, getattr(R, n))
    g.integers = randint
    R.RandomState = lambda *a: g
    R.default_rng = lambda *a: g

    pyr.seed = lambda *a: cx().on_seed(a)
    pyr.random = u
    pyr.uniform = lambda a, b: a + (b - a) * u()
    pyr.gauss = lambda mu=0.0, sigma=1.0: sigma * z() + mu
    pyr.normalvariate = pyr.gauss
    pyr.randint = lambda a, b: a + cx().draw_choice('randint', b - a + 1)
    pyr.randrange = lambda a, b=None: (0 if b is None else a) + cx().draw_choice('r', a if b is None else b - a)
    pyr.choice = lambda s: s[cx().draw_choice('choice', len(s))]
    pyr.shuffle = shuffle

    orig_random = pyr.Random

    def Random(*a):
        if not sys._getframe(1).f_globals.get('__name__', '').startswith('sureal'):
            return orig_random(*a)
        if a:
            pyr.seed(*a)
        return pyr
    pyr.Random = Random

    import scipy.optimize as so

    class OR(dict):
        __getattr__ = dict.__getitem__

    def minimize(fun, x0, *a, **k):
        x = np.array([cx().draw('opt', -3, 3) for _ in range(len(x0))])
        cx().opt_calls.append((fun, x0, x, a, k))
        return OR(x=x, success=True, fun=None)
    if os.environ.get('VERIF_STUB_OPT', '1') == '1':
        so.minimize = minimize


CUR = [None]


class Sink(io.StringIO):
    def write(self, s):
        return len(s)


def run_concrete(fn, params, values, seed=0, search=False):
    ctx = ConcCtx(values, seed=seed, search=search)
    CUR[0] = ctx
    warnings.simplefilter('ignore')
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = Sink(), Sink()
    status = 'ok'
    try:
        fn(ctx, **params)
    except Skip:
        status = 'skip'
    except RecursionError as e:
        status = 'error'
        ctx.fails.append(('exception', repr(e)))
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        inrepo = [f for f in tb if '/verif/' not in f.filename]
        status = 'error'
        loc = tb[-1]
        ctx.fails.append(('exception', '%s: %s (%s:%s)' % (type(e).__name__, e, loc.filename, loc.lineno)))
    except SystemExit as e:
        status = 'error'
        ctx.fails.append(('exception', 'SystemExit %s' % e))
    finally:
        sys.stdout, sys.stderr = so, se
        for m, n, o in reversed(ctx.undo):
            setattr(m, n, o)
    return {'status': status, 'fails': ctx.fails, 'used': ctx.used,
            'observed': ctx.observed if not search else [], 'reached': ctx.reached}


def main():
    """server: one JSON request per line on stdin"""
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    repo = os.environ.get('VERIF_REPO', '/repo')
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    import time as _time
    _time.sleep = lambda s: None
    import sureal  # noqa
    assert os.path.realpath(sureal.__file__).startswith(os.path.realpath(repo)), sureal.__file__
    install_stubs()
    import importlib
    for line in sys.stdin:
        req = json.loads(line)
        try:
            mod = importlib.import_module(req['module'])
            fn = getattr(mod, req['harness'])
            if req['op'] == 'run':
                rep = run_concrete(fn, req['params'], req['values'], seed=req.get('seed', 0))
            else:
                rep = {'status': 'none', 'tries': 0}
                t0 = _time.time()
                for k in range(req['n']):
                    if _time.time() - t0 > req.get('secs', 20):
                        break
                    r = run_concrete(fn, req['params'], req['values'], seed=req.get('seed', 0) * 1000003 + k, search=True)
                    rep['tries'] = k + 1
                    if r['fails']:
                        rep = {'status': 'found', 'run': r, 'tries': k + 1}
                        break
        except BaseException as e:   # noqa
            rep = {'status': 'crash', 'err': traceback.format_exc()}
        out.write(json.dumps(rep) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
