"""Harness contexts.  A harness is one Python function h(ctx, **params) that
builds inputs with ctx.real/flag/choice, calls the code under test (import
sureal...), and states the property with ctx.eq/ctx.true.  SymCtx runs it
symbolically; ConcCtx (concrete.py) runs the same function on the real code."""
import math

import z3

from . import npx
from . import sym as S
from .sym import Sym, Engine, PathAbort, Unsupported, to_frac, z3q
import numpy as real_np
from .jsonx import jsonable


class Candidate(Exception):
    pass


class SymCtx(object):
    symbolic = True

    def __init__(self, E, fixed=None, rng=None):
        self.E = E
        E.ctx = self
        self.fixed = fixed          # name -> value, for validation runs
        self.rng = rng
        self.values = {}            # name -> concrete choice (flags/choices)
        self.vars = {}              # name -> atom id
        self.ndraw = 0
        self.seed_log = []
        self.choice_log = []
        self._replay = None
        self._boxes = {}
        self.cands = []
        self.observed = []
        self.opt_calls = []
        self.np = NPX()
        from .envx import JSONP
        self.json = JSONP
        self.nan = Sym(S.NAN)
        self.inf = Sym(S.PINF)
        self.reached = 0

    # ------------------------------------------------------------- inputs
    def real(self, name, lo, hi):
        if self.fixed is not None:
            v = self.fixed.get(name)
            if v is None:
                v = self.fixed[name] = self.rng.uniform(lo, hi)
            return Sym.of(v)
        if name in self.vars:
            return Sym.atom(self.E.atoms[self.vars[name]])
        v = self.E.var(name, lo, hi)
        self.vars[name] = len(self.E.atoms) - 1
        return v

    def flag(self, name):
        return bool(self.choice(name, 2))

    def choice(self, name, n):
        """symbolic integer in [0, n): forked"""
        if isinstance(n, (list, tuple)):
            return n[self.choice(name, len(n))]
        if self.fixed is not None:
            v = self.fixed.get(name)
            if v is None:
                v = self.fixed[name] = self.rng.randrange(n)
            return v
        if name in self.values:
            return self.values[name]
        if n <= 1:
            self.values[name] = 0
            return 0
        z = z3.Int(name)
        self.E.add_z(z >= 0, [name])
        self.E.add_z(z < n, [name])
        v = n - 1
        for k in range(n - 1):
            if self.E.decide_bool(z == k, [name]):
                v = k
                break
        self.values[name] = v
        return v

    def replay_seeds(self):
        """from now on draws are a function of the latest seed, the kind of draw and its position since seeding"""
        self._replay = [None, {}, {}]

    def on_seed(self, a):
        self.seed_log.append((self.ndraw, a))
        if self._replay is not None:
            self._replay[0], self._replay[1] = a, {}

    def _draw_name(self, tag):
        self.ndraw += 1
        r = self._replay
        if r is None:
            return 'draw_%d' % self.ndraw
        at = r[2] if r[0] is None else r[1]
        at[tag] = at.get(tag, 0) + 1
        return 'draw_%s_%s_%d' % (tag, '_'.join(map(str, r[0])) if r[0] is not None else 'unseeded', at[tag])

    def draw(self, tag, lo, hi):
        n = self._draw_name(tag)
        if n in self._boxes:
            c, w = self._boxes[n]
            return self.num(c) + self.real(n, -w, w)
        return self.real(n, lo, hi)

    def preset(self, name, v):
        """fix the outcome of a draw"""
        self.values[name] = v
        if self.fixed is not None:
            self.fixed[name] = v

    def box_draw(self, name, centre, width):
        self._boxes[name] = (centre, width)

    def draw_choice(self, tag, n):
        return self.choice(self._draw_name('%s%d' % (tag, n)), n)

    def int_of(self, x):
        """int() of a symbolic value in a small range: fork on the value"""
        for k in range(-3, 12):
            if (x >= k) and (x < k + 1):
                return k if k >= 0 or x == k else k + 1
        raise Unsupported('int of symbolic')

    def assume(self, cond):
        if not cond:
            raise PathAbort()

    def assume_pos(self, x, margin=None):
        """assume x > 0 without forking"""
        if not isinstance(x, Sym):
            x = Sym.of(x)
        self.E.assume_sign(x, {1})

    def assume_apart(self, a, b):
        """assume a != b"""
        self.E.assume_sign(Sym.of(a) - Sym.of(b), {-1, 1})

    def near(self, a, b):
        return False

    def text(self, x):
        """a number as it would be typed into a file"""
        return repr(Sym.of(x))

    def script(self, path):
        from .envx import load_script
        return load_script(path)

    def iterations(self, k):
        self.E.iterations = k
        self.E.it_state = [0, k]

    def exact_logs(self):
        self.E.exact_log = self.fixed is None

    # ------------------------------------------------------------ algebra
    def num(self, x):
        return Sym.of(x)

    def sqrt(self, x):
        return S.sqrt(Sym.of(x))

    def log(self, x):
        return S.log(Sym.of(x))

    def exp(self, x):
        return S.exp(Sym.of(x))

    def cdf(self, x):
        return S.norm_cdf(Sym.of(x))

    def isnan(self, x):
        return npx._isnan(x)

    def abs(self, x):
        return abs(Sym.of(x))

    # ------------------------------------------------------------ verdicts
    def eq(self, label, got, want, tol=None):
        self.reached += 1
        leaves = []
        err = compare(got, want, leaves, '')
        if self.fixed is not None:
            self.observed.append((label, jsonable(got)))
        if err:
            self.fail(label, err, None)
            return
        E = self.E
        E.stats.asserts += len(leaves)
        bad = []
        diffs = []
        for path, a, b in leaves:
            if a.kind != b.kind:
                bad.append((path, a, b))
                continue
            if a.kind:
                continue
            d = a - b
            if d.kind or d.num:
                if d.kind == 0 and self.fixed is None and d.fp() == (0, 0):
                    # same value through different cut points: exact identity
                    # test of the unfolded definitions in GF(P^2)
                    E.stats.identity += 1
                    continue
                if d.kind == 0 and self.fixed is None and (a + b).fp() == (0, 0) and a.num and b.num:
                    # equal squares; equal values because the signs agree
                    u = E.quick_sign(a)
                    if u and u == E.quick_sign(b):
                        E.stats.identity += 1
                        continue
                iv = E.ival(d) if self.fixed is None else None
                if iv is not None and -1e-10 < iv[0] and iv[1] < 1e-10:
                    # the enclosure bounds the difference over the whole box
                    E.stats.identity += 1
                    continue
                if self.fixed is None and d.kind == 0 and dust(a, b, d):
                    E.stats.identity += 1
                    continue
                diffs.append((path, d))
        if bad:
            self.fail(label, 'at %s: %s vs %s' % (bad[0][0], show(bad[0][1]), show(bad[0][2])), None)
            return
        if self.fixed is not None:
            for path, d in diffs:
                c = d.const()
                if c is not None and abs(c) < 1e-6:
                    continue
                self.fail(label, 'residual at %s: %s' % (path, show(d)), None)
                return
            return
        if not diffs:
            # every residual is the zero polynomial; the solver is still
            # asked whether any of them can be non-zero
            E.stats.trivial += 1
            E.query(z3.Or([z3.BoolVal(False)] + [
                E.z_poly(a.num) != E.z_poly(b.num)
                for _, a, b in leaves[:6] if a.kind == 0 and len(a.num) < 60
                and a.den.keys() == b.den.keys() and a.num == b.num]), ids=())
            return
        # try a joint refutation, then the individual residuals
        cons = []
        for path, d in diffs:
            cons.append(E.z_poly(d.num) != 0)
        ids = set()
        for _, d in diffs:
            ids |= E.p_ids(d.num)
        r = E.query(z3.Or(cons), timeout=E.timeout * 2, ids=ids)
        if r == z3.unsat:
            return
        self.fail(label, 'residual not zero at %s (%s)' % (diffs[0][0], r),
                  [d for _, d in diffs])

    def identical(self, got, want):
        """are the two the same expression (value, in a concrete run)?"""
        leaves = []
        if compare(got, want, leaves, ''):
            return False
        for path, a, b in leaves:
            if a.kind != b.kind:
                return False
            if a.kind:
                continue
            d = a - b
            if d.kind:
                return False
            if not d.num:
                continue
            if self.fixed is None:
                if d.fp() == (0, 0):
                    continue
                if (a + b).fp() == (0, 0) and a.num and b.num:
                    u = self.E.quick_sign(a)
                    if u and u == self.E.quick_sign(b):
                        continue
                iv = self.E.ival(d)
                if iv is not None and -1e-10 < iv[0] and iv[1] < 1e-10:
                    continue
            c = d.const()
            if c is not None and abs(c) < 1e-9:
                continue
            return False
        return True

    def true(self, label, cond):
        self.reached += 1
        self.E.stats.asserts += 1
        if self.fixed is not None:
            self.observed.append((label, bool(cond)))
        if not cond:
            self.fail(label, 'condition is false', None)

    def fail(self, label, why, diffs):
        self.cands.append((label, why, self.models(diffs)))

    def models(self, diffs):
        """concrete inputs that follow this path (with margins first)"""
        E = self.E
        out = []
        if self.fixed is not None:
            return [dict(self.fixed)]
        for eps in (Fraction_(1, 50), Fraction_(1, 10 ** 4), None):
            extra = []
            if eps is not None:
                for p, s in E.pcons:
                    z = E.z_poly(p)
                    if s == {1}:
                        extra.append(z >= z3q(eps))
                    elif s == {-1}:
                        extra.append(z <= z3q(-eps))
                    elif s == {-1, 1}:
                        extra.append(z3.Or(z >= z3q(eps), z <= z3q(-eps)))
            if diffs:
                ors = []
                for d in diffs:
                    z = E.z_poly(d.num)
                    if eps is not None:
                        ors.append(z3.Or(z >= z3q(eps), z <= z3q(-eps)))
                    else:
                        ors.append(z != 0)
                extra.append(z3.Or(ors))
            r = E.query(extra, timeout=3000)
            if r == z3.sat:
                m = E.model
                vals = dict(self.values)
                for n, i in self.vars.items():
                    vals[n] = zval(m.eval(E.atoms[i].z, model_completion=True))
                out.append(vals)
        if not out:
            out.append(dict(self.values))
        return out


def dust(a, b, d):
    """every coefficient of the difference is rounding noise of constants"""
    t = a + b
    if t.kind or not t.num or t.den.keys() != d.den.keys():
        return False
    big = max(abs(c) for c in t.num.values())
    return all(abs(c) * 10 ** 12 <= big for c in d.num.values())


def Fraction_(a, b):
    from fractions import Fraction
    return Fraction(a, b)


def zval(v):
    try:
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        return float(v.as_fraction())
    except Exception:
        try:
            return float(v.as_decimal(17).rstrip('?'))
        except Exception:
            return 0.0


def show(s):
    if isinstance(s, Sym):
        if s.kind:
            return s.kind
        c = s.const()
        if c is not None:
            return '%.9g' % float(c)
        return '<expr %d terms>' % len(s.num)
    return repr(s)


def is_num(x):
    return isinstance(x, (int, float, Sym, real_np.generic)) and not isinstance(x, (bool, real_np.bool_, str, real_np.str_))


def compare(a, b, leaves, path):
    """structural comparison; numeric leaves are collected"""
    if hasattr(a, '_symarr'):
        a = a._symarr()
    if hasattr(b, '_symarr'):
        b = b._symarr()
    if isinstance(a, (bool, real_np.bool_)) or isinstance(b, (bool, real_np.bool_)):
        if isinstance(a, (bool, real_np.bool_)) and isinstance(b, (bool, real_np.bool_)):
            return None if bool(a) == bool(b) else 'at %s: %s vs %s' % (path, a, b)
        if is_num(a) or is_num(b):
            a = a if is_num(a) else int(a)
            b = b if is_num(b) else int(b)
        else:
            return 'at %s: %r vs %r' % (path, a, b)
    if is_num(a) and is_num(b):
        leaves.append((path, Sym.of(a), Sym.of(b)))
        return None
    if isinstance(a, real_np.ndarray) and a.ndim == 0:
        a = a[()]
        return compare(a, b, leaves, path)
    if isinstance(a, (list, tuple, real_np.ndarray)) and isinstance(b, (list, tuple, real_np.ndarray)):
        if len(a) != len(b):
            return 'at %s: length %d vs %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            e = compare(x, y, leaves, path + '[%d]' % i)
            if e:
                return e
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        ka, kb = list(a.keys()), list(b.keys())
        if set(ka) != set(kb):
            return 'at %s: keys %r vs %r' % (path, ka, kb)
        for k in kb:
            e = compare(a[k], b[k], leaves, path + '[%r]' % (k,))
            if e:
                return e
        return None
    if a is None and b is None:
        return None
    if isinstance(a, str) and isinstance(b, str):
        return None if a == b else 'at %s: %r vs %r' % (path, a, b)
    if type(a) == type(b) and not is_num(a):
        return None if a == b else 'at %s: %r vs %r' % (path, a, b)
    return 'at %s: %r vs %r' % (path, type(a).__name__, type(b).__name__)


class NPX(object):
    """numpy for specs: proxied in symbolic mode"""

    def __getattr__(self, n):
        from . import envx
        return getattr(envx.NP, n)
