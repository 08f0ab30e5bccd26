"""Symbolic reals for executing the real Python/numpy code of /repo.

A Sym is an exact rational function over *atoms* (input variables and the cut
points sqrt/exp/log/cdf/... of other Syms) plus the IEEE specials nan/inf/-inf.
Comparisons fork the run; every fork and every verdict goes to z3 under the
path condition.  See DESIGN.md ("Engine").
"""
import math
import random as _random
from fractions import Fraction

import z3

# ---------------------------------------------------------------- utilities

TOL_CANCEL = Fraction(1, 10 ** 12)
P = (1 << 127) - 1          # fingerprint field
_frac_cache = {}


class Unsupported(BaseException):
    """the code used something the encoding does not cover (inconclusive)."""


class PathAbort(BaseException):
    """this path is infeasible / cut (assumption false)."""


class Budget(BaseException):
    """time or path budget of the harness is used up."""


def to_frac(x):
    """Python/numpy number -> Fraction; a double is read as the simplest
    rational that rounds to it (0.1 is 1/10)."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    f = float(x)
    r = _frac_cache.get(f)
    if r is None:
        if f == int(f) and abs(f) < 1e18:
            r = Fraction(int(f))
        else:
            r = _simplest(f)
        if len(_frac_cache) < 200000:
            _frac_cache[f] = r
    return r


def _simplest(f):
    x = Fraction(f)
    sgn = -1 if x < 0 else 1
    x = abs(x)
    # continued fraction convergents until it rounds to f
    a = x
    h0, h1 = 0, 1
    k0, k1 = 1, 0
    target = abs(f)
    for _ in range(80):
        n = a.numerator // a.denominator
        h0, h1 = h1, n * h1 + h0
        k0, k1 = k1, n * k1 + k0
        if h1 / k1 == target:
            return sgn * Fraction(h1, k1)
        d = a - n
        if d == 0:
            break
        a = 1 / d
    return sgn * x


def fmod(fr):
    d = fr.denominator
    if d == 1:
        return fr.numerator % P
    r = _inv_cache.get(d)
    if r is None:
        r = pow(d, P - 2, P)
        if len(_inv_cache) < 100000:
            _inv_cache[d] = r
    return fr.numerator % P * r % P


_inv_cache = {}


# GF(P^2) = GF(P)[i], i^2 = -1 (P = 3 mod 4)
def f2mul(a, b):
    return ((a[0] * b[0] - a[1] * b[1]) % P, (a[0] * b[1] + a[1] * b[0]) % P)


def f2pow(a, n):
    r = (1, 0)
    while n:
        if n & 1:
            r = f2mul(r, a)
        a = f2mul(a, a)
        n >>= 1
    return r


def f2inv(a):
    n = pow(a[0] * a[0] + a[1] * a[1], P - 2, P)
    return (a[0] * n % P, -a[1] * n % P)


def f2sqrt(a):
    """a square root in GF(P^2), or None"""
    if a == (0, 0):
        return a
    a1 = f2pow(a, (P - 3) // 4)
    al = f2mul(f2mul(a1, a1), a)
    a0 = f2mul((al[0], -al[1] % P), al)
    if a0 == (P - 1, 0):
        return None
    x0 = f2mul(a1, a)
    if al == (P - 1, 0):
        return f2mul((0, 1), x0)
    b = f2pow(((1 + al[0]) % P, al[1]), (P - 1) // 2)
    return f2mul(b, x0)


# --------------------------------------------------------------- polynomials
# poly: dict mono -> Fraction, mono: tuple of (atom id, exp>0) sorted by id

_mm_cache = {}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _mm_cache.get(k)
    if r is None:
        d = dict(a)
        for i, e in b:
            d[i] = d.get(i, 0) + e
        r = tuple(sorted(d.items()))
        if len(_mm_cache) > 400000:
            _mm_cache.clear()
        _mm_cache[k] = r
    return r


def mono_div(a, b):
    """a/b or None"""
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        v = d.get(i, 0) - e
        if v < 0:
            return None
        if v == 0:
            d.pop(i, None)
        else:
            d[i] = v
    return tuple(sorted(d.items()))


ONE = {(): Fraction(1)}


def p_const(c):
    return {(): c} if c else {}


def _acc(d, m, c):
    v = d.get(m)
    if v is None:
        d[m] = c
    else:
        s = v + c
        if s == 0:
            del d[m]
        else:
            av = abs(v)
            if abs(s) <= av * TOL_CANCEL:
                del d[m]
            else:
                d[m] = s


def p_add(a, b, kb=1):
    if len(a) < len(b) and kb == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        _acc(r, m, c * kb if kb != 1 else c)
    return r


def p_scale(a, k):
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


def p_mul_raw(a, b):
    if len(a) == 1 and () in a:
        return p_scale(b, a[()])
    if len(b) == 1 and () in b:
        return p_scale(a, b[()])
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            _acc(r, mono_mul(m1, m2), c1 * c2)
    return r


def p_is_const(a):
    return not a or (len(a) == 1 and () in a)


def p_lead(a):
    return max(a, key=_mono_key)


def _mono_key(m):
    # graded order; must be a monomial order (deg, then lex on exponents with
    # lower ids more significant)
    return (sum(e for _, e in m), tuple((-i, e) for i, e in m))


def p_key(a):
    return frozenset(a.items())


# -------------------------------------------------------------------- engine

class Atom(object):
    __slots__ = ('id', 'name', 'kind', 'arg', 'z', 'fp', 'lo', 'hi', 'sq',
                 'extra', 'aff')

    def __init__(self, id, name, kind, arg=None, lo=None, hi=None):
        self.id, self.name, self.kind, self.arg = id, name, kind, arg
        self.lo, self.hi = lo, hi
        self.sq = None      # for sqrt atoms: the polynomial r^2
        self.extra = None
        self.aff = None
        self.z = z3.Real('%s_%d' % (name, id))
        rnd = _random.Random('%s/%d' % (name, id))
        self.fp = (rnd.randrange(2, P - 2), 0)
        if arg is not None and kind == 'cut':
            self.fp = arg.fp()
        elif arg is not None and kind == 'sqrt':
            r = f2sqrt(arg.fp())
            if r is not None:
                self.fp = r


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.sat = self.unsat = self.unknown = 0
        self.paths = 0
        self.aborted = 0
        self.asserts = 0
        self.forks = 0
        self.trivial = 0
        self.identity = 0


class Engine(object):
    """one symbolic run (one path)."""

    cur = None

    def __init__(self, prefix=(), stats=None, timeout_ms=4000, iterations=1,
                 max_terms=1500, deadline=None):
        self.atoms = []
        self.by_fp = {}           # (kind, fp) -> [atoms]
        self.prefix = list(prefix)
        self.taken = []           # (choice, alternatives) per decision
        self.known = {}           # canonical poly key -> (set of signs)
        self.cons = []            # z3 constraints of the path, in order
        self.pcons = []           # (poly, signs) of the path
        self.stats = stats or Stats()
        self.timeout = timeout_ms
        self.iterations = iterations
        self.it_state = None
        self.max_terms = max_terms
        self.cons_ids = []
        self.uf = {}
        self.defs = {}
        self.lin_cache = {}
        self.zcache = {}
        self.inputs = []          # (name, atom or python value)
        self.sqrt_ids = set()
        self.sqrt_reg = {}
        self.csqrt = {}
        self.log_vals = []
        self.exact_log = False
        self.log_basis = []
        self.pos_ids = set()      # atoms known > 0
        self.nn_ids = set()       # atoms known >= 0
        self.deadline = deadline
        self.cand = None
        self.lib = {}             # sym registry for repr round trips
        self.abstract_small = True
        self.round_consts = False

    # -- atoms
    def new_atom(self, name, kind, arg=None, lo=None, hi=None):
        a = Atom(len(self.atoms), name, kind, arg, lo, hi)
        self.atoms.append(a)
        return a

    def var(self, name, lo=None, hi=None):
        a = self.new_atom(name, 'var', None, lo, hi)
        if lo is not None and hi is not None:
            l, h = float(lo), float(hi)
            a.aff = ((l + h) / 2, {a.id: (h - l) / 2}, 1e-15 * (abs(l) + abs(h)))
        if lo is not None:
            self.add_z(a.z >= z3q(to_frac(lo)), [a.id])
            if lo >= 0:
                self.nn_ids.add(a.id)
            if lo > 0:
                self.pos_ids.add(a.id)
        if hi is not None:
            self.add_z(a.z <= z3q(to_frac(hi)), [a.id])
        return Sym.atom(a)

    def find_atom(self, kind, arg):
        fp = arg.fp()
        for a in self.by_fp.get((kind, fp), ()):
            return a      # same value as an element of GF(P^2)
        return None

    def fn_atom(self, kind, arg, init=None, extra=None):
        a = self.find_atom(kind, arg)
        if a is None:
            a = self.new_atom(kind, kind, arg)
            self.by_fp.setdefault((kind, arg.fp()), []).append(a)
            a.extra = extra
            if init is not None:
                init(a)
        return a

    # -- z3
    def add_z(self, c, ids=None):
        """ids: atoms (or names) the constraint talks about; None: unknown"""
        self.cons.append(c)
        self.cons_ids.append(None if ids is None else tuple(ids))
        if ids is not None:
            ids = list(ids)
            for j in ids[1:]:
                self.union(ids[0], j)

    def find(self, i):
        uf = self.uf
        r = i
        while True:
            q = uf.get(r, r)
            if q == r:
                break
            r = q
        while uf.get(i, i) != r:
            uf[i], i = r, uf[i]
        return r

    def union(self, i, j):
        i, j = self.find(i), self.find(j)
        if i != j:
            self.uf[i] = j

    @staticmethod
    def p_ids(p):
        return {i for m in p for i, _ in m}

    def z_poly(self, p):
        k = p_key(p)
        r = self.zcache.get(k)
        if r is None:
            terms = []
            for m, c in p.items():
                fs = []
                for i, e in m:
                    fs.extend([self.atoms[i].z] * e)
                if not fs:
                    terms.append(z3q(c))
                else:
                    if c != 1:
                        fs.insert(0, z3q(c))
                    terms.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
            if not terms:
                r = z3.RealVal(0)
            elif len(terms) == 1:
                r = terms[0]
            else:
                r = z3.Sum(*terms)
            self.zcache[k] = r
        return r

    def z_sign(self, p, signs):
        return self.z_sign2(p, signs)[0]

    def lin_sqrt(self, p):
        """p = A + B*sqrt(q) with A, B free of square roots -> (A, B, q)"""
        k = p_key(p)
        r = self.lin_cache.get(k, 0)
        if r != 0:
            return r
        ids = self.p_ids(p) & self.sqrt_ids
        r = None
        if len(ids) == 1 and len(p) <= 120:
            (i,) = ids
            A, B = {}, {}
            ok = True
            for m, c in p.items():
                e = dict(m).get(i, 0)
                if e == 0:
                    A[m] = c
                elif e == 1:
                    B[tuple(x for x in m if x[0] != i)] = c
                else:
                    ok = False
            q = self.atoms[i].sq
            if ok and len(q) <= 120 and not (self.p_ids(q) & self.sqrt_ids):
                A2 = p_mul_raw(A, A)
                B2q = p_mul_raw(p_mul_raw(B, B), q)
                D = p_add(A2, B2q, -1)
                if len(D) <= 600:
                    r = (A, B, q, D)
        self.lin_cache[k] = r
        return r

    def z_sign2(self, p, signs):
        """-> (z3 formula, atom ids it mentions)"""
        s = frozenset(signs)
        l = self.lin_sqrt(p) if self.sqrt_ids else None
        if l is None or s == {-1, 0, 1} or not s:
            return self.z_sign_raw(self.z_poly(p), s), self.p_ids(p)
        A, B, q, D = l
        za, zb, zd = self.z_poly(A), self.z_poly(B), self.z_poly(D)
        ids = self.p_ids(A) | self.p_ids(B) | self.p_ids(q)
        zq = self.z_poly(q)

        def gt(a, b, d):     # a + b sqrt(q) > 0 ;  d = a^2 - b^2 q
            if p_is_const(B):
                c = b.as_fraction() if z3.is_rational_value(b) else None
                if c is not None and c > 0:
                    return z3.Or(a > 0, d < 0)
                if c is not None and c < 0:
                    return z3.And(a > 0, d > 0)
            return z3.Or(z3.And(a > 0, z3.Or(b >= 0, d > 0)), z3.And(a <= 0, b > 0, d < 0))

        nb = z3.simplify(-zb) if p_is_const(B) else -zb
        if p_is_const(B):
            zb = z3.simplify(zb)
        pos = gt(za, zb, zd)
        neg = gt(-za, nb, zd)
        f = {frozenset({1}): lambda: pos, frozenset({-1}): lambda: neg,
             frozenset({0}): lambda: z3.And(zd == 0, za * zb <= 0),
             frozenset({0, 1}): lambda: z3.Not(neg), frozenset({-1, 0}): lambda: z3.Not(pos),
             frozenset({-1, 1}): lambda: z3.Or(pos, neg)}[s]()
        return z3.And(f, zq >= 0), ids

    def z_sign_raw(self, z, s):
        if s == {1}:
            return z > 0
        if s == {-1}:
            return z < 0
        if s == {0}:
            return z == 0
        if s == {0, 1}:
            return z >= 0
        if s == {-1, 0}:
            return z <= 0
        if s == {-1, 1}:
            return z != 0
        return z3.BoolVal(bool(s))

    def query(self, extra, timeout=None, ids=None):
        """satisfiability of path constraints + extra.  With ids given, only
        the constraints connected to those atoms are passed on (the others
        are independent of the question, and the path is feasible)."""
        import time
        if self.deadline and time.time() > self.deadline:
            raise Budget('time')
        t = time.time()
        ex = list(extra) if isinstance(extra, (list, tuple)) else [extra]
        pure = False
        if ids is None:
            cs = self.cons + [c for d in self.defs.values() for c in d[0]]
        else:
            # connected constraints; the definition of a square root counts
            # only where the root itself is mentioned
            used = set(ids)
            while True:
                roots = {self.find(i) for i in used}
                cs, nu = [], set(used)
                for c, k in zip(self.cons, self.cons_ids):
                    if k is None or not k or self.find(k[0]) in roots:
                        cs.append(c)
                        if k:
                            nu.update(k)
                ds = [i for i in nu if i in self.defs]
                for i in ds:
                    cs.extend(self.defs[i][0])
                    nu |= self.defs[i][1]
                if nu == used:
                    break
                used = nu
            pure = not any(isinstance(r, str) for r in used)
        timeout = timeout or self.timeout
        r = z3.unknown
        self.model = None
        plan = [('QF_NRA', timeout)] if pure else [(None, timeout // 2), ('nlsat', timeout // 2)]
        for logic, tmo in plan:
            sv = z3.Solver() if logic is None else z3.SolverFor('QF_NRA') if logic == 'QF_NRA' else \
                z3.Then('simplify', 'propagate-values', 'solve-eqs', 'qfnra-nlsat').solver()
            sv.set('timeout', max(100, int(tmo)))
            sv.add(cs)
            sv.add(ex)
            try:
                r = sv.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.sat:
                try:
                    self.model = sv.model()
                except z3.Z3Exception:
                    r = z3.unknown
            if r != z3.unknown:
                break
        st = self.stats
        st.queries += 1
        st.solver_s += time.time() - t
        if r == z3.sat:
            st.sat += 1
        elif r == z3.unsat:
            st.unsat += 1
        else:
            st.unknown += 1
        return r

    # -- decisions
    def choose(self, options):
        """fork over the given options (already known feasible or unknown)."""
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
            self.taken.append((v, None))
            return v
        self.stats.forks += 1
        v = options[0]
        self.taken.append((v, options[1:]))
        return v

    def decide_bool(self, zexpr, ids=None):
        """fork on an arbitrary z3 boolean."""
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
            self.taken.append((v, None))
        else:
            opts = []
            r1 = self.query(zexpr, ids=ids)
            if r1 != z3.unsat:
                opts.append(True)
            if r1 == z3.unsat or self.query(z3.Not(zexpr), ids=ids) != z3.unsat:
                opts.append(False)
            if not opts:
                raise PathAbort()
            v = self.choose(opts)
        self.add_z(zexpr if v else z3.Not(zexpr), ids)
        return v

    def sign_info(self, p):
        """p canonical (monic) poly -> set of possible signs (cheap)"""
        k = p_key(p)
        s = self.known.get(k)
        if s is None:
            s = self.cheap_sign(p)
            self.known[k] = s
        return s

    def cheap_sign(self, p):
        # all terms of one sign?
        allpos = allneg = True
        strict = False
        for m, c in p.items():
            nn, pos = True, True
            for i, e in m:
                if i in self.pos_ids:
                    continue
                pos = False
                if i in self.nn_ids or e % 2 == 0:
                    continue
                nn = False
            if not nn:
                allpos = allneg = False
            elif c > 0:
                allneg = False
                strict = strict or pos
            else:
                allpos = False
                strict = strict or pos
        if allpos:
            return {1} if strict else {0, 1}
        if allneg:
            return {-1} if strict else {-1, 0}
        iv = self.p_ival(p)
        if iv is not None:
            if iv[0] > 0:
                return {1}
            if iv[1] < 0:
                return {-1}
        return {-1, 0, 1}

    # -- enclosures: plain intervals intersected with affine forms (floats,
    # outward margins); aff = (centre, {noise: coefficient}, error)
    def p_aff(self, p):
        at = self.atoms
        c0, lin, err = 0.0, {}, 0.0
        for m, c in p.items():
            t = (float(c), {}, 0.0)
            for i, e in m:
                f = at[i].aff
                if f is None:
                    return None
                for _ in range(e):
                    t = aff_mul(t, f)
            c0 += t[0]
            for i, v in t[1].items():
                lin[i] = lin.get(i, 0.0) + v
            err += t[2] + 1e-14 * (abs(t[0]) + sum(map(abs, t[1].values())))
        return c0, lin, err

    def aff(self, s):
        if s.kind:
            return None
        try:
            t = self.p_aff(s.num)
            for f, e in s.den.values():
                if t is None:
                    return None
                g = self.p_aff(f)
                g = g and aff_fn(g, self.p_ival(f, g), lambda x: 1 / x, lambda x: -1 / x ** 2,
                                 lambda l, h: 2 / min(abs(l), abs(h)) ** 3, strict=True)
                if g is None:
                    return None
                for _ in range(e):
                    t = aff_mul(t, g)
            return t
        except (OverflowError, ZeroDivisionError):
            return None

    def p_ival(self, p, af=0):
        a = self.p_ival0(p)
        if af == 0:
            try:
                af = self.p_aff(p) if len(p) <= 400 else None
            except OverflowError:
                af = None
        return meet(a, aff_iv(af))

    def p_ival0(self, p):
        lo = hi = 0.0
        mag = 0.0
        at = self.atoms
        try:
            for m, c in p.items():
                l = h = float(c)
                for i, e in m:
                    a = at[i]
                    if a.lo is None or a.hi is None:
                        return None
                    al, ah = float(a.lo), float(a.hi)
                    if e % 2 == 0:
                        u, v = al ** e, ah ** e
                        if al <= 0 <= ah:
                            al, ah = 0.0, max(u, v)
                        else:
                            al, ah = min(u, v), max(u, v)
                    elif e > 1:
                        al, ah = al ** e, ah ** e
                    cs = (l * al, l * ah, h * al, h * ah)
                    l, h = min(cs), max(cs)
                lo += l
                hi += h
                mag += max(abs(l), abs(h))
        except OverflowError:
            return None
        if not mag < 1e250:
            return None
        mag *= 1e-12
        return lo - mag, hi + mag

    def ival(self, s, af=0):
        if s.kind:
            return None
        if af == 0:
            af = self.aff(s)
        iv = self.p_ival(s.num)
        if iv is not None:
            l, h = iv
            for f, e in s.den.values():
                g = self.p_ival(f)
                if g is None or g[0] <= 0 <= g[1]:
                    iv = None
                    break
                for _ in range(e):
                    cs = (l / g[0], l / g[1], h / g[0], h / g[1])
                    l, h = min(cs), max(cs)
            if iv is not None:
                m = 1e-12 * max(abs(l), abs(h))
                iv = l - m, h + m
        return meet(iv, aff_iv(af))

    def set_ival(self, a, f, g=None):
        """f: interval -> interval; g: affine form, interval -> affine form"""
        af = self.aff(a.arg)
        iv = self.ival(a.arg, af)
        if iv is None:
            return
        try:
            r = f(iv)
            if g is not None and af is not None:
                a.aff = g(af, iv)
                if a.aff is not None:
                    # the error becomes a noise symbol of its own
                    c, lin, e = a.aff
                    lin = dict(lin)
                    lin[-1 - a.id] = e
                    a.aff = (c, lin, 0.0)
        except (OverflowError, ValueError, ZeroDivisionError):
            return
        r = meet(r, aff_iv(a.aff))
        if r is not None:
            m = 1e-12 * max(abs(r[0]), abs(r[1]))
            a.lo, a.hi = r[0] - m, r[1] + m
            if a.lo > 0:
                self.pos_ids.add(a.id)
                self.nn_ids.add(a.id)

    def quick_sign(self, s):
        """1 / -1 if the sign of s is already known, else 0 (no query)"""
        if s.kind:
            return 0
        iv = self.ival(s)
        if iv is not None and (iv[0] > 0 or iv[1] < 0):
            return 1 if iv[0] > 0 else -1
        q, k = canon(s.num)
        r = sgn(k)
        for f, e in [(q, 1)] + list(s.den.values()):
            if e % 2:
                i = self.sign_info(f)
                if i not in ({1}, {-1}):
                    return 0
                r *= list(i)[0]
        return r

    def split(self, p, want):
        """fork until sign(p) is in `want` or its complement; -> bool.
        p: canonical poly"""
        key = p_key(p)
        s = self.sign_info(p)
        if s <= want:
            return True
        if not (s & want):
            return False
        tset, fset = s & want, s - want
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
            self.taken.append((v, None))
        else:
            opts = []
            zt, ids = self.z_sign2(p, tset)
            r = self.query(zt, ids=ids)
            if r != z3.unsat:
                opts.append(True)
            if r == z3.unsat or self.query(self.z_sign(p, fset), ids=ids) != z3.unsat:
                opts.append(False)
            if not opts:
                raise PathAbort()
            v = self.choose(opts)
        ns = tset if v else fset
        self.known[key] = ns
        self.add_z(*self.z_sign2(p, ns))
        self.pcons.append((p, ns))
        return v

    def assume_sign(self, sym, want):
        """assume sign(sym) in want without forking"""
        if sym.kind != 0:
            raise PathAbort()
        c = sym.const()
        if c is not None:
            if sgn(c) not in want:
                raise PathAbort()
            return
        # multiply out denominators: sign(num * prod f^odd)
        p = sym.num
        for f, e in sym.den.values():
            if e % 2:
                s = self.sign_info(f)
                if s == {1}:
                    continue
                p = self.reduce(p_mul_raw(p, f))
        q, k = canon(p)
        w = set(want) if k > 0 else {-x for x in want}
        s = self.sign_info(q)
        ns = s & w
        if not ns:
            raise PathAbort()
        if ns != s:
            self.known[p_key(q)] = ns
            self.add_z(*self.z_sign2(q, ns))
            self.pcons.append((q, ns))
        if len(q) == 1:
            (m, c), = q.items()
            if len(m) == 1 and m[0][1] == 1:
                if ns == {1}:
                    self.pos_ids.add(m[0][0])
                    self.nn_ids.add(m[0][0])
                elif ns == {0, 1}:
                    self.nn_ids.add(m[0][0])

    # -- reduction of sqrt atoms
    def reduce(self, p):
        if not self.sqrt_ids:
            return p
        for _ in range(200):
            bad = None
            for m in p:
                for i, e in m:
                    if e > 1 and i in self.sqrt_ids:
                        bad = i
                        break
                if bad is not None:
                    break
            if bad is None:
                return p
            sq = self.atoms[bad].sq
            out = {}
            groups = {}
            for m, c in p.items():
                e = 0
                for i, x in m:
                    if i == bad:
                        e = x
                if e < 2:
                    _acc(out, m, c)
                else:
                    rest = tuple((i, x) for i, x in m if i != bad)
                    if e % 2:
                        rest = mono_mul(rest, ((bad, 1),))
                    _acc(groups.setdefault(e // 2, {}), rest, c)
            for h, g in groups.items():
                t = g
                for _h in range(h):
                    t = p_mul_raw(t, sq)
                for m, c in t.items():
                    _acc(out, m, c)
            p = out
        return p


def aff_mul(a, b):
    c1, l1, e1 = a
    c2, l2, e2 = b
    if not l2 and not e2:
        return c1 * c2, {i: v * c2 for i, v in l1.items()}, e1 * abs(c2)
    if not l1 and not e1:
        return c1 * c2, {i: v * c1 for i, v in l2.items()}, e2 * abs(c1)
    r1 = sum(map(abs, l1.values())) + e1
    r2 = sum(map(abs, l2.values())) + e2
    lin = {i: v * c2 for i, v in l1.items()}
    for i, v in l2.items():
        lin[i] = lin.get(i, 0.0) + v * c1
    err = abs(c1) * e2 + abs(c2) * e1 + r1 * r2
    return c1 * c2, lin, err + 1e-14 * (abs(c1) + r1) * (abs(c2) + r2)


def aff_iv(a):
    if a is None:
        return None
    r = sum(map(abs, a[1].values())) + a[2]
    r += 1e-14 * (abs(a[0]) + r)
    return a[0] - r, a[0] + r


def meet(a, b):
    if a is None or b is None:
        return a or b
    return max(a[0], b[0]), min(a[1], b[1])


def aff_fn(a, iv, f, d1, d2max, strict=False):
    """f(a) = f(c) + f'(c)(a-c) + error, error <= r^2/2 * max|f''| over iv;
    strict: the function is only defined off zero"""
    if iv is None or strict and iv[0] <= 0 <= iv[1]:
        return None
    c, lin, e = a
    w = aff_iv(a)
    c0 = c
    if not (iv[0] <= c <= iv[1]):
        c0 = min(max(c, iv[0]), iv[1])
    r = max(w[1] - c0, c0 - w[0])
    k = d1(c0)
    err = abs(k) * e + 0.5 * r * r * d2max(iv[0], iv[1])
    v = f(c0) + k * (c - c0)
    return v, {i: x * k for i, x in lin.items()}, err * (1 + 1e-12) + 1e-14 * (abs(v) + abs(k) * r)


def sgn(c):
    return (c > 0) - (c < 0)


def z3q(fr):
    return z3.RealVal(fr.numerator) / z3.RealVal(fr.denominator) \
        if False else z3.Q(fr.numerator, fr.denominator)


def canon(p):
    """p = k * q with q monic; -> (q, k)"""
    lc = p[p_lead(p)]
    if lc == 1:
        return p, lc
    return {m: c / lc for m, c in p.items()}, lc


def mono_content(p):
    it = iter(p)
    d = dict(next(it))
    for m in it:
        if not d:
            break
        dm = dict(m)
        for i in list(d):
            e = dm.get(i, 0)
            if e == 0:
                del d[i]
            elif e < d[i]:
                d[i] = e
    return tuple(sorted(d.items()))


def p_divexact(a, b, limit=200000):
    """a / b or None (multivariate exact division)"""
    if not a:
        return {}
    lb = p_lead(b)
    cb = b[lb]
    # quick necessary tests
    la = p_lead(a)
    if mono_div(la, lb) is None:
        return None
    va = set(i for m in a for i, _ in m)
    for m in b:
        for i, _ in m:
            if i not in va:
                return None
    r = dict(a)
    q = {}
    steps = 0
    while r:
        steps += len(b)
        if steps > limit:
            return None
        lr = p_lead(r)
        m = mono_div(lr, lb)
        if m is None:
            return None
        c = r[lr] / cb
        q[m] = c
        for mb, c2 in b.items():
            _acc(r, mono_mul(m, mb), -c * c2)
        if lr in r:       # numeric dust
            del r[lr]
    return q


class SymBool(object):
    pass


NAN, PINF, NINF = 'nan', 'inf', '-inf'


class Sym(object):
    __slots__ = ('kind', 'num', 'den', '_fp')
    __array_priority__ = 100.0

    # den: dict key(frozenset) -> (poly, exp); polys monic nonconstant,
    # free of sqrt atoms
    def __init__(self, kind, num=None, den=None):
        self.kind, self.num, self.den = kind, num, den
        self._fp = None

    # --- constructors
    @staticmethod
    def of(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, Fraction):
            return Sym(0, p_const(x), {})
        if isinstance(x, bool) or type(x).__name__ in ('bool_', 'bool'):
            return Sym(0, p_const(Fraction(int(x))), {})
        if isinstance(x, int):
            return Sym(0, p_const(Fraction(x)), {})
        if getattr(x, 'ndim', None) == 0 and getattr(x, 'dtype', None) == object:
            return Sym.of(x.item())
        if isinstance(x, str):
            t = x.strip()
            if t.startswith('__sym__(') and Engine.cur is not None:
                return Engine.cur.lib[int(t[8:-1])]
        try:
            f = float(x)
        except (TypeError, ValueError):
            return None
        if f != f:
            return Sym(NAN)
        if f in (math.inf, -math.inf):
            return Sym(PINF if f > 0 else NINF)
        return Sym(0, p_const(to_frac(x)), {})

    @staticmethod
    def atom(a):
        return Sym(0, {((a.id, 1),): Fraction(1)}, {})

    @staticmethod
    def make(num, den):
        """normalise"""
        E = Engine.cur
        if not num:
            return Sym(0, {}, {})
        if den and not (E.max_terms < 200 and len(num) > 4 * E.max_terms):
            nd = None
            for k in list(den):
                f, e = den[k]
                n2 = num
                while e > 0:
                    q = p_divexact(n2, f)
                    if q is None:
                        break
                    n2 = q
                    e -= 1
                if n2 is not num:
                    if nd is None:
                        nd = dict(den)
                    num = n2
                    if e:
                        nd[k] = (f, e)
                    else:
                        del nd[k]
            if nd is not None:
                den = nd
        r = Sym(0, num, den)
        if len(num) > E.max_terms:
            return r.cut()
        return r

    def cut(self):
        """replace by a named cut point (definition kept)"""
        E = Engine.cur
        me = self

        def init(a):
            z = a.z
            lhs = [z]
            for f, e in me.den.values():
                lhs.extend([E.z_poly(f)] * e)
            # definition is kept for evaluation; not asserted (over-approx.)
            E.set_ival(a, lambda iv: iv, lambda af, iv: af)
            if a.lo is not None:
                E.add_z(a.z >= z3q(to_frac(a.lo)), [a.id])
                E.add_z(a.z <= z3q(to_frac(a.hi)), [a.id])
        a = E.fn_atom('cut', self, init)
        return Sym.atom(a)

    # --- inspection
    def const(self):
        if self.kind == 0 and not self.den and p_is_const(self.num):
            return self.num.get((), Fraction(0))
        return None

    def is_nan(self):
        return self.kind == NAN

    def fp(self):
        if self._fp is None:
            if self.kind != 0:
                self._fp = self.kind
            else:
                E = Engine.cur
                n = fp_poly(E, self.num)
                d = (1, 0)
                for f, e in self.den.values():
                    d = f2mul(d, f2pow(fp_poly(E, f), e))
                self._fp = f2mul(n, f2inv(d))
        return self._fp

    # --- arithmetic
    def __neg__(self):
        if self.kind:
            return Sym({NAN: NAN, PINF: NINF, NINF: PINF}[self.kind])
        return Sym(0, p_scale(self.num, -1), self.den)

    def __pos__(self):
        return self

    def __add__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if self.kind or o.kind:
            if self.kind == NAN or o.kind == NAN:
                return Sym(NAN)
            if self.kind and o.kind:
                return self if self.kind == o.kind else Sym(NAN)
            return self if self.kind else o
        if not self.num:
            return o
        if not o.num:
            return self
        if not self.den and not o.den:
            n = p_add(self.num, o.num)
            r = Sym(0, n, {})
            if Engine.cur.round_consts:
                return rc(r)
            if len(n) > Engine.cur.max_terms:
                return r.cut()
            return r
        if self.den.keys() == o.den.keys() and \
                all(self.den[k][1] == o.den[k][1] for k in self.den):
            return Sym.make(p_add(self.num, o.num), self.den)
        E = Engine.cur
        den = dict(self.den)
        n1, n2 = self.num, o.num
        c1, c2 = len(n1), len(n2)
        for k, (f, e) in o.den.items():
            c1 *= len(f) ** max(0, e - (den[k][1] if k in den else 0))
        for k, (f, e) in den.items():
            c2 *= len(f) ** max(0, e - (o.den[k][1] if k in o.den else 0))
        if c1 + c2 > 8 * E.max_terms:
            a = self.cut() if self.den else self
            b = o.cut() if o.den else o
            return a + b
        for k, (f, e) in o.den.items():
            e1 = den[k][1] if k in den else 0
            if e > e1:
                den[k] = (f, e)
                for _ in range(e - e1):
                    n1 = p_mul_raw(n1, f)
        for k, (f, e) in den.items():
            e2 = o.den[k][1] if k in o.den else 0
            for _ in range(e - e2):
                n2 = p_mul_raw(n2, f)
            if len(n2) > 20 * E.max_terms:
                break
        return Sym.make(E.reduce(p_add(n1, n2)), den)

    __radd__ = __add__

    def __sub__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if self.kind or o.kind:
            if self.kind == NAN or o.kind == NAN:
                return Sym(NAN)
            s = self.sign3() * o.sign3()
            return Sym(NAN) if s == 0 else Sym(PINF if s > 0 else NINF)
        if not self.num or not o.num:
            return Sym(0, {}, {})
        c = o.const()
        if c is not None:
            return rc(Sym(0, p_scale(self.num, c), self.den))
        c = self.const()
        if c is not None:
            return rc(Sym(0, p_scale(o.num, c), o.den))
        E = Engine.cur
        n1, n2 = self.num, o.num
        d1, d2 = self.den, o.den
        # cross-cancel
        if d1 or d2:
            n1, d2 = cancel(n1, d2)
            n2, d1 = cancel(n2, d1)
        if len(n1) * len(n2) > (60 if E.max_terms >= 200 else 20) * E.max_terms:
            # too big: cut the larger side first
            if len(n1) >= len(n2):
                n1 = Sym(0, n1, {}).cut().num
            else:
                n2 = Sym(0, n2, {}).cut().num
        num = E.reduce(p_mul_raw(n1, n2))
        if not d1:
            den = d2
        elif not d2:
            den = d1
        else:
            den = dict(d1)
            for k, (f, e) in d2.items():
                den[k] = (f, e + (den[k][1] if k in den else 0))
        return Sym.make(num, den)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return div(self, o)

    def __rtruediv__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return div(o, self)

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return power(o, self)

    def __floordiv__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        a, b = self.const(), o.const()
        if a is not None and b:
            return Sym.of(Fraction(a // b))
        raise Unsupported('floordiv')

    def __rfloordiv__(self, o):
        return coerce(o).__floordiv__(self)

    def __mod__(self, o):
        o = coerce(o)
        a, b = self.const(), o.const()
        if a is not None and b:
            return Sym.of(a - b * (a // b))
        raise Unsupported('mod')

    def __rmod__(self, o):
        return coerce(o).__mod__(self)

    def __abs__(self):
        if self.kind == NINF:
            return Sym(PINF)
        if self.kind:
            return self
        return -self if self.sign_is({-1}) else self

    # numpy object-loop hooks
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def conjugate(self):
        return self

    def item(self):
        return self

    def square(self):
        return self * self

    def tolist(self):
        return self

    def copy(self):
        return self

    def mean(self, *a, **k):
        return self

    sum = mean
    max = mean
    min = mean

    def astype(self, t, **k):
        return self

    @property
    def real(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    def is_integer(self):
        c = self.const()
        if c is None:
            raise Unsupported('is_integer')
        return c.denominator == 1

    # --- sign / comparison
    def sign3(self):
        """-1/0/1 as an int (forks); nan -> error"""
        if self.kind == PINF:
            return 1
        if self.kind == NINF:
            return -1
        if self.sign_is({1}):
            return 1
        return -1 if self.sign_is({-1}) else 0

    def sign_is(self, want):
        """bool (forks): sign of the (finite) value is in want"""
        want = set(want)
        if self.kind == PINF:
            return 1 in want
        if self.kind == NINF:
            return -1 in want
        c = self.const()
        if c is not None:
            return sgn(c) in want
        E = Engine.cur
        s = 1
        mc = mono_content(self.num)
        rest = self.num
        zero_ok = 0 in want
        parts = []
        if mc:
            rest = {mono_div(m, mc): c for m, c in self.num.items()}
            for i, e in mc:
                parts.append(({((i, 1),): Fraction(1)}, e))
        if not p_is_const(rest):
            q, k = canon(rest)
            s *= sgn(k)
            parts.append((q, 1))
        else:
            s *= sgn(rest[()])
        for f, e in self.den.values():
            if e % 2:
                parts.append((f, 1))
        if want == {0} or want == {-1, 1}:
            for p, e in parts:
                if E.split(p, {0}):
                    return zero_ok
            return not zero_ok
        # parts whose sign is already known
        todo = []
        for p, e in parts:
            si = E.sign_info(p)
            if e % 2 == 0:
                if 0 not in si:
                    continue
                if E.split(p, {0}):
                    return zero_ok
                continue
            if si == {1}:
                continue
            if si == {-1}:
                s = -s
                continue
            if si == {0}:
                return zero_ok
            todo.append(p)
        if not todo:
            return s in want
        # joint decision on the product keeps paths few
        if len(todo) == 1:
            w = {x * s for x in want}
            return E.split(todo[0], w)
        prod = todo[0]
        if sum(len(t) for t in todo) <= 60:
            for p in todo[1:]:
                prod = E.reduce(p_mul_raw(prod, p))
            if p_is_const(prod):
                return sgn(prod.get((), 0)) * s in want
            q, k = canon(prod)
            s *= sgn(k)
            return E.split(q, {x * s for x in want})
        for p in todo:
            if E.split(p, {0}):
                return zero_ok
            if E.split(p, {-1}):
                s = -s
        return s in want

    def _cmp(self, o, want):
        if self.kind == NAN or o.kind == NAN:
            return False
        if self.kind or o.kind:
            rank = {NINF: -1, PINF: 1, 0: 0}
            a, b = rank[self.kind], rank[o.kind]
            return sgn(a - b) in want
        E = Engine.cur
        if E.abstract_small:
            c = o.const()
            if c is not None and 0 < c <= Fraction(1, 10 ** 6) and self.const() is None:
                return conv_test(want)
            c = self.const()
            if c is not None and 0 < c <= Fraction(1, 10 ** 6) and o.const() is None:
                return conv_test({-x for x in want})
        return (self - o).sign_is(want)

    def __lt__(self, o):
        o = coerce(o)
        return o if o is NotImplemented else self._cmp(o, {-1})

    def __le__(self, o):
        o = coerce(o)
        return o if o is NotImplemented else self._cmp(o, {-1, 0})

    def __gt__(self, o):
        o = coerce(o)
        return o if o is NotImplemented else self._cmp(o, {1})

    def __ge__(self, o):
        o = coerce(o)
        return o if o is NotImplemented else self._cmp(o, {0, 1})

    def __eq__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return False
        return self._cmp(o, {0})

    def __ne__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return True
        return not self._cmp(o, {0})

    def __hash__(self):
        c = self.const()
        if c is not None:
            return hash(c)
        return 12345      # equality (forking) decides

    def __bool__(self):
        if self.kind:
            return True
        return not self.sign_is({0})

    # --- conversions
    def __int__(self):
        c = self.const()
        if c is None:
            raise Unsupported('int() of a symbolic value')
        return int(c)

    def __index__(self):
        c = self.const()
        if c is None or c.denominator != 1:
            raise TypeError('symbolic/float value used as an index')
        return int(c)

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        if self.kind:
            return float(self.kind)
        raise Unsupported('float() at C level of a symbolic value')

    def __round__(self, n=None):
        c = self.const()
        if c is None:
            raise Unsupported('round')
        return Sym.of(round(c, n)) if n is not None else round(c)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickle')

    def __repr__(self):
        c = self.const()
        if c is not None:
            return repr(float(c))
        if self.kind:
            return self.kind
        E = Engine.cur
        if E is None:
            return '<sym>'
        k = len(E.lib)
        E.lib[k] = self
        return '__sym__(%d)' % k

    __str__ = __repr__

    def __format__(self, spec):
        c = self.const()
        if c is not None:
            try:
                return format(float(c), spec)
            except ValueError:
                return format(int(c), spec)
        if self.kind:
            return format(float(self.kind), spec) if not spec.endswith('d') else self.kind
        E = Engine.cur
        hook = E.lib.get('fmt') if E else None
        if hook:
            return hook(self, spec)
        return '{sym}'

    # numpy interplay: scalars and 0-d use
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npx
        return npx.array_ufunc(ufunc, method, inputs, kw)


def fp_poly(E, p):
    r0 = r1 = 0
    for m, c in p.items():
        t = (fmod(c), 0)
        for i, e in m:
            f = E.atoms[i].fp
            for _ in range(e):
                t = f2mul(t, f)
        r0 += t[0]
        r1 += t[1]
    return (r0 % P, r1 % P)


def rc(r):
    """validation runs only: keep constants at double precision"""
    if Engine.cur.round_consts and not r.den and len(r.num) == 1 and () in r.num:
        c = r.num[()]
        if c.denominator.bit_length() > 80 or c.numerator.bit_length() > 120:
            try:
                f = float(c)
            except OverflowError:
                return Sym(PINF if c > 0 else NINF)
            return Sym(0, p_const(Fraction(f)), {})
    return r


def coerce(o):
    if isinstance(o, Sym):
        return o
    if isinstance(o, (int, float, Fraction)):
        return Sym.of(o)
    import numpy as np
    if isinstance(o, np.generic) and not isinstance(o, (np.str_, np.bytes_)):
        return Sym.of(o)
    return NotImplemented


def conv_test(want):
    """a symbolic quantity compared with a tiny positive threshold: answer per
    the harness' number of iterations (`small` on the last one)."""
    E = Engine.cur
    if E.it_state is None:
        E.it_state = [0, E.iterations]
    st = E.it_state
    if want == {-1} or want == {-1, 0}:
        st[0] += 1
        return st[0] >= st[1]
    if want == {1} or want == {0, 1}:
        st[0] += 1
        return not (st[0] >= st[1])
    return False


def cancel(num, den):
    if not den:
        return num, den
    nd = None
    for k in list(den):
        f, e = den[k]
        n2 = num
        while e > 0:
            q = p_divexact(n2, f)
            if q is None:
                break
            n2 = q
            e -= 1
        if n2 is not num:
            if nd is None:
                nd = dict(den)
            num = n2
            if e:
                nd[k] = (f, e)
            else:
                del nd[k]
    return num, (den if nd is None else nd)


def invert(o):
    """1/o for finite o known nonzero (symbolically)"""
    E = Engine.cur
    num = ONE
    for f, e in o.den.values():
        for _ in range(e):
            num = p_mul_raw(num, f)
    k = Fraction(1)
    den = {}
    p = o.num
    mc = mono_content(p)
    if mc:
        p = {mono_div(m, mc): c for m, c in p.items()}
        for i, e in mc:
            if i in E.sqrt_ids:
                # 1/r = r / r^2
                sq, kk = canon(E.atoms[i].sq)
                k /= kk
                num = p_mul_raw(num, {((i, 1),): Fraction(1)})
                add_den(den, sq, 1)
            else:
                add_den(den, {((i, 1),): Fraction(1)}, e)
    if p_is_const(p):
        k /= p[()]
    else:
        # rationalise sqrt atoms
        guard = 0
        while True:
            rid = None
            for m in p:
                for i, e in m:
                    if i in E.sqrt_ids:
                        rid = i
                        break
                if rid is not None:
                    break
            if rid is None:
                break
            guard += 1
            if guard > 6:
                raise Unsupported('rationalise')
            A, B = {}, {}
            for m, c in p.items():
                if any(i == rid for i, _ in m):
                    B[mono_div(m, ((rid, 1),))] = c
                else:
                    A[m] = c
            conj = dict(A)
            for m, c in B.items():
                conj[mono_mul(m, ((rid, 1),))] = -c
            num = E.reduce(p_mul_raw(num, conj))
            p = E.reduce(p_add(p_mul_raw(A, A),
                               p_mul_raw(p_mul_raw(B, B), E.atoms[rid].sq), -1))
            if not p:
                raise Unsupported('zero norm')
            if p_is_const(p):
                break
        if p_is_const(p):
            k /= p[()]
        else:
            q, kk = canon(p)
            k /= kk
            add_den(den, q, 1)
    return Sym.make(E.reduce(p_scale(num, k)), den)


def add_den(den, f, e):
    mc = mono_content(f)
    if mc and len(f) > 1:
        rest = {mono_div(m, mc): c for m, c in f.items()}
        for i, x in mc:
            add_den(den, {((i, 1),): Fraction(1)}, e * x)
        f = rest
    elif mc and len(f) == 1:
        for i, x in mc:
            key = p_key({((i, 1),): Fraction(1)})
            old = den[key][1] if key in den else 0
            den[key] = ({((i, 1),): Fraction(1)}, old + e * x)
        return
    key = p_key(f)
    old = den[key][1] if key in den else 0
    den[key] = (f, old + e)


def div(a, b):
    if a.kind == NAN or b.kind == NAN:
        return Sym(NAN)
    if b.kind:
        if a.kind:
            return Sym(NAN)
        return Sym.of(0)
    c = b.const()
    if c is not None and c != 0:
        if a.kind:
            return a if c > 0 else -a
        return rc(Sym(0, p_scale(a.num, 1 / c), a.den))
    if c == 0 or b.sign_is({0}):
        if a.kind:
            return a
        s = a.sign3()
        return Sym(NAN) if s == 0 else Sym(PINF if s > 0 else NINF)
    if a.kind:
        return a if b.sign_is({1}) else -a
    if not a.num:
        return Sym(0, {}, {})
    # direct exact division first
    if not b.den and not a.den:
        q = p_divexact(a.num, b.num)
        if q is not None:
            return Sym(0, q, {})
    return a * invert(b)


def power(a, o):
    b = coerce(o)
    if b is NotImplemented:
        return b
    e = b.const()
    if e is None:
        raise Unsupported('symbolic exponent')
    if a.kind == NAN:
        return a if e != 0 else Sym.of(1)
    if a.kind == PINF:
        return Sym(PINF) if e > 0 else Sym.of(0 if e < 0 else 1)
    if a.kind == NINF:
        raise Unsupported('(-inf)**e')
    if e.denominator == 1:
        n = int(e)
        if abs(n) > 40:
            if a.const() is not None:
                return Sym.of(float(a.const()) ** n)
            raise Unsupported('large power')
        r = Sym.of(1)
        for _ in range(abs(n)):
            r = r * a
        return r if n >= 0 else div(Sym.of(1), r)
    if e.denominator == 2:
        s = sqrt(a)
        return power(s, Sym.of(e * 2))
    c = a.const()
    if c is not None and c >= 0:
        return Sym.of(float(c) ** float(e))
    raise Unsupported('fractional power')


def frac_sqrt(c):
    n, d = c.numerator, c.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    return None


def sqrt(a):
    if a.kind == NAN or a.kind == NINF:
        return Sym(NAN)
    if a.kind == PINF:
        return a
    c = a.const()
    if c is not None:
        if c < 0:
            return Sym(NAN)
        r = frac_sqrt(c)
        if r is not None:
            return Sym.of(r)
        return Sym.of(math.sqrt(float(c)))
    if a.sign_is({-1}):
        return Sym(NAN)
    E = Engine.cur
    # a = num / den ; sqrt = sqrt(num * odd den) / (half powers of den)
    p = a.num
    out = Sym.of(1)
    for f, e in a.den.values():
        if e % 2:
            p = E.reduce(p_mul_raw(p, f))
            e += 1
        h = e // 2
        out = out * invert_pow(f, h)
    # the half powers enter as |f|
        if h % 2 and not Sym(0, f, {}).sign_is({0, 1}):
            out = -out
    # pull out monomial squares
    whole, wk = canon(p)
    ws = E.sign_info(whole)
    nonzero = 0 not in ws
    if not nonzero:
        # the same test on the un-multiplied value
        p2 = a.num
        for f, e in a.den.values():
            if e % 2 and E.sign_info(f) != {1}:
                p2 = E.reduce(p_mul_raw(p2, f))
        nonzero = 0 not in E.sign_info(canon(p2)[0])
    mc = mono_content(p)
    if mc:
        p = {mono_div(m, mc): c for m, c in p.items()}
        for i, e in mc:
            h = e // 2
            x = Sym(0, {((i, 1),): Fraction(1)}, {})
            if e % 2:
                p = p_mul_raw(p, {((i, 1),): Fraction(1)})
            if h:
                ax = x if (i in E.nn_ids or x.sign_is({0, 1})) else -x
                for _ in range(h):
                    out = out * ax
    if p_is_const(p):
        return out * sqrt(Sym.of(p[()]))
    q, k = canon(p)
    if k < 0:
        q, k = p_scale(q, Fraction(-1)), -k
    r = perfect_square(q)
    if r is not None:
        x = Sym(0, r, {})
        return out * csqrt(k) * (x if x.sign_is({0, 1}) else -x)
    # one root per polynomial up to constants; irrational constants stay
    # inside the root so that nothing is rounded
    reg = E.sqrt_reg.setdefault(p_key(q), [])
    if reg:
        k0 = reg[0]
    else:
        k0 = Fraction(1) if frac_sqrt(k) is not None else k
        reg.append(k0)
    ks = csqrt(k / k0)
    if k0 != 1:
        q = p_scale(q, k0)
    qs = Sym(0, q, {})

    def init(at):
        E.sqrt_ids.add(at.id)
        E.nn_ids.add(at.id)
        at.sq = q
        E.set_ival(at, lambda iv: (math.sqrt(max(0.0, iv[0])), math.sqrt(max(0.0, iv[1]))),
                   lambda af, iv: iv[0] > 0 and aff_fn(
                       af, iv, math.sqrt, lambda x: 0.5 / math.sqrt(x), lambda l, h: 0.25 * l ** -1.5) or None)
        E.defs[at.id] = ([at.z >= 0, at.z * at.z == E.z_poly(q)], E.p_ids(q))
        cq, kk = canon(q)
        s = E.sign_info(cq)
        if 0 not in s or nonzero:
            E.pos_ids.add(at.id)
    at = E.fn_atom('sqrt', qs, init)
    if nonzero:
        E.pos_ids.add(at.id)
    cq, kk = canon(q)
    lim = {1} if nonzero else {0, 1}
    if kk < 0:
        lim = {-x for x in lim}
    sgs = E.sign_info(cq)
    if sgs & lim and not sgs <= lim:
        E.known[p_key(cq)] = sgs & lim
    return out * ks * Sym.atom(at)


def csqrt(k):
    """exact square root of a positive rational (a root atom if irrational)"""
    r = frac_sqrt(k)
    if r is not None:
        return Sym.of(r)
    E = Engine.cur
    n, d = k.numerator * k.denominator, k.denominator
    f = 1
    for q in (2, 3, 5, 7, 11, 13):
        while n % (q * q) == 0:
            n //= q * q
            f *= q
    p = {(): Fraction(n)}
    key = p_key(p)
    a = E.csqrt.get(key)
    if a is None:
        a = E.new_atom('sqrt', 'sqrt', Sym(0, p, {}))
        E.csqrt[key] = a
        E.sqrt_ids.add(a.id)
        E.nn_ids.add(a.id)
        E.pos_ids.add(a.id)
        a.sq = p
        E.set_ival(a, lambda iv: (math.sqrt(iv[0]), math.sqrt(iv[1])))
        a.aff = ((a.lo + a.hi) / 2, {}, (a.hi - a.lo))
        E.defs[a.id] = ([a.z >= 0, a.z * a.z == z3q(Fraction(n))], set())
    return Sym.atom(a) * Sym.of(Fraction(f, d))


def invert_pow(f, h):
    d = {}
    add_den(d, f, h)
    return Sym(0, dict(ONE), d)


def perfect_square(q):
    """polynomial r with r*r == q (monic lead), or None; cheap attempt for
    squares of linear/quadratic polynomials"""
    lead = p_lead(q)
    h = []
    for i, e in lead:
        if e % 2:
            return None
        h.append((i, e // 2))
    c = frac_sqrt(q[lead]) if q[lead] > 0 else None
    if c is None:
        return None
    r = {tuple(h): c}
    rem = p_add(q, p_mul_raw(r, r), -1)
    lm = tuple(h)
    steps = 0
    while rem:
        steps += 1
        if steps > 60:
            return None
        l2 = p_lead(rem)
        m = mono_div(l2, lm)
        if m is None or _mono_key(m) >= _mono_key(lm):
            return None
        if m in r:
            return None
        t = {m: rem[l2] / (2 * c)}
        rem = p_add(rem, p_add(p_scale(p_mul_raw(r, t), Fraction(2)), p_mul_raw(t, t)), -1)
        r = p_add(r, t)
    return r


def exp(a):
    if a.kind == NAN or a.kind == PINF:
        return a
    if a.kind == NINF:
        return Sym.of(0)
    c = a.const()
    if c is not None:
        return Sym.of(math.exp(float(c)))
    E = Engine.cur
    # exp(log x) = x
    if len(a.num) == 1 and not a.den:
        (m, k), = a.num.items()
        if len(m) == 1 and m[0][1] == 1 and E.atoms[m[0][0]].kind == 'log' and k.denominator == 1:
            return power(E.atoms[m[0][0]].arg, Sym.of(k))
    # normalise sign so exp(-a) = 1/exp(a)
    neg = a.num[p_lead(a.num)] < 0
    if neg:
        a = -a
    # split off constant term
    ct = Fraction(0)
    if not a.den and () in a.num and not E.exact_log:
        ct = a.num[()]
        n = dict(a.num)
        del n[()]
        a = Sym(0, n, {})

    def init(at):
        E.pos_ids.add(at.id)
        E.nn_ids.add(at.id)
        E.add_z(at.z > 0, [at.id])
        E.set_ival(at, lambda iv: (math.exp(iv[0]), math.exp(iv[1])),
                   lambda af, iv: aff_fn(af, iv, math.exp, math.exp, lambda l, h: math.exp(h)))
    r = Sym.atom(E.fn_atom('exp', a, init))
    if ct:
        r = r * Sym.of(math.exp(float(ct)))
    return div(Sym.of(1), r) if neg else r


def log(a):
    if a.kind == NAN or a.kind == NINF:
        return Sym(NAN)
    if a.kind == PINF:
        return a
    c = a.const()
    if c is not None:
        if c < 0:
            return Sym(NAN)
        if c == 0:
            return Sym(NINF)
        if E_exact():
            return log_const(c)
        return Sym.of(math.log(float(c))) if c != 1 else Sym.of(0)
    if a.sign_is({0}):
        return Sym(NINF)
    if a.sign_is({-1}):
        return Sym(NAN)
    E = Engine.cur
    # the same positive value (up to a rational factor or inversion) written
    # differently has one logarithm: strip exponentials, square away roots
    x, add, half = a, Sym.of(0), 1
    for i, e in mono_content(x.num):
        if E.atoms[i].kind == 'exp':
            add = add + E.atoms[i].arg * Sym.of(e)
            x = Sym(0, {mono_div(m, ((i, e),)): c for m, c in x.num.items()}, x.den)
    nd = dict(x.den)
    for k, (f, e) in x.den.items():
        if len(f) == 1:
            (m, c), = f.items()
            if len(m) == 1 and E.atoms[m[0][0]].kind == 'exp' and c == 1:
                add = add - E.atoms[m[0][0]].arg * Sym.of(e * m[0][1])
                del nd[k]
    x = Sym(0, x.num, nd)
    if x.const() is not None:
        return add + log(x)
    if any(E.atoms[i].kind == 'sqrt' for i, e in mono_content(x.num)) or any(
            E.atoms[i].kind == 'sqrt' for f, e in x.den.values() if len(f) == 1 for m in f for i, _ in m):
        x, half = x * x, 2
        if x.const() is not None:
            return add + log(x) * Sym.of(Fraction(1, half))
    q, kc = canon(x.num)
    if kc < 0:
        q, kc = p_scale(q, Fraction(-1)), -kc
    add = add + log(Sym.of(kc)) * Sym.of(Fraction(1, half))
    x = Sym(0, q, x.den)
    fx = x.fp()
    for fy, ly in E.log_vals:
        iy = f2inv(fy)
        for u, v, pw in ((fx, iy, 1), (fx, fy, -1), (fx, f2mul(iy, iy), 2), (fx, f2mul(fy, fy), -2),
                         (f2mul(fx, fx), iy, Fraction(1, 2)), (f2mul(fx, fx), fy, Fraction(-1, 2))):
            k = rat_rec(f2mul(u, v))
            if k is not None and k > 0:
                # x = k*y^pw  or  x^2 = k*y^(2 pw)
                c = log(Sym.of(k))
                if abs(pw) < 1:
                    c = c * Sym.of(Fraction(1, 2))
                return add + (ly * Sym.of(pw) + c) * Sym.of(Fraction(1, half))
    lx = log_parts(x)
    if fx != (0, 0):
        E.log_vals.append((fx, lx))
    return add + lx * Sym.of(Fraction(1, half))


def E_exact():
    return Engine.cur is not None and Engine.cur.exact_log


def log_const(c):
    """exact logarithm of a positive rational over a basis of integers"""
    E = Engine.cur
    out = Sym.of(0)
    if c.numerator.bit_length() + c.denominator.bit_length() > 45:
        # a rounded multiple of a power of pi?
        f = float(c)
        for j in (0, 1, -1, .5, -.5, 2, -2, 3, -3):
            v = f / math.pi ** j
            for w, pw in ((v, 1), (v * v, 2)):
                r = Fraction(w).limit_denominator(5000) if w > 1 else 1 / Fraction(1 / w).limit_denominator(5000)
                if r.numerator < 10 ** 6 and r.denominator < 10 ** 6 and abs(float(r) - w) < 4e-15 * w:
                    x = log_const(r) * Sym.of(Fraction(1, pw))
                    if j:
                        x = x + Sym.of(Fraction(j)) * Sym.atom(log_pi())
                    return x
    for n, sg in ((c.numerator, 1), (c.denominator, -1)):
        if n == 1:
            continue
        exps = {}
        for b, at in E.log_basis:
            while n % b == 0:
                n //= b
                exps[at.id] = exps.get(at.id, 0) + 1
        q = 2
        while n > 1 and q < 200:
            if n % q == 0:
                at = log_atom(q)
                while n % q == 0:
                    n //= q
                    exps[at.id] = exps.get(at.id, 0) + 1
            q += 1
        if n > 1:
            at = log_atom(n)
            exps[at.id] = exps.get(at.id, 0) + 1
        for i, e in exps.items():
            out = out + Sym.atom(E.atoms[i]) * Sym.of(sg * e)
    return out


def log_pi():
    E = Engine.cur
    for b, at in E.log_basis:
        if at.name == 'logpi':
            return at
    b = E.log_basis
    E.log_basis = []
    at = log_atom(math.pi, 'logpi')
    E.log_basis = b
    E.log_basis.append((1 << 4000, at))
    return at


def log_atom(n, name='log'):
    E = Engine.cur
    a = E.new_atom(name, 'log', Sym.of(n))
    v = math.log(n)
    a.lo, a.hi = math.nextafter(v, 0) * (1 - 1e-15), v * (1 + 2e-16) + 1e-300
    a.aff = (v, {}, 2e-15 * v)
    E.pos_ids.add(a.id)
    E.nn_ids.add(a.id)
    E.defs[a.id] = ([a.z >= z3q(to_frac(a.lo)), a.z <= z3q(to_frac(a.hi))], set())
    E.log_basis.append((n, a))
    return a


def rat_rec(r):
    """rational number with small numerator and denominator, or None"""
    if r[1]:
        return None
    a, b = P, r[0]
    s, t = 0, 1
    lim = 1 << 62
    while b >= lim:
        q = a // b
        a, b = b, a - q * b
        s, t = t, s - q * t
    if b == 0 or abs(t) >= lim or t == 0:
        return None
    if b.bit_length() + abs(t).bit_length() > 118:
        return None
    return Fraction(b, t)


def log_parts(a):
    E = Engine.cur
    out = Sym.of(0)
    parts = []
    p = a.num
    mc = mono_content(p)
    if mc:
        p = {mono_div(m, mc): c for m, c in p.items()}
        for i, e in mc:
            parts.append((i, None, e))
    if p_is_const(p):
        out = out + log(Sym.of(abs(p[()])))
    else:
        q, k = canon(p)
        out = out + log(Sym.of(abs(k)))
        parts.append((None, q, 1))
    for f, e in a.den.values():
        if len(f) == 1:
            (m, _), = f.items()
            for i, x in m:
                parts.append((i, None, -e * x))
        else:
            parts.append((None, f, -e))
    for i, q, e in parts:
        if i is not None:
            at = E.atoms[i]
            if at.kind == 'exp':
                out = out + at.arg * Sym.of(e)
                continue
            if at.kind == 'sqrt':
                out = out + log(Sym(0, at.sq, {})) * Sym.of(Fraction(e, 2))
                continue
            q = {((i, 1),): Fraction(1)}
        x = Sym(0, q, {})
        if not x.sign_is({1}):
            x = -x
        out = out + Sym.of(e) * Sym.atom(E.fn_atom('log', x, lambda at: E.set_ival(
            at, lambda iv: (math.log(iv[0]), math.log(iv[1])) if iv[0] > 0 else None,
            lambda af, iv: aff_fn(af, iv, math.log, lambda x: 1 / x, lambda l, h: l ** -2) if iv[0] > 0 else None)))
    return out


def bounded_fn(kind, lo=None, hi=None, odd=None):
    def fn(a, cfun):
        if a.kind == NAN:
            return a
        c = a.const()
        if c is not None or a.kind:
            return Sym.of(cfun(float(a)))
        E = Engine.cur
        flip = False
        if odd is not None and a.num[p_lead(a.num)] < 0:
            a = -a
            flip = True

        def init(at):
            if lo is not None:
                E.add_z(at.z > z3q(to_frac(lo)), [at.id])
                if lo >= 0:
                    E.pos_ids.add(at.id)
                    E.nn_ids.add(at.id)
            if hi is not None:
                E.add_z(at.z < z3q(to_frac(hi)), [at.id])
        r = Sym.atom(E.fn_atom(kind, a, init))
        return odd(r) if flip else r
    return fn


# standard normal cdf / pdf / logistic pieces
_ncdf = bounded_fn('ncdf', 0, 1, lambda r: 1 - r)


def norm_cdf(a):
    return _ncdf(a, lambda v: 0.5 * math.erfc(-v / math.sqrt(2)))


def generic(kind, a, cfun):
    return bounded_fn(kind)(a, cfun)


# ------------------------------------------------------------------ evaluate

def evalf(s, env, memo=None):
    """numeric value of a Sym; env: var atom id -> float"""
    if not isinstance(s, Sym):
        return float(s)
    if s.kind:
        return float(s.kind)
    memo = {} if memo is None else memo
    E = Engine.cur

    def av(i):
        v = memo.get(i)
        if v is None:
            at = E.atoms[i]
            if at.kind == 'var':
                v = env[i]
            else:
                x = evalf(at.arg, env, memo)
                v = FN[at.kind](x)
            memo[i] = v
        return v

    def pv(p):
        t = 0.0
        for m, c in p.items():
            v = float(c)
            for i, e in m:
                v *= av(i) ** e
            t += v
        return t
    n = pv(s.num)
    for f, e in s.den.values():
        n /= pv(f) ** e
    return n


FN = {'sqrt': lambda x: math.sqrt(x) if x >= 0 else float('nan'),
      'exp': lambda x: math.exp(min(x, 700.)), 'log': lambda x: math.log(x) if x > 0 else float('nan'),
      'ncdf': lambda v: 0.5 * math.erfc(-v / math.sqrt(2)), 'cut': lambda x: x}
