"""C27 cached and persisted results"""
import builtins
import os
from . import lib
from .c14 import Scratch

BOUNDS = ('histories of 3 to 4 calls of 2 functions with arguments from a pool of 4 (look-alike values of different type included), in '
          'one process or with the cache reopened between any two calls; symbolic returned values; a crash at every file operation '
          '(open, write, close, rename) of the first call that stores a result')
ASSUMPTIONS = ['a crash leaves the files exactly as the operations so far made them (no reordering of writes by the file system)',
               'returned values are of the kinds JSON keeps (numbers, strings, lists, dictionaries with string keys)',
               'one cache file shared by two functions may lose entries (they are computed again)']

POOL = [(1,), ('1',), (1, 2), ('a', 1)]


class Tracer(object):
    """snapshots of a directory at file operations of a module"""

    def __init__(self, ctx, mod, root):
        self.ctx, self.mod, self.root, self.n, self.snap = ctx, mod, root, 0, None

    def hit(self):
        self.n += 1
        if self.snap is None and self.ctx.flag('crash%d' % self.n):
            self.snap = {}
            for d, _, fs in os.walk(self.root):
                self.snap[os.path.relpath(d, self.root)] = None
                for f in fs:
                    p = os.path.join(d, f)
                    with builtins.open(p, 'rb') as h:
                        self.snap[os.path.relpath(p, self.root)] = h.read()

    def restore(self):
        for d, ds, fs in os.walk(self.root, topdown=False):
            for f in fs:
                os.remove(os.path.join(d, f))
            for x in ds:
                os.rmdir(os.path.join(d, x))
        for n in sorted(self.snap):
            p = os.path.join(self.root, n)
            if self.snap[n] is None:
                os.makedirs(p, exist_ok=True)
            else:
                with builtins.open(p, 'wb') as h:
                    h.write(self.snap[n])

    def __enter__(self):
        t = self

        class F(object):
            def __init__(self, f):
                self.f = f

            def write(self, s):
                r = self.f.write(s)
                self.f.flush()
                t.hit()
                return r

            def close(self):
                if not self.f.closed:
                    self.f.close()
                    t.hit()

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

            def __iter__(self):
                return iter(self.f)

            def __getattr__(self, n):
                return getattr(self.f, n)

        def open_(name, mode='r', *a, **k):
            f = builtins.open(name, mode, *a, **k)
            if any(c in mode for c in 'wax+'):
                f = F(f)
                t.hit()
            return f
        self.mod.open = open_
        self.saved = {}
        for n in ('replace', 'rename'):
            self.saved[n] = getattr(os, n)

            def op(*a, _f=self.saved[n], **k):
                r = _f(*a, **k)
                t.hit()
                return r
            setattr(os, n, op)
        return self

    def __exit__(self, *a):
        del self.mod.open
        for n, f in self.saved.items():
            setattr(os, n, f)


def deco(kind, w):
    from sureal.tools import decorator as D
    if kind == 'file':
        return D.persist_to_file(os.path.join(w, 'cache.json'))
    return D.persist_to_dir(os.path.join(w, 'cache'))


def fresh(ctx, kind, w, vals, calls):
    """two functions wrapped as in a newly started process"""
    def make(n):
        def f(*a):
            calls.append((n,) + a)
            return vals[n, a]
        f.__name__ = n
        return f
    return {n: deco(kind, w)(make(n)) for n in ('f', 'g')}


def values(ctx, names=('f', 'g')):
    return {(n, a): [ctx.real('r_%s_%d' % (n, i), 0, 9), {'k': ctx.real('s_%s_%d' % (n, i), 0, 9), 't': 'x'}]
            for n in names for i, a in enumerate(POOL)}


def h_hist(ctx, kind, K, two=False, pool=4, restart=True):
    vals = values(ctx)
    with Scratch() as w:
        calls, known = [], set()
        fs = fresh(ctx, kind, w, vals, calls)
        for k in range(K):
            if k and restart and ctx.flag('restart%d' % k):
                fs = fresh(ctx, kind, w, vals, calls)
                if kind == 'file' and two:
                    known = None        # one file shared by two functions: results may be computed again
            n = ('f', 'g')[ctx.choice('fn%d' % k, 2)] if two else 'f'
            a = POOL[ctx.choice('arg%d' % k, pool)]
            before = len(calls)
            r = fs[n](*a)
            ctx.eq('result %d' % k, lib.plain(r), vals[n, a])
            if known is not None:
                ctx.eq('computed %d' % k, calls[before:], [] if (n, a) in known else [(n,) + a])
                known.add((n, a))


def h_crash(ctx, kind, first=True):
    from sureal.tools import decorator as D
    vals = values(ctx, ['f', 'g'])
    with Scratch() as w:
        calls = []
        fs = fresh(ctx, kind, w, vals, calls)
        if not first:
            fs['f'](*POOL[3])
        t = Tracer(ctx, D, w)
        with t:
            fs['f'](*POOL[0])
        ctx.assume(t.snap is not None)
        t.restore()
        del calls[:]
        try:
            fs = fresh(ctx, kind, w, vals, calls)
            ok = True
        except SystemExit:
            ok = False
        ctx.true('usable after a crash', ok)
        if ok:
            ctx.eq('result', lib.plain(fs['f'](*POOL[0])), vals['f', POOL[0]])
            ctx.eq('result again', lib.plain(fs['f'](*POOL[0])), vals['f', POOL[0]])
            del calls[:]
            if not first:
                ctx.eq('earlier result', lib.plain(fs['f'](*POOL[3])), vals['f', POOL[3]])
                ctx.eq('earlier result kept', calls, [])


def h_memo(ctx, K, method=False):
    from sureal.tools.decorator import memoized
    calls = []
    pool = [(1,), ('1',), ([1, 2],), (1, 2)]
    vals = {i: ctx.real('r%d' % i, 0, 9) for i in range(8)}

    def body(o, a):
        calls.append((o, a))
        return vals[4 * o + pool.index(a)]
    if method:
        class A(object):
            def __init__(self, o):
                self.o = o

            @memoized
            def f(self, *a):
                return body(self.o, a)
        obj = [A(0), A(1)]
        fs = [obj[0].f, obj[1].f]
    else:
        fs = [memoized(lambda *a: body(0, a)), memoized(lambda *a: body(1, a))]
    known = set()
    for k in range(K):
        o, i = ctx.choice('o%d' % k, 2), ctx.choice('a%d' % k, len(pool))
        before = len(calls)
        r = (obj[o].f if method else fs[o])(*pool[i])
        ctx.eq('result %d' % k, r, vals[4 * o + i])
        if i != 2:
            ctx.eq('computed %d' % k, calls[before:], [] if (o, i) in known else [(o, pool[i])])
        known.add((o, i))


def jobs(tier):
    o = dict(timeout_ms=300, budget=150, max_paths=30000)
    J = []

    def add(h, nval=1, **p):
        J.append(dict(h=h, p=p, o=o, nval=nval))
    for k in ('file', 'dir'):
        add('h_hist', kind=k, K=3)
        add('h_hist', kind=k, K=3, two=True, pool=2)
        add('h_crash', kind=k)
        add('h_crash', kind=k, first=False)
    add('h_memo', K=3)
    add('h_memo', K=3, method=True)
    if tier == 'thorough':
        o = dict(timeout_ms=300, budget=800, max_paths=300000)
        for k in ('file', 'dir'):
            add('h_hist', kind=k, K=4)
            add('h_hist', kind=k, K=4, two=True, pool=3, restart=False)
        add('h_memo', K=4)
        add('h_memo', K=4, method=True)
    return J
