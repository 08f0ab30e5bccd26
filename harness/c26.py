"""C26 parallel map"""
import multiprocessing as real_mp
from . import lib

BOUNDS = ('0 to 4 jobs, 1 to 3 processes (or the number of cores); every order in which waiting jobs are started, every poll at which a '
          'running job is seen to have finished (up to 2 polls each) and every subset of failing jobs')
ASSUMPTIONS = ['processes are modelled by a stand-in scheduler: a job runs when it is seen finished; the operating system is not modelled']


class Sched(object):
    def __init__(self, ctx, n, polls):
        self.ctx, self.left, self.polls = ctx, list(range(n)), polls
        self.running, self.peak, self.procs = 0, 0, []

    def __getattr__(self, n):
        return getattr(real_mp, n)

    def cpu_count(self):
        return 2

    def Manager(self):
        return Mgr()

    def Process(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        p = Proc(self, target, args, kwargs or {})
        self.procs.append(p)
        return p


class Mgr(object):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def dict(self, *a, **k):
        return dict(*a, **k)

    def list(self, *a):
        return list(*a)

    def shutdown(self):
        pass


class Proc(object):
    daemon = False
    exitcode = None
    pid = 1

    def __init__(self, sch, target, args, kwargs):
        self.sch, self.call, self.state, self.seen = sch, (target, args, kwargs), 'new', 0
        n = len(sch.procs)
        # position in sets of processes: any order
        self.rank = sch.left.pop(sch.ctx.choice('rank%d' % n, len(sch.left))) if sch.left else 100 + n
        self.no = n

    def __hash__(self):
        return self.rank

    def __eq__(self, o):
        return self is o

    def start(self):
        assert self.state == 'new', 'cannot start a process twice'
        self.state = 'running'
        self.sch.running += 1
        self.sch.peak = max(self.sch.peak, self.sch.running)

    def finish(self):
        t, a, k = self.call
        try:
            t(*a, **k)
            self.exitcode = 0
        except Exception:
            self.exitcode = 1
        self.state = 'done'
        self.sch.running -= 1

    def is_alive(self):
        if self.state == 'running':
            self.seen += 1
            if self.seen > self.sch.polls or self.sch.ctx.flag('done%d_%d' % (self.no, self.seen)):
                self.finish()
        return self.state == 'running'

    def join(self, timeout=None):
        if self.state == 'running':
            self.finish()

    def terminate(self):
        self.state = 'done'

    kill = close = terminate


def h_map(ctx, N, procs=None, polls=1, form='list', fail=False):
    from sureal.tools import misc
    v = [ctx.real('a%d' % i, 0, 9) for i in range(N)]
    bad = [fail and ctx.flag('bad%d' % i) for i in range(N)]
    calls = []
    args = [(i, v[i]) for i in range(N)]

    def f(t):
        calls.append(t[0])
        if bad[t[0]]:
            raise ValueError('job')
        return t[1] * 2 + t[0]
    sch = Sched(ctx, N, polls)
    orig = misc.__dict__.get('multiprocessing')
    misc.multiprocessing = sch
    try:
        kw = {} if procs is None else dict(processes=procs)
        given = list(args) if form == 'list' else tuple(args) if form == 'tuple' else iter(args)
        got, err = None, False
        try:
            got = misc.parallel_map(f, given, pause_sec=None, **kw)
        except Exception:
            if not any(bad):
                raise
            err = True
    finally:
        misc.multiprocessing = orig
    ctx.eq('error', err, any(bad))
    if not err:
        ctx.eq('results', list(got), [v[i] * 2 + i for i in range(N)])
        if sch.procs:
            ctx.eq('each job once', sorted(calls), list(range(N)))
            ctx.eq('all finished', sch.running, 0)
    if sch.procs:
        ctx.true('number at once', sch.peak <= (procs or 2))


def jobs(tier):
    o = dict(timeout_ms=300, budget=120, max_paths=30000)
    J = []

    def add(nval=1, **p):
        J.append(dict(h='h_map', p=p, o=o, nval=nval))
    add(N=0)
    add(N=1, polls=2)
    add(N=2, polls=2)
    add(N=3, procs=1)
    add(N=3, procs=2, form='iter')
    add(N=3, procs=3, form='tuple')
    add(N=3, fail=True)
    add(N=4, procs=2)
    if tier == 'thorough':
        o = dict(timeout_ms=300, budget=600, max_paths=300000)
        add(N=4, procs=3, polls=2)
        add(N=5, procs=2)
        add(N=4, fail=True, procs=3)
    return J
