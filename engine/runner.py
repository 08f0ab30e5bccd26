"""Explores the harnesses of one property, replays counterexamples, writes
evidence.  Exit 0 / 1 (+VIOLATION line) / 2 (nothing could be decided)."""
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


class Sink(object):
    encoding = 'utf-8'

    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def one_path(fn, params, prefix, stats, opts, deadline):
    from engine import sym as S
    from engine.ctx import SymCtx
    E = S.Engine(prefix, stats, timeout_ms=opts.get('timeout_ms', 3000),
                 max_terms=opts.get('max_terms', 1500), deadline=deadline)
    S.Engine.cur = E
    ctx = SymCtx(E)
    status = 'ok'
    so = sys.stdout
    sys.stdout = Sink()
    try:
        fn(ctx, **params)
    except S.PathAbort:
        status = 'abort'
    except S.Budget:
        status = 'budget'
    except S.Unsupported as e:
        status = 'unsupported: %s @ %s' % (e, where(sys.exc_info()[2]))
    except RecursionError as e:
        status = 'unsupported: recursion'
    except Exception as e:
        loc = where(sys.exc_info()[2])
        try:
            ctx.fail('exception', '%s: %s @ %s' % (type(e).__name__, e, loc), None)
        except S.Budget:
            status = 'budget'
    except SystemExit as e:
        ctx.fail('exception', 'SystemExit', None)
    finally:
        sys.stdout = so
    return E, ctx, status


def where(tb):
    fr = traceback.extract_tb(tb)
    s = [f for f in fr if f.filename.startswith(REPO)] or fr
    return '%s:%s' % (os.path.basename(s[-1].filename), s[-1].lineno)


def explore(job):
    """one (harness, params): all paths"""
    from engine import sym as S
    t0 = time.time()
    mod = importlib.import_module(job['module'])
    fn = getattr(mod, job['harness'])
    opts = job.get('opts', {})
    stats = S.Stats()
    deadline = t0 + opts.get('budget', 60)
    res = dict(job=job, cands=[], status='ok', notes=[], samples=[])
    work = [()]
    reached = 0
    completed = 0
    maxp = opts.get('max_paths', 4000)
    while work:
        if time.time() > deadline or stats.paths + stats.aborted >= maxp:
            res['status'] = 'budget'
            break
        prefix = work.pop()
        E, ctx, status = one_path(fn, job['params'], prefix, stats, opts, deadline)
        if status == 'abort':
            stats.aborted += 1
        elif status == 'ok':
            stats.paths += 1
        elif status == 'budget':
            res['status'] = 'budget'
            break
        else:
            res['status'] = status
            res['notes'].append(status)
            if len(res['notes']) > 3:
                break
        reached += ctx.reached
        if status == 'ok' and len(res['samples']) < 1 and (ctx.values or ctx.vars):
            res['samples'].append({'path_decisions': len(E.taken),
                                   'choices': dict(list(ctx.values.items())[:12]),
                                   'symbolic_inputs': list(ctx.vars)[:16],
                                   'assertions': ctx.reached})
        for label, why, models in ctx.cands:
            if len(res['cands']) < 8 or not any(c['label'] == label for c in res['cands']):
                res['cands'].append(dict(label=label, why=why, models=models))
        if len(res['cands']) >= 12:
            res['notes'].append('stopped after 12 candidates')
            break
        base = [t[0] for t in E.taken]
        for i in range(len(prefix), len(E.taken)):
            alts = E.taken[i][1]
            if alts:
                for a in alts:
                    work.append(tuple(base[:i]) + (a,))
    if reached == 0 and res['status'] == 'ok':
        res['status'] = 'vacuous'
    res['stats'] = dict(stats.__dict__)
    res['reached'] = reached
    # encoding validation inputs: same harness, constant Syms, through the stand-ins
    res['validate'] = []
    if job.get('nval', 2):
        vdead = time.time() + opts.get('val_budget', 12)
        rng = random.Random(job['seed'] * 7919 + job['index'])
        tries = 0
        while len(res['validate']) < job.get('nval', 2) and tries < 12 and time.time() < vdead:
            tries += 1
            v = validate_run(fn, job['params'], rng, opts, vdead)
            if v is not None:
                res['validate'].append(v)
    res['wall'] = time.time() - t0
    res['functions'] = []
    return res


def validate_run(fn, params, rng, opts, deadline):
    from engine import sym as S
    from engine.ctx import SymCtx
    E = S.Engine((), None, timeout_ms=1000, deadline=deadline)
    E.round_consts = True
    E.abstract_small = False
    S.Engine.cur = E
    seed = rng.randrange(1 << 30)
    ctx = SymCtx(E, fixed={}, rng=random.Random(seed))
    so = sys.stdout
    sys.stdout = Sink()
    try:
        fn(ctx, **params)
    except S.PathAbort:
        return None
    except (S.Unsupported, S.Budget):
        return None
    except Exception as e:
        return dict(values=ctx.fixed, observed=None, err=repr(e))
    except SystemExit as e:
        return dict(values=ctx.fixed, observed=None, err=repr(e))
    finally:
        sys.stdout = so
    return dict(values=ctx.fixed, observed=ctx.observed, err=None,
                fails=[(c[0], c[1]) for c in ctx.cands])


class Concrete(object):
    """server process running the real code"""

    def __init__(self):
        env = dict(os.environ)
        env.update(PYTHONPATH='', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1',
                   OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0',
                   MPLCONFIGDIR=os.environ.get('MPLCONFIGDIR', '/tmp/verif_mpl'))
        code = 'import sys; sys.path.insert(0, %r); from engine.concrete import main; main()' % VERIF
        self.p = subprocess.Popen([PY, '-W', 'ignore', '-c', code], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                                  env=env, cwd=VERIF)

    def ask(self, timeout=60, **req):
        import select
        try:
            self.p.stdin.write(json.dumps(req) + '\n')
            self.p.stdin.flush()
        except BrokenPipeError:
            return {'status': 'crash', 'err': 'concrete server died'}
        t0 = time.time()
        while True:
            r, _, _ = select.select([self.p.stdout], [], [], 1.0)
            if r:
                line = self.p.stdout.readline()
                if not line:
                    return {'status': 'crash', 'err': 'concrete server died'}
                return json.loads(line)
            if time.time() - t0 > timeout:
                self.p.kill()
                return {'status': 'crash', 'err': 'timeout'}

    def alive(self):
        return self.p.poll() is None

    def close(self):
        try:
            self.p.kill()
        except Exception:
            pass


_server = []


def server():
    if not _server or not _server[0].alive():
        _server[:] = [Concrete()]
    return _server[0]


def trace_functions(job):
    """functions of /repo entered on one path (what was encoded)"""
    from engine import sym as S
    seen = set()

    def prof(frame, event, arg):
        if event == 'call':
            fn = frame.f_code.co_filename
            if fn.startswith(REPO):
                seen.add('%s:%s' % (os.path.relpath(fn, REPO), getattr(frame.f_code, 'co_qualname', frame.f_code.co_name)))
    mod = importlib.import_module(job['module'])
    fn = getattr(mod, job['harness'])
    sys.setprofile(prof)
    try:
        one_path(fn, job['params'], (), S.Stats(), job.get('opts', {}), time.time() + 10)
    finally:
        sys.setprofile(None)
    return sorted(seen)


def job_main(job, conn):
    try:
        r = explore(job)
        try:
            r['functions'] = trace_functions(job)
        except BaseException:
            pass
    except BaseException as e:   # noqa
        r = dict(job=job, status='engine error: %r' % e, cands=[], notes=[traceback.format_exc()[-1500:]],
                 stats={}, reached=0, validate=[], samples=[], wall=0, functions=[])
    try:
        conn.send(r)
    except Exception as e:
        conn.send(dict(job=job, status='engine error: %r' % e, cands=[], notes=[], stats={}, reached=0,
                       validate=[], samples=[], wall=0, functions=[]))
    conn.close()
    os._exit(0)


def run_jobs(jobs, nproc):
    pend = list(jobs)
    pend.sort(key=lambda j: -j.get('opts', {}).get('budget', 60))
    running = []
    out = []
    ctxm = mp.get_context('fork')
    while pend or running:
        while pend and len(running) < nproc:
            j = pend.pop(0)
            a, b = ctxm.Pipe(False)
            p = ctxm.Process(target=job_main, args=(j, b))
            p.start()
            b.close()
            running.append((p, a, j, time.time()))
        still = []
        for p, a, j, t in running:
            limit = j.get('opts', {}).get('budget', 60) * 1.5 + 45
            if a.poll(0.01):
                try:
                    out.append(a.recv())
                except EOFError:
                    out.append(dict(job=j, status='engine died', cands=[], notes=[], stats={}, reached=0,
                                    validate=[], samples=[], wall=0, functions=[]))
                p.join()
            elif time.time() - t > limit:
                p.kill()
                p.join()
                out.append(dict(job=j, status='timeout', cands=[], notes=[], stats={}, reached=0,
                                validate=[], samples=[], wall=limit, functions=[]))
            else:
                still.append((p, a, j, t))
        running = still
        time.sleep(0.01)
    return out


def same(a, b, tol=1e-6):
    if type(a) != type(b):
        return False
    if isinstance(a, float):
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    return a == b


def load_known(pid):
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))['findings'] if k['property'] == pid and k['status'] == 'known']


def is_known(known, job, label, detail):
    for k in known:
        if k['harness'] == job['harness'] and label.startswith(k['label']) and \
                all(job['params'].get(a) == b for a, b in k.get('params', {}).items()):
            return k
    return None


def main(argv=None):
    argv = argv or sys.argv[1:]
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    for a in argv[1:]:
        if a in ('quick', 'thorough'):
            tier = a
        elif a.startswith('--only='):
            only = a[7:]
    verbose = '-v' in argv
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    modname = 'harness.' + pid.lower()
    from engine import envx
    envx.setup()
    so = sys.stdout
    load_err = None
    try:
        import sureal  # noqa  (symbolic load of /repo)
        import sureal.experimental  # noqa
        import sureal.pc_subjective_model  # noqa
    except BaseException as e:
        load_err = traceback.format_exc()
    if load_err:
        print('INCONCLUSIVE: cannot load the current tree symbolically\n' + load_err)
    mod = importlib.import_module(modname)
    jobs = []
    for i, h in enumerate(mod.jobs(tier)):
        j = dict(module=h.get('module', modname), harness=h['h'], params=h.get('p', {}), index=i, seed=seed,
                 opts=dict(getattr(mod, 'OPTS', {}), **h.get('o', {})), nval=h.get('nval', 2),
                 conc=h.get('conc', 0))
        if only and only not in j['harness'] + json.dumps(j['params']):
            continue
        jobs.append(j)
    nproc = int(os.environ.get('VERIF_PROCS', min(8, os.cpu_count() or 4)))
    if not load_err:
        results = run_jobs(jobs, nproc)
    else:
        results = [dict(job=j, status='load error', cands=[], notes=[], stats={}, reached=0, validate=[],
                        samples=[], wall=0, functions=[]) for j in jobs]
    results.sort(key=lambda r: r['job']['index'])
    known = load_known(pid)
    violations = []
    known_hit = {}
    spurious = 0
    undecided = []
    val_ok = val_bad = 0
    val_notes = []

    def report(job, label, detail, values, how):
        k = is_known(known, job, label, detail)
        if k is not None:
            known_hit[k['id']] = (k, detail)
            return
        violations.append(dict(property=pid, module=job['module'], harness=job['harness'], params=job['params'],
                               label=label, detail=detail, values=values, found_by=how))

    for r in results:
        job = r['job']
        req = dict(module=job['module'], harness=job['harness'], params=job['params'])
        nv0 = len(violations)
        confirmed = False
        # replay the solver's counterexamples on the real code
        nrep = 0
        for c in r['cands']:
            for m in c['models']:
                if nrep > 14:
                    break
                nrep += 1
                rep = server().ask(op='run', values=m, **req)
                if rep.get('fails'):
                    for lab, det in rep['fails']:
                        report(job, lab, det, rep['used'], 'solver model')
                    confirmed = True
                    break
            if confirmed and len(violations) > nv0:
                break
        dec_bad = r['status'] != 'ok'
        if r['cands'] and not confirmed:
            # model values did not reproduce: look for inputs on the same paths
            for c in r['cands'][:4]:
                fix = {k: v for k, v in (c['models'][0] if c['models'] else {}).items() if isinstance(v, (bool, int))}
                rep = server().ask(op='search', values=fix, n=400, secs=8, seed=seed, **req)
                if rep.get('status') == 'found':
                    for lab, det in rep['run']['fails']:
                        report(job, lab, det, rep['run']['used'], 'search on the path of a solver candidate')
                    confirmed = True
                    break
        if r['cands'] and not confirmed:
            spurious += len(r['cands'])
            undecided.append((job, 'unconfirmed candidate: %s %s' % (r['cands'][0]['label'], r['cands'][0]['why'])))
        if dec_bad and not confirmed:
            undecided.append((job, r['status']))
            # degraded mode for what could not be encoded: concrete search only
            rep = server().ask(op='search', values={}, n=600, secs=10, seed=seed, **req)
            if rep.get('status') == 'found':
                for lab, det in rep['run']['fails']:
                    report(job, lab, det, rep['run']['used'], 'concrete search (encoding inconclusive)')
        # parts of the statement that only real runs can observe
        for i in range(job.get('conc', 0)):
            rep = server().ask(op='run', values={}, seed=seed * 1000 + i, **req)
            for lab, det in rep.get('fails', ()):
                report(job, lab, det, rep['used'], 'real run')
        # encoding validation
        for v in r['validate']:
            rep = server().ask(op='run', values=v['values'], **req)
            if rep.get('fails'):
                for lab, det in rep['fails']:
                    report(job, lab, det, rep['used'], 'validation run')
                continue
            if rep.get('status') == 'skip':
                continue
            if rep.get('status') != 'ok' or v['observed'] is None:
                val_bad += 1
                val_notes.append('%s %s: %s / %s' % (job['harness'], job['params'], rep.get('status'), v['err'] or rep.get('err', '')[-300:]))
                continue
            a = json.loads(json.dumps(v['observed']))
            b = rep['observed']
            if same(a, b):
                val_ok += 1
            else:
                val_bad += 1
                val_notes.append('%s %s: encoding differs from real run: %s' % (job['harness'], job['params'], first_diff(a, b)))
    if _server:
        _server[0].close()

    # ------------------------------------------------------------ report
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    funcs = sorted(set(f for r in results for f in r['functions']))
    hsum = {}
    for r in results:
        h = hsum.setdefault(r['job']['harness'], dict(configurations=0, decided=0, paths=0, assertions=0))
        h['configurations'] += 1
        h['decided'] += r['status'] == 'ok'
        h['paths'] += r['stats'].get('paths', 0)
        h['assertions'] += r['stats'].get('asserts', 0)
    samples = [dict(harness=r['job']['harness'], params=r['job']['params'], **s) for r in results for s in r['samples']][:6]
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(
                  states=tot.get('paths', 0), transitions=tot.get('forks', 0),
                  traces_validated_against_impl=val_ok,
                  samples=samples or [dict(note='no path completed')],
                  assertions_checked=tot.get('asserts', 0),
                  solver_queries=tot.get('queries', 0), solver_seconds=round(tot.get('solver_s', 0.0), 3),
                  solver_sat=tot.get('sat', 0), solver_unsat=tot.get('unsat', 0), solver_unknown=tot.get('unknown', 0),
                  infeasible_paths_cut=tot.get('aborted', 0),
                  configurations=len(results), configurations_decided=sum(r['status'] == 'ok' for r in results),
                  inconclusive=['%s %s: %s' % (j['harness'], json.dumps(j['params']), s) for j, s in undecided][:20],
                  encoding_validation_mismatches=val_notes[:10],
                  functions_encoded=funcs, harnesses=hsum,
                  bounds=getattr(mod, 'BOUNDS', ''),
                  explanation='bounded symbolic execution of the real source with an SMT verdict per path; '
                              'states = feasible symbolic paths explored, transitions = solver-decided forks'),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON,
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    for k, det in known_hit.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s %s: %d configurations, %d paths, %d assertions, %d queries (%.1fs solver), %d validated, %d undecided, %d mismatches, %.1fs' % (
        pid, tier, len(results), tot.get('paths', 0), tot.get('asserts', 0), tot.get('queries', 0),
        tot.get('solver_s', 0.0), val_ok, len(undecided), val_bad, time.time() - t0))
    for j, s in undecided[:12]:
        print('  INCONCLUSIVE %s %s: %s' % (j['harness'], json.dumps(j['params']), s))
    for s in val_notes[:6]:
        print('  VALIDATION %s' % s)
    if verbose:
        for r in results:
            print('   ', r['job']['harness'], json.dumps(r['job']['params']), r['status'],
                  'paths', r['stats'].get('paths'), 'ab', r['stats'].get('aborted'), 'q', r['stats'].get('queries'),
                  'unk', r['stats'].get('unknown'), 'cands', len(r['cands']), 'val', len(r['validate']), '%.1fs' % r['wall'])
            for c in r['cands'][:3]:
                print('        cand', c['label'], c['why'])
            for n in r['notes'][:2]:
                print('        note', n)
    if violations:
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        seen = set()
        n = 0
        for v in violations:
            key = (v['harness'], v['label'])
            if key in seen or n >= 5:
                continue
            seen.add(key)
            n += 1
            f = os.path.join(d, '%s-%d.json' % (pid, n))
            with open(f, 'w') as fh:
                json.dump(v, fh, indent=1)
            print('  %s %s: %s: %s' % (v['harness'], json.dumps(v['params']), v['label'], v['detail']))
            print('VIOLATION property=%s replay=%s' % (pid, f))
        return 1
    if not any(r['status'] == 'ok' for r in results):
        print('INCONCLUSIVE: no configuration could be decided')
        return 2
    return 0


def first_diff(a, b):
    for x, y in zip(a, b):
        if not same(x, y):
            return '%s enc=%s real=%s' % (x[0], str(x[1])[:160], str(y[1])[:160])
    return 'length %d vs %d' % (len(a), len(b))


COMMON = [
    'IEEE doubles are modelled as exact reals (plus nan/inf with numpy semantics); a literal double is the simplest '
    'rational rounding to it; coefficients agreeing to 1e-12 are identified, so rounding-level differences and '
    'near-ties below float resolution are outside the claim',
    'numpy/scipy/pandas are represented by object arrays of symbolic reals and re-stated reductions '
    '(engine/npx.py, engine/envx.py), validated on every run against the real libraries on concrete inputs',
    'random draws are arbitrary values of their range; time and console output are no-ops',
    'z3 "unknown" on a branch is treated as feasible; counterexamples are reported only after replay on the real code',
]

if __name__ == '__main__':
    sys.exit(main())
