"""Check driver: compile the real sources, verify every contract of a property, replay / stand-in, evidence."""
import importlib, json, multiprocessing as mp, os, re, shutil, subprocess, sys, tempfile, time, traceback, hashlib, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FLYVC_REPO', '/repo')
CLANG = ['clang++-18', '-std=c++20', '-g0', '-O0', '-Xclang', '-disable-O0-optnone', '-D_GLIBCXX_ASSERTIONS',
         '-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero,bounds,unreachable,return', '-fsanitize-trap=all',
         '-emit-llvm', '-c', '-w', '-fno-discard-value-names' if False else '-fno-access-control']
OPTP = 'function(sroa,simplifycfg)'


def which(*names):
    for n in names:
        p = shutil.which(n)
        if p:
            return p
    return names[0]


def compile_unit(unit, outdir):
    """units/<unit>.cpp (which includes the real sources) -> normalised bitcode."""
    src = os.path.join(VERIF, 'units', unit + '.cpp')
    raw = os.path.join(outdir, unit + '.raw.bc')
    bc = os.path.join(outdir, unit + '.bc')
    cmd = [which('clang++-18', 'clang++')] + CLANG[1:] + ['-I' + REPO, src, '-o', raw]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr[-3000:]
    r = subprocess.run([which('opt-18', 'opt'), '-passes=' + OPTP, raw, '-o', bc], capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr[-3000:]
    os.unlink(raw)
    return bc, None


class Task:
    """Verification of one function contract (runs in its own process)."""

    def __init__(self, prop, name, func, units, budget, outdir, kw):
        self.prop, self.name, self.func, self.units, self.budget, self.outdir, self.kw = prop, name, func, units, budget, outdir, kw


class T:
    """What a contract function receives."""

    def __init__(self, name, mods, budget, tier):
        from . import execu, models
        from .solver import Solver
        self.name = name
        self.tier = tier
        self.mods = mods
        slow = 20000 if tier == 'quick' else 90000
        self.sol = Solver(fast_ms=800, slow_ms=slow, cvc5_s=slow // 1000)
        self.ex = execu.Exec(mods, models.MODELS, name, self.sol, time.time() + budget)
        self.witness = []
        self.assumptions = []
        self.ex.on_fail = self._fail
        self.modelvars = {}
        self.failinfo = []

    def state(self):
        from .execu import State
        return State()

    def const(self, name):
        """Value of an integer constant defined in the unit."""
        for m in self.mods:
            if name in m.globals:
                t, init, _ = m.global_info(name)
                if init[0] == 'zero':
                    return 0
                return init[1]
        raise KeyError(name)

    def watch(self, label, term):
        """Show the value of term when an obligation is refuted."""
        self.modelvars[label] = term

    def _fail(self, st, r, model, cond):
        if model is None:
            return
        vals = {}
        for k, t in list(self.modelvars.items()):
            try:
                if callable(t):
                    vals[k] = t(st, model)
                else:
                    v = model.eval(t, model_completion=True)
                    vals[k] = str(v)
            except Exception as e:
                vals[k] = 'n/a'
        self.failinfo.append({'obligation': r.name, 'where': r.where, 'model': vals})


def run_task(args):
    prop, tname, bcs, budget, tier, q = args
    sys.path.insert(0, VERIF)
    t0 = time.time()
    out = {'task': tname, 'results': [], 'error': None, 'covers': {}, 'models': [], 'contracts': [], 'functions': [],
           'assumptions': [], 'fail': []}
    try:
        from .llvm import Module
        spec = importlib.import_module('specs.' + prop)
        tasks = {t[0]: t for t in spec.tasks(tier)}
        t = tasks[tname]
        mods = [Module(bcs[u]) for u in t[2]]
        ctx = T(tname, mods, budget, tier)
        try:
            t[1](ctx)
        except Exception as e:
            out['error'] = '%s: %s' % (type(e).__name__, e)
            out['trace'] = traceback.format_exc()[-2500:]
        ex = ctx.ex
        out['results'] = [(r.name, r.status, r.backend, r.where, round(r.time, 3), r.model, r.trail) if r.status != 'proved'
                          else (r.name, r.status, r.backend, r.where, round(r.time, 3), None, None) for r in ex.results]
        out['covers'] = dict(ex.covers)
        out['models'] = sorted(ex.models_used)
        out['contracts'] = sorted(ex.contracts_used)
        out['functions'] = sorted(ex.funcs_entered)
        out['assumptions'] = ctx.assumptions
        out['stats'] = ctx.sol.stats
        out['solver_s'] = round(ctx.sol.time, 2)
        out['fail'] = ctx.failinfo
    except Exception as e:
        out['error'] = '%s: %s' % (type(e).__name__, e)
        out['trace'] = traceback.format_exc()[-2500:]
    out['wall'] = round(time.time() - t0, 2)
    return out


def _worker(args, conn):
    try:
        r = run_task(args)
    except BaseException as e:
        r = {'task': args[1], 'results': [], 'error': 'worker: %r' % (e,), 'covers': {}, 'models': [], 'contracts': [],
             'functions': [], 'assumptions': [], 'fail': [], 'wall': 0}
    try:
        conn.send(r)
    except Exception:
        pass
    conn.close()
    os._exit(0)


def run_tasks(jobs, njobs, hard, until=None):
    """Run each task in its own process with a hard time limit, and all of them before `until`."""
    pending = list(jobs)
    live = []
    res = []
    while pending or live:
        if until and time.time() > until and pending:
            res += [dead(a, 'time budget of the check exhausted') for a in pending]
            pending = []
        while pending and len(live) < njobs:
            a = pending.pop(0)
            r, w = mp.Pipe(False)
            p = mp.Process(target=_worker, args=(a, w))
            p.start()
            w.close()
            live.append((p, r, a, time.time()))
        time.sleep(0.02)
        nl = []
        for p, r, a, t in live:
            if r.poll():
                try:
                    res.append(r.recv())
                except EOFError:
                    res.append(dead(a, 'worker died'))
                p.join()
            elif not p.is_alive():
                res.append(dead(a, 'worker died'))
            elif time.time() - t > a[3] + hard or (until and time.time() > until):
                p.kill()
                p.join()
                res.append(dead(a, 'time budget exhausted (killed)'))
            else:
                nl.append((p, r, a, t))
        live = nl
    return res


def dead(a, msg):
    return {'task': a[1], 'results': [], 'error': msg, 'covers': {}, 'models': [], 'contracts': [], 'functions': [],
            'assumptions': [], 'fail': [], 'wall': 0, 'stats': {}, 'solver_s': 0}


# ------------------------------------------------------------------------------------------------ native drivers
def build_driver(prop, outdir, sanitize=True):
    """Compile replay/<prop>.cpp together with the real sources it names (// SOURCES: ...)."""
    src = os.path.join(VERIF, 'replay', prop + '.cpp')
    if not os.path.exists(src):
        return None, 'no driver'
    srcs = []
    flags = []
    for line in open(src):
        m = re.match(r'//\s*SOURCES:\s*(.*)', line)
        if m:
            srcs += m.group(1).split()
        m = re.match(r'//\s*FLAGS:\s*(.*)', line)
        if m:
            flags += m.group(1).split()
    san = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment', '-fno-sanitize-recover=all'] if sanitize else []
    if any('thread' in x for x in flags):
        san = []
    base = [which('g++'), '-std=c++20', '-O1', '-g1', '-w', '-D_GLIBCXX_ASSERTIONS', '-I' + REPO, '-I' + os.path.join(VERIF, 'replay')] + san + flags
    files = [src] + [os.path.join(REPO, s) for s in srcs]
    objs = []
    procs = []
    for i, f in enumerate(files):
        o = os.path.join(outdir, 'drv_%s_%d.o' % (prop, i))
        objs.append(o)
        procs.append((f, subprocess.Popen(base + ['-c', f, '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
    for f, p in procs:
        _, e = p.communicate()
        if p.returncode:
            return None, 'compile %s: %s' % (f, e[-2000:])
    exe = os.path.join(outdir, 'drv_' + prop)
    r = subprocess.run(base + objs + ['-o', exe, '-lpthread'], capture_output=True, text=True)
    for o in objs:
        os.unlink(o)
    if r.returncode:
        return None, 'link: ' + r.stderr[-2000:]
    return exe, None


def run_driver(exe, args, timeout, cwd):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
    env['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:report_thread_leaks=0'
    p = subprocess.Popen([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', cwd=cwd, env=env,
                         start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        rc = 'timeout'
    return rc, o, e


# ------------------------------------------------------------------------------------------------ check
def load_known(prop):
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f.get('property') == prop and f.get('status') == 'known']


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, VERIF)
    spec = importlib.import_module('specs.' + prop)
    outdir = tempfile.mkdtemp(prefix='flyvc_%s_' % prop)
    try:
        return _check(prop, tier, seed, spec, outdir, t0)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)


def _check(prop, tier, seed, spec, outdir, t0):
    from concurrent.futures import ThreadPoolExecutor
    tasks = spec.tasks(tier)
    only = os.environ.get('FLYVC_TASK')
    if only:
        tasks = [t for t in tasks if re.search(only, t[0])]
    units = sorted({u for t in tasks for u in t[2]})
    pool = ThreadPoolExecutor(8)
    futs = {u: pool.submit(compile_unit, u, outdir) for u in units}
    nodrv = os.environ.get('FLYVC_NODRIVER')
    drv = None if nodrv else pool.submit(build_driver, prop, outdir)
    bcs, cerr = {}, {}
    for u, f in futs.items():
        bc, err = f.result()
        if bc:
            bcs[u] = bc
        else:
            cerr[u] = err
    budget = getattr(spec, 'BUDGET', 240) if tier == 'quick' else getattr(spec, 'BUDGET_THOROUGH', 700)
    jobs = []
    results = []
    for t in tasks:
        if any(u in cerr for u in t[2]):
            results.append(dead((prop, t[0]), 'unit does not compile: ' + str({u: cerr[u][-600:] for u in t[2] if u in cerr})))
        else:
            jobs.append((prop, t[0], bcs, t[3] if len(t) > 3 and t[3] else budget, tier, None))
    results += run_tasks(jobs, int(os.environ.get('FLYVC_JOBS', '6')), 15,
                         t0 + (520 if tier == 'quick' else 2400))
    order = {t[0]: i for i, t in enumerate(tasks)}
    results.sort(key=lambda r: order.get(r['task'], 99))
    # ---- evaluate
    nob = nproved = 0
    refuted, unknown, errors, vacuous = [], [], [], []
    backends = {}
    solver_s = 0.0
    for r in results:
        if r['error']:
            errors.append((r['task'], r['error'], r.get('trace', '')))
        for x in r['results']:
            if x[2] == 'simplifier' and x[0] == 'loop frame':
                pass
            nob += 1
            if x[1] == 'proved':
                nproved += 1
                backends[x[2]] = backends.get(x[2], 0) + 1
            elif x[1] == 'refuted':
                refuted.append((r['task'],) + tuple(x))
            else:
                unknown.append((r['task'],) + tuple(x))
        for c, v in r['covers'].items():
            if v == 'unsat':
                vacuous.append((r['task'], c))
        if not r['error'] and not r['results']:
            errors.append((r['task'], 'no obligations were generated', ''))
        solver_s += r.get('solver_s', 0) or 0
    verbose = os.environ.get('FLYVC_V')
    for r in results:
        n = len(r['results'])
        p = sum(1 for x in r['results'] if x[1] == 'proved')
        print('  %-52s %4d/%-4d obligations  %6.1fs %s' % (r['task'], p, n, r['wall'], ('UNDECIDED ' + r['error'][:300]) if r['error'] else ''))
        if verbose and r.get('trace'):
            print(r['trace'])
        if verbose:
            for c, v in r['covers'].items():
                if v != 'sat':
                    print('     cover', c, v)
            slow = sorted((x for x in r['results'] if x[4] > 1.5), key=lambda x: -x[4])[:12]
            for x in slow:
                print('     slow %.1fs %s %s %s' % (x[4], x[0], x[1], x[2]))
            print('     obligations %.1fs solver %.1fs' % (sum(x[4] for x in r['results']), r.get('solver_s', 0)))
            for x in r['results']:
                if x[1] != 'proved':
                    print('    ', x[0], x[1], x[2], x[3])
                    if verbose == '2':
                        print('       model', (x[5] or '')[:1500])
                        print('       trail', x[6])
            for f in r['fail'][:6]:
                print('     ', f)
    # ---- native driver: bounded cross-check of the assumed contracts, and replay of counterexamples
    known = load_known(prop)
    dres = {'ran': False}
    violation = None
    knownhit = []
    if drv is not None:
        exe, err = drv.result()
        if exe is None:
            dres['error'] = err
            print('  driver not built: ' + err[-1500:])
        else:
            secs = getattr(spec, 'DRIVER_S', 25) if tier == 'quick' else getattr(spec, 'DRIVER_S_THOROUGH', 240)
            if refuted or unknown or errors:
                secs = max(secs, 90 if tier == 'quick' else 240)
            cands = os.path.join(outdir, 'candidates.json')
            allf = [f for r in results for f in r['fail']]
            with open(cands, 'w') as f:
                for x in allf:
                    for k, v in x['model'].items():
                        f.write('%s\t%s\n' % (k, v))
            scratch = os.path.join(outdir, 'scratch')
            os.makedirs(scratch, exist_ok=True)
            procs = []
            kf = os.path.join(outdir, 'known.txt')
            with open(kf, 'w') as f:
                for k in known:
                    f.write(k['id'] + '\n')
            parts = getattr(spec, 'DRIVER_PARTS', 4)
            with ThreadPoolExecutor(parts) as tp:
                fs = [tp.submit(run_driver, exe, ['--seed', str(seed), '--part', str(i), '--parts', str(parts), '--seconds', str(secs),
                                                  '--candidates', cands, '--known', kf], secs + (100 if tier == 'quick' else 400), scratch) for i in range(parts)]
                outs = [f.result() for f in fs]
            dres['ran'] = True
            cases = 0
            for rc, o, e in outs:
                for line in o.split('\n'):
                    if line.startswith('CASES '):
                        cases += int(line.split()[1])
                    elif line.startswith('KNOWN '):
                        if line[6:] not in knownhit:
                            knownhit.append(line[6:])
                    elif line.startswith('VIOLATION-FOUND ') and violation is None:
                        violation = line[len('VIOLATION-FOUND '):]
                if rc not in (0, 1) and violation is None:
                    if rc == 'timeout':
                        last = [l for l in o.split('\n') if l.startswith('AT ')]
                        if last:
                            violation = 'the code does not terminate on: ' + last[-1][3:]
                        else:
                            dres.setdefault('notes', []).append('driver timeout')
                    else:
                        last = [l for l in o.split('\n') if l.startswith('AT ')]
                        violation = 'the code crashes (%s) on: %s :: %s' % (rc, last[-1][3:] if last else '?', sanitizer_line(e))
            dres['cases'] = cases
            print('  native driver: %d cases%s' % (cases, '' if violation is None else ' VIOLATION ' + violation[:300]))
    for k in known:
        hit = [h for h in knownhit if h.startswith(k['id'])]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    # ---- verdict
    nofunc = sorted({f for r in results for f in r['functions'] if 'fly::' in f or 'vp_' in f})
    trusted = sorted({m for r in results for m in r['models']})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': nob, 'discharged': nproved,
            'checker_cmd': './check %s --tier %s' % (prop, tier),
            'trusted_base': ['clang++ 18 front end and LLVM passes sroa, simplifycfg (extraction of the verified text from /repo on every run)',
                             'flyvc VC generator (/verif/flyvc)', 'z3 %s; cvc5 on what z3 leaves open' % z3v()]
                            + ['assumed contract (std / external): ' + clean(m) for m in trusted],
            'functions_under_contract': [t[0] for t in tasks],
            'functions_executed': [clean(f) for f in nofunc],
            'callee_contracts_used': sorted({clean(c) for r in results for c in r['contracts']}),
            'discharged_by_backend': backends, 'solver_seconds': round(solver_s, 1),
            'per_contract': [{'contract': r['task'], 'obligations': len(r['results']),
                              'discharged': sum(1 for x in r['results'] if x[1] == 'proved'), 'wall_s': r['wall'],
                              'undecided': r['error']} for r in results],
            'vacuity_covers': {r['task']: r['covers'] for r in results if r['covers']},
            'bounded_stand_in': {'what': getattr(spec, 'STANDIN', 'native driver over generated inputs against an independent oracle; '
                                                 'cross-checks the assumed contracts, never counted as proved'),
                                 'cases': dres.get('cases', 0), 'ran': dres['ran'], 'notes': dres.get('notes', []),
                                 'build_error': dres.get('error')},
            'loops': 'cut by inductive invariants (init/preservation/frame obligations) or unrolled completely where the exit test is concrete',
        },
        'assumptions': sorted(set(getattr(spec, 'ASSUMPTIONS', []) + [a for r in results for a in r['assumptions']])) + [
            'objects are smaller than 2^60 bytes; allocation does not fail; only the thread under test runs',
            'loads of uninitialised memory yield arbitrary values (not flagged)'],
        'wall_s': round(time.time() - t0, 1), 'violations': 0,
    }
    undecided = [(e[0], e[1]) for e in errors] + [(u[0], u[1] + ' [' + u[2] + ']') for u in unknown]
    if undecided or vacuous:
        ev['coverage']['undecided'] = [list(map(str, u)) for u in undecided][:40]
        ev['coverage']['vacuous'] = [list(v) for v in vacuous]
    rc = 0
    line = None
    if violation is not None or refuted:
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s.txt' % prop)
        with open(path, 'w') as f:
            f.write('property %s (%s)\n' % (prop, tier))
            if violation is not None:
                f.write('failing input on the real code:\n  %s\n' % violation)
                f.write('replay: build /verif/replay/%s.cpp (see flyvc/core.py build_driver) and run it with --seed %d\n' % (prop, seed))
            for x in refuted[:20]:
                f.write('\nfailed obligation: [%s] %s\n  at %s\n  back end %s\n  path %s\n  counterexample %s\n' % (x[0], x[1], x[4], x[3], x[7], (x[6] or '')[:2500]))
            for r in results:
                for x in r['fail'][:10]:
                    f.write('\ncounterexample values: %s\n' % json.dumps(x))
        ev['violations'] = 1
        line = 'VIOLATION property=%s replay=%s' % (prop, path)
        if violation is None:
            line += ' no-failing-input-found'
        rc = 1
    if undecided and rc == 0:
        print('  %d obligation(s)/contract(s) undecided on this tree: covered only by the bounded stand-in' % len(undecided))
    if vacuous:
        print('  vacuous: %s' % vacuous)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d/%d obligations discharged, %.1fs' % (prop, tier, nproved, nob, time.time() - t0))
    if refuted and violation is None and os.environ.get('FLYVC_V'):
        pass
    if line:
        print(line)
    return rc


def sanitizer_line(e):
    for l in e.split('\n'):
        if 'ERROR: AddressSanitizer' in l or 'SUMMARY: ThreadSanitizer' in l or 'runtime error' in l or 'Assertion' in l or 'terminate called' in l or 'what():' in l:
            return l.strip()[:300]
    return e.strip().split('\n')[-1][:300] if e.strip() else ''


def clean(s):
    return re.sub(r'\s+', ' ', s)[:220]


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'
