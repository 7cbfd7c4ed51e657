"""Discharges verification conditions: z3 (incremental, then fresh), then cvc5 on what z3 leaves open."""
import subprocess, tempfile, time, os
import z3


_hs = {}


def has_select(e):
    i = e.get_id()
    if i in _hs:
        return _hs[i][0]
    r = z3.is_app(e) and (e.decl().kind() == z3.Z3_OP_SELECT or any(has_select(c) for c in e.children()))
    _hs[i] = (r, e)
    return r


def conjuncts(e, out):
    if z3.is_and(e):
        for c in e.children():
            conjuncts(c, out)
    elif z3.is_not(e) and z3.is_app(e.arg(0)) and e.arg(0).decl().kind() == z3.Z3_OP_IMPLIES:
        conjuncts(e.arg(0).arg(0), out)
        conjuncts(z3.Not(e.arg(0).arg(1)), out)
    elif z3.is_not(e) and z3.is_or(e.arg(0)):
        for c in e.arg(0).children():
            conjuncts(z3.Not(c), out)
    elif z3.is_not(e) and z3.is_not(e.arg(0)):
        conjuncts(e.arg(0).arg(0), out)
    else:
        out.append(e)
    return out


def smt(cs):
    d = z3.Solver()
    d.add(*cs)
    fd, p = tempfile.mkstemp(suffix='.smt2')
    with os.fdopen(fd, 'w') as f:
        f.write('(set-logic QF_AUFBV)\n' + d.to_smt2())
    return p


def race(cmds, secs):
    """Run several provers, the first definite answer wins: (name, 'sat'|'unsat') or None."""
    procs = []
    for n, c in cmds:
        try:
            procs.append((n, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        except OSError:
            pass
    res = None
    end = time.time() + secs
    while procs and time.time() < end and res is None:
        time.sleep(0.004)
        for x in list(procs):
            if x[1].poll() is not None:
                procs.remove(x)
                o = x[1].stdout.read().split('\n')[0].strip()
                if o in ('sat', 'unsat') and not (o == 'sat' and x[0].endswith('~')):
                    res = (x[0], o)
                    break
    for _, q in procs:
        q.kill()
        q.wait()
    return res


class Solver:
    def __init__(self, fast_ms=1500, slow_ms=20000, cvc5_s=20):
        self.s = z3.Solver()
        self.stack = []
        self.fast_ms, self.slow_ms, self.cvc5_s = fast_ms, slow_ms, cvc5_s
        self.time = 0.0
        self.stats = {'z3': 0, 'z3-fresh': 0, 'cvc5': 0, 'simplifier': 0}
        from .lia import Lia
        self.lia = Lia()

    def _sync(self, pc):
        n = 0
        st = self.stack
        while n < len(st) and n < len(pc) and st[n] is pc[n]:
            n += 1
        if len(st) - n:
            self.s.pop(len(st) - n)
            del st[n:]
        for c in pc[n:]:
            self.s.push()
            self.s.add(c)
            st.append(c)

    def value(self, pc, x, conds, ms=300):
        """A value of x under pc and conds, 'unsat' when there is none, None when unknown."""
        t = time.time()
        self._sync(pc)
        self.s.set('timeout', ms)
        r = self.s.check(*conds)
        v = None
        if r == z3.sat:
            m = self.s.model().eval(x, model_completion=True)
            v = m.as_long() if z3.is_bv_value(m) else None
        elif r == z3.unsat:
            v = 'unsat'
        self.time += time.time() - t
        return v

    def feasible(self, pc, cond=None, ms=None):
        """False only when pc /\\ cond is proved unsatisfiable."""
        t = time.time()
        if cond is not None:
            cond = z3.simplify(cond)
            if z3.is_false(cond):
                return False
            if z3.is_true(cond):
                cond = None
                # pc itself was feasible when it was built
                return True
        if self.lia.unsat(pc, [] if cond is None else [cond], 250):
            self.time += time.time() - t
            self.last_unknown = False
            return False
        self._sync(pc)
        self.s.set('timeout', ms or self.fast_ms)
        r = self.s.check() if cond is None else self.s.check(cond)
        self.time += time.time() - t
        if os.environ.get('FLYVC_SLOW') and time.time() - t > float(os.environ['FLYVC_SLOW']):
            import traceback, sys
            print('SLOW %.1f %s %s | %s' % (time.time() - t, r, ' < '.join('%s:%d' % (x.name, x.lineno) for x in reversed(traceback.extract_stack(limit=5)[:-1])), str(cond)[:400].replace('\n', ' ')), file=sys.stderr)
        self.last_unknown = r == z3.unknown
        return r != z3.unsat

    def quick_int(self, pc, neg, secs=4):
        """An arithmetic side condition (hypotheses about array contents are dropped); True when unsatisfiable."""
        allc = []
        for c in list(pc) + [neg]:
            conjuncts(c, allc)
        p = smt([c for c in allc if not has_select(c)])
        c = ['cvc5', '--tlimit=%d' % (secs * 1000), '--solve-bv-as-int=bv']
        r = race([('cvc5/int', c + [p]), ('cvc5/int', c + ['--decision=internal', p]), ('z3-new/sat', ['z3-new', '-T:%d' % (secs + 1), 'sat.smt=true', p])], secs)
        if r is None and os.environ.get('FLYVC_DUMP2'):
            os.rename(p, '%s/d%d_%d.smt2' % (os.environ['FLYVC_DUMP2'], os.getpid(), time.time() * 1000 % 1000000))
        else:
            os.unlink(p)
        return r is not None and r[1] == 'unsat'

    def prove(self, pc, goal):
        """('proved'|'refuted'|'unknown', backend, model)"""
        t = time.time()
        try:
            return self._prove(pc, goal)
        finally:
            self.time += time.time() - t

    def _prove(self, pc, goal):
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.stats['simplifier'] += 1
            return 'proved', 'simplifier', None
        neg = z3.Not(goal)
        if self.lia.unsat(pc, [neg], 600):
            self.stats['z3-lia'] = self.stats.get('z3-lia', 0) + 1
            return 'proved', 'z3-lia', None
        self._sync(pc)
        self.s.set('timeout', self.fast_ms)
        r = self.s.check(neg)
        if r == z3.unsat:
            self.stats['z3'] += 1
            return 'proved', 'z3', None
        if r == z3.sat:
            return 'refuted', 'z3', self.s.model()
        return self.portfolio(pc, neg)

    def portfolio(self, pc, neg):
        """Several back ends on the same SMT-LIB text; the first answer counts."""
        ms = self.slow_ms
        p = smt(list(pc) + [neg])
        cv = ['cvc5', '--tlimit=%d' % ms, '--solve-bv-as-int=bv']
        cmds = [('z3-new', ['z3-new', '-t:%d' % ms, p]), ('z3-new/sat', ['z3-new', '-t:%d' % ms, 'sat.smt=true', p]),
                ('cvc5/int', cv + [p]), ('cvc5/int', cv + ['--decision=internal', p]),
                ('cvc5/int', ['cvc5', '--tlimit=%d' % ms, '--solve-bv-as-int=sum', '--simplification=none', p])]
        p2 = None
        allc = []
        for c in list(pc) + [neg]:
            conjuncts(c, allc)
        pure = [c for c in allc if not has_select(c)]
        if len(pure) < len(allc):
            p2 = smt(pure)
            cmds += [('cvc5/int~', cv + [p2]), ('cvc5/int~', cv + ['--decision=internal', p2])]
        o = race(cmds, ms / 1000 + 1)
        if o is None and os.environ.get('FLYVC_DUMP'):
            n = int(time.time() * 1000)
            os.system('cp %s %s/q%d.smt2' % (p, os.environ['FLYVC_DUMP'], n))
            if p2:
                os.system('cp %s %s/q%d_pure.smt2' % (p2, os.environ['FLYVC_DUMP'], n))
        os.unlink(p)
        if p2:
            os.unlink(p2)
        if o is None:
            return 'unknown', 'none', None
        n = o[0].rstrip('~')
        if o[1] == 'unsat':
            self.stats[n] = self.stats.get(n, 0) + 1
            return 'proved', n, None
        res = ('refuted', n, None)
        if res[0] == 'refuted':
            # a model for the report and the replay
            self.s.set('timeout', min(ms, 10000))
            self._sync(pc)
            if self.s.check(neg) == z3.sat:
                return 'refuted', res[1], self.s.model()
        return res
