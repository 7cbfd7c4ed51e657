"""P22: task runners, thread modular: the state of a sequenced runner is what its mutex protects."""
import re
import z3
from flyvc.val import *
from flyvc.execu import Outcomes, AFnS
from flyvc.threads import Monitor, same_ptr

BUDGET = 200
DRIVER_S = 30
B = lambda v, w=64: z3.BitVecVal(v, w)
ASSUMPTIONS = ['std::queue: push, front, pop, empty and size are those of a sequence; std::function: moving transfers the callable, comparison with nullptr tells '
               'whether there is one; std::weak_ptr::lock yields the task manager or nothing, and nothing from then on (assumed contracts of the standard library)',
               'pthread mutexes exclude each other; other threads are any change of the runner at an acquisition of its mutex that keeps its invariant '
               '(tasks are pending only while one runs, or the task manager is gone)',
               'TaskManager::post_task queues the task it is given (its queue: P21)']
FN = r'std::function<void \(fly::task::TaskRunner\*, fly::task::TaskLocation\)>'
QUEUE = re.compile(r'^std::queue<fly::task::SequencedTaskRunner::PendingTask, .* >::(push|emplace|front|pop|empty|size)(<[^()]*>)?\(')


class World:
    def __init__(self, t, seq):
        self.ex, self.st, self.seq = t.ex, t.state(), seq
        ex, st = self.ex, self.st
        ex.flat = False
        self.manager = ex.new(st, 'task manager', 8, 'param')
        self.text = ex.buffer(st, 'file', 8, 1, const=True)
        st.ghost.update({'alive': fresh('manager alive', 1), 'log': (), 'queue': None, 'content': None})
        fns = [x for m in ex.mods for x in m.funcs.values()]
        for fn in fns:
            d = fn.dem
            c = None
            if re.match(FN + r'::function\(\)$|^' + FN + r'::function\(decltype\(nullptr\)\)$', d):
                c = self.f_empty
            elif re.match(FN + r'::function\(' + FN + r'&&\)$', d):
                c = self.f_move
            elif re.match(FN + r'::function\(' + FN + r' const&\)$', d):
                c = self.f_copy
            elif re.match(FN + r'::operator=\(' + FN + r'&&\)$', d):
                c = self.f_assign
            elif re.match(FN + r'::operator=\(decltype\(nullptr\)\)$', d):
                c = self.f_assign_null
            elif re.match(FN + r'::~function\(\)$', d):
                c = self.nothing
            elif re.match(FN + r'::operator bool\(\) const$', d):
                c = self.f_bool
            elif re.match(r'^bool std::operator==<void, fly::task::TaskRunner\*, fly::task::TaskLocation>\(', d):
                c = self.f_null
            elif re.match(FN + r'::operator\(\)\(', d):
                c = self.f_call
            elif re.match(r'^std::(weak_ptr|shared_ptr|__weak_ptr|__shared_ptr)<fly::task::Task(Manager|Runner).*>::~', d):
                c = self.nothing
            elif re.match(r'^std::weak_ptr<fly::task::TaskManager>::weak_ptr<|^std::weak_ptr<fly::task::TaskRunner>::weak_ptr\(\)|^std::shared_ptr<fly::task::TaskManager>::shared_ptr\(std::shared_ptr<fly::task::TaskManager>&&\)', d):
                c = self.nothing
            elif re.match(r'^std::weak_ptr<fly::task::TaskManager>::lock\(\) const$', d):
                c = self.weak_lock
            elif re.match(r'^std::enable_shared_from_this<fly::task::TaskRunner>::(shared_from_this|weak_from_this)\(\)$', d):
                c = self.from_this
            elif re.match(r'^std::weak_ptr<fly::task::TaskRunner>::weak_ptr<fly::task::TaskRunner, void>\(std::shared_ptr', d):
                c = self.to_weak
            elif d.startswith('fly::task::TaskManager::post_task('):
                c = self.post
            elif d.startswith('fly::task::TaskManager::post_task_with_delay('):
                c = self.post_later
            elif QUEUE.match(d):
                c = self.op
            elif re.match(r'^std::queue<fly::task::SequencedTaskRunner::PendingTask, .*>::queue<', d):
                c = self.nothing
            if c:
                ex.contracts[d] = c
        name = 'seq' if seq else 'par'
        st = self.call('vp_%s_bytes' % name, [])
        o = ex.new(self.st, 'runner', self.ret, 'param')
        sp = ex.new(self.st, 'manager pointer', 16, 'param')
        self.call('vp_%s_make' % name, [o, sp])
        self.call('vp_%s_base' % name, [o])
        self.runner = self.ret
        self.call('vp_shared_base', [self.runner])
        self.shared = self.ret
        if seq:
            self.call('vp_seq_mutex', [o])
            self.mutex = self.ret
            self.call('vp_seq_pending', [o])
            self.pending = self.ret
            self.call('vp_seq_running', [o])
            self.running = self.ret
            self.call('vp_pending_bytes', [])
            self.pbytes = self.ret
            self.m = Monitor(ex, self.mutex, self.havoc, self.capture)
            self.m.install(self.st)

    def call(self, name, args):
        (k, self.st, self.ret), = self.ex.run(self.ex.find('^%s$' % name), args, self.st)
        self.st = self.st.clone()

    # what the mutex protects: (number of pending tasks, their identities, their lines, whether a task is running)
    def invariant(self, st, c, alive):
        return z3.Or(c[0] == 0, c[3], z3.Not(alive))

    def havoc(self, ex, st):
        n = fresh('pending', 64)
        st.assume(z3.ULT(n, 1 << 40))
        run = fresh('running', 1)
        st.ghost['queue'] = (n, ABase('task', 64), ABase('line', 32))
        ex.store(st, self.running, 1, z3.If(run, B(1, 8), B(0, 8)))
        alive = fresh('manager alive', 1)
        st.assume(z3.Implies(alive, st.ghost['alive']))
        st.ghost['alive'] = alive
        st.assume(self.invariant(st, st.ghost['queue'] + (run,), alive))
        if n is not None:
            j0 = bv(st.ghost['queue'][1].get(st, B(0)), 64)
            st.assume(z3.Implies(n != 0, j0 != 0))

    def capture(self, ex, st):
        return st.ghost['queue'] + (bv(ex.load(st, self.running, 1), 8) != 0,)

    # models
    def nothing(self, ex, st, a, fn, ins):
        return Outcomes([(st, None)])

    def f_empty(self, ex, st, a, fn, ins):
        st = st.clone()
        ex.store(st, a[0], 8, 0)
        return Outcomes([(st, None)])

    def f_assign_null(self, ex, st, a, fn, ins):
        st = st.clone()
        ex.store(st, a[0], 8, 0)
        return Outcomes([(st, a[0])])

    def f_move(self, ex, st, a, fn, ins):
        st = st.clone()
        v = ex.load(st, a[1], 8)
        ex.store(st, a[1], 8, 0)
        ex.store(st, a[0], 8, v)
        return Outcomes([(st, None)])

    def f_assign(self, ex, st, a, fn, ins):
        return Outcomes([(s, a[0]) for s, v in self.f_move(ex, st, a, fn, ins).lst])

    def f_copy(self, ex, st, a, fn, ins):
        st = st.clone()
        ex.store(st, a[0], 8, ex.load(st, a[1], 8))
        return Outcomes([(st, None)])

    def f_bool(self, ex, st, a, fn, ins):
        return Outcomes([(st, bv(ex.load(st, a[0], 8), 64) != 0)])

    def f_null(self, ex, st, a, fn, ins):
        return Outcomes([(st, bv(ex.load(st, a[0], 8), 64) == 0)])

    def line(self, st, p):
        (k, st, r), = self.ex.run(self.ex.find('^vp_location_line$'), [p], st)
        return bv(r, 32)

    def f_call(self, ex, st, a, fn, ins):
        v = bv(ex.load(st, a[0], 8), 64)
        ex.oblige(st, v != 0, 'only a task is invoked')
        ex.oblige(st, same_ptr(a[1], self.runner), 'a task is invoked with its runner')
        st = st.clone()
        st.ghost['log'] = st.ghost['log'] + (('run', v, self.line(st, a[2])),)
        return Outcomes([(st, None)])

    def weak_lock(self, ex, st, a, fn, ins):
        b = fresh('manager alive', 1)
        st = st.clone()
        st.assume(z3.Implies(b, st.ghost['alive']))
        st.ghost['alive'] = b
        r = []
        for s, y in ex.branch(st, b):
            s = s.clone()
            ex.store(s, a[0], 8, self.manager if y else NULL)
            ex.store(s, a[0].add(8), 8, NULL)
            r.append((s, None))
        return Outcomes(r)

    def from_this(self, ex, st, a, fn, ins):
        st = st.clone()
        ex.oblige(st, same_ptr(a[1], self.shared), 'a runner passes itself on')
        ex.store(st, a[0], 8, self.runner)
        ex.store(st, a[0].add(8), 8, NULL)
        return Outcomes([(st, None)])

    def to_weak(self, ex, st, a, fn, ins):
        st = st.clone()
        ex.store(st, a[0], 8, ex.load(st, a[1], 8))
        ex.store(st, a[0].add(8), 8, NULL)
        return Outcomes([(st, None)])

    def handed(self, ex, st, m, loc, weak, task, delay):
        ex.oblige(st, same_ptr(m, self.manager), 'the task goes to the task manager')
        ex.oblige(st, same_ptr(ex.load(st, weak, 8), self.runner), 'the task is handed over with its runner')
        v = bv(ex.load(st, task, 8), 64)
        st = st.clone()
        st.ghost['log'] = st.ghost['log'] + (('hand', v, self.line(st, loc), delay),)
        ex.store(st, task, 8, 0)
        return Outcomes([(st, None)])

    def post(self, ex, st, a, fn, ins):
        return self.handed(ex, st, a[0], a[1], a[2], a[3], None)

    def post_later(self, ex, st, a, fn, ins):
        return self.handed(ex, st, a[0], a[1], a[2], a[4], bv(a[3], 64))

    def op(self, ex, st, a, fn, ins):
        name = QUEUE.match(fn.dem).group(1)
        if not same_ptr(a[0], self.pending):
            raise Unsupported('another queue')
        ex.oblige(st, st.ghost['held'], 'pending tasks are only used while their lock is held')
        n, ids, lines = st.ghost['queue']
        if name in ('empty', 'size'):
            return Outcomes([(st, (n == 0) if name == 'empty' else n)])
        if name == 'push':
            (k, st, tp), = ex.run(ex.find('^vp_pending_task$'), [a[1]], st)
            (k, st, lp), = ex.run(ex.find('^vp_pending_location$'), [a[1]], st)
            st = st.clone()
            v = bv(ex.load(st, tp, 8), 64)
            ex.store(st, tp, 8, 0)
            st.ghost['queue'] = (z3.simplify(n + 1), AStore(ids, n, v), AStore(lines, n, self.line(st, lp)))
            return Outcomes([(st, None)])
        if name == 'emplace':
            raise Unsupported('emplace')
        ex.oblige(st, n != 0, 'a task is only taken from pending tasks that have one')
        if name == 'pop':
            st = st.clone()
            shift = lambda fa, w: AFnS(w, lambda s, j: fa.get(s, z3.simplify(bv(j, 64) + 1)))
            st.ghost['queue'] = (z3.simplify(n - 1), shift(ids, 64), shift(lines, 32))
            return Outcomes([(st, None)])
        st = st.clone()
        o = ex.new(st, 'pending task', self.pbytes, 'heap')
        (k, st, tp), = ex.run(ex.find('^vp_pending_task$'), [o], st)
        (k, st, lp), = ex.run(ex.find('^vp_pending_location$'), [o], st)
        (k, st, r), = ex.run(ex.find('^vp_location_make$'), [lp, self.text, self.text, bv(lines.get(st, B(0)), 32)], st)
        st = st.clone()
        v = bv(ids.get(st, B(0)), 64)
        st.assume(z3.Implies(n != 0, v != 0))                    # only tasks are pending (lock invariant, kept by push)
        ex.store(st, tp, 8, v)
        return Outcomes([(st, o)])

    def task(self, v):
        p = self.ex.new(self.st, 'task', 32, 'param')
        self.ex.store(self.st, p, 8, v)
        return p


def shifted(st, a, b, d):
    """b is a without its first d entries"""
    j = fresh('j', 64)
    return z3.And(b[0] == a[0] - d, z3.Implies(z3.ULT(j, b[0]), z3.And(bv(b[1].get(st, j), 64) == bv(a[1].get(st, j + d), 64), bv(b[2].get(st, j), 32) == bv(a[2].get(st, j + d), 32))))


def extended(st, a, b, v, line):
    j = fresh('j', 64)
    return z3.And(b[0] == a[0] + 1, bv(b[1].get(st, a[0]), 64) == v, bv(b[2].get(st, a[0]), 32) == line,
                  z3.Implies(z3.ULT(j, a[0]), z3.And(bv(b[1].get(st, j), 64) == bv(a[1].get(st, j), 64), bv(b[2].get(st, j), 32) == bv(a[2].get(st, j), 32))))


def one_section(ex, s, what):
    ss = s.ghost['sections']
    ex.oblige(s, not s.ghost['held'], what + ': the lock is released')
    if len(ss) != 1:
        raise Unsupported('%d critical sections' % len(ss))
    return ss[0]


def hands(s):
    return [x for x in s.ghost['log'] if x[0] == 'hand']


def c_seq_post(t):
    """posting: handed over at once if no task is running, else appended to the pending tasks; refused only without a manager"""
    w = World(t, True)
    ex = w.ex
    v, line = fresh('task', 64), fresh('line', 32)
    w.st.assume(v != 0)
    p = w.task(v)
    for k, s, r in ex.run(ex.find('^vp_post$'), [w.runner, w.text, w.text, line, p], w.st):
        ex.oblige(s, k == 'ret', 'post returns')
        a, b = one_section(ex, s, 'post')
        h = hands(s)
        ex.oblige(s, w.invariant(s, b, s.ghost['alive']), 'post: tasks are pending only while one runs')
        for s1, was in ex.branch(s, a[3]):
            if was:
                ex.cover(s1, 'appended')
                ex.oblige(s1, len(h) == 0, 'post: nothing is handed over while a task runs')
                ex.oblige(s1, z3.And(extended(s1, a, b, v, line), b[3], boolv(r)), 'post: appended to the pending tasks')
                continue
            for s2, y in ex.branch(s1, a[0] == 0):
                if not y:
                    continue                                      # only once the manager is gone
                if h:
                    ex.cover(s2, 'handed over')
                    ex.oblige(s2, len(h) == 1, 'post: handed over once')
                    ex.oblige(s2, z3.And(h[0][1] == v, h[0][2] == line), 'post: the task itself is handed over')
                    ex.oblige(s2, z3.And(b[0] == 0, b[3], boolv(r)), 'post: the task counts as running')
                else:
                    ex.cover(s2, 'refused')
                    ex.oblige(s2, z3.And(z3.Not(s2.ghost['alive']), z3.Not(boolv(r)), z3.Not(b[3]), b[0] == 0), 'post: refused only when the manager is gone')


def completed(w, s, a, b, h):
    """What completion does, from the state at its section: for complete and execute."""
    ex = w.ex
    ex.oblige(s, w.invariant(s, b, s.ghost['alive']), 'completion: tasks are pending only while one runs')
    for s1, none in ex.branch(s, a[0] == 0):
        if none:
            ex.cover(s1, 'nothing pending')
            ex.oblige(s1, len(h) == 0, 'completion: nothing is handed over when nothing is pending')
            ex.oblige(s1, z3.And(b[0] == 0, z3.Not(b[3])), 'completion: no task is running when none is pending')
        elif h:
            ex.cover(s1, 'next handed over')
            ex.oblige(s1, len(h) == 1, 'completion: one task is handed over')
            ex.oblige(s1, z3.And(h[0][1] == bv(a[1].get(s1, B(0)), 64), h[0][2] == bv(a[2].get(s1, B(0)), 32)), 'completion: the oldest pending task is handed over')
            ex.oblige(s1, z3.And(shifted(s1, a, b, 1), b[3]), 'completion: the other tasks stay pending in their order')
        else:
            ex.oblige(s1, z3.Not(s1.ghost['alive']), 'completion: the next task is handed over unless the manager is gone')


def c_seq_complete(t):
    """completion: the oldest pending task is handed over; without one no task is running"""
    w = World(t, True)
    ex = w.ex
    line = fresh('line', 32)
    for k, s, r in ex.run(ex.find('^vp_complete$'), [w.runner, w.text, w.text, line], w.st):
        ex.oblige(s, k == 'ret', 'completion returns')
        a, b = one_section(ex, s, 'completion')
        completed(w, s, a, b, hands(s))


def c_execute(seq):
    def f(t):
        """execute invokes the task once, and completes it afterwards"""
        w = World(t, seq)
        ex = w.ex
        v, line = fresh('task', 64), fresh('line', 32)
        w.st.assume(v != 0)
        p = w.task(v)
        for k, s, r in ex.run(ex.find('^vp_execute$'), [w.runner, w.text, w.text, line, p], w.st):
            ex.oblige(s, k == 'ret', 'execute returns')
            log = s.ghost['log']
            ex.oblige(s, len(log) > 0 and log[0][0] == 'run' and sum(x[0] == 'run' for x in log) == 1, 'execute: the task is invoked exactly once, before it completes')
            if log and log[0][0] == 'run':
                ex.oblige(s, z3.And(log[0][1] == v, log[0][2] == line), 'execute: the task itself is invoked, with its location')
            ex.cover(s, 'executed')
            if seq:
                a, b = one_section(ex, s, 'execute')
                completed(w, s, a, b, hands(s))
            else:
                ex.oblige(s, len(log) == 1, 'execute: a parallel runner does nothing else')
    return f


def c_hand(seq, how):
    def f(t):
        """a task is handed to the manager, with its runner (and delay), or refused when the manager is gone"""
        w = World(t, seq)
        ex = w.ex
        v, line, ms = fresh('task', 64), fresh('line', 32), fresh('delay', 64)
        w.st.assume(v != 0)
        p = w.task(v)
        args = [w.runner, w.text, w.text, line] + ([ms] if how == 'vp_hand_later' else []) + [p]
        for k, s, r in ex.run(ex.find('^%s$' % how), args, w.st):
            ex.oblige(s, k == 'ret', 'handing over returns')
            h = s.ghost['log']
            if h:
                ex.cover(s, 'handed over')
                ex.oblige(s, len(h) == 1 and h[0][0] == 'hand', 'a task is handed over once')
                ex.oblige(s, z3.And(h[0][1] == v, h[0][2] == line, boolv(r)), 'the task itself is handed over')
                ex.oblige(s, (h[0][3] is None) if how != 'vp_hand_later' else (h[0][3] == ms if h[0][3] is not None else False), 'with its delay')
            else:
                ex.cover(s, 'refused')
                ex.oblige(s, z3.And(z3.Not(s.ghost['alive']), z3.Not(boolv(r))), 'refused only when the manager is gone')
    return f


def tasks(tier):
    u = ['runner']
    return [('sequenced post', c_seq_post, u), ('sequenced completion', c_seq_complete, u), ('sequenced execute', c_execute(True), u), ('parallel execute', c_execute(False), u),
            ('parallel post', c_hand(False, 'vp_post'), u), ('hand over', c_hand(True, 'vp_hand'), u), ('hand over with delay', c_hand(True, 'vp_hand_later'), u)]
