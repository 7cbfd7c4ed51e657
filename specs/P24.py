"""P24: the task manager, thread modular: its queue, its delayed tasks (what its mutex protects), its worker and timer threads."""
import re
import z3
from flyvc.val import *
from flyvc.execu import LoopSpec, Outcomes, AFnS
from flyvc.threads import Monitor, same_ptr

BUDGET = 300
DRIVER_S = 30
B = lambda v, w=64: z3.BitVecVal(v, w)
ASSUMPTIONS = ['ConcurrentQueue<TaskHolder> has the behaviour P21 proves of ConcurrentQueue (uniform in the element type)',
               'std::vector: push_back, begin, end, erase and its iterators are those of a sequence; std::function and std::weak_ptr: moving transfers, lock yields the '
               'runner or nothing (assumed contracts of the standard library)',
               'std::future::get waits for the end of its thread; std::async starts one; steady_clock never goes back',
               'pthread mutexes exclude each other; other threads are any change of the delayed tasks at an acquisition of their mutex']
FN = r'std::function<void \(fly::task::TaskRunner\*, fly::task::TaskLocation\)>'
HOLDER = r'fly::task::TaskManager::TaskHolder'
VEC = re.compile(r'^std::vector<' + HOLDER + r', std::allocator<' + HOLDER + r'> >::(push_back|emplace_back|begin|end|erase|size|empty|clear)(<[^()]*>)?\(')
IT = re.compile(r'^__gnu_cxx::__normal_iterator<' + HOLDER + r'( const)?\*, std::vector<.*> >::(operator->|operator\*|operator\+\+|__normal_iterator|operator--|base)(<[^()]*>)?\(')
QUEUE = re.compile(r'^(bool )?fly::detail::ConcurrentContainer<' + HOLDER + r', std::queue<.*> >::(push|pop)(<[^()]*>)?\(')
FUT = re.compile(r'^(?:std::)?(?:vector<std::future<void>, .*>::(begin|end)\(|__basic_future<void>::(valid|wait)\(|future<void>::(get)\(|future_status std::__basic_future<void>::(wait_for|wait_until)<)')


class World:
    def __init__(self, t):
        self.ex, self.st = t.ex, t.state()
        ex, st = self.ex, self.st
        self.text = ex.buffer(st, 'file', 8, 1, const=True)
        st.ghost.update({'log': (), 'queue': (), 'now': None, 'alive': fresh('runner alive', 1), 'popped': (), 'keep': None, 'delayed': None,
                         'ids': None, 'posted': B(0, 8), 'when': B(0), 'joined': ()})
        self.itp = None
        self.places = ex.buffer(st, 'places in the delayed tasks', B(1 << 41), 1, const=True)   # iterators are indices into this
        fns = [x for m in ex.mods for x in m.funcs.values()]
        for fn in fns:
            d = fn.dem
            c = None
            if re.match(FN + r'::function\(\)$', d):
                c = self.f_empty
            elif re.match(FN + r'::function\(' + FN + r'&&\)$', d):
                c = self.f_move
            elif re.match(FN + r'::operator=\(' + FN + r'&&\)$', d):
                c = self.f_assign
            elif re.match(FN + r'::~function\(\)$', d) or re.match(r'^std::(weak_ptr|shared_ptr|__weak_ptr|__shared_ptr)<fly::task::Task(Manager|Runner).*>::~', d):
                c = self.nothing
            elif re.match(r'^std::weak_ptr<fly::task::TaskManager>::weak_ptr<|^std::weak_ptr<fly::task::TaskRunner>::weak_ptr\(\)', d):
                c = self.nothing
            elif re.match(r'^fly::task::TaskRunner::TaskRunner\(', d) or re.match(r'^std::shared_ptr<fly::task::TaskManager>::shared_ptr\(std::shared_ptr<fly::task::TaskManager>&&\)', d):
                c = self.nothing
            elif re.match(r'^std::weak_ptr<fly::task::TaskRunner>::weak_ptr\(std::weak_ptr<fly::task::TaskRunner>&&\)', d):
                c = self.w_move
            elif re.match(r'^std::weak_ptr<fly::task::TaskRunner>::operator=\(std::weak_ptr<fly::task::TaskRunner>&&\)', d):
                c = self.w_assign
            elif re.match(r'^std::weak_ptr<fly::task::TaskRunner>::lock\(\) const$', d):
                c = self.weak_lock
            elif d.startswith('fly::task::TaskRunner::execute('):
                c = self.execute
            elif d == 'vp_probe_post':
                c = self.probe
            elif QUEUE.match(d):
                c = self.queue
            elif VEC.match(d):
                c = self.vec
            elif IT.match(d):
                c = self.iter
            elif re.match(r'^(bool __gnu_cxx::operator==<|_ZN9__gnu_cxxeq).*TaskHolder', d):
                c = self.iter_eq
            elif re.match(r'^std::atomic<bool>::load|^std::atomic<bool>::operator bool', d):
                c = self.load
            elif d.startswith('std::atomic<bool>::compare_exchange_strong('):
                c = self.exchange
            elif d == 'std::chrono::_V2::steady_clock::now()':
                c = self.now
            elif d.startswith('void std::this_thread::sleep_for<'):
                c = self.sleep
            elif FUT.match(d):
                c = self.future
            elif re.match(r'^__gnu_cxx::__normal_iterator<std::future<void>\*.*>::operator(\*|\+\+)\(\)', d):
                c = self.future_iter
            elif re.match(r'^(bool __gnu_cxx::operator==<|_ZN9__gnu_cxxeq).*future', d):
                c = self.iter_eq
            if c:
                ex.contracts[d] = c
        self.call('vp_manager_bytes')
        self.manager = ex.new(self.st, 'task manager', self.ret, 'param')
        self.call('vp_probe_bytes')
        o = ex.new(self.st, 'runner', self.ret, 'param')
        self.call('vp_probe_make', o, ex.new(self.st, 'manager pointer', 16, 'param'))
        self.call('vp_probe_base', o)
        self.runner = self.ret
        for x in ('mutex', 'delayed', 'queue', 'running'):
            self.call('vp_' + x, self.manager)
            setattr(self, x + '_p', self.ret)
        self.call('vp_held_bytes')
        self.hbytes = self.ret
        self.m = Monitor(ex, self.mutex_p, self.havoc, lambda ex, st: st.ghost['delayed'])
        self.m.install(self.st)

    def call(self, name, *args):
        (k, self.st, self.ret), = self.ex.run(self.ex.find('^%s$' % name), list(args), self.st)
        self.st = self.st.clone()

    def field(self, st, p, name):
        (k, st, r), = self.ex.run(self.ex.find('^vp_held_%s$' % name), [p], st)
        return r

    def line(self, st, p):
        (k, st, r), = self.ex.run(self.ex.find('^vp_location_line$'), [p], st)
        return bv(r, 32)

    # delayed tasks: (number, task identities, lines, due times); a task of identity j + 1 is the j-th one of the state at the acquisition
    def havoc(self, ex, st):
        n = fresh('delayed', 64)
        st.assume(z3.ULT(n, 1 << 40))
        st.ghost['delayed'] = (n, AFnS(64, lambda s, j: z3.simplify(bv(j, 64) + 1)), ABase('line', 32), ABase('due', 64))

    def at(self, i):
        return self.places.add(i)

    def index(self, v):
        if not isinstance(v, Ptr) or v.obj != self.places.obj:
            raise Unsupported('iterator %r' % (v,))
        return v.off.bv()

    def nothing(self, ex, st, a, fn, ins):
        return Outcomes([(st, a[0] if '::operator=' in fn.dem else None)])

    def f_empty(self, ex, st, a, fn, ins):
        st = st.clone()
        ex.store(st, a[0], 8, 0)
        return Outcomes([(st, None)])

    def f_move(self, ex, st, a, fn, ins):
        st = st.clone()
        v = ex.load(st, a[1], 8)
        ex.store(st, a[1], 8, 0)
        ex.store(st, a[0], 8, v)
        return Outcomes([(st, None)])

    def f_assign(self, ex, st, a, fn, ins):
        return Outcomes([(s, a[0]) for s, v in self.f_move(ex, st, a, fn, ins).lst])

    w_move, w_assign = f_move, f_assign

    def weak_lock(self, ex, st, a, fn, ins):
        w = ex.load(st, a[1], 8)
        ex.oblige(st, same_ptr(w, self.runner), 'the runner of a task is looked at while it is there')
        b = fresh('runner alive', 1)
        r = []
        for s, y in ex.branch(st, b):
            s = s.clone()
            s.ghost['alive'] = b
            ex.store(s, a[0], 8, self.runner if y else NULL)
            ex.store(s, a[0].add(8), 8, NULL)
            r.append((s, None))
        return Outcomes(r)

    def execute(self, ex, st, a, fn, ins):
        ex.oblige(st, same_ptr(a[0], self.runner), 'a task is executed by its runner')
        st = st.clone()
        st.ghost['log'] = st.ghost['log'] + ((bv(ex.load(st, a[2], 8), 64), self.line(st, a[1])),)
        ex.store(st, a[2], 8, 0)
        return Outcomes([(st, None)])

    def load(self, ex, st, a, fn, ins):
        if not same_ptr(a[0], self.running_p):
            raise Unsupported('another atomic')
        st = st.clone()
        st.ghost['keep'] = fresh('keep running', 1)
        return Outcomes([(st, st.ghost['keep'])])

    def exchange(self, ex, st, a, fn, ins):
        if not same_ptr(a[0], self.running_p):
            raise Unsupported('another atomic')
        b = fresh('was running', 1)
        st = st.clone()
        want = bv(ex.load(st, a[1], 1), 8) != 0
        st.ghost['exchange'] = (want, boolv(a[2]), b)
        ex.store(st, a[1], 1, z3.If(b, B(1, 8), B(0, 8)))
        return Outcomes([(st, b == want)])

    def now(self, ex, st, a, fn, ins):
        x = fresh('now', 64)
        st = st.clone()
        st.assume(z3.And(x >= 0, x < (1 << 61)))
        if st.ghost['now'] is not None:
            st.assume(x >= st.ghost['now'])
        st.ghost['now'] = x
        return Outcomes([(st, x)])

    def sleep(self, ex, st, a, fn, ins):
        ex.oblige(st, not st.ghost['held'], 'the lock is not held while sleeping')
        return Outcomes([(st, None)])

    def queue(self, ex, st, a, fn, ins):
        if not same_ptr(a[0], self.queue_p):
            raise Unsupported('another queue')
        if QUEUE.match(fn.dem).group(2) == 'push':
            st = st.clone()
            tp = self.field(st, a[1], 'task')
            v = bv(ex.load(st, tp, 8), 64)
            st.ghost['queue'] = st.ghost['queue'] + ((v, self.line(st, self.field(st, a[1], 'location')), ex.load(st, self.field(st, a[1], 'runner'), 8), bv(self.field(st, a[1], 'schedule'), 64)),)
            return Outcomes([(st, None)])
        r = []
        got = fresh('popped', 1)
        for s, y in ex.branch(st, got):
            s = s.clone()
            if y:
                v, line = fresh('task', 64), fresh('line', 32)
                s.assume(v != 0)
                self.fill(s, a[1], v, line, fresh('due', 64))
                s.ghost['popped'] = s.ghost['popped'] + ((v, line, len(s.ghost['log'])),)
                s.ghost['keep'] = None
                s.ghost['alive'] = None
            r.append((s, got))
        return Outcomes(r)

    def fill(self, st, p, v, line, due):
        ex = self.ex
        (k, s, r), = ex.run(ex.find('^vp_held_make$'), [p, self.text, line, due], st)
        st.__dict__.update(s.__dict__)
        ex.store(st, self.field(st, p, 'task'), 8, v)
        ex.store(st, self.field(st, p, 'runner'), 8, self.runner)
        ex.store(st, self.field(st, p, 'runner').add(8), 8, NULL)

    # the delayed tasks as a sequence, iterators as indices
    def vec(self, ex, st, a, fn, ins):
        name = VEC.match(fn.dem).group(1)
        this = a[0]
        if not same_ptr(this, self.delayed_p):
            raise Unsupported('another vector')
        ex.oblige(st, st.ghost['held'], 'the delayed tasks are only used while their lock is held')
        n, ids, lines, due = st.ghost['delayed']
        st = st.clone()
        if name == 'begin':
            return Outcomes([(st, self.at(0))])
        if name == 'end':
            return Outcomes([(st, self.at(n))])
        if name == 'size':
            return Outcomes([(st, n)])
        if name == 'empty':
            return Outcomes([(st, n == 0)])
        if name == 'push_back':
            v = bv(ex.load(st, self.field(st, a[1], 'task'), 8), 64)
            st.ghost['delayed'] = (z3.simplify(n + 1), AStore(ids, n, v), AStore(lines, n, self.line(st, self.field(st, a[1], 'location'))),
                                   AStore(due, n, bv(self.field(st, a[1], 'schedule'), 64)))
            st.ghost['queue'] = st.ghost['queue'] + (('runner', ex.load(st, self.field(st, a[1], 'runner'), 8)),)
            return Outcomes([(st, None)])
        if name == 'erase':
            i = self.index(a[1])
            ex.oblige(st, z3.ULT(i, n), 'only a delayed task that is there is erased')
            if st.ghost.get('erased') is not None:
                st.ghost['erased'] = st.ghost['erased'] + ((i, bv(ids.get(st, i), 64)),)
            sh = lambda fa, w: AFnS(w, lambda s, j: z3.If(z3.ULT(bv(j, 64), i), bv(fa.get(s, j), w), bv(fa.get(s, z3.simplify(bv(j, 64) + 1)), w)))
            st.ghost['delayed'] = (z3.simplify(n - 1), sh(ids, 64), sh(lines, 32), sh(due, 64))
            return Outcomes([(st, self.at(i))])
        raise Unsupported(name)

    def iter(self, ex, st, a, fn, ins):
        name = IT.match(fn.dem).group(2)
        st = st.clone()
        if name == 'operator++':
            self.itp = a[0]
            ex.store(st, a[0], 8, ex.load(st, a[0], 8).add(1))
            return Outcomes([(st, a[0])])
        if name == '__normal_iterator':
            if '__normal_iterator<' not in fn.dem.split('::__normal_iterator', 1)[1]:
                raise Unsupported(fn.dem)
            ex.store(st, a[0], 8, ex.load(st, a[1], 8))
            return Outcomes([(st, None)])
        if name in ('operator->', 'operator*'):
            i = self.index(ex.load(st, a[0], 8))
            n, ids, lines, due = st.ghost['delayed']
            ex.oblige(st, z3.ULT(i, n), 'only a delayed task that is there is looked at')
            key = ('element', str(z3.simplify(i)), id(ids))
            if key not in st.ghost:
                o = ex.new(st, 'delayed task', self.hbytes, 'heap')
                self.fill(st, o, bv(ids.get(st, i), 64), bv(lines.get(st, i), 32), bv(due.get(st, i), 64))
                st.ghost[key] = o
                st.ghost[('keep', id(ids))] = ids
            return Outcomes([(st, st.ghost[key])])
        raise Unsupported(name)

    def iter_eq(self, ex, st, a, fn, ins):
        return Outcomes([(st, self.index(ex.load(st, a[0], 8)) == self.index(ex.load(st, a[1], 8)))])

    def probe(self, ex, st, a, fn, ins):
        ex.oblige(st, same_ptr(a[2], self.runner), 'a delayed task is given to its runner')
        st = st.clone()
        st.ghost['log'] = st.ghost['log'] + ((bv(ex.load(st, a[1], 8), 64), self.line(st, a[0])),)
        ex.store(st, a[1], 8, 0)
        return Outcomes([(st, fresh('accepted', 1))])

    # stopping: futures by index
    def future(self, ex, st, a, fn, ins):
        m = FUT.match(fn.dem)
        what = m.group(1) or m.group(2) or m.group(3) or m.group(4)
        if what == 'begin':
            return Outcomes([(st, self.at(0))])
        if what == 'end':
            return Outcomes([(st, self.at(self.futures))])
        i = bv(ex.load(st, a[0], 8), 64)
        if what == 'valid':
            b = fresh('valid', 1)
            st = st.clone()
            st.ghost['valid'] = (i, b)
            return Outcomes([(st, b)])
        if what.startswith('wait_'):
            return Outcomes([(st, z3.If(fresh('ready', 1), B(0, 32), B(1, 32)))])    # may give up
        st = st.clone()
        st.ghost['joined'] = st.ghost['joined'] + (i,)
        return Outcomes([(st, None)])

    def future_iter(self, ex, st, a, fn, ins):
        st = st.clone()
        i = self.index(ex.load(st, a[0], 8))
        if 'operator++' in fn.dem:
            ex.store(st, a[0], 8, ex.load(st, a[0], 8).add(1))
            self.itp = a[0]
            return Outcomes([(st, a[0])])
        ex.oblige(st, z3.ULT(i, self.futures), 'only a thread that is there is waited for')
        o = ex.new(st, 'future', 16, 'heap')
        ex.store(st, o, 8, i)
        return Outcomes([(st, o)])

    def task(self, v):
        p = self.ex.new(self.st, 'task', 32, 'param')
        self.ex.store(self.st, p, 8, v)
        w = self.ex.new(self.st, 'weak runner', 16, 'param')
        self.ex.store(self.st, w, 8, self.runner)
        self.ex.store(self.st, w.add(8), 8, NULL)
        return p, w


def c_post(t):
    """a posted task is queued, with its runner and location"""
    w = World(t)
    ex = w.ex
    v, line = fresh('task', 64), fresh('line', 32)
    w.st.assume(v != 0)
    p, r = w.task(v)
    for k, s, _ in ex.run(ex.find('^vp_post$'), [w.manager, w.text, line, r, p], w.st):
        ex.oblige(s, k == 'ret', 'post returns')
        q = s.ghost['queue']
        ex.cover(s, 'queued')
        ex.oblige(s, len(q) == 1 and not s.ghost['sections'], 'post: the task is queued once')
        if len(q) == 1:
            ex.oblige(s, z3.And(q[0][0] == v, q[0][1] == line), 'post: the task itself is queued')
            ex.oblige(s, same_ptr(q[0][2], w.runner), 'post: with its runner')


def c_later(t):
    """a delayed task is appended to the delayed tasks, under their lock, and is due when its delay has passed"""
    w = World(t)
    ex = w.ex
    v, line, ms = fresh('task', 64), fresh('line', 32), fresh('delay', 64)
    w.st.assume(z3.And(v != 0, ms >= 0, ms < (1 << 40)))
    w.st.ghost['now'] = before = fresh('before', 64)
    w.st.assume(z3.And(before >= 0, before < (1 << 60)))
    t.watch('delay', ms)
    p, r = w.task(v)
    for k, s, _ in ex.run(ex.find('^vp_post_later$'), [w.manager, w.text, line, r, ms, p], w.st):
        ex.oblige(s, k == 'ret', 'post with delay returns')
        ss = s.ghost['sections']
        ex.cover(s, 'delayed')
        ex.oblige(s, not s.ghost['held'] and len(ss) == 1, 'post with delay: takes effect under the lock')
        if len(ss) != 1:
            continue
        a, b = ss[0]
        j = fresh('j', 64)
        n = a[0]
        ex.oblige(s, z3.And(b[0] == n + 1, bv(b[1].get(s, n), 64) == v, bv(b[2].get(s, n), 32) == line), 'post with delay: the task itself is appended')
        ex.oblige(s, bv(b[3].get(s, n), 64) >= before + ms * 1000000, 'post with delay: it is not due before its delay has passed')
        ex.oblige(s, z3.Implies(z3.ULT(j, n), z3.And(*[bv(b[i].get(s, j), x) == bv(a[i].get(s, j), x) for i, x in ((1, 64), (2, 32), (3, 64))])), 'post with delay: the others are kept')
        q = s.ghost['queue']
        ex.oblige(s, len(q) == 1 and q[0][0] == 'runner' and same_ptr(q[0][1], w.runner), 'post with delay: with its runner')


class WorkerLoop(LoopSpec):
    """Every task that was taken is executed exactly once, unless the manager was stopped or the runner is gone."""
    def matches(self, ex, st, f, blk):
        return len(st.cuts) == 0 and 'force'

    def havoc_ghost(self, ex, st, key, v):
        if key in ('log', 'popped'):
            return ()
        if key in ('keep', 'alive'):
            return None
        if isinstance(key, tuple):
            return v
        return LoopSpec.havoc_ghost(self, ex, st, key, v)

    def inv(self, ex, st, L):
        return [('executed exactly the tasks that were taken', executed(st))]


def executed(st):
    g = st.ghost
    p, log = g['popped'], g['log']
    if len(p) > 1:
        raise Unsupported('several tasks are taken in an iteration')
    if not p:
        return z3.BoolVal(len(log) == 0)
    v, line, before = p[0]
    stopped = z3.BoolVal(False) if g['keep'] is None else z3.Not(boolv(g['keep']))
    gone = z3.BoolVal(False) if g['alive'] is None else z3.Not(boolv(g['alive']))
    if before or len(log) > 1:
        return z3.BoolVal(False)
    if log:
        return z3.And(log[0][0] == v, log[0][1] == line)
    return z3.Or(stopped, gone)


def c_worker(t):
    """the worker executes every task it takes exactly once while the manager runs and the runner is there"""
    w = World(t)
    ex = w.ex
    ex.loopspecs = [WorkerLoop()]
    for k, s, _ in ex.run(ex.find('^vp_worker$'), [w.manager], w.st):
        ex.oblige(s, k == 'ret', 'the worker returns')
        ex.cover(s, 'stopped')
        ex.oblige(s, executed(s), 'worker: the last task is executed as well')
        if s.ghost['keep'] is not None:
            ex.oblige(s, z3.Not(boolv(s.ghost['keep'])), 'worker: returns only when the manager is stopped')


class TimerLoop(LoopSpec):
    def __init__(self, w):
        LoopSpec.__init__(self)
        self.w = w

    def matches(self, ex, st, f, blk):
        return (not st.ghost['held']) and len(st.cuts) == 0 and 'force'

    def havoc_ghost(self, ex, st, key, v):
        if key == 'log':
            return ()
        if key == 'sections':
            return ()
        if key in ('keep', 'alive', 'start', 'delayed', 'now', 'erased'):
            return None
        if isinstance(key, tuple):
            return v
        return LoopSpec.havoc_ghost(self, ex, st, key, v)

    def inv(self, ex, st, L):
        return [('the lock is not held', z3.BoolVal(not st.ghost['held']))]


class DueLoop(LoopSpec):
    """Every iteration looks at the next delayed task: it is posted (unless its runner is gone) and erased if it is due, else kept."""
    def __init__(self, w):
        LoopSpec.__init__(self)
        self.w = w

    def matches(self, ex, st, f, blk):
        return bool(st.ghost['held']) and 'force'

    def begin(self, ex, st):
        n = fresh('left', 64)
        st.assume(z3.ULT(n, 1 << 40))
        self.c = (n, ABase('left', 64), ABase('left lines', 32), ABase('left due', 64))

    def havoc_ghost(self, ex, st, key, v):
        if key == 'delayed':
            return self.c
        if key in ('log', 'erased'):
            return ()
        if key in ('keep', 'alive'):
            return None
        if isinstance(key, tuple):
            return v
        return LoopSpec.havoc_ghost(self, ex, st, key, v)

    def inv(self, ex, st, L):
        w = self.w
        if w.itp is None:
            if ex.dry:
                return []
            raise Unsupported('no iterator')
        i = w.index(ex.load(st, w.itp, 8))
        n = st.ghost['delayed'][0]
        r = [('the iterator is in the delayed tasks', z3.ULE(i, n)), ('the lock is held', z3.BoolVal(bool(st.ghost['held'])))]
        if L.head is None:
            self.hd, self.hi = st.ghost['delayed'], i
            st.ghost['head'] = (self.hd, i)
        elif st.ghost.get('head'):
            r.append(('the task is posted exactly if it is due, and kept if it is not', handled(ex, st, st.ghost['head'], i)))
        return r

    def variant(self, ex, st, L):
        if self.w.itp is None:
            return None
        return st.ghost['delayed'][0] - self.w.index(ex.load(st, self.w.itp, 8))


def handled(ex, st, head, i):
    (n, ids, lines, due), i0 = head
    m, ids2, lines2, due2 = st.ghost['delayed']
    log, er = st.ghost['log'], st.ghost.get('erased') or ()
    v, d = bv(ids.get(st, i0), 64), bv(due.get(st, i0), 64)
    j = fresh('j', 64)
    now = st.ghost['now']
    if now is None:
        return z3.BoolVal(False)
    posted = z3.BoolVal(False)
    if len(log) == 1:
        posted = z3.And(log[0][0] == v, log[0][1] == bv(lines.get(st, i0), 32))
    alive = z3.BoolVal(True) if st.ghost['alive'] is None else boolv(st.ghost['alive'])
    same = lambda src: z3.And(*[bv(b.get(st, j), x) == bv(a.get(st, src), x) for a, b, x in ((ids, ids2, 64), (lines, lines2, 32), (due, due2, 64))])
    isdue = z3.And(d <= now, z3.And(posted, alive) if log else z3.Not(alive), m == n - 1, i == i0,
                   z3.Implies(z3.ULT(j, m), same(z3.If(z3.ULT(j, i0), j, j + 1))))
    kept = z3.And(d > now, z3.BoolVal(not log), m == n, i == i0 + 1, z3.Implies(z3.ULT(j, m), same(j)))
    return z3.Or(isdue, kept)


def c_timer(t):
    """the timer posts exactly the due tasks, once, and keeps the others"""
    w = World(t)
    ex = w.ex
    ex.loopspecs = [DueLoop(w), TimerLoop(w)]
    for k, s, _ in ex.run(ex.find('^vp_timer$'), [w.manager], w.st):
        ex.oblige(s, k == 'ret', 'the timer returns')
        ex.cover(s, 'stopped')
        ex.oblige(s, not s.ghost['held'], 'timer: the lock is released')


class StopLoop(LoopSpec):
    def __init__(self, w):
        LoopSpec.__init__(self)
        self.w = w

    def matches(self, ex, st, f, blk):
        return 'force'

    def havoc_ghost(self, ex, st, key, v):
        if key == 'joined':
            return ()
        if key == 'valid':
            return None
        return LoopSpec.havoc_ghost(self, ex, st, key, v)

    def inv(self, ex, st, L):
        w = self.w
        if w.itp is None:
            if ex.dry:
                return []
            raise Unsupported('no iterator')
        i = w.index(ex.load(st, w.itp, 8))
        r = [('the iterator is in the threads', z3.ULE(i, w.futures))]
        if L.head is None:
            st.ghost['at'] = i
        elif st.ghost.get('at') is not None:
            i0 = st.ghost['at']
            ok = z3.BoolVal(False)
            if len(st.ghost['joined']) == 1:
                ok = st.ghost['joined'][0] == i0
            elif st.ghost.get('valid') and not st.ghost['joined']:
                ok = z3.And(st.ghost['valid'][0] == i0, z3.Not(st.ghost['valid'][1]))
            r.append(('each running thread is waited for', z3.And(i == i0 + 1, ok)))
        return r

    def variant(self, ex, st, L):
        return None if self.w.itp is None else self.w.futures - self.w.index(ex.load(st, self.w.itp, 8))


def c_stop(t):
    """stop ends the manager once, and waits for each of its threads"""
    w = World(t)
    ex = w.ex
    w.futures = fresh('threads', 64)
    w.st.assume(z3.ULT(w.futures, 1 << 40))
    w.st.ghost['valid'] = None
    w.st.ghost['at'] = None
    ex.loopspecs = [StopLoop(w)]
    for k, s, r in ex.run(ex.find('^vp_stop$'), [w.manager], w.st):
        ex.oblige(s, k == 'ret', 'stop returns')
        x = s.ghost.get('exchange')
        ex.oblige(s, x is not None, 'stop: the flag is exchanged')
        if x is None:
            continue
        ex.cover(s, 'returned')
        ex.oblige(s, z3.And(x[0], z3.Not(x[1])), 'stop: a running manager is stopped')
        ex.oblige(s, boolv(r) == x[2], 'stop: reports whether it stopped the manager')
        for s1, y in ex.branch(s, x[2]):
            if y:
                ex.oblige(s1, w.index(ex.load(s1, w.itp, 8)) == w.futures if w.itp is not None else False, 'stop: waits for all threads')


def tasks(tier):
    u = ['manager']
    return [('post', c_post, u), ('post with delay', c_later, u), ('worker', c_worker, u), ('timer', c_timer, u), ('stop', c_stop, u)]
