"""P21: the concurrent containers, thread modular: what other threads do is any change between two critical sections."""
import re
import z3
from flyvc.val import *
from flyvc.execu import LoopSpec, Outcomes, AFnS

BUDGET = 200
DRIVER_S = 25
B = lambda v: z3.BitVecVal(v, 64)
ASSUMPTIONS = ['std::queue and std::stack over std::deque: push, front / top, pop, empty and size are those of a sequence (assumed contract of the standard library)',
               'pthread mutexes exclude each other; waiting on a condition variable releases the mutex, may take any time and wake for no reason, and acquires it again '
               '(assumed contract; std::unique_lock and std::condition_variable::wait_for / wait_until with a predicate are executed)',
               'lock invariant: while no critical section is open the container may hold any sequence of elements (other threads are any change at an acquisition)',
               'element type: 64 bit integers']
CONTAINER = re.compile(r'^std::(queue|stack)<unsigned long, std::deque<unsigned long, std::allocator<unsigned long> > >::(push|emplace|front|back|top|pop|empty|size)(<[^()]*>)?\(')


def fresh_content(st):
    n = fresh('elements', 64)
    st.assume(z3.ULT(n, 1 << 40))
    return n, ABase('elements', 64)


def same(st, a, b):
    """the two contents are the same sequence, at an arbitrary index"""
    j = fresh('j', 64)
    return z3.And(a[0] == b[0], z3.Implies(z3.ULT(j, a[0]), bv(a[1].get(st, j), 64) == bv(b[1].get(st, j), 64)))


def setup(t, kind):
    ex, st = t.ex, t.state()
    size, = [r for k, s, r in ex.run(ex.find('^vp_%s_bytes$' % kind), [], st.clone())]
    o = ex.new(st, 'container', size, 'param')

    def init(ex, st, a, fn, ins):
        return Outcomes([(st, None)])
    for fn in [x for m in ex.mods for x in m.funcs.values()]:
        if re.search(r'^std::(queue|stack)<.*>::(queue|stack)<|^std::condition_variable::~?condition_variable\(\)$', fn.dem):
            ex.contracts[fn.dem] = init
    (k, st, r), = ex.run(ex.find('^vp_%s_make$' % kind), [o], st)
    (k, st, mutex), = ex.run(ex.find('^vp_%s_mutex$' % kind), [o], st)
    (k, st, cont), = ex.run(ex.find('^vp_%s_container$' % kind), [o], st)
    st = st.clone()
    st.ghost.update({'held': False, 'content': fresh_content(st), 'start': None, 'sections': (), 'notified': False})

    def eqp(a, b):
        return isinstance(a, Ptr) and a.obj == b.obj and a.off.conc() == b.off.conc()

    def lock(ex, st, a, fn, ins):
        if not eqp(a[0], mutex):
            raise Unsupported('another mutex')
        ex.oblige(st, not st.ghost['held'], 'the lock is not taken twice')
        st = st.clone()
        c = fresh_content(st)                                    # whatever the other threads did since
        st.ghost.update({'held': True, 'content': c, 'start': c})
        return Outcomes([(st, 0)])

    def unlock(ex, st, a, fn, ins):
        if not eqp(a[0], mutex):
            raise Unsupported('another mutex')
        ex.oblige(st, st.ghost['held'], 'only a taken lock is released')
        st = st.clone()
        st.ghost.update({'held': False, 'sections': st.ghost['sections'] + ((st.ghost['start'], st.ghost['content']),)})
        return Outcomes([(st, 0)])

    def waited(ex, st, result):
        ex.oblige(st, st.ghost['held'], 'waiting needs the lock')
        ex.oblige(st, same(st, *[st.ghost[x] for x in ('start', 'content')]), 'nothing is changed by an operation that goes on waiting')
        st = st.clone()
        c = fresh_content(st)
        st.ghost.update({'content': c, 'start': c})
        return Outcomes([(st, result)])

    def wait(ex, st, a, fn, ins):
        return waited(ex, st, None)

    def wait_until(ex, st, a, fn, ins):
        return waited(ex, st, z3.If(fresh('timeout', 1), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))

    def notify(ex, st, a, fn, ins):
        st = st.clone()
        n = st.ghost
        if n['held'] or n['sections']:
            st.ghost['notified'] = True
        return Outcomes([(st, None)])

    def now(ex, st, a, fn, ins):
        x = fresh('now', 64)
        st.assume(z3.And(x >= 0, x < (1 << 61)))
        return x

    def op(ex, st, a, fn, ins):
        m = CONTAINER.match(fn.dem)
        kind, name = m.group(1), m.group(2)
        if not eqp(a[0], cont):
            raise Unsupported('another container')
        ex.oblige(st, st.ghost['held'], 'the container is only used while its lock is held')
        n, fa = st.ghost['content']
        if name in ('empty', 'size'):
            return Outcomes([(st, (n == 0) if name == 'empty' else n)])
        st = st.clone()
        if name in ('push', 'emplace'):
            if name == 'emplace' and '&&' not in fn.dem and '&' not in fn.dem:
                raise Unsupported(fn.dem)
            v = ex.load(st, a[1], 8)
            st.ghost['content'] = (z3.simplify(n + 1), AStore(fa, n, v))
            return Outcomes([(st, NULL if name == 'emplace' else None)])
        ex.oblige(st, n != 0, 'an element is only taken from a container that has one')
        if name == 'pop':
            st.ghost['content'] = (z3.simplify(n - 1), fa if kind == 'stack' else AFnS(64, lambda s, j: fa.get(s, z3.simplify(bv(j, 64) + 1))))
            return Outcomes([(st, None)])
        i = B(0) if name == 'front' else n - 1
        b = ex.buffer(st, 'element', 1, 8)
        ex.store(st, b, 8, bv(fa.get(st, i), 64))
        return Outcomes([(st, b)])
    for fn in [x for m in ex.mods for x in m.funcs.values()]:
        d = fn.dem
        c = op if CONTAINER.match(d) else lock if d == 'pthread_mutex_lock' else unlock if d == 'pthread_mutex_unlock' else \
            wait if d == 'std::condition_variable::wait(std::unique_lock<std::mutex>&)' else \
            wait_until if d.startswith('std::cv_status std::condition_variable::wait_until<') or d.startswith('std::cv_status std::condition_variable::wait_for<') else \
            notify if re.match(r'std::condition_variable::notify_(one|all)\(\)', d) else now if d == 'std::chrono::_V2::steady_clock::now()' else None
        if c:
            ex.contracts[d] = c

    class Waiting(LoopSpec):
        """Waiting for an element: every iteration sees whatever the other threads left."""
        def matches(self, ex, st, f, blk):
            return len(st.cuts) == 0 and 'force'

        def begin(self, ex, st):
            self.c = fresh_content(st)

        def havoc_ghost(self, ex, st, key, v):
            if key in ('content', 'start'):
                return self.c
            return v

        def inv(self, ex, st, L):
            return [('the lock is held', z3.BoolVal(st.ghost['held'])), ('nothing has been changed', same(st, st.ghost['start'], st.ghost['content'])),
                    ('no section has been closed', z3.BoolVal(len(st.ghost['sections']) == 0))]
    ex.loopspecs = [Waiting()]
    return ex, st, o


def sections(ex, s, what):
    """All but one critical section change nothing: (the one that may, whether it is there)"""
    ss = s.ghost['sections']
    ex.oblige(s, not s.ghost['held'], what + ': the lock is released')
    ex.oblige(s, len(ss) > 0, what + ': takes effect under the lock')
    return ss


def pushed(s, a, b, v):
    j = fresh('j', 64)
    return z3.And(b[0] == a[0] + 1, bv(b[1].get(s, a[0]), 64) == v, z3.Implies(z3.ULT(j, a[0]), bv(b[1].get(s, j), 64) == bv(a[1].get(s, j), 64)))


def popped(s, a, b, v, kind):
    j = fresh('j', 64)
    first = B(0) if kind == 'queue' else a[0] - 1
    kept = j + 1 if kind == 'queue' else j
    return z3.And(a[0] != 0, b[0] == a[0] - 1, v == bv(a[1].get(s, first), 64), z3.Implies(z3.ULT(j, b[0]), bv(b[1].get(s, j), 64) == bv(a[1].get(s, kept), 64)))


def effect(ex, s, what, ss, f):
    """exactly one section has the effect, the others none"""
    if len(ss) == 1:
        ex.oblige(s, f(*ss[0]), what)
        return
    for i in range(len(ss)):
        others = [same(s, a, b) for k, (a, b) in enumerate(ss) if k != i]
        if not ex.sol.feasible(s.pc, z3.Not(z3.And(f(*ss[i]), *others))):
            ex.oblige(s, z3.BoolVal(True), what)
            return
    ex.oblige(s, z3.BoolVal(False), what)


def c_push(kind):
    def f(t):
        """push appends its element, at once, under the lock, and wakes a waiting thread"""
        ex, st, o = setup(t, kind)
        v = fresh('value', 64)
        t.watch('value', v)
        for k, s, r in ex.run(ex.find('^vp_%s_push$' % kind), [o, v], st):
            ex.oblige(s, k == 'ret', 'push returns')
            ex.cover(s, 'pushed')
            effect(ex, s, 'push: appends exactly its element', sections(ex, s, 'push'), lambda a, b: pushed(s, a, b, v))
            ex.oblige(s, s.ghost['notified'], 'push: a waiting thread is notified')
    return f


def c_pop(kind):
    def f(t):
        """pop takes exactly the next element, under the lock"""
        ex, st, o = setup(t, kind)
        p = ex.buffer(st, 'item', 1, 8)
        for k, s, r in ex.run(ex.find('^vp_%s_pop$' % kind), [o, p], st):
            ex.oblige(s, k == 'ret', 'pop returns')
            ex.cover(s, 'popped')
            effect(ex, s, 'pop: takes exactly the next element', sections(ex, s, 'pop'), lambda a, b: popped(s, a, b, bv(ex.load(s, p, 8), 64), kind))
    return f


def c_timed(kind, unit):
    def f(t):
        """timed pop takes exactly the next element, or fails while the container is empty"""
        ex, st, o = setup(t, kind)
        p = ex.buffer(st, 'item', 1, 8)
        before = bv(ex.load(st, p, 8), 64)
        d = fresh('duration', 64)
        st.assume(z3.And(d >= 0, d < (1 << 40)))
        for k, s, r in ex.run(ex.find('^vp_%s_pop_%s$' % (kind, unit)), [o, p, d], st):
            ex.oblige(s, k == 'ret', 'timed pop returns')
            for s1, y in ex.branch(s, boolv(r)):
                ss = sections(ex, s1, 'timed pop')
                item = bv(ex.load(s1, p, 8), 64)
                if y:
                    ex.cover(s1, 'popped')
                    effect(ex, s1, 'timed pop: takes exactly the next element', ss, lambda a, b: popped(s1, a, b, item, kind))
                elif ss:
                    ex.cover(s1, 'failed')
                    ex.oblige(s1, z3.And(*[same(s1, a, b) for a, b in ss]), 'a failed pop changes nothing')
                    ex.oblige(s1, ss[-1][1][0] == 0, 'timed pop fails only while the container is empty')
                    ex.oblige(s1, item == before, 'a failed pop leaves the item alone')
    return f


def c_observe(kind):
    def f(t):
        """empty and size report the container at one moment under the lock"""
        for what in ('empty', 'size'):
            ex, st, o = setup(t, kind)
            for k, s, r in ex.run(ex.find('^vp_%s_%s$' % (kind, what)), [o], st):
                ex.oblige(s, k == 'ret', what + ' returns')
                ex.cover(s, what)
                ss = sections(ex, s, what)
                ex.oblige(s, z3.And(*[same(s, a, b) for a, b in ss]), what + ' changes nothing')
                if what == 'empty':
                    ex.oblige(s, z3.Or(*[boolv(r) == (a[0] == 0) for a, b in ss]), 'empty: iff there is no element')
                else:
                    ex.oblige(s, z3.Or(*[bv(r, 64) == a[0] for a, b in ss]), 'size: the number of elements')
    return f


def tasks(tier):
    u = ['concurrent']
    r = []
    for k in ('queue', 'stack'):
        r += [(k + ' push', c_push(k), u), (k + ' pop', c_pop(k), u), (k + ' timed pop (ms)', c_timed(k, 'ms'), u), (k + ' timed pop (ns)', c_timed(k, 'ns'), u),
              (k + ' observers', c_observe(k), u)]
    return r
