"""Symbolic execution of LLVM IR into verification conditions.

Every path of a function under contract is executed with symbolic inputs.  Loops are either unrolled completely (their
exit test is concrete) or cut by an invariant (init / preservation / frame obligations), so nothing is bounded.
"""
import os
import re, sys, time
import z3
from .val import *
from .solver import Solver

sys.setrecursionlimit(20000)


class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'vals', 'prev', 'call', 'aid', 'unroll', 'stop')

    def copy(self):
        f = Frame()
        f.fn, f.blk, f.ip, f.prev, f.call, f.aid = self.fn, self.blk, self.ip, self.prev, self.call, self.aid
        f.vals = dict(self.vals)
        f.unroll = dict(self.unroll)
        f.stop = self.stop
        return f


class Cut:
    """An active loop cut."""
    __slots__ = ('aid', 'header', 'body', 'data')


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.cuts = []
        self.ghost = {}
        self.instd = frozenset()
        self.owned = set()
        self.trail = []
        self.exc = None
        self.caught = ()

    def clone(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.cuts = list(self.cuts)
        s.ghost = dict(self.ghost)
        s.instd = self.instd
        self.owned = set()
        s.trail = list(self.trail)
        s.exc = self.exc
        s.caught = self.caught
        return s

    def assume(self, c, *more):
        for m in more:
            self.assume(m)
        if c is True or c is None:
            return
        if c is False:
            c = z3.BoolVal(False)
        c = boolv(c)
        if z3.is_true(c):
            return
        self.pc.append(c)

    def wobj(self, oid):
        o = self.mem[oid]
        if oid not in self.owned:
            o = o.copy()
            self.mem[oid] = o
            self.owned.add(oid)
        return o


class Throw:
    """Outcome of a call model: an exception propagates."""
    def __init__(self, st, ty='std::exception', val=None):
        self.st, self.ty, self.val = st, ty, val


def subterms(e):
    seen, work = set(), [e]
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        yield x
        work.extend(x.children())


def overlapping(cells, c, size):
    """Keys of the cells that overlap [c, c + size); no cell is larger than 256 bytes."""
    if len(cells) <= 256 + size:
        return [k for k, cv in cells.items() if k < c + size and c < k + cv[0]]
    return [k for k in range(c - 256, c + size) if k in cells and c < k + cells[k][0]]


class Outcomes:
    def __init__(self, lst):
        self.lst = lst      # list of (state, value) or Throw


class NoReturn(Exception):
    pass


class PathEnd(Exception):
    """The current path is finished (infeasible or terminated)."""


class Result:
    __slots__ = ('name', 'status', 'backend', 'model', 'where', 'time', 'trail', 'pc', 'goal')


class Exec:
    MAXSTEPS = 4_000_000

    def __init__(self, mods, models, name='', solver=None, deadline=None):
        self.mods = mods if isinstance(mods, list) else [mods]
        self.models = models            # list of (compiled regex, function)
        self._mcache = {}
        self.name = name
        self.sol = solver or Solver()
        self.results = []
        self.dry = 0
        self.loopspecs = []
        self._loopbind = {}
        self.contracts = {}             # demangled name -> model function (call by contract)
        self.gobj = {}
        self.steps = 0
        self.deadline = deadline
        self.funcs_entered = set()
        self.models_used = set()
        self.contracts_used = set()
        self.globals_over = {}
        self.maxunroll = 700
        self.stop_on_fail = True
        self.covers = {}
        self.refuted_seen = {}
        self.tydem = {}
        self.geom = {}
        self._dec = {}
        DECIDE[0] = self.decide

    def decide(self, st, c):
        """Does the path condition settle c?  (None when it does not, or not quickly)"""
        key = (c.get_id(), tuple(x.get_id() for x in st.pc[-40:]), len(st.pc))
        if key in self._dec:
            return self._dec[key][0]
        keep, self.sol.fast_ms = self.sol.fast_ms, 400
        r = None
        if not self.sol.feasible(st.pc, z3.Not(c)):
            r = True
        elif not self.sol.feasible(st.pc, c):
            r = False
        elif not self.dry and self.sol.last_unknown and self.sol.quick_int(st.pc, z3.Not(c)):
            r = True
        self.sol.fast_ms = keep
        self._dec[key] = (r, c)
        return r

    # ------------------------------------------------------------ lookup
    def func(self, name):
        for m in self.mods:
            f = m.funcs.get(name)
            if f is not None and not f.isdecl:
                return m.convert(f)
        for m in self.mods:
            f = m.funcs.get(name)
            if f is not None:
                return m.convert(f)
        return None

    def find(self, pat, unique=True):
        """Function whose demangled name matches the regular expression."""
        r = re.compile(pat)
        c = {}
        for m in self.mods:
            for f in m.funcs.values():
                if not f.isdecl and r.search(f.dem) and 'thunk to' not in f.dem:
                    c[f.name] = f
        if not c:
            raise Unsupported('no function matches ' + pat)
        if unique and len(c) > 1:
            raise Unsupported('several functions match %s: %s' % (pat, [f.dem for f in c.values()][:6]))
        fs = [f.mod.convert(f) for f in c.values()]
        return fs[0] if unique else fs

    # ------------------------------------------------------------ obligations
    def oblige_imp(self, st, imp, name, assume, cases):
        cases = list(imp.cases) or list(cases)
        if self.dry:
            if assume:
                st.assume(z3.Implies(imp.hyp, boolv(imp.fn(st))))
            return True
        s0 = st.clone()
        st.owned = set()
        s0.assume(imp.hyp)
        c0 = None
        ok = True
        rest = []
        for c in cases + [None]:
            s = s0.clone()
            s0.owned = set()
            for r in rest:
                s.assume(z3.Not(r))
            if c is not None:
                s.assume(c)
                rest.append(c)
            if not self.sol.feasible(s.pc) or self.sol.last_unknown and self.sol.quick_int(s.pc, z3.BoolVal(True), 2):
                self.oblige(s, True, name, assume=False)
                continue
            c1 = boolv(imp.fn(s))
            if not cases:
                c0 = c1
            try:
                ok = self.oblige(s, c1, name, assume=False) and ok
            except PathEnd:
                ok = False
        if assume:
            st.assume(z3.Implies(imp.hyp, c0 if c0 is not None else boolv(imp.fn(st))))
        return ok

    def oblige(self, st, cond, name, assume=True, cases=()):
        if isinstance(cond, Imp):
            return self.oblige_imp(st, cond, name, assume, cases)
        if cases and not self.dry:
            return self.oblige_cases(st, cond, name, cases)
        if self.dry:
            if assume:
                st.assume(cond)
            return True
        if cond is True:
            cond = z3.BoolVal(True)
        if cond is False:
            cond = z3.BoolVal(False)
        cond = boolv(cond)
        t0 = time.time()
        if self.deadline and t0 > self.deadline:
            raise Unsupported('time budget exhausted')
        status, be, model = self.sol.prove(st.pc, cond)
        r = Result()
        r.name, r.status, r.backend = name, status, be
        r.model = None
        r.time = time.time() - t0
        r.where = self.where(st)
        r.trail = None
        if status != 'proved':
            r.model = str(model)[:6000] if model is not None else None
            r.trail = list(st.trail[-60:])
            r.pc = None
            self.on_fail(st, r, model, cond)
        self.results.append(r)
        if assume:
            if status != 'proved' and (z3.is_false(z3.simplify(cond))):
                raise PathEnd()
            if not z3.is_true(cond):
                st.assume(cond)
        return status == 'proved'

    def oblige_cases(self, st, cond, name, cases):
        """Prove cond by a complete case split (the obligations are the cases)."""
        ok = True
        rest = []
        for c in list(cases) + [None]:
            s = st.clone()
            st.owned = set()
            for r in rest:
                s.assume(z3.Not(r))
            if c is not None:
                s.assume(c)
                rest.append(c)
            try:
                ok = self.oblige(s, cond, name, assume=False) and ok
            except PathEnd:
                ok = False
        return ok

    def on_fail(self, st, r, model, cond):
        pass

    def cover(self, st, name):
        """Vacuity guard: some path reaching this point must be satisfiable."""
        if self.covers.get(name) == 'sat' or self.dry:
            return
        r = self.sol
        r._sync(st.pc)
        r.s.set('timeout', 15000)
        c = r.s.check()
        self.covers[name] = 'sat' if c == z3.sat else ('unknown' if c == z3.unknown and self.covers.get(name) != 'sat' else self.covers.get(name, 'unsat'))

    def where(self, st):
        if not st.frames:
            return ''
        f = st.frames[-1]
        return '%s B%d' % (f.fn.dem[:160], f.blk.id)

    # ------------------------------------------------------------ memory
    def new(self, st, name, size, kind='stack', const=False):
        oid = '%s#%d' % (name, fresh_id())
        st.mem[oid] = Obj(oid, name, size, kind, const)
        st.owned.add(oid)
        return Ptr(oid)

    def buffer(self, st, name, n, w=1, const=False, farr=None, kind='param'):
        """An object holding n elements of w bytes with symbolic content."""
        size = n * w if isinstance(n, int) else Lin.of(n).mul(w).val()
        p = self.new(st, name, size, kind, const)
        o = st.mem[p.obj]
        o.regions.append(Region(0, n, w, {(0, w): farr if farr is not None else ABase(name, 8 * w)}))
        return p

    def ensure_regions(self, st, mods):
        """Array regions a loop writes exist (with unknown content) before the loop."""
        for m in mods:
            if m[1] != 'r' or m[0] not in st.mem:
                continue
            if any(r.start == m[2] for r in st.mem[m[0]].regions):
                continue
            g = self.geom.get((m[0], m[2]))
            if g is None:
                continue
            n, stride, keys = g
            o = st.wobj(m[0])
            r = Region(m[2], n, stride)
            for kk in keys:
                r.fields[kk] = ABase(o.name, 8 * kk[1])
            inside = sorted((k, v) for k, v in o.cells.items() if m[2] <= k < m[2] + n * stride)
            for k, (sz, v) in inside:
                del o.cells[k]
                key = ((k - r.start) % r.stride, sz)
                fa = r.fields.get(key) or ABase(o.name, 8 * sz)
                r.fields[key] = fa.store((k - r.start) // r.stride, v)
            o.regions.append(r)

    def record(self, st, what):
        if what[1] == 'r' and what[0] in st.mem:
            for r in st.mem[what[0]].regions:
                if r.start == what[2]:
                    self.geom[(what[0], what[2])] = (r.n, r.stride, list(r.fields))
        for c in st.cuts:
            c.data['writes'].add(what)

    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            raise Unsupported('unknown object %s' % oid)
        return o

    def glob(self, st, name):
        oid = '@' + name
        if oid in st.mem:
            return Ptr(oid)
        for m in self.mods:
            if name in m.globals:
                t, init, const = m.global_info(name)
                if init is not None:
                    break
        else:
            t, init, const = None, None, False
            for m in self.mods:
                if name in m.globals:
                    t, init, const = m.global_info(name)
        o = Obj(oid, name, t.size if t and t.size is not None else (1 << 20), 'global', const)
        st.mem[oid] = o
        if name in self.globals_over:
            self.globals_over[name](self, st, o)
        elif init is not None and (const or not name.startswith('_ZGV')):
            self.init_const(st, o, 0, init, t)
        elif init is not None:
            self.init_const(st, o, 0, init, t)
        return Ptr(oid)

    def init_const(self, st, o, off, init, t):
        k = init[0]
        if t.kind == 'array' and t.n and t.elem.kind == 'int':
            w = t.elem.size
            if k == 'data':
                vals = list(init[1])
            elif k == 'zero':
                vals = [0] * t.n
            elif k == 'agg':
                vals = [e[1] if e[0] == 'c' else 0 for e in init[1]]
            else:
                return
            o.regions.append(Region(off, t.n, w, {(0, w): ATable(vals, 8 * w)}))
            return
        if t.kind == 'array' and t.n and t.elem.kind == 'struct' and k in ('agg', 'zero'):
            fl = self.flat_fields(t.elem)
            if fl is not None:
                cols = {f: [] for f in fl}
                ok = True
                for i in range(t.n):
                    e = init[1][i] if k == 'agg' else ('zero', t.elem)
                    row = {}
                    self.flat_const(e, t.elem, 0, row)
                    for f in fl:
                        v = row.get(f)
                        if not isinstance(v, int):
                            ok = False
                        cols[f].append(v)
                if ok:
                    o.regions.append(Region(off, t.n, t.elem.size, {f: ATable(c, 8 * f[1]) for f, c in cols.items()}))
                    return
        if t.kind in ('array', 'struct'):
            n = t.n if t.kind == 'array' else len(t.fields)
            for i in range(n):
                et = t.elem if t.kind == 'array' else t.fields[i]
                eo = i * et.size if t.kind == 'array' else t.offs[i]
                if k == 'agg':
                    self.init_const(st, o, off + eo, init[1][i], et)
                elif k == 'zero':
                    self.init_const(st, o, off + eo, ('zero', et), et)
                elif k == 'data':
                    o.cells[off + eo] = (1, init[1][i])
            return
        if k == 'zero':
            o.cells[off] = (t.size, NULL if t.kind == 'ptr' else 0)
        elif k != 'undef':
            v = self.const(st, init)
            o.cells[off] = (t.size, v)

    def flat_fields(self, t):
        out = []

        def rec(t, off):
            if t.kind == 'int':
                out.append((off, t.size))
            elif t.kind == 'struct':
                for f, o in zip(t.fields, t.offs):
                    rec(f, off + o)
            elif t.kind == 'array':
                for i in range(t.n):
                    rec(t.elem, off + i * t.elem.size)
            else:
                raise ValueError
        try:
            rec(t, 0)
            return out
        except ValueError:
            return None

    def flat_const(self, e, t, off, row):
        if t.kind == 'int':
            row[(off, t.size)] = e[1] if e[0] == 'c' else 0 if e[0] in ('zero', 'undef') else None
        elif t.kind == 'struct':
            for i, (f, o) in enumerate(zip(t.fields, t.offs)):
                self.flat_const(e[1][i] if e[0] == 'agg' else ('zero', f), f, off + o, row)
        elif t.kind == 'array':
            for i in range(t.n):
                x = e[1][i] if e[0] == 'agg' else (('c', e[1][i], 8) if e[0] == 'data' else ('zero', t.elem))
                self.flat_const(x, t.elem, off + i * t.elem.size, row)

    def check_access(self, st, p, size, write):
        if p is NULL or isinstance(p, int):
            self.oblige(st, False, 'memory: null dereference')
            raise PathEnd()
        if not isinstance(p, Ptr):
            raise Unsupported('access through %r' % (p,))
        o = self.obj(st, p.obj)
        if o.dead:
            self.oblige(st, False, 'memory: use of a dead object (%s)' % o.name)
            raise PathEnd()
        if write and o.const:
            self.oblige(st, False, 'frame: write to a read-only object (%s)' % o.name)
            raise PathEnd()
        c = p.off.conc()
        if c is not None and isinstance(o.size, int):
            if s64(c) < 0 or c + size > o.size:
                self.oblige(st, False, 'memory: access out of bounds of %s' % o.name)
                raise PathEnd()
            if p.hint:
                h0, hn, hs = p.hint
                if isinstance(hn, int) and not (h0 <= c and c + size <= h0 + hn * hs):
                    self.oblige(st, False, 'memory: access out of bounds of an array in %s' % o.name)
                    raise PathEnd()
            return o
        return o

    def region_for(self, st, o, p, size):
        """(region, element index Lin, suboffset) or None."""
        c = p.off.conc()
        for r in o.regions:
            if c is not None:
                d = s64(c) - r.start
                if d < 0:
                    continue
                if isinstance(r.n, int) and d + size > r.n * r.stride:
                    continue
                return r, Lin(d // r.stride), d % r.stride
            else:
                d = p.off.sub(r.start)
                if p.hint and isinstance(p.hint[1], int) and isinstance(r.n, int):
                    # the hint must lie inside the region
                    if not (p.hint[0] >= r.start and p.hint[0] + p.hint[1] * p.hint[2] <= r.start + r.n * r.stride):
                        continue
                elif len(o.regions) > 1:
                    # several regions: pick the one the constant part falls into
                    cc = s64(p.off.c)
                    if not (cc >= r.start and (not isinstance(r.n, int) or cc < r.start + r.n * r.stride)):
                        continue
                if all(s64(k) % r.stride == 0 for _, k in d.t.values()):
                    sub = s64(d.c) % r.stride
                    return r, d.sub(sub).div(r.stride), sub
                raise Unsupported('unstructured index %r into region of stride %d of %s' % (p.off, r.stride, o.name))
        return None

    def make_region(self, st, o, p, size):
        """Create the array region a symbolic access falls into, from the array the pointer was derived from."""
        if p.hint is not None and isinstance(p.hint[1], int):
            h0, hn, hs = p.hint
            if all(s64(k) % hs == 0 for _, k in p.off.t.values()) or hs % size != 0:
                r = Region(h0, hn, hs)
            else:
                r = Region(h0, hn * hs // size, size)
        elif isinstance(o.size, int) and o.size % size == 0 and all(s64(k) % size == 0 for _, k in p.off.t.values()) \
                and not any(not isinstance(v[1], (int, z3.ExprRef)) for v in o.cells.values()):
            r = Region(0, o.size // size, size)
        else:
            raise Unsupported('symbolic access to %s at %r' % (o.name, p.off))
        o = st.wobj(o.id)
        end = r.start + r.n * r.stride
        inside = sorted((k, v) for k, v in o.cells.items() if r.start <= k < end)
        for k, (sz, v) in inside:
            del o.cells[k]
            key = ((k - r.start) % r.stride, sz)
            fa = r.fields.get(key)
            if fa is None:
                fa = ABase(o.name, 8 * sz)
            r.fields[key] = fa.store((k - r.start) // r.stride, v)
        o.regions.append(r)
        return o

    def region_elem(self, st, o, r, sub, size, create=True):
        """FArr for (sub,size), or list of byte-wise pieces."""
        fa = r.fields.get((sub, size))
        if fa is not None:
            return fa
        for (s2, z2) in r.fields:
            if not (sub + size <= s2 or s2 + z2 <= sub):
                return None     # overlap with different width
        if sub + size > r.stride:
            return None
        fa = ABase(o.name + '.%d' % sub, 8 * size)
        o2 = st.wobj(o.id)
        for r2 in o2.regions:
            if r2.start == r.start and r2.stride == r.stride:
                r2.fields[(sub, size)] = fa
        return fa

    def idx_check(self, st, o, r, idx, count=1):
        i = idx.val()
        n = r.n
        if isinstance(i, int) and isinstance(n, int):
            ok = i + count <= n
            if not ok:
                self.oblige(st, False, 'memory: index out of bounds of %s' % o.name)
                raise PathEnd()
            return
        if count == 1:
            self.oblige(st, z3.ULT(bv(i, 64), bv(n, 64)), 'memory: index within bounds of %s' % o.name)
        else:
            self.oblige(st, z3.And(z3.ULE(bv(i, 64), bv(n, 64)), z3.ULE(z3.BitVecVal(count, 64), bv(n, 64) - bv(i, 64))),
                        'memory: range within bounds of %s' % o.name)

    def load(self, st, p, size, ty=None):
        o = self.check_access(st, p, size, False)
        c = p.off.conc()
        if c is not None and c in o.cells and o.cells[c][0] == size:
            return o.cells[c][1]
        rr = self.region_for(st, o, p, size)
        if rr is None:
            if c is None:
                o = self.make_region(st, o, p, size)
                rr = self.region_for(st, o, p, size)
            else:
                return self.load_cells(st, o, c, size, ty)
        r, idx, sub = rr
        fa = self.region_elem(st, o, r, sub, size)
        if fa is not None:
            self.idx_check(st, o, r, idx)
            return fa.get(st, idx.val())
        # wider access to narrow elements (little endian)
        if (sub, 1) in r.fields or (r.stride == 1):
            self.idx_check(st, o, r, idx, size)
            fa = r.fields[(0, 1)]
            bs = [bv(fa.get(st, idx.add(k).val()), 8) for k in range(size)]
            return z3.Concat(*reversed(bs)) if size > 1 else bs[0]
        if size % r.stride == 0 and sub == 0 and (0, r.stride) in r.fields:
            k = size // r.stride
            self.idx_check(st, o, r, idx, k)
            fa = r.fields[(0, r.stride)]
            bs = [bv(fa.get(st, idx.add(j).val()), 8 * r.stride) for j in range(k)]
            return z3.Concat(*reversed(bs))
        # a piece of a wider element
        for (s2, z2), fa in r.fields.items():
            if s2 <= sub and sub + size <= s2 + z2:
                self.idx_check(st, o, r, idx)
                v = bv(fa.get(st, idx.val()), 8 * z2)
                lo = 8 * (sub - s2)
                return z3.Extract(lo + 8 * size - 1, lo, v)
        # composed of several fields of one element
        if sub + size <= r.stride:
            self.idx_check(st, o, r, idx)
            parts = []
            pos = sub
            while pos < sub + size:
                m = [(z2, fa) for (s2, z2), fa in r.fields.items() if s2 == pos]
                if m and pos + m[0][0] <= sub + size:
                    parts.append(bv(m[0][1].get(st, idx.val()), 8 * m[0][0]))
                    pos += m[0][0]
                else:
                    parts.append(fresh('pad', 8))
                    pos += 1
            return z3.Concat(*reversed(parts))
        raise Unsupported('load of %d bytes at sub-offset %d of %s' % (size, sub, o.name))

    def load_cells(self, st, o, c, size, ty):
        # exact miss: compose from overlapping cells, unknown bytes are fresh
        ov = [(k, o.cells[k]) for k in overlapping(o.cells, c, size)]
        if not ov and not [r for r in o.regions if not (isinstance(r.n, int) and (r.start >= c + size or r.start + r.n * r.stride <= c))]:
            if ty is not None and ty.kind == 'ptr':
                v = self.fresh_ptr(st, o, c)
            elif ty is not None and ty.kind in ('float', 'double', 'x86_fp80'):
                v = Opaque('%s.%d' % (o.name, c), ty.bits)
            else:
                v = fresh('%s.%d' % (o.name, c), 8 * size)
            o = st.wobj(o.id)
            o.cells[c] = (size, v)
            return v
        if len(ov) == 1 and ov[0][0] <= c and ov[0][0] + ov[0][1][0] >= c + size:
            k, (sz, v) = ov[0]
            if isinstance(v, int):
                return (v >> (8 * (c - k))) & ((1 << (8 * size)) - 1)
            if isinstance(v, (z3.BitVecRef, Lin)):
                lo = 8 * (c - k)
                return z3.Extract(lo + 8 * size - 1, lo, bv(v, 8 * sz))
            if isinstance(v, (GStr, GVec, Ghost)):
                raise Unsupported('raw access to a modelled object in %s' % o.name)
            if v is NULL:
                return 0
            raise Unsupported('partial load of %r' % (v,))
        parts = []
        for b in range(c, c + size):
            hit = None
            for k, (sz, v) in ov:
                if k <= b < k + sz:
                    hit = (k, sz, v)
            if hit is None:
                pb = Ptr(o.id, Lin(b))
                rr = self.region_for(st, o, pb, 1)
                if rr is not None:
                    parts.append(bv(self.load(st, pb, 1), 8))
                else:
                    v = fresh('%s.%d' % (o.name, b), 8)
                    o = st.wobj(o.id)
                    o.cells[b] = (1, v)
                    parts.append(v)
            else:
                k, sz, v = hit
                if isinstance(v, int):
                    parts.append(z3.BitVecVal((v >> (8 * (b - k))) & 255, 8))
                elif isinstance(v, (z3.BitVecRef, Lin)):
                    parts.append(z3.Extract(8 * (b - k) + 7, 8 * (b - k), bv(v, 8 * sz)))
                elif v is NULL:
                    parts.append(z3.BitVecVal(0, 8))
                else:
                    raise Unsupported('partial load of %r' % (v,))
        r = z3.simplify(z3.Concat(*reversed(parts)) if len(parts) > 1 else parts[0])
        return r.as_long() if z3.is_bv_value(r) else r

    def fresh_ptr(self, st, o, c):
        raise Unsupported('load of an unknown pointer from %s+%d' % (o.name, c))

    def store(self, st, p, size, v):
        o = self.check_access(st, p, size, True)
        c = p.off.conc()
        rr = self.region_for(st, o, p, size)
        o = st.wobj(o.id)
        if rr is None:
            if c is None:
                o = self.make_region(st, o, p, size)
                rr = self.region_for(st, o, p, size)
            else:
                self.record(st, (o.id, c, size))
                for k in overlapping(o.cells, c, size):
                    sz, ov = o.cells.pop(k)
                    if k < c or k + sz > c + size:
                        # keep the surviving bytes
                        if isinstance(ov, (GStr, GVec, Ghost)):
                            raise Unsupported('raw write to a modelled object in %s' % o.name)
                        for b in range(k, k + sz):
                            if not (c <= b < c + size):
                                if isinstance(ov, int):
                                    o.cells[b] = (1, (ov >> (8 * (b - k))) & 255)
                                elif isinstance(ov, (z3.BitVecRef, Lin)):
                                    o.cells[b] = (1, z3.Extract(8 * (b - k) + 7, 8 * (b - k), bv(ov, 8 * sz)))
                                elif ov is NULL:
                                    o.cells[b] = (1, 0)
                                else:
                                    raise Unsupported('partial overwrite of %r' % (ov,))
                o.cells[c] = (size, v)
                return
        r, idx, sub = rr
        r = [x for x in o.regions if x.start == r.start and x.stride == r.stride][0]
        self.record(st, (o.id, 'r', r.start))
        fa = self.region_elem(st, o, r, sub, size)
        if isinstance(v, Lin):
            v = v.val()
        if fa is not None:
            self.idx_check(st, o, r, idx)
            r.fields[(sub, size)] = fa.store(idx.val(), v)
            return
        if r.stride == 1 or (size % r.stride == 0 and sub == 0 and (0, r.stride) in r.fields):
            w = r.stride
            k = size // w
            self.idx_check(st, o, r, idx, k)
            fa = r.fields[(0, w)]
            for j in range(k):
                if isinstance(v, int):
                    x = (v >> (8 * w * j)) & ((1 << (8 * w)) - 1)
                else:
                    x = z3.Extract(8 * w * (j + 1) - 1, 8 * w * j, bv(v, 8 * size))
                fa = fa.store(idx.add(j).val(), x)
            r.fields[(0, w)] = fa
            return
        raise Unsupported('store of %d bytes at sub-offset %d of %s' % (size, sub, o.name))

    # aggregates
    def load_ty(self, st, p, t):
        if t.kind == 'struct':
            return Agg(self.load_ty(st, p.add(o), f) for f, o in zip(t.fields, t.offs))
        if t.kind == 'array':
            return Agg(self.load_ty(st, p.add(i * t.elem.size), t.elem) for i in range(t.n))
        if t.kind == 'vector':
            return Agg(self.load_ty(st, p.add(i * t.elem.size), t.elem) for i in range(t.n))
        size = t.size
        if t.kind == 'int' and t.bits == 1:
            v = self.load(st, p, 1, None)
            return self.trunc(v, 8, 1)
        v = self.load(st, p, size, t)
        if t.kind == 'int':
            if v is NULL:
                v = 0
            if isinstance(v, Ghost) or isinstance(v, (GStr, GVec)):
                raise Unsupported('raw load of a modelled object')
            if t.bits < size * 8:
                v = self.trunc(v, size * 8, t.bits)
        elif t.kind == 'ptr':
            if isinstance(v, int):
                if v == 0:
                    return NULL
            if isinstance(v, z3.BitVecRef):
                v = z3.simplify(v)
                if z3.is_bv_value(v) and v.as_long() == 0:
                    return NULL
                raise Unsupported('integer loaded as pointer')
        return v

    def store_ty(self, st, p, t, v):
        if t.kind in ('struct', 'array', 'vector'):
            if v is UNDEF:
                return
            if t.kind == 'struct':
                for f, o, x in zip(t.fields, t.offs, v):
                    self.store_ty(st, p.add(o), f, x)
            else:
                for i in range(t.n):
                    self.store_ty(st, p.add(i * t.elem.size), t.elem, v[i])
            return
        if v is UNDEF:
            v = fresh('undef', 8 * t.size) if t.kind == 'int' else NULL if t.kind == 'ptr' else Opaque('undef')
        if t.kind == 'int' and t.bits < 8 * t.size:
            v = self.zext(v, t.bits, 8 * t.size)
        elif isinstance(v, z3.BoolRef):
            v = bv(v, 8 * t.size)
        self.store(st, p, t.size, v)

    # block operations
    def memcpy(self, st, d, s, n):
        if isinstance(n, Lin):
            n = n.val()
        if not isinstance(n, int):
            n2 = z3.simplify(n)
            n = n2.as_long() if z3.is_bv_value(n2) else n
        if isinstance(n, int):
            if n == 0:
                return
            so = self.check_access(st, s, n, False)
            do = self.check_access(st, d, n, True)
            sc, dc = s.off.conc(), d.off.conc()
            srr = self.region_for(st, so, s, 1)
            if sc is not None and dc is not None and self.conc_copy(st, so, do, sc, dc, n):
                return
        # array to array
        so = self.check_access(st, s, 0, False)
        do = self.check_access(st, d, 0, True)
        srr = self.region_for(st, so, s, 1)
        drr = self.region_for(st, do, d, 1)
        if srr is None:
            so = self.make_region(st, so, s, 1)
            srr = self.region_for(st, so, s, 1)
        if drr is None:
            do = self.make_region(st, do, d, srr[0].stride)
            drr = self.region_for(st, do, d, 1)
        (sr, si, ss), (dr, di, ds) = srr, drr
        if sr.stride != dr.stride or ss or ds:
            raise Unsupported('copy between regions of different stride (%s -> %s)' % (so.name, do.name))
        w = sr.stride
        cnt = Lin.of(n)
        if not cnt.divides(w):
            raise Unsupported('copy length')
        cnt = cnt.div(w).val()
        self.range_check(st, so, sr, si, cnt, 'read')
        self.range_check(st, do, dr, di, cnt, 'write')
        o = st.wobj(do.id)
        r = [x for x in o.regions if x.start == dr.start and x.stride == dr.stride][0]
        self.record(st, (o.id, 'r', r.start))
        for key, fa in sr.fields.items():
            base = r.fields.get(key)
            if base is None:
                base = ABase(o.name, 8 * key[1])
            r.fields[key] = ACopy(base, di.val(), cnt, fa, si.val())
        for key in list(r.fields):
            if key not in sr.fields:
                r.fields[key] = ACopy(r.fields[key], di.val(), cnt, ABase('unknown', 8 * key[1]), si.val())

    def range_check(self, st, o, r, idx, cnt, what):
        i, n = bv(idx.val(), 64), bv(r.n, 64)
        c = bv(cnt, 64)
        self.oblige(st, z3.And(z3.ULE(i, n), z3.ULE(c, n - i)), 'memory: %s range within bounds of %s' % (what, o.name))

    def conc_copy(self, st, so, do, sc, dc, n):
        """memcpy with concrete offsets and length; copies cells and whole regions."""
        regs = []
        for r in so.regions:
            if not isinstance(r.n, int):
                return False
            a, b = r.start, r.start + r.n * r.stride
            if b <= sc or a >= sc + n:
                continue
            if a >= sc and b <= sc + n:
                regs.append(r)
            else:
                return self.conc_copy_small(st, so, do, sc, dc, n)
        for r in do.regions:
            if not isinstance(r.n, int):
                return False
            a, b = r.start, r.start + r.n * r.stride
            if b <= dc or a >= dc + n:
                continue
            if not (a >= dc and b <= dc + n):
                return self.conc_copy_small(st, so, do, sc, dc, n)
        cells = [(k, v) for k, v in so.cells.items() if sc <= k < sc + n]
        for k, v in cells:
            if k + v[0] > sc + n:
                return self.conc_copy_small(st, so, do, sc, dc, n)
        if not cells and not regs and n <= 16:
            return self.conc_copy_small(st, so, do, sc, dc, n)
        o = st.wobj(do.id)
        o.regions = [r for r in o.regions if r.start + r.n * r.stride <= dc or r.start >= dc + n]
        for k in [k for k, v in o.cells.items() if k < dc + n and dc < k + v[0]]:
            if k < dc or k + o.cells[k][0] > dc + n:
                raise Unsupported('copy splits a cell of %s' % o.name)
            del o.cells[k]
        for k, v in cells:
            o.cells[k - sc + dc] = v
        for r in regs:
            r2 = r.copy()
            r2.start = r.start - sc + dc
            o.regions.append(r2)
        self.record(st, (o.id, dc, n))
        return True

    def conc_copy_small(self, st, so, do, sc, dc, n):
        if n > 64:
            return False
        k = 0
        while k < n:
            step = 8 if (n - k >= 8 and (sc + k) % 8 == 0) else 4 if n - k >= 4 and (sc + k) % 4 == 0 else 1
            if sc + k in so.cells and so.cells[sc + k][0] <= n - k:
                step = so.cells[sc + k][0]
            v = self.load(st, Ptr(so.id, Lin(sc + k)), step)
            so = st.mem[so.id]
            self.store(st, Ptr(do.id, Lin(dc + k)), step, v)
            k += step
        return True

    def memset(self, st, d, v, n):
        if isinstance(n, Lin):
            n = n.val()
        if isinstance(n, int) and n == 0:
            return
        if isinstance(n, int):
            o = self.check_access(st, d, n, True)
            c = d.off.conc()
            if c is not None:
                full = []
                for r in o.regions:
                    if not isinstance(r.n, int):
                        break
                    a, b = r.start, r.start + r.n * r.stride
                    if b <= c or a >= c + n:
                        continue
                    if a >= c and b <= c + n:
                        full.append(r.start)
                    else:
                        break
                else:
                    o = st.wobj(o.id)
                    self.record(st, (o.id, c, n))
                    for r in o.regions:
                        if r.start in full:
                            for key in r.fields:
                                x = v if key[1] == 1 else (int.from_bytes(bytes([v]) * key[1], 'little') if isinstance(v, int) else z3.Concat(*([bv(v, 8)] * key[1])))
                                r.fields[key] = AFill(r.fields[key], 0, r.n, x)
                            # unseen fields are defined on demand as zero/fill
                            if not r.fields:
                                r.fields[(0, 1)] = AFill(ABase(o.name, 8), 0, n, v)
                    for k in [k for k, cv in o.cells.items() if c <= k < c + n]:
                        del o.cells[k]
                    if not full:
                        if d.hint and d.hint[0] == c and d.hint[1] * d.hint[2] == n and n > 8:
                            h0, hn, hs = d.hint
                            x = int.from_bytes(bytes([v]) * hs, 'little') if isinstance(v, int) and hs <= 8 else None
                            if x is not None:
                                o.regions.append(Region(h0, hn, hs, {(0, hs): AFill(ABase(o.name, 8 * hs), 0, hn, x)}))
                                return
                        if n <= 4096:
                            covered = set()
                            for k in range(c, c + n):
                                if not any(r.start <= k < r.start + r.n * r.stride for r in o.regions):
                                    covered.add(k)
                            if isinstance(v, int) and v == 0:
                                k = c
                                while k < c + n:
                                    z = 8 if k % 8 == 0 and k + 8 <= c + n else 1
                                    o.cells[k] = (z, 0)
                                    k += z
                            else:
                                for k in covered:
                                    o.cells[k] = (1, v)
                        else:
                            raise Unsupported('large memset')
                    return
        o = self.check_access(st, d, 0, True)
        rr = self.region_for(st, o, d, 1)
        if rr is None:
            o = self.make_region(st, o, d, 1)
            rr = self.region_for(st, o, d, 1)
        r, i, sub = rr
        if sub or set(r.fields) - {(0, r.stride)}:
            raise Unsupported('memset of a structured region')
        w = r.stride
        cnt = Lin.of(n)
        if not cnt.divides(w):
            raise Unsupported('memset length')
        cnt = cnt.div(w).val()
        self.range_check(st, o, r, i, cnt, 'fill')
        o = st.wobj(o.id)
        r = [x for x in o.regions if x.start == r.start and x.stride == r.stride][0]
        self.record(st, (o.id, 'r', r.start))
        x = v if w == 1 else z3.Concat(*([bv(v, 8)] * w))
        fa = r.fields.get((0, w)) or ABase(o.name, 8 * w)
        r.fields[(0, w)] = AFill(fa, i.val(), cnt, x)

    # ------------------------------------------------------------ operands
    def const(self, st, o):
        k = o[0]
        if k == 'c':
            return o[1]
        if k == 'null':
            return NULL
        if k == 'g':
            return self.glob(st, o[1])
        if k == 'f':
            return FuncRef(o[1])
        if k == 'undef':
            return self.zero(o[1], UNDEF)
        if k == 'zero':
            return self.zero(o[1], None)
        if k == 'agg':
            return Agg(self.const(st, e) for e in o[1])
        if k == 'data':
            return Agg(list(o[1]))
        if k == 'fp':
            return ('fp', o[1], o[2].bits)
        if k == 'ce':
            op = o[1]
            if op == 'gep':
                return self.gep(st, o[4], [self.const(st, x) for x in o[2]])
            if op in ('ptrtoint', 'inttoptr', 'bitcast'):
                return self.const(st, o[2][0])
            if op == 'sub':
                a, b = self.const(st, o[2][0]), self.const(st, o[2][1])
                return self.arith(st, 'sub', a, b, o[3].bits)
        if k == 'md':
            return None
        raise Unsupported('constant %r' % (o[:2],))

    def zero(self, t, u):
        if t.kind == 'struct':
            return Agg(self.zero(f, u) for f in t.fields)
        if t.kind in ('array', 'vector'):
            return Agg(self.zero(t.elem, u) for _ in range(t.n))
        if u is not None:
            return u
        if t.kind == 'ptr':
            return NULL
        if t.kind == 'int':
            return 0
        return ('fp', 0.0, t.bits)

    def val(self, st, o):
        if o[0] == 'v':
            v = st.frames[-1].vals[o[1]]
            return v
        return self.const(st, o)

    # ------------------------------------------------------------ arithmetic
    def trunc(self, v, a, b):
        if isinstance(v, int):
            return v & ((1 << b) - 1)
        if isinstance(v, Ptr):
            raise Unsupported('truncated pointer')
        if v is NULL:
            return 0
        if a == b:
            return v
        if b == 1:
            if isinstance(v, z3.BoolRef):
                return v
            x = bv(v, a)
            if x.decl().kind() == z3.Z3_OP_ITE:
                t, f = x.arg(1), x.arg(2)
                if z3.is_bv_value(t) and z3.is_bv_value(f) and t.as_long() & 1 == 1 and f.as_long() & 1 == 0:
                    return x.arg(0)
            return z3.Extract(0, 0, x) == 1
        x = bv(v, a)
        k = x.decl().kind()
        if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
            y = x.arg(0)
            if y.size() == b:
                return y
            if y.size() < b:
                return (z3.ZeroExt if k == z3.Z3_OP_ZERO_EXT else z3.SignExt)(b - y.size(), y)
        return z3.Extract(b - 1, 0, x)

    def zext(self, v, a, b):
        if isinstance(v, int):
            return v & ((1 << a) - 1)
        if a == b:
            return v
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.BitVecVal(1, b), z3.BitVecVal(0, b))
        x = bv(v, a)
        return z3.ZeroExt(b - a, x)

    def sext(self, v, a, b):
        if isinstance(v, int):
            v &= (1 << a) - 1
            if v >> (a - 1):
                v -= 1 << a
            return v & ((1 << b) - 1)
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.BitVecVal(-1, b), z3.BitVecVal(0, b))
        return z3.SignExt(b - a, bv(v, a))

    def few_values(self, st, x, limit=16):
        """All values x can take on this path when they are few (each listed, and no other is possible), else None."""
        vs = []
        while len(vs) <= limit:
            v = self.sol.value(st.pc, x, [x != v for v in vs])
            if v is None:
                return None
            if v == 'unsat':
                return vs
            vs.append(v)
        return None

    def arith(self, st, op, a, b, w):
        if a is UNDEF:
            a = fresh('undef', w)
        if b is UNDEF:
            b = fresh('undef', w)
        if a is NULL:
            a = 0
        if b is NULL:
            b = 0
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            sa, sb = (a - (1 << w) if a >> (w - 1) else a), (b - (1 << w) if b >> (w - 1) else b)
            if op == 'ashr':
                return (sa >> min(b, w - 1)) & m
            if op in ('udiv', 'urem') and b:
                return a // b if op == 'udiv' else a % b
            if op in ('sdiv', 'srem') and b:
                q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
                return (q if op == 'sdiv' else sa - q * sb) & m
        if w == 1:
            x, y = boolv(a), boolv(b)
            if op == 'and':
                if isinstance(a, int) and a == 0 or isinstance(b, int) and b == 0:
                    return 0
                return y if isinstance(a, int) else x if isinstance(b, int) else z3.And(x, y)
            if op == 'or':
                if isinstance(a, int) and a == 1 or isinstance(b, int) and b == 1:
                    return 1
                return y if isinstance(a, int) else x if isinstance(b, int) else z3.Or(x, y)
            if op in ('xor', 'add', 'sub'):
                if isinstance(b, int):
                    return z3.Not(x) if b else x
                if isinstance(a, int):
                    return z3.Not(y) if a else y
                return z3.Xor(x, y)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    r = a.off.sub(b.off)
                    return r if r.t else r.c
                raise Unsupported('difference of pointers into different objects')
            if op == 'add' and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return a.add(Lin.of(b))
            if op == 'add' and isinstance(b, Ptr) and not isinstance(a, Ptr):
                return b.add(Lin.of(a))
            if op == 'sub' and isinstance(a, Ptr):
                return a.add(Lin(0).sub(Lin.of(b)))
            raise Unsupported('pointer arithmetic ' + op)
        if w == 64 and (isinstance(a, Lin) or isinstance(b, Lin)):
            if op == 'add':
                r = Lin.of(a).add(Lin.of(b))
                return r if r.t else r.c
            if op == 'sub':
                r = Lin.of(a).sub(Lin.of(b))
                return r if r.t else r.c
            if op == 'mul' and (isinstance(a, int) or isinstance(b, int)):
                r = Lin.of(a).mul(b) if isinstance(b, int) else Lin.of(b).mul(a)
                return r if r.t else r.c
            if op in ('sdiv', 'udiv') and isinstance(b, int) and a.divides(b):
                # exact quotient of a byte distance between elements (distances are below 2^63)
                return a.div(b)
            if op in ('ashr', 'lshr') and isinstance(b, int) and a.divides(1 << b):
                return a.div(1 << b)
            if op == 'shl' and isinstance(b, int):
                return a.mul(1 << b)
        x, y = bv(a, w), bv(b, w)
        if op == 'add':
            if isinstance(b, int) and b == 0:
                return a
            if isinstance(a, int) and a == 0:
                return b
            if w == 64:
                r = Lin.of(x).add(Lin.of(y))
                return r.c if not r.t else r.bv()
            return x + y
        if op == 'sub':
            if isinstance(b, int) and b == 0:
                return a
            if w == 64:
                r = Lin.of(x).sub(Lin.of(y))
                return r.c if not r.t else r.bv()
            return x - y
        if op == 'mul':
            return x * y
        if op == 'and':
            return x & y
        if op == 'or':
            if isinstance(b, int) and b == 0:
                return a
            return x | y
        if op == 'xor':
            return x ^ y
        if op == 'shl':
            return x << y
        if op == 'lshr':
            return z3.LShR(x, y)
        if op == 'ashr':
            return x >> y
        if op in ('udiv', 'urem', 'sdiv', 'srem') and isinstance(b, int) and 0 < b < 1 << (w - 1) and z3.is_app(x):
            # of a zero extended operand: the same operation of the operand itself
            m = x.arg(0).size() if x.decl().kind() == z3.Z3_OP_ZERO_EXT else x.arg(1).size() if x.decl().kind() == z3.Z3_OP_CONCAT and x.num_args() == 2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0 else None
            if m and b < 1 << m:
                inner = self.arith(st, 'u' + op[1:], x.arg(0) if x.decl().kind() == z3.Z3_OP_ZERO_EXT else x.arg(1), b, m)
                return z3.ZeroExt(w - m, bv(inner, m))
        if op in ('udiv', 'urem') and isinstance(b, int) and b:
            if b & (b - 1) == 0:
                k = b.bit_length() - 1
                return z3.LShR(x, k) if op == 'udiv' else x & (b - 1)
            # x = q*c + r, r < c, no overflow
            key = ('divmod', x.get_id(), b, w)
            qr = st.ghost.get(key)
            if qr is None:
                vs = None if w <= 16 else self.few_values(st, x)
                if w <= 16:
                    qr = (z3.UDiv(x, y), z3.URem(x, y), x)
                elif vs:
                    q, r = z3.BitVecVal(vs[0] // b, w), z3.BitVecVal(vs[0] % b, w)
                    for v in vs[1:]:
                        q, r = z3.If(x == v, z3.BitVecVal(v // b, w), q), z3.If(x == v, z3.BitVecVal(v % b, w), r)
                    qr = (q, r, x)
                else:
                    nb = self.narrow(st, x, w)
                    if nb is not None:
                        q, r = z3.ZeroExt(w - nb, fresh('q', nb)), z3.ZeroExt(w - b.bit_length(), fresh('r', b.bit_length()))
                    else:
                        q, r = fresh('q', w), fresh('r', w)
                    st.assume(x == q * b + r)
                    st.assume(z3.ULT(r, y))
                    st.assume(z3.ULE(q, z3.BitVecVal(((1 << w) - 1) // b, w)))
                    st.assume(z3.ULE(r, x))
                    qr = (q, r, x)
                st.ghost[key] = qr
            return qr[0] if op == 'udiv' else qr[1]
        if op == 'udiv':
            return z3.UDiv(x, y)
        if op == 'urem':
            return z3.URem(x, y)
        if op == 'sdiv':
            return x / y
        if op == 'srem':
            return z3.SRem(x, y)
        raise Unsupported('arith ' + op)

    def narrow(self, st, x, w):
        """A number of bits (proved under the path condition) the value fits in, or None."""
        for nb in (20, 34, 52):
            if nb < w and not self.sol.feasible(st.pc, z3.Not(z3.ULT(x, z3.BitVecVal(1 << nb, w)))):
                return nb
        return None

    def icmp(self, st, pred, a, b, t):
        if a is UNDEF:
            a = fresh('undef', t.bits) if t.kind == 'int' else NULL
        if b is UNDEF:
            b = fresh('undef', t.bits) if t.kind == 'int' else NULL
        pa = isinstance(a, (Ptr, FuncRef)) or a is NULL
        pb = isinstance(b, (Ptr, FuncRef)) or b is NULL
        if pa or pb:
            if pa and pb:
                if a is NULL and b is NULL:
                    return int(pred in ('eq', 'uge', 'ule', 'sge', 'sle'))
                if isinstance(a, FuncRef) or isinstance(b, FuncRef):
                    if pred in ('eq', 'ne'):
                        same = isinstance(a, FuncRef) and isinstance(b, FuncRef) and a.name == b.name
                        return int(same == (pred == 'eq'))
                    raise Unsupported('function pointer order')
                if a is NULL or b is NULL:
                    if pred in ('eq', 'ne'):
                        return int(pred == 'ne')
                    if pred in ('ult', 'ule', 'ugt', 'uge'):
                        return int((pred[1] == 'l') == (a is NULL))
                    raise Unsupported('signed pointer comparison')
                if a.obj != b.obj:
                    if pred in ('eq', 'ne'):
                        return int(pred == 'ne')
                    # order of unrelated objects: unspecified but consistent
                    k = tuple(sorted((a.obj, b.obj)))
                    f = z3.Bool('ptr_order(%s,%s)' % k)
                    lt = f if a.obj == k[0] else z3.Not(f)
                    return lt if pred in ('ult', 'ule') else z3.Not(lt)
                d = a.off.sub(b.off)
                c = d.conc()
                if c is not None:
                    if pred in ('eq', 'ne'):
                        return int((c == 0) == (pred == 'eq'))
                    c = s64(c)
                    return int({'l': c < 0, 'g': c > 0}[pred[1]] or (c == 0 and pred[2] == 'e'))
                if pred in ('eq', 'ne'):
                    # compare in element units when possible (equal strides)
                    for s in (8, 4, 2):
                        if d.divides(s):
                            break
                    e = a.off.bv() == b.off.bv()
                    return e if pred == 'eq' else z3.Not(e)
                return self.icmp(st, pred, a.off.val(), b.off.val(), t)
            x, y = (a, b) if pa else (b, a)
            if isinstance(y, int) and y == 0:
                return self.icmp(st, pred, a if pa else NULL, NULL if pa else b, t)
            if x is NULL:
                return self.icmp(st, pred, 0 if pa else a, b if pa else 0, t)
            raise Unsupported('comparison of pointer and integer')
        w = t.bits
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = (a - (1 << w) if a >> (w - 1) else a), (b - (1 << w) if b >> (w - 1) else b)
            return int({'eq': a == b, 'ne': a != b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b,
                        'sgt': sa > sb, 'sge': sa >= sb, 'slt': sa < sb, 'sle': sa <= sb}[pred])
        if w == 1:
            x, y = boolv(a), boolv(b)
            if pred == 'eq':
                return (x if b else z3.Not(x)) if isinstance(b, int) else (y if a else z3.Not(y)) if isinstance(a, int) else x == y
            if pred == 'ne':
                return (z3.Not(x) if b else x) if isinstance(b, int) else (z3.Not(y) if a else y) if isinstance(a, int) else z3.Xor(x, y)
            a, b = bv(a, 8), bv(b, 8)
            w = 8
        if isinstance(a, (Opaque, tuple)) or isinstance(b, (Opaque, tuple)):
            if pred in ('eq', 'ne') and a is b:
                return int(pred == 'eq')
            raise Unsupported('comparison of opaque values')
        x, y = bv(a, w), bv(b, w)
        if pred == 'eq' or pred == 'ne':
            # zext(bool) compared with 0
            r = None
            for p, q in ((x, y), (y, x)):
                if z3.is_bv_value(q) and p.decl().kind() == z3.Z3_OP_ITE and z3.is_bv_value(p.arg(1)) and z3.is_bv_value(p.arg(2)):
                    u, v, k = p.arg(1).as_long(), p.arg(2).as_long(), q.as_long()
                    if u != v:
                        r = p.arg(0) if k == u else z3.Not(p.arg(0)) if k == v else 0
                        break
            if r is None:
                r = x == y
            if isinstance(r, int):
                return int(pred == 'ne')
            return r if pred == 'eq' else z3.Not(r)
        f = {'ugt': z3.UGT, 'uge': z3.UGE, 'ult': z3.ULT, 'ule': z3.ULE, 'sgt': lambda p, q: p > q, 'sge': lambda p, q: p >= q,
             'slt': lambda p, q: p < q, 'sle': lambda p, q: p <= q}[pred]
        return f(x, y)

    def gep(self, st, t, ops):
        p = ops[0]
        idx = ops[1:]
        if p is NULL:
            z = True
            for i in idx:
                if not (isinstance(i, int) and i == 0):
                    z = False
            if z:
                return NULL
            raise Unsupported('arithmetic on the null pointer')
        if not isinstance(p, Ptr):
            raise Unsupported('gep on %r' % (p,))
        off = p.off
        hint = p.hint
        i0 = idx[0]
        i0 = i0 if not isinstance(i0, int) else s64(i0 & M64)
        off = off.add(Lin.of(i0).mul(t.size) if not isinstance(i0, int) else Lin(i0 * t.size))
        for i in idx[1:]:
            if t.kind == 'struct':
                off = off.add(t.offs[i])
                t = t.fields[i]
            elif t.kind in ('array', 'vector'):
                start = off.conc()
                if start is not None and t.n:
                    hint = (start, t.n, t.elem.size)
                elif start is None:
                    hint = hint
                if isinstance(i, int):
                    off = off.add(s64(i) * t.elem.size)
                else:
                    off = off.add(Lin.of(i).mul(t.elem.size))
                t = t.elem
            else:
                raise Unsupported('gep into ' + t.kind)
        if len(idx) > 1:
            # a wrapper around a single array (std::array)
            while t.kind == 'struct' and t.fields and len(t.fields) == 1:
                t = t.fields[0]
            if t.kind == 'array' and off.conc() is not None:
                hint = (off.conc(), t.n, t.elem.size)
        return Ptr(p.obj, off, hint)

    # ------------------------------------------------------------ running
    def push(self, st, fn, args, call=None, stop=False):
        if len(st.frames) > 120:
            raise Unsupported('recursion too deep at ' + fn.dem[:80])
        f = Frame()
        f.fn, f.blk, f.ip, f.prev = fn, fn.blocks[0], 0, None
        f.vals = {}
        f.call = call
        f.aid = fresh_id()
        f.unroll = {}
        f.stop = stop
        for (pid, t), a in zip(fn.params, args):
            f.vals[pid] = a
        st.frames.append(f)
        self.funcs_entered.add(fn.dem)

    def run(self, fn, args, st):
        """Execute fn(args); list of (kind, state, value)."""
        if isinstance(fn, str):
            fn = self.find(fn)
        st.frames.append(self._sentinel())
        self.push(st, fn, args, None, True)
        return self.explore([st])

    def _sentinel(self):
        f = Frame()
        f.fn, f.blk, f.ip, f.vals, f.prev, f.call, f.aid, f.unroll, f.stop = None, None, 0, {}, None, None, fresh_id(), {}, True
        return f

    def explore(self, work, stopcut=None):
        out = []
        work = list(work)
        while work:
            st = work.pop()
            try:
                self.go(st, work, out, stopcut)
            except PathEnd:
                pass
        return out

    def branch(self, st, cond):
        """Fork on a boolean: list of (state, truth)."""
        if isinstance(cond, int):
            return [(st, bool(cond))]
        c = z3.simplify(cond)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        ms = 250 if self.dry else 500
        t = self.sol.feasible(st.pc, c, ms)
        if t and not self.dry and self.sol.last_unknown and self.sol.quick_int(st.pc, c, 2):
            t = False
        c = boolv(cond)
        nc = z3.Not(c)
        if not t:
            st.assume(nc)
            return [(st, False)]
        t = self.sol.feasible(st.pc, nc, ms)
        if t and not self.dry and self.sol.last_unknown and self.sol.quick_int(st.pc, nc, 2):
            t = False
        if not t:
            st.assume(c)
            return [(st, True)]
        s2 = st.clone()
        st.owned = set()
        st.assume(c)
        s2.assume(nc)
        return [(st, True), (s2, False)]

    def go(self, st, work, out, stopcut):
        while True:
            self.steps += 1
            if self.steps & 1023 == 0 and self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget exhausted')
            f = st.frames[-1]
            ins = f.blk.insts[f.ip]
            op = ins.op
            h = getattr(self, 'i_' + op, None)
            if h is not None:
                try:
                    f.vals[ins.res] = h(st, f, ins)
                except NeedFork as nf:
                    br = self.branch(st, nf.cond)
                    for s, tv in br:
                        g = s.frames[-1]
                        g.vals[nf.res] = nf.a if tv else nf.b
                        g.ip += 1
                    for s, tv in br[1:]:
                        work.append(s)
                    st = br[0][0]
                    continue
                f.ip += 1
                continue
            if op == 'br':
                if not ins.ops:
                    if not self.jump(st, ins.x[0], work, out):
                        return
                    continue
                c = self.val(st, ins.ops[0])
                if c is UNDEF:
                    c = fresh('undef', 1)
                if st.cuts and not isinstance(c, int):
                    for ct in st.cuts:
                        if 'exits' in ct.data and ct.aid == f.aid and any(b.id not in ct.body for b in ins.x):
                            ct.data['exits'].append(z3.simplify(boolv(c)))
                br = self.branch(st, c)
                sym = len(br) > 1 or not isinstance(c, int)
                for i, (s, tv) in enumerate(br[1:]):
                    s.trail.append((f.fn.dem[:60], f.blk.id, tv))
                    if self.jump(s, ins.x[0] if tv else ins.x[1], work, out):
                        work.append(s)
                st, tv = br[0]
                if sym:
                    st.trail.append((f.fn.dem[:60], f.blk.id, tv))
                if not self.jump(st, ins.x[0] if tv else ins.x[1], work, out):
                    return
                continue
            if op == 'switch':
                v = self.val(st, ins.ops[0])
                d, cases = ins.x
                if isinstance(v, int):
                    t = d
                    for k, b in cases:
                        if k == v:
                            t = b
                            break
                    if not self.jump(st, t, work, out):
                        return
                    continue
                if isinstance(v, z3.BoolRef):
                    v = bv(v, 8)
                w = v.size() if isinstance(v, z3.BitVecRef) else 64
                v = bv(v, w)
                groups = {}
                order = []
                for k, b in cases:
                    if b.id not in groups:
                        groups[b.id] = (b, [])
                        order.append(b.id)
                    groups[b.id][1].append(v == k)
                cur = st
                done = False
                for bid in order:
                    b, cs = groups[bid]
                    if b.id == d.id:
                        continue
                    br = self.branch(cur, z3.Or(*cs) if len(cs) > 1 else cs[0])
                    cur = None
                    for s, tv in br:
                        if tv:
                            s.trail.append((f.fn.dem[:60], f.blk.id, bid))
                            if self.jump(s, b, work, out):
                                work.append(s)
                        else:
                            cur = s
                    if cur is None:
                        break
                if cur is not None:
                    if self.jump(cur, d, work, out):
                        work.append(cur)
                return
            if op == 'ret':
                v = self.val(st, ins.ops[0]) if ins.ops else None
                if self.leave(st, v, out):
                    return
                continue
            if op in ('call', 'invoke'):
                r = self.call(st, f, ins, work, out)
                if r is None:
                    return
                continue
            if op == 'unreachable':
                # after a noreturn call
                self.oblige(st, False, 'control: unreachable code is reached')
                return
            if op == 'resume':
                if self.unwind(st, out):
                    return
                continue
            raise Unsupported('instruction %s' % op)

    def leave(self, st, v, out):
        f = st.frames.pop()
        if not self.drop_cuts(st, lambda c: c.aid == f.aid):
            return True
        if f.stop:
            st.frames.pop()     # sentinel
            out.append(('ret', st, v))
            return True
        g = st.frames[-1]
        ins = f.call
        if ins is not None:
            g.vals[ins.res] = v
            if ins.op == 'invoke':
                if not self.jump(st, ins.x['normal'], None, out):
                    return True
            else:
                g.ip += 1
        return False

    def unwind(self, st, out):
        """Propagate st.exc from the current frame outwards; True when it leaves the function under test."""
        while True:
            f = st.frames.pop()
            if not self.drop_cuts(st, lambda c: c.aid == f.aid):
                return True
            if f.stop:
                st.frames.pop()
                out.append(('throw', st, st.exc))
                return True
            ins = f.call
            if ins is not None and ins.op == 'invoke':
                if not self.jump(st, ins.x['unwind'], None, out):
                    return True
                return False

    def throw_here(self, st, f, ins, out):
        """An exception raised by the call instruction ins of the current frame."""
        if ins.op == 'invoke':
            return not self.jump(st, ins.x['unwind'], None, out)
        return self.unwind(st, out)

    # ------------------------------------------------------------ jumps and loops
    def drop_cuts(self, st, leaving):
        """Forget the loops being left; False when an analysis of one of them ends here."""
        if not st.cuts:
            return True
        keep = []
        for c in st.cuts:
            if leaving(c):
                if 'dry' in c.data:
                    return False
            else:
                keep.append(c)
        st.cuts = keep
        return True

    def jump(self, st, blk, work, out):
        """Enter blk; False when the path ended here."""
        f = st.frames[-1]
        # leaving cut loops
        if st.cuts:
            if not self.drop_cuts(st, lambda c: c.aid == f.aid and blk.id not in c.body):
                return False
        if blk.id in f.fn.loops:
            for c in st.cuts:
                if c.aid == f.aid and c.header == blk.id:
                    phis = self.eval_phis(st, f, blk)
                    self.backedge(st, c, phis, out)
                    return False
            inside = f.blk.id in f.fn.loops[blk.id]     # back edge of an unrolled loop
            phis = self.eval_phis(st, f, blk)
            if inside and blk.id in f.unroll:
                f.unroll[blk.id] += 1
                if f.unroll[blk.id] > self.maxunroll:
                    raise Unsupported('loop without invariant does not unroll: %s B%d' % (f.fn.dem[:80], blk.id))
                mode = f.unroll.get(('m', blk.id))
                if mode == 'sym':
                    raise Unsupported('loop without invariant: %s B%d' % (f.fn.dem[:80], blk.id))
            else:
                f.unroll.pop(blk.id, None)
                for k, v in phis.items():
                    f.vals[k] = v
                spec = self.loop_spec(st, f, blk)
                if spec is not None:
                    f.prev, f.blk, f.ip = f.blk, blk, 0
                    return self.cut(st, f, blk, spec, phis, work)
                f.unroll[blk.id] = 1
            for k, v in phis.items():
                f.vals[k] = v
            f.prev, f.blk, f.ip = f.blk, blk, 0
            return True
        for k, v in self.eval_phis(st, f, blk).items():
            f.vals[k] = v
        f.prev, f.blk, f.ip = f.blk, blk, 0
        return True

    def eval_phis(self, st, f, blk):
        r = {}
        for ph in blk.phis:
            r[ph.res] = self.val(st, ph.x[f.blk.id])
        return r

    def probe(self, st, f, blk):
        """Is the first exit test of the loop concrete?  'conc' or 'sym'."""
        s = st.clone()
        st.owned = set()
        g = s.frames[-1]
        g.prev, g.blk, g.ip = g.blk, blk, 0
        body = f.fn.loops[blk.id]
        self.dry += 1
        try:
            return self._probe([s], f.aid, body, blk)
        except Unsupported:
            return 'sym'
        finally:
            self.dry -= 1

    def _probe(self, work, aid, body, hdr):
        n = 0
        while work:
            st = work.pop()
            try:
                while True:
                    n += 1
                    if n > 20000:
                        return 'sym'
                    f = st.frames[-1]
                    ins = f.blk.insts[f.ip]
                    if f.aid == aid and ins.op == 'br' and len(ins.x) == 2 and any(b.id not in body for b in ins.x):
                        c = self.val(st, ins.ops[0])
                        if isinstance(c, int):
                            return 'conc'
                        c = z3.simplify(boolv(c))
                        return 'conc' if z3.is_true(c) or z3.is_false(c) else 'sym'
                    if f.aid == aid and ins.op in ('switch', 'ret', 'unreachable'):
                        return 'sym'
                    if f.aid == aid and f.blk.id not in body:
                        return 'sym'
                    h = getattr(self, 'i_' + ins.op, None)
                    if h is not None:
                        f.vals[ins.res] = h(st, f, ins)
                        f.ip += 1
                        continue
                    if ins.op == 'br':
                        ts = [ins.x[0]]
                        if ins.ops:
                            c = self.val(st, ins.ops[0])
                            br = self.branch(st, c if c is not UNDEF else fresh('u', 1))
                        else:
                            br = [(st, True)]
                        cont = None
                        for s, tv in br:
                            b = ins.x[0] if tv else ins.x[1]
                            g = s.frames[-1]
                            if b.id == hdr.id and g.aid == aid:
                                return 'sym'
                            if b.id in g.fn.loops and not (g.aid == aid and b.id == hdr.id):
                                return 'sym' if False else self._probe_jump(s, g, b, aid) or 'sym'
                            ph = self.eval_phis(s, g, b)
                            g.vals.update(ph)
                            g.prev, g.blk, g.ip = g.blk, b, 0
                            if cont is None:
                                cont = s
                            else:
                                work.append(s)
                        st = cont
                        continue
                    if ins.op in ('call', 'invoke'):
                        w2, o2 = [], []
                        d = len(st.frames)
                        r = self.call(st, f, ins, w2, o2)
                        work.extend(w2)
                        if r is None:
                            break
                        continue
                    if ins.op == 'ret':
                        v = self.val(st, ins.ops[0]) if ins.ops else None
                        if self.leave(st, v, []):
                            return 'sym'
                        continue
                    return 'sym'
            except PathEnd:
                continue
        return 'sym'

    def _probe_jump(self, s, g, b, aid):
        return 'sym'

    def loop_spec(self, st, f, blk):
        """The loop contract to cut this loop with, or None to unroll it."""
        if not self.loopspecs:
            return None
        key = (f.fn.name, blk.id)
        for sp in self.loopspecs:
            m = sp.matches(self, st, f, blk)
            if m:
                if m != 'force' and self.probe(st, f, blk) == 'conc':
                    return None
                return sp
        return None

    # --- loop cutting
    def header_vars(self, st, f, blk, mods):
        """Loop variables: phis and modified scalar cells -> value."""
        r = {}
        for ph in blk.phis:
            r[('phi', ph.res)] = f.vals[ph.res]
        for m in sorted(mods, key=str):
            if len(m) == 3 and m[1] != 'r':
                o = st.mem.get(m[0])
                if o is not None:
                    c = o.cells.get(m[1])
                    r[('cell', m[0], m[1])] = c[1] if c is not None else None
        return r

    def havoc(self, st, f, blk, mods, spec, entry, steps, k):
        """Give every loop variable an arbitrary value (entry + step*k where a constant step was found)."""
        def arb(name, v, key):
            if key in steps:
                c = steps[key]
                if isinstance(v, Ptr):
                    return Ptr(v.obj, v.off.add(Lin.of(k).mul(c)), v.hint)
                if isinstance(v, GStr):
                    n = Lin.of(v.len).add(Lin.of(k).mul(c)).val()
                    st.assume(z3.ULT(bv(n, 64), 1 << 61))
                    return self.mkstr(st, n, ABase(name, 8 * v.w), v.w)
                if c == 0:
                    return v
                w = v.size() if isinstance(v, z3.BitVecRef) else steps[('w', key)]
                if isinstance(k, int) and w < 64:
                    x = z3.simplify(bv(v, w) + z3.BitVecVal(k * c, w))
                    return x.as_long() if z3.is_bv_value(x) and isinstance(v, int) else x
                kk = k if w == 64 else (z3.Extract(w - 1, 0, k) if w < 64 else z3.ZeroExt(w - 64, k))
                if w == 64:
                    return Lin.of(v).add(Lin.of(k).mul(c)).val()
                return bv(v, w) + kk * z3.BitVecVal(c, w)
            return self.arbitrary(st, name, v, spec, key)
        spec.begin(self, st)
        for ph in blk.phis:
            t = ph.ty
            key = ('phi', ph.res)
            v = f.vals[ph.res]
            if v is UNDEF:
                v = 0 if t.kind == 'int' else NULL
            if key not in steps and t.kind == 'int':
                f.vals[ph.res] = fresh('phi', t.bits)
            else:
                f.vals[ph.res] = arb('phi', v, key)
        for m in mods:
            if m[0] == 'ghost':
                st.ghost[m[1]] = spec.havoc_ghost(self, st, m[1], st.ghost.get(m[1]))
                continue
            if m[0] not in st.mem:
                continue
            o = st.wobj(m[0])
            if m[1] == 'r':
                for r in o.regions:
                    if r.start == m[2]:
                        r.fields = {kk: ABase(o.name, 8 * kk[1]) for kk in r.fields}
                continue
            for c in [c for c in o.cells if c < m[1] + m[2] and m[1] < c + o.cells[c][0]]:
                sz, v = o.cells[c]
                key = ('cell', m[0], c)
                o.cells[c] = (sz, arb(o.name, v, key))
            for r in o.regions:
                if isinstance(r.n, int) and r.start < m[1] + m[2] and m[1] < r.start + r.n * r.stride:
                    r.fields = {kk: ABase(o.name, 8 * kk[1]) for kk in r.fields}
        spec.havocked(self, st)

    def arbitrary(self, st, name, v, spec=None, key=None):
        if isinstance(v, Ptr):
            st_ = 1
            for s in (64, 32, 24, 16, 8, 4, 2):
                if spec is not None and getattr(spec, 'ptr_stride', {}).get(key) == s:
                    st_ = s
            if key not in self._ptr_gran:
                # granularity of the array it points into, when the pointer starts at one of its elements
                o = st.mem.get(v.obj)
                rs = {r.stride for r in o.regions} if o is not None else set()
                g0 = rs.pop() if len(rs) == 1 else 1
                if g0 > 1 and not v.off.sub(o.regions[0].start).divides(g0):
                    g0 = 1
                self._ptr_gran[key] = g0
            g = self._ptr_gran[key]
            return Ptr(v.obj, v.off.add(Lin.of(fresh(name + '_i', 64)).mul(g)), v.hint)
        if isinstance(v, GStr):
            n = fresh(name + '_len', 64)
            st.assume(z3.ULT(n, 1 << 60))
            return self.mkstr(st, n, ABase(name, 8 * v.w), v.w)
        if isinstance(v, GVec):
            n = fresh(name + '_len', 64)
            st.assume(z3.ULT(n, 1 << 56))
            od = st.mem[v.data]
            fl = od.regions[0].fields
            return self.mkvec(st, n, v.w, {kk: ABase(name, 8 * kk[1]) for kk in fl})
        if isinstance(v, Ghost):
            return spec.havoc_ghost(self, st, name, v)
        if isinstance(v, z3.BoolRef):
            return fresh(name, 1)
        if isinstance(v, z3.BitVecRef):
            return fresh(name, v.size())
        if isinstance(v, (Opaque,)):
            return Opaque(v.name, v.w)
        if isinstance(v, Lin):
            return fresh(name, 64)
        if isinstance(v, int):
            raise Unsupported('width of havocked cell %s' % name)
        if v is NULL or isinstance(v, FuncRef):
            return v
        raise Unsupported('cannot havoc %r' % (v,))

    def normalize_cells(self, st, mods):
        """Concrete ints in modified cells become bit-vectors so that their width is known."""
        for m in mods:
            if m[0] in st.mem and m[1] != 'r' and m[0] != 'ghost':
                o = st.wobj(m[0])
                for c in [c for c in o.cells if c < m[1] + m[2] and m[1] < c + o.cells[c][0]]:
                    sz, v = o.cells[c]
                    if isinstance(v, int):
                        o.cells[c] = (sz, z3.BitVecVal(v, 8 * sz))
                    elif isinstance(v, Lin):
                        o.cells[c] = (sz, v.bv())

    # Loop variables are handled through LV records: a symbol of the analysis run and a reader for any header state.
    def loop_vars(self, entry, s0, g, blk, mods):
        """[(key, symbol BV/Bool of s0, width, kind, entry value)]"""
        r = []
        for key, v in self.header_vars(s0, g, blk, mods).items():
            if isinstance(v, Ptr):
                d = v.off.t
                e = self.lv_raw(entry, g.aid, key)
                if not isinstance(e, Ptr) or e.obj != v.obj:
                    continue
                df = v.off.sub(e.off)
                if len(df.t) == 1 and df.c == 0:
                    (sym, coef), = df.t.values()
                    r.append((key, sym, 64, ('ptr', s64(coef)), e))
            elif isinstance(v, z3.BitVecRef) and z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r.append((key, v, v.size(), 'int', self.lv_raw(entry, g.aid, key)))
            elif isinstance(v, z3.BoolRef) and z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r.append((key, v, 1, 'bool', self.lv_raw(entry, g.aid, key)))
            elif isinstance(v, GStr) and isinstance(v.len, z3.BitVecRef):
                r.append((key, v.len, 64, 'strlen', self.lv_raw(entry, g.aid, key)))
        return r

    def lv_raw(self, st, aid, key):
        if key[0] == 'phi':
            return [x for x in st.frames if x.aid == aid][0].vals.get(key[1])
        if key[1] not in st.mem:
            return None
        c = st.mem[key[1]].cells.get(key[2])
        return c[1] if c is not None else None

    def lv_read(self, st, aid, lv, entry):
        """Value of the variable's symbol in a header state (None when it cannot be expressed)."""
        key, sym, w, kind, e = lv
        v = self.lv_raw(st, aid, key)
        return self.lv_conv(v, lv)

    def lv_conv(self, v, lv):
        key, sym, w, kind, e = lv
        if v is None:
            return None
        if kind == 'int':
            if isinstance(v, (Ptr, GStr)) or v is NULL or v is UNDEF:
                return None
            return bv(v, w)
        if kind == 'bool':
            return boolv(v)
        if kind == 'strlen':
            return bv(v.len, 64) if isinstance(v, GStr) else None
        if not isinstance(v, Ptr) or v.obj != e.obj:
            return None
        d = v.off.sub(e.off)
        if not d.divides(kind[1]):
            return None
        return d.div(kind[1]).bv()

    def inst(self, expr, pairs):
        return z3.substitute(expr, *pairs) if pairs else expr

    def candidates(self, lvs, exits, steps, entry, aid, k):
        """Candidate invariants over the symbols (kept only when inductive)."""
        syms = {lv[1].get_id(): lv for lv in lvs}
        out = []
        seen = set()

        def has(e):
            st_, vis = [e], set()
            while st_:
                x = st_.pop()
                if x.get_id() in syms:
                    return True
                if x.get_id() in vis:
                    continue
                vis.add(x.get_id())
                if len(vis) > 400:
                    return False
                st_.extend(x.children())
            return False

        def addc(nm, c):
            if c.get_id() not in seen:
                seen.add(c.get_id())
                out.append((nm, c))
        for lv in lvs:
            key, sym, w, kind, e = lv
            if kind in ('int', 'ptr', 'strlen'):
                ev = self.lv_conv(e, lv)
                if ev is None:
                    continue
                if kind == 'int' and key in steps and s64(steps[key] if w == 64 else steps[key] - (1 << w) if steps[key] >> (w - 1) else steps[key]) < 0:
                    addc('counter does not pass zero', z3.ULE(sym, ev))
                else:
                    addc('counter does not wrap', z3.UGE(sym, ev))
                    addc('counter does not wrap (signed)', sym >= ev)
                    addc('counter does not exceed its start', z3.ULE(sym, ev))
                if key not in steps:
                    addc('unchanged', sym == ev)
            elif kind == 'bool':
                if e is not None and e is not UNDEF:
                    addc('flag unchanged', sym == boolv(e))
        n = 0
        for c in exits:
            work = [c]
            vis = set()
            while work and n < 60:
                x = work.pop()
                if x.get_id() in vis:
                    continue
                vis.add(x.get_id())
                kd = x.decl().kind()
                if kd in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_ITE):
                    work.extend(y for y in x.children() if z3.is_bool(y))
                    continue
                if kd in (z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT,
                          z3.Z3_OP_SGEQ, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_bv(x.arg(0)):
                    l, r = x.arg(0), x.arg(1)
                    if has(l) or has(r):
                        n += 1
                        addc('bounded by its exit test', z3.ULE(l, r))
                        addc('bounded by its exit test', z3.UGE(l, r))
                        addc('bounded by its exit test (signed)', l <= r)
                        addc('bounded by its exit test (signed)', l >= r)
        return out

    def cut(self, st, f, blk, spec, phis, work):
        import math
        body = f.fn.loops[blk.id]
        entry = st.clone()
        st.owned = set()
        mods = set(getattr(spec, 'extra_mods', lambda ex, st: set())(self, st))
        steps = {}
        preobjs = set(st.mem)
        gran = {}
        cands = []          # (name, expr over symbols)
        conts = {}          # contents of strings and arrays as functions of the iteration
        lvs = []
        stable = False
        # ---- analysis: modified locations, constant steps, candidate invariants (no obligations are recorded here)
        phase = 'mods'
        for rnd in range(24):
            s0 = st.clone()
            st.owned = set()
            g = s0.frames[-1]
            self.normalize_cells(s0, mods)
            k = fresh('k', 64)
            self._ptr_gran = gran
            spec.alt = 0
            self.havoc(s0, g, blk, mods, spec, entry, {}, k)
            lvs = self.loop_vars(entry, s0, g, blk, mods)
            c = Cut()
            c.aid, c.header, c.body = f.aid, blk.id, body
            wr = set()
            backs = []
            exits = []
            c.data = {'dry': backs, 'writes': wr, 'exits': exits}
            s0.cuts = s0.cuts + [c]
            self.dry += 1
            try:
                if phase == 'houdini':
                    # rebuild the surviving candidates over this round's symbols
                    ren = [(osym, [x for x in lvs if x[0] == okey][0][1]) for okey, osym in csyms if any(x[0] == okey for x in lvs)]
                    ren.append((ck, k))
                    cands = [(nm, z3.substitute(e, *ren) if ren else e) for nm, e in cands]
                    csyms = [(lv[0], lv[1]) for lv in lvs]
                    ck = k
                    for key, sp in steps.items():
                        if key[0] == 'w':
                            continue
                        for lv in lvs:
                            if lv[0] == key and lv[3] != 'bool':
                                ev = self.lv_conv(lv[4], lv)
                                w = lv[2]
                                kk = k if w == 64 else z3.Extract(w - 1, 0, k) if w < 64 else z3.ZeroExt(w - 64, k)
                                spv = sp if lv[3] == 'int' else s64(sp) // lv[3][1] if isinstance(lv[3], tuple) else sp
                                s0.assume(lv[1] == ev + kk * z3.BitVecVal(spv, w))
                    for nm, e in cands:
                        s0.assume(e)
                    self.set_contents(s0, entry, conts, k)
                self.assume_inv(s0, spec, k, entry, mods, f.aid, steps)
                h0 = s0.clone() if spec.contents else s0
                self.explore([s0])
                if phase == 'houdini':
                    keep = []
                    for nm, e in cands:
                        ok = True
                        for bs, bph in backs:
                            pairs = [(k, k + 1)]
                            for lv in lvs:
                                raw = bph.get(lv[0][1]) if lv[0][0] == 'phi' else self.lv_raw(bs, f.aid, lv[0])
                                nv = self.lv_conv(raw, lv)
                                if nv is None:
                                    nv = fresh('lost', lv[2])
                                pairs.append((lv[1], nv))
                            if self.sol.feasible(bs.pc, z3.Not(z3.substitute(e, *pairs))):
                                ok = False
                                if os.environ.get('FLYVC_CANDS') == '2': print('DROP', nm, e, z3.simplify(z3.substitute(e, *pairs)), [str(c)[:300] for c in bs.pc[-12:]])
                                break
                        if ok:
                            keep.append((nm, e))
                    done = len(keep) == len(cands)
                    cands = keep
                    for ck_ in list(conts):
                        one = {ck_: conts[ck_]}
                        if any(c is None or self.sol.feasible(bs.pc, z3.Not(c)) for bs, bph in backs for nm, c in self.contents(bs, entry, one, k + 1)):
                            del conts[ck_]
                            done = False
                    if done:
                        stable = True
            finally:
                self.dry -= 1
            new = set()
            for w in wr:
                if w[0] == 'ghost' or w[0] in preobjs:
                    if not self.covered(w, mods):
                        new.add(w)
            if new:
                mods |= new
                self.ensure_regions(st, mods)
                self.ensure_regions(entry, mods)
                phase = 'mods'
                stable = False
                continue
            if stable:
                break
            if phase == 'houdini':
                continue
            # granularity of irregular pointers
            hv = self.header_vars(s0, s0.frames[-1] if False else g, blk, mods)
            hv = {lv[0]: lv for lv in lvs}
            regran = False
            for lv in lvs:
                if isinstance(lv[3], tuple):
                    gs = None
                    for bs, bph in backs:
                        nv = bph.get(lv[0][1]) if lv[0][0] == 'phi' else self.lv_raw(bs, f.aid, lv[0])
                        if isinstance(nv, Ptr) and nv.obj == lv[4].obj:
                            d = nv.off.sub(lv[4].off)
                            for cc in [d.c] + [x[1] for x in d.t.values() if not x[0].eq(lv[1])]:
                                gs = abs(s64(cc)) if gs is None else math.gcd(gs, abs(s64(cc)))
                    cur = gran.get(lv[0], 1)
                    if gs and gs % cur:
                        # the default does not divide the steps
                        gran[lv[0]] = math.gcd(gs, cur)
                        regran = True
                    elif gs and gs != cur and cur == 1:
                        gran[lv[0]] = gs
                        regran = True
            if regran:
                continue
            # constant steps
            steps = {}
            for lv in lvs:
                key = lv[0]
                if lv[3] == 'bool' or (lv[3] == 'strlen' and not spec.contents):
                    continue
                ok = None
                for bs, bph in backs:
                    nv = self.lv_conv(bph.get(key[1]) if key[0] == 'phi' else self.lv_raw(bs, f.aid, key), lv)
                    if nv is None:
                        ok = None
                        break
                    d = z3.simplify(nv - lv[1])
                    d = d.as_long() if z3.is_bv_value(d) else None
                    if d is None or (ok is not None and ok != d):
                        ok = None
                        break
                    ok = d
                if ok is not None and backs:
                    if isinstance(lv[3], tuple):
                        ok = (ok * lv[3][1]) & M64
                    steps[key] = ok
                    steps[('w', key)] = lv[2]
            cands = self.candidates(lvs, exits, steps, entry, f.aid, k)
            cands += spec.candidates(self, s0, lvs, LoopCtx(self, entry, None, k, f.aid, blk, mods, steps))
            csyms = [(lv[0], lv[1]) for lv in lvs]
            ck = k
            conts = self.derive_contents(h0, entry, lvs, steps, mods, backs, k) if spec.contents else {}
            # drop the candidates that do not hold on entry
            keep = []
            for nm, e in cands:
                pairs = [(k, z3.BitVecVal(0, 64))]
                for lv in lvs:
                    ev = self.lv_conv(lv[4], lv)
                    if ev is None:
                        ev = fresh('lost', lv[2])
                    pairs.append((lv[1], ev))
                if not self.sol.feasible(entry.pc, z3.Not(z3.substitute(e, *pairs))):
                    keep.append((nm, e))
            cands = keep
            phase = 'houdini'
        else:
            raise Unsupported('loop analysis does not stabilise in ' + f.fn.dem[:80])
        if os.environ.get('FLYVC_CANDS') and not self.dry:
            import sys
            print('LOOP %s\n   steps %s\n   vars %s\n   contents %s\n   kept %s' % (f.fn.dem[:80], steps, [(lv[0], lv[3]) for lv in lvs], list(conts), [(nm, str(e)[:100]) for nm, e in cands]), file=sys.stderr)
        # ---- init
        self.normalize_cells(st, mods)
        for m in mods:
            self.record(st, m)
        for nm, c in spec.inv(self, st, LoopCtx(self, entry, entry, z3.BitVecVal(0, 64), f.aid, blk, mods, steps)):
            self.oblige(st, c, 'loop invariant holds initially: ' + nm)

        def auto(state, kv):
            pairs = [(ck, bv(kv, 64))]
            for lv in lvs:
                v = self.lv_read(state, f.aid, lv, entry)
                pairs.append((lv[1], v if v is not None else fresh('lost', lv[2])))
            return [(nm, z3.substitute(e, *pairs)) for nm, e in cands]
        for nm, c in auto(st, 0):
            self.oblige(st, c, 'loop invariant holds initially: ' + nm)
        # ---- arbitrary iteration (one head per case of the contract's case split on the iteration number)
        self._ptr_gran = gran
        base = st
        ks = list(spec.split(self, st, LoopCtx(self, entry, None, None, f.aid, blk, mods, steps)))
        first = True
        k0 = fresh('k', 64)
        heads = []
        for alt in range(spec.alts):
            for kk in ks + [k0]:
                s1 = base if alt == spec.alts - 1 and kk is k0 else base.clone()
                s1.ghost[('alt', blk.id)] = alt
                heads.append((s1, kk))
        base.owned = set()
        for st, k in heads:
            f = st.frames[-1]
            spec.alt = st.ghost[('alt', blk.id)]
            self.havoc(st, f, blk, mods, spec, entry, steps, k)
            if k is k0:
                for kk in ks:
                    st.assume(k != bv(kk, 64))
            kz = bv(k, 64)
            self.set_contents(st, entry, conts, kz)
            head_ctx = LoopCtx(self, entry, None, kz, f.aid, blk, mods, steps)
            for nm, c in auto(st, kz):
                st.assume(c)
            for nm, c in spec.inv(self, st, head_ctx):
                st.assume(plain(st, c))
            last = st is base
            if len(heads) > 1 and not self.sol.feasible(st.pc):
                if last:
                    return False
                continue
            cut = Cut()
            cut.aid, cut.header, cut.body = f.aid, blk.id, body
            wr = set()
            snap = st.clone()
            st.owned = set()
            hptrs = {key: v for key, v in self.header_vars(st, f, blk, mods).items() if isinstance(v, Ptr) or v is NULL}
            cut.data = {'hptrs': hptrs, 'gran': dict(gran), 'spec': spec, 'k': kz, 'entry': entry, 'mods': mods, 'steps': steps, 'writes': wr, 'blk': blk, 'auto': auto, 'conts': conts,
                        'head': snap, 'variant': spec.variant(self, st, head_ctx), 'pre': preobjs}
            st.cuts = st.cuts + [cut]
            if not last:
                work.append(st)
        return True

    # --- contents of strings and arrays that a loop writes one element per iteration
    def cont_array(self, st, key):
        """The contents of a string variable or of an array field."""
        if key[0] == 'str':
            c = st.mem[key[1]].cells.get(key[2]) if key[1] in st.mem else None
            if c is None or not isinstance(c[1], GStr):
                return None
            fa = self.str_farr(st, c[1])
            if isinstance(fa, AStore) and isinstance(fa.v, int) and fa.v == 0 and (fa.i == c[1].len if isinstance(fa.i, int) or isinstance(c[1].len, int) else fa.i.eq(c[1].len)):
                fa = fa.p
            return fa
        for r in st.mem[key[1]].regions:
            if r.start == key[2]:
                return r.fields.get(key[3])
        return None

    def why(self, *a):
        if os.environ.get('FLYVC_CANDS'):
            import sys
            print('   not derived:', *a, file=sys.stderr)

    def derive_contents(self, s0, entry, lvs, steps, mods, backs, k):
        """key -> (first index, element(state, j)): iteration j puts element j at the index first + j."""
        out = {}
        keys = []
        for m in mods:
            if m[0] == 'ghost' or m[0] not in s0.mem:
                continue
            if m[1] == 'r':
                keys += [('arr', m[0], m[2], fk) for r in s0.mem[m[0]].regions if r.start == m[2] for fk in r.fields]
            else:
                keys += [('str', m[0], c) for c, v in s0.mem[m[0]].cells.items() if m[1] <= c < m[1] + m[2] and isinstance(v[1], GStr)]
        subs = []
        loose = set()
        for lv in lvs:
            if lv[0] in steps:
                ev = self.lv_conv(lv[4], lv)
                spv = steps[lv[0]]
                spv = s64(spv) // lv[3][1] if isinstance(lv[3], tuple) else spv
                w = lv[2]
                kk = k if w == 64 else z3.Extract(w - 1, 0, k) if w < 64 else z3.ZeroExt(w - 64, k)
                subs.append((lv[1], ev + kk * z3.BitVecVal(spv, w)))
            else:
                loose.add(lv[1].get_id())
        zero = z3.BitVecVal(0, 64)
        for key in keys:
            base, old = self.cont_array(s0, key), self.cont_array(entry, key)
            if not isinstance(base, ABase) or old is None:
                self.why('contents', key, type(base).__name__, type(old).__name__)
                continue
            parts = []
            first = None
            for bs, bph in backs:
                fa = self.cont_array(bs, key)
                if not isinstance(fa, AStore) or fa.p is not base:
                    self.why('contents', key, type(fa).__name__, type(getattr(fa, 'p', None)).__name__)
                    parts = None
                    break
                idx = z3.simplify(z3.substitute(bv(fa.i, 64), *subs) if subs else bv(fa.i, 64))
                f0 = z3.simplify(z3.substitute(idx, (k, zero)))
                if not z3.is_true(z3.simplify(idx == f0 + k)) or (first is not None and not first.eq(f0)):
                    self.why('contents index', key, idx, f0, subs)
                    parts = None
                    break
                first = f0
                n0 = len(s0.pc)
                delta = [c for c in bs.pc[n0:]] if len(bs.pc) > n0 else []
                cond = z3.simplify(z3.And(*delta)) if delta else z3.BoolVal(True)
                parts.append((cond, bv(fa.v, fa.w)))
            if not parts:
                continue
            v = parts[-1][1]
            for c, x in parts[:-1]:
                v = z3.If(c, x, v)
            v = z3.substitute(v, *subs) if subs else v
            # what the iteration reads of the array itself is still the old element
            hole = fresh('old', base.w)
            reads = [e for e in subterms(v) if e.decl().kind() == z3.Z3_OP_SELECT and e.arg(0).eq(base.a)]
            if any(not z3.is_true(z3.simplify(e.arg(1) == first + k)) for e in reads):
                self.why('contents reads', key)
                continue
            v = z3.substitute(v, *[(e, hole) for e in reads]) if reads else v
            if any(e.get_id() in loose or e.eq(base.a) for e in subterms(v)):
                self.why('contents loose', key, v)
                continue
            uses = bool(reads)

            def elem(st, j, v=v, hole=hole, uses=uses, old=old, first=first, w=base.w):
                p = [(k, bv(j, 64))]
                if uses:
                    p.append((hole, bv(old.get(st, Lin.of(first).add(j).val()), w)))
                return z3.substitute(v, *p)
            out[key] = (first, elem, base.w)
        return out

    def cont_form(self, entry, key, c, k):
        first, elem, w = c
        fv = first.as_long() if z3.is_bv_value(first) else first
        return ACopy(self.cont_array(entry, key), fv, k, AFnS(w, elem), 0)

    def set_contents(self, st, entry, conts, k):
        for key, c in conts.items():
            form = self.cont_form(entry, key, c, k)
            form.cont = (key, k)
            if key[0] == 'str':
                g = st.mem[key[1]].cells[key[2]][1]
                st.wobj(g.data).regions[0].fields[(0, g.w)] = form
            else:
                for r in st.wobj(key[1]).regions:
                    if r.start == key[2]:
                        r.fields[key[3]] = form

    def contents(self, st, entry, conts, k):
        r = []
        for key, c in conts.items():
            fa = self.cont_array(st, key)
            if fa is None:
                r.append(('the contents written so far', None))
                continue
            h = getattr(fa.p, 'cont', None) if isinstance(fa, AStore) else None
            if h is not None and h[0] == key and z3.simplify(bv(h[1], 64) + 1 - k).eq(z3.BitVecVal(0, 64)):
                # exactly the element of this iteration was written
                first, elem, w = c
                r.append(('the contents written so far', z3.And(bv(fa.i, 64) == bv(first, 64) + k - 1, bv(fa.v, w) == bv(elem(None, k - 1), w), k != 0)))
                continue
            j = fresh('J', 64)
            g = st.mem[key[1]].cells[key[2]][1] if key[0] == 'str' else None
            eq = bv(fa.get(None, j), c[2]) == bv(self.cont_form(entry, key, c, k).get(None, j), c[2])
            r.append(('the contents written so far', z3.Implies(z3.ULT(j, bv(g.len, 64)), eq) if g is not None else eq))
        return r

    def covered(self, w, mods):
        if w in mods:
            return True
        if w[0] == 'ghost':
            return False
        for m in mods:
            if m[0] == w[0] and m[1] != 'r' and w[1] != 'r' and m[1] <= w[1] and w[1] + w[2] <= m[1] + m[2]:
                return True
        return False

    def delta(self, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return b.off.sub(a.off).conc()
        if isinstance(a, z3.BitVecRef) and isinstance(b, (z3.BitVecRef, int, Lin)):
            d = z3.simplify(bv(b, a.size()) - a)
            return d.as_long() if z3.is_bv_value(d) else None
        if isinstance(a, z3.BoolRef) and isinstance(b, z3.BoolRef):
            return None
        return None

    def assume_inv(self, st, spec, k, entry, mods, aid, steps=None):
        f = [x for x in st.frames if x.aid == aid][0]
        try:
            invs = spec.inv(self, st, LoopCtx(self, entry, None, k, aid, f.blk, mods, steps or {}))
        except Unsupported:
            if not self.dry:
                raise
            return      # the loop variables are not all known yet
        for nm, c in invs:
            st.assume(plain(st, c))

    def backedge(self, st, c, phis, out):
        if 'dry' in c.data:
            c.data['dry'].append((st, phis))
            return
        d = c.data
        spec, k = d['spec'], d['k']
        f = st.frames[-1]
        self.oblige(st, True, 'loop frame')
        for w in d['writes']:
            if (w[0] == 'ghost' or w[0] in d['pre']) and not self.covered(w, d['mods']):
                raise Unsupported('loop modifies %r outside its frame' % (w,))
        for p, v in phis.items():
            f.vals[p] = v
        k1 = k + 1
        # constant-step variables
        for key, stp in d['steps'].items():
            if key[0] == 'w':
                continue
            if key[0] == 'phi':
                v = f.vals[key[1]]
                e = [x for x in d['entry'].frames if x.aid == c.aid][0].vals[key[1]]
            else:
                v = st.mem[key[1]].cells[key[2]][1]
                e = d['entry'].mem[key[1]].cells[key[2]][1]
            if isinstance(v, GStr):
                self.oblige(st, bv(v.len, 64) == Lin.of(e.len).add(Lin.of(k1).mul(stp)).bv(), 'loop: the string grows by a constant step')
            elif isinstance(v, Ptr):
                if v.obj != e.obj:
                    raise Unsupported('loop pointer leaves its object')
                x, y = v.off.bv(), e.off.add(Lin.of(k1).mul(stp)).bv()
                self.oblige(st, x == y, 'loop: pointer advances by a constant step')
            else:
                w = v.size() if isinstance(v, z3.BitVecRef) else d['steps'].get(('w', key), 64)
                kk = k1 if w == 64 else (z3.Extract(w - 1, 0, k1) if w < 64 else z3.ZeroExt(w - 64, k1))
                self.oblige(st, bv(v, w) == bv(e, w) + kk * z3.BitVecVal(stp, w), 'loop: counter advances by a constant step')
        # pointers of the loop stay in their object, on the grid the head assumed
        for key, hv in d['hptrs'].items():
            if key[0] == 'phi':
                v = f.vals.get(key[1])
            else:
                v = st.mem[key[1]].cells[key[2]][1] if key[1] in st.mem and key[2] in st.mem[key[1]].cells else None
            if hv is NULL:
                if v is not NULL and v != 0:
                    raise Unsupported('a null loop pointer is assigned')
                continue
            if not isinstance(v, Ptr) or v.obj != hv.obj:
                raise Unsupported('loop pointer leaves its object')
            g = d['gran'].get(key, 1)
            e = self.lv_raw(d['entry'], c.aid, key)
            if key not in d['steps'] and g > 1 and isinstance(e, Ptr):
                df = v.off.sub(e.off)
                if not df.divides(g):
                    self.oblige(st, z3.URem(df.bv(), z3.BitVecVal(g, 64)) == 0, 'loop: pointer stays on its grid')
        f.prev, f.blk, f.ip = f.blk, d['blk'], 0
        ctx = LoopCtx(self, d['entry'], d['head'], k1, c.aid, d['blk'], d['mods'], d['steps'])
        for nm, cond in spec.inv(self, st, ctx):
            self.oblige(st, cond, 'loop invariant is preserved: ' + nm)
        for nm, cond in self.contents(st, d['entry'], d.get('conts') or {}, k1):
            self.oblige(st, z3.BoolVal(False) if cond is None else cond, 'loop invariant is preserved: ' + nm)
        for nm, cond in d['auto'](st, k1):
            self.oblige(st, cond, 'loop invariant is preserved: ' + nm)
        v1 = spec.variant(self, st, ctx)
        if v1 is not None and d['variant'] is not None:
            self.oblige(st, z3.ULT(bv(v1, 64), bv(d['variant'], 64)), 'loop variant decreases')

    # ------------------------------------------------------------ instructions
    def i_alloca(self, st, f, ins):
        n = self.val(st, ins.ops[0])
        if n != 1:
            raise Unsupported('variable length alloca')
        return self.new(st, 'loc%d' % ins.res if True else '', ins.x.size)

    def i_load(self, st, f, ins):
        return self.load_ty(st, self.val(st, ins.ops[0]), ins.ty)

    def i_store(self, st, f, ins):
        self.store_ty(st, self.val(st, ins.ops[1]), ins.x[0], self.val(st, ins.ops[0]))

    def i_gep(self, st, f, ins):
        return self.gep(st, ins.x, [self.val(st, o) for o in ins.ops])

    def i_icmp(self, st, f, ins):
        return self.icmp(st, ins.x[0], self.val(st, ins.ops[0]), self.val(st, ins.ops[1]), ins.x[1])

    def i_fcmp(self, st, f, ins):
        return fresh('fcmp', 1)

    def i_select(self, st, f, ins):
        c = self.val(st, ins.ops[0])
        a, b = self.val(st, ins.ops[1]), self.val(st, ins.ops[2])
        if isinstance(c, int):
            return a if c else b
        if c is UNDEF:
            c = fresh('undef', 1)
        if ins.ty.kind == 'int':
            w = ins.ty.bits
            if a is UNDEF:
                a = b
            if b is UNDEF:
                b = a
            if isinstance(a, int) and isinstance(b, int) and a == b:
                return a
            if w == 1:
                if isinstance(a, int) and isinstance(b, int):
                    return c if a else z3.Not(c)
                if isinstance(b, int) and b == 0:
                    return z3.And(c, boolv(a))
                if isinstance(a, int) and a == 1:
                    return z3.Or(c, boolv(b))
                return z3.If(c, boolv(a), boolv(b))
            if not isinstance(a, Ptr) and not isinstance(b, Ptr):
                return z3.If(c, bv(a, w), bv(b, w))
        if ins.ty.kind == 'ptr':
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                if a.off.sub(b.off).conc() == 0:
                    return a
        s = z3.simplify(c)
        if z3.is_true(s):
            return a
        if z3.is_false(s):
            return b
        # fork: re-execute this instruction with the condition decided
        raise NeedFork(c, ins.res, a, b)

    def i_extractvalue(self, st, f, ins):
        v = self.val(st, ins.ops[0])
        for i in ins.x:
            v = v[i]
        return v

    def i_insertvalue(self, st, f, ins):
        a, v = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])

        def rec(a, path):
            l = list(a)
            l[path[0]] = v if len(path) == 1 else rec(l[path[0]], path[1:])
            return Agg(l)
        if a is UNDEF:
            a = self.zero(ins.ty, UNDEF)
        return rec(a, ins.x)

    def i_trunc(self, st, f, ins):
        v = self.val(st, ins.ops[0])
        if v is UNDEF:
            return UNDEF
        return self.trunc(v, ins.x[0].bits, ins.ty.bits)

    def i_zext(self, st, f, ins):
        v = self.val(st, ins.ops[0])
        return self.zext(fresh('undef', ins.x[0].bits) if v is UNDEF else v, ins.x[0].bits, ins.ty.bits)

    def i_sext(self, st, f, ins):
        v = self.val(st, ins.ops[0])
        return self.sext(fresh('undef', ins.x[0].bits) if v is UNDEF else v, ins.x[0].bits, ins.ty.bits)

    def i_ptrtoint(self, st, f, ins):
        return self.val(st, ins.ops[0])

    def i_inttoptr(self, st, f, ins):
        v = self.val(st, ins.ops[0])
        if isinstance(v, int) and v == 0:
            return NULL
        return v

    def i_bitcast(self, st, f, ins):
        return self.val(st, ins.ops[0])

    i_freeze = i_bitcast
    i_addrspacecast = i_bitcast

    def _fp(self, st, f, ins):
        return Opaque('fp', ins.ty.bits)

    i_fadd = i_fsub = i_fmul = i_fdiv = i_frem = i_fneg = i_uitofp = i_sitofp = i_fptrunc = i_fpext = _fp

    def i_fptoui(self, st, f, ins):
        return fresh('fptoint', ins.ty.bits)

    i_fptosi = i_fptoui

    def i_landingpad(self, st, f, ins):
        cleanup, clauses = ins.x
        sel = 0
        for c in clauses:
            if c[0] == 'null':
                sel = 1
                break
            nm = c[1] if c[0] == 'g' else None
            if nm is not None and self.exc_matches(st.exc, nm):
                sel = ('ti', nm)
                break
            if c[0] in ('agg', 'zero'):
                sel = 0
        st.ghost['lpad'] = sel
        return Agg([st.exc_ptr if hasattr(st, 'exc_ptr') else NULL, self.selnum(sel)])

    _sels = {}

    def selnum(self, sel):
        if sel == 0:
            return 0
        if sel == 1:
            return 1
        return self._sels.setdefault(sel[1], 2 + len(self._sels))

    def exc_matches(self, exc, tiname):
        """exc: demangled class name of the thrown exception."""
        if exc is None:
            return False
        want = self.dem_type(tiname)
        return want in self.exc_bases(exc)

    def dem_type(self, ti):
        r = self.tydem.get(ti)
        if r is None:
            import subprocess
            d = subprocess.run(['c++filt', ti], capture_output=True, text=True).stdout.strip()
            r = d.replace('typeinfo for ', '').replace('std::__cxx11::', 'std::')
            self.tydem[ti] = r
        return r

    EXC = {'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error', 'std::length_error': 'std::logic_error',
           'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception', 'std::bad_alloc': 'std::exception',
           'std::bad_variant_access': 'std::exception', 'std::bad_optional_access': 'std::exception'}

    def exc_bases(self, e):
        r = [e]
        while e in self.EXC:
            e = self.EXC[e]
            r.append(e)
        # repository exception classes: bases from their typeinfo objects
        if len(r) == 1:
            for m in self.mods:
                for g in m.globals:
                    if g.startswith('_ZTI') and self.dem_type(g) == e:
                        _, init, _ = m.global_info(g)
                        if init and init[0] == 'agg' and len(init[1]) >= 3 and init[1][2][0] == 'g':
                            return r + self.exc_bases(self.dem_type(init[1][2][1]))
        return r

    # ------------------------------------------------------------ calls
    def call(self, st, f, ins, work, out):
        cal = ins.x['callee']
        if cal[0] == 'asm':
            raise Unsupported('inline assembly')
        if cal[0] == 'f':
            name = cal[1]
        else:
            t = self.val(st, cal)
            if isinstance(t, FuncRef):
                name = t.name
            elif isinstance(t, Ghost) and t.kind == 'fn':
                args = [self.val(st, o) for o in ins.ops]
                return self.finish_model(st, f, ins, t.call(self, st, args), out, work)
            else:
                raise Unsupported('call through %r in %s' % (t, f.fn.dem[:80]))
        return self.call_named(st, f, ins, name, work, out)

    def call_named(self, st, f, ins, name, work, out):
        args = None
        fn = self.func(name)
        dem = fn.dem if fn is not None else name
        # intrinsics
        if name.startswith('llvm.'):
            if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.experimental.noalias') \
                    or name.startswith('llvm.assume') or name.startswith('llvm.stack') or name.startswith('llvm.va_') \
                    or name.startswith('llvm.invariant'):
                f.vals[ins.res] = NULL
                f.ip += 1
                return True
            if name.startswith('llvm.ubsantrap') or name.startswith('llvm.trap'):
                k = ins.ops[0][1] if ins.ops else -1
                kinds = {0: 'add overflow', 3: 'division by zero or overflow', 12: 'mul overflow', 13: 'neg overflow',
                         18: 'index out of bounds', 20: 'shift out of range', 21: 'sub overflow', 1: 'unreachable',
                         11: 'missing return', 22: 'type mismatch'}
                self.oblige(st, False, 'undefined behaviour: ' + kinds.get(k, 'trap %d' % k))
                return None
            args = [self.val(st, o) for o in ins.ops]
            r = self.intrinsic(st, f, ins, name, args)
            f.vals[ins.res] = r
            f.ip += 1
            return True
        c = self.contracts.get(dem)
        if c is not None:
            self.contracts_used.add(dem)
            args = [self.val(st, o) for o in ins.ops]
            r = c(self, st, args, fn, ins)
            if r is not NotImplemented:
                return self.finish_model(st, f, ins, r, out, work)
        m = self._mcache.get(dem)
        if m is None:
            m = False
            for rx, h in self.models:
                if rx.search(dem):
                    m = h
                    break
            self._mcache[dem] = m
        if m:
            args = [self.val(st, o) for o in ins.ops]
            r = m(self, st, args, fn, ins)
            if r is not NotImplemented:
                self.models_used.add(dem)
                return self.finish_model(st, f, ins, r, out, work)
        if fn is None or fn.isdecl:
            raise Unsupported('call of external function ' + dem[:160])
        args = [self.val(st, o) for o in ins.ops]
        self.push(st, fn, args, ins)
        return True

    def finish_model(self, st, f, ins, r, out, work):
        if isinstance(r, Throw):
            st2 = r.st
            st2.exc = r.ty
            st2.ghost['excval'] = r.val
            if self.throw_here(st2, st2.frames[-1], ins, out):
                return None
            if st2 is not st:
                work.append(st2)
                return None
            return True
        if isinstance(r, Outcomes):
            for item in r.lst:
                if isinstance(item, Throw):
                    s2 = item.st
                    s2.exc = item.ty
                    s2.ghost['excval'] = item.val
                    if not self.throw_here(s2, s2.frames[-1], ins, out):
                        work.append(s2)
                    continue
                s2, v = item
                g = s2.frames[-1]
                g.vals[ins.res] = v
                if ins.op == 'invoke':
                    if not self.jump(s2, ins.x['normal'], None, out):
                        continue
                else:
                    g.ip += 1
                work.append(s2)
            return None
        f = st.frames[-1]
        f.vals[ins.res] = r
        if ins.op == 'invoke':
            return True if self.jump(st, ins.x['normal'], None, out) else None
        f.ip += 1
        return True

    def intrinsic(self, st, f, ins, name, a):
        b = name.split('.')
        n = b[1]
        if n in ('memcpy', 'memmove'):
            self.memcpy(st, a[0], a[1], a[2])
            return None
        if n == 'memset':
            self.memset(st, a[0], a[1], a[2])
            return None
        if n in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and b[2] == 'with':
            w = int(b[-1][1:])
            x, y = a
            if isinstance(x, int) and isinstance(y, int):
                sg = n[0] == 's'
                sx = x - (1 << w) if sg and x >> (w - 1) else x
                sy = y - (1 << w) if sg and y >> (w - 1) else y
                r = {'add': sx + sy, 'sub': sx - sy, 'mul': sx * sy}[n[1:]]
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
                return Agg([r & ((1 << w) - 1), int(not lo <= r <= hi)])
            p, q = bv(x, w), bv(y, w)
            r = self.arith(st, n[1:], x, y, w)
            if n == 'uadd':
                ov = z3.Not(z3.BVAddNoOverflow(p, q, False))
            elif n == 'sadd':
                ov = z3.Not(z3.And(z3.BVAddNoOverflow(p, q, True), z3.BVAddNoUnderflow(p, q)))
            elif n == 'usub':
                ov = z3.ULT(p, q)
            elif n == 'ssub':
                ov = z3.Not(z3.And(z3.BVSubNoOverflow(p, q), z3.BVSubNoUnderflow(p, q, True)))
            elif n == 'umul':
                ov = z3.Not(z3.BVMulNoOverflow(p, q, False))
            else:
                ov = z3.Not(z3.And(z3.BVMulNoOverflow(p, q, True), z3.BVMulNoUnderflow(p, q)))
            return Agg([r, ov])
        if n in ('umin', 'umax', 'smin', 'smax'):
            w = ins.ty.bits
            p, q = bv(a[0], w), bv(a[1], w)
            c = {'umin': z3.ULT(p, q), 'umax': z3.UGT(p, q), 'smin': p < q, 'smax': p > q}[n]
            r = z3.simplify(z3.If(c, p, q))
            return r.as_long() if z3.is_bv_value(r) else r
        if n == 'abs':
            w = ins.ty.bits
            p = bv(a[0], w)
            return z3.If(p < 0, -p, p)
        if n == 'bswap':
            w = ins.ty.bits
            if isinstance(a[0], int):
                return int.from_bytes(a[0].to_bytes(w // 8, 'little'), 'big')
            p = bv(a[0], w)
            return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, p) for i in range(w // 8)])
        if n in ('ctlz', 'cttz', 'ctpop'):
            w = ins.ty.bits
            p = bv(a[0], w)
            if n == 'ctpop':
                r = z3.BitVecVal(0, w)
                for i in range(w):
                    r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, p))
            else:
                r = z3.BitVecVal(w, w)
                rng = range(w) if n == 'ctlz' else range(w - 1, -1, -1)
                for i in rng:
                    r = z3.If(z3.Extract(i, i, p) == 1, z3.BitVecVal(w - 1 - i if n == 'ctlz' else i, w), r)
            r = z3.simplify(r)
            return r.as_long() if z3.is_bv_value(r) else r
        if n in ('fshl', 'fshr'):
            w = ins.ty.bits
            x, y, s = bv(a[0], w), bv(a[1], w), bv(a[2], w)
            s = z3.URem(s, w)
            c = z3.Concat(x, y)
            if n == 'fshl':
                return z3.simplify(z3.Extract(2 * w - 1, w, c << z3.ZeroExt(w, s)))
            return z3.simplify(z3.Extract(w - 1, 0, z3.LShR(c, z3.ZeroExt(w, s))))
        if n in ('expect', 'threadlocal'):
            return a[0]
        if n == 'objectsize':
            return (1 << 64) - 1 if (a[1] if isinstance(a[1], int) else 0) == 0 else 0
        if n == 'is' and b[2] == 'constant':
            return 0
        if n == 'eh' and b[2] == 'typeid':
            p = a[0]
            nm = p.obj[1:] if isinstance(p, Ptr) else ''
            return self.selnum(('ti', nm))
        raise Unsupported('intrinsic ' + name)

    # ------------------------------------------------------------ ghost helpers
    def mkstr(self, st, n, farr, w=1, name='str'):
        sz = Lin.of(n).add(1)
        p = self.new(st, name, sz.mul(w).val(), 'strdata')
        o = st.mem[p.obj]
        o.regions.append(Region(0, sz.val(), w, {(0, w): farr}))
        o.tag = 'strdata'
        return GStr(n if not isinstance(n, Lin) else n.val(), p.obj, w)

    def str_farr(self, st, g):
        r = st.mem[g.data].regions[0]
        return r.fields[(0, g.w)]

    def mkvec(self, st, n, w, fields, name='vec'):
        p = self.new(st, name, Lin.of(n).mul(w).val(), 'vecdata')
        o = st.mem[p.obj]
        o.regions.append(Region(0, n if not isinstance(n, Lin) else n.val(), w, dict(fields)))
        return GVec(n, p.obj, w)


class NeedFork(Exception):
    def __init__(self, cond, res, a, b):
        self.cond, self.res, self.a, self.b = cond, res, a, b


def _binop(op):
    def h(self, st, f, ins):
        return self.arith(st, op, self.val(st, ins.ops[0]), self.val(st, ins.ops[1]), ins.ty.bits)
    return h


for _o in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
    setattr(Exec, 'i_' + _o, _binop(_o))


class Imp:
    """hyp ==> fn(state): the conclusion is built under the hypothesis, so that reads it settles are resolved."""

    def __init__(self, hyp, fn, cases=()):
        self.hyp, self.fn, self.cases = hyp, fn, cases


def plain(st, c):
    return z3.Implies(c.hyp, boolv(c.fn(st))) if isinstance(c, Imp) else c


class LoopCtx:
    def __init__(self, ex, entry, head, k, aid, blk, mods, steps):
        self.ex, self.entry, self.head, self.k, self.aid, self.blk, self.mods, self.steps = ex, entry, head, k, aid, blk, mods, steps

    def vars(self, st):
        f = [x for x in st.frames if x.aid == self.aid][0]
        return self.ex.header_vars(st, f, self.blk, self.mods)

    def cursors(self, st, oid):
        """Loop variables that are pointers into the object."""
        return [(k, v) for k, v in self.vars(st).items() if isinstance(v, Ptr) and v.obj == oid]


class AFnS(FArr):
    """Array defined by a Python function of the state and the index."""

    def __init__(self, w, f):
        self.w, self.f = w, f

    def get(self, st, i):
        return self.f(st, i)


class LoopSpec:
    """A loop contract.  Subclasses override inv / variant / matches / havoc_ghost."""
    bound_k = False
    contents = False    # derive what the loop writes, one element per iteration, to strings and arrays
    alts = 1            # number of head cases (havoc_ghost / inv choose by self.alt); together they cover the invariant
    alt = 0

    def __init__(self, inv=None, variant=None, match=None, name=''):
        self._inv, self._variant, self._match, self.name = inv, variant, match, name

    def matches(self, ex, st, f, blk):
        return True if self._match is None else self._match(ex, st, f, blk)

    def inv(self, ex, st, L):
        return self._inv(ex, st, L) if self._inv else []

    def variant(self, ex, st, L):
        return self._variant(ex, st, L) if self._variant else None

    def begin(self, ex, st):
        """Called before the loop variables of an arbitrary iteration are chosen."""

    def candidates(self, ex, st, lvs, L):
        """Candidate invariants [(name, formula over the symbols lv[1] and L.k)]: those that are not inductive are dropped."""
        return []

    def split(self, ex, st, L):
        """Distinguished iteration numbers, verified as separate cases."""
        return []

    def havoc_ghost(self, ex, st, key, v):
        raise Unsupported('ghost %s is modified by a loop' % (key,))

    def havocked(self, ex, st):
        """Called once the loop variables are arbitrary: may install state in the form the invariant gives it (which inv then has to claim)."""


class Elementwise(LoopSpec):
    """Loops that append or rewrite one element per iteration: their effect is derived (and verified) from their body."""
    contents = True

    def matches(self, ex, st, f, blk):
        return (len(st.cuts) == 0 or self.nested) if self._match is None else self._match(ex, st, f, blk)
    nested = False
