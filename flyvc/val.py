"""Values, linear offsets, functional arrays and memory objects."""
import itertools
import z3

M64 = (1 << 64) - 1
_fresh = itertools.count()


def bv(x, w):
    """Coerce an executor integer to a z3 bit-vector of width w."""
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if isinstance(x, Lin):
        return x.bv()
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(x, Ptr):
        raise Unsupported('pointer used as integer')
    if not isinstance(x, z3.BitVecRef):
        raise Unsupported('value %r used as integer' % (x,))
    return x


def boolv(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.BoolVal(x != 0)
    if isinstance(x, z3.BitVecRef):
        return x == 1
    return x


def fresh(name, w):
    if w == 1:
        return z3.Bool('%s!%d' % (name, next(_fresh)))
    return z3.BitVec('%s!%d' % (name, next(_fresh)), w)


def fresh_id():
    return next(_fresh)


def s64(c):
    c &= M64
    return c - (1 << 64) if c >> 63 else c


class Unsupported(Exception):
    pass


class Lin:
    """const + sum(coef * term), 64 bit, modulo 2^64."""
    __slots__ = ('c', 't', '_bv')

    def __init__(self, c=0, t=None):
        self.c = c & M64
        self.t = t or {}
        self._bv = None

    @staticmethod
    def of(x):
        if isinstance(x, Lin):
            return x
        if isinstance(x, int):
            return Lin(x)
        if z3.is_bv_value(x):
            return Lin(x.as_long())
        # light decomposition of sums so that offsets keep their structure
        k = x.decl().kind()
        if k == z3.Z3_OP_BADD:
            r = Lin(0)
            for a in x.children():
                r = r.add(Lin.of(a))
            return r
        if k == z3.Z3_OP_BSUB:
            ch = x.children()
            r = Lin.of(ch[0])
            for a in ch[1:]:
                r = r.sub(Lin.of(a))
            return r
        if k == z3.Z3_OP_BNEG:
            return Lin(0).sub(Lin.of(x.arg(0)))
        if k == z3.Z3_OP_BMUL:
            ch = x.children()
            if len(ch) == 2 and z3.is_bv_value(ch[0]):
                return Lin.of(ch[1]).mul(ch[0].as_long())
            if len(ch) == 2 and z3.is_bv_value(ch[1]):
                return Lin.of(ch[0]).mul(ch[1].as_long())
        return Lin(0, {x.get_id(): (x, 1)})

    def add(self, o):
        o = Lin.of(o)
        t = dict(self.t)
        for i, (x, k) in o.t.items():
            k2 = (t[i][1] + k) & M64 if i in t else k
            if k2:
                t[i] = (x, k2)
            else:
                t.pop(i, None)
        return Lin(self.c + o.c, t)

    def mul(self, k):
        k &= M64
        if k == 0:
            return Lin(0)
        t = {}
        for i, (x, c) in self.t.items():
            c2 = (c * k) & M64
            if c2:
                t[i] = (x, c2)
        return Lin(self.c * k, t)

    def sub(self, o):
        return self.add(Lin.of(o).mul(M64))

    def conc(self):
        return self.c if not self.t else None

    def divides(self, k):
        return s64(self.c) % k == 0 and all(s64(c) % k == 0 for _, c in self.t.values())

    def div(self, k):
        return Lin(s64(self.c) // k, {i: (x, (s64(c) // k) & M64) for i, (x, c) in self.t.items()})

    def bv(self):
        if self._bv is None:
            r = None
            for x, c in self.t.values():
                e = x if c == 1 else z3.BitVecVal(c, 64) * x
                r = e if r is None else r + e
            if r is None:
                r = z3.BitVecVal(self.c, 64)
            elif self.c:
                r = r + z3.BitVecVal(self.c, 64)
            self._bv = r
        return self._bv

    def val(self):
        """int when concrete, otherwise bit-vector."""
        return self.c if not self.t else self.bv()

    def __repr__(self):
        return 'Lin(%s%s)' % (s64(self.c), ''.join(' + %d*%s' % (s64(c), str(x)[:40]) for x, c in self.t.values()))


class Ptr:
    __slots__ = ('obj', 'off', 'hint')

    def __init__(self, obj, off=None, hint=None):
        self.obj = obj          # object id
        self.off = off if off is not None else Lin(0)
        self.hint = hint        # (start, n, stride) of the innermost array sub-object, or None

    def add(self, d, hint='keep'):
        return Ptr(self.obj, self.off.add(d), self.hint if hint == 'keep' else hint)

    def __repr__(self):
        return '&%s+%r' % (self.obj, self.off)


class _Null:
    def __repr__(self):
        return 'null'


NULL = _Null()


class FuncRef:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '@' + self.name


class Agg(tuple):
    """First-class aggregate."""


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Opaque:
    """A value nothing is known about except its identity (floats, opaque handles)."""
    __slots__ = ('name', 'w')

    def __init__(self, name, w=64):
        self.name = '%s!%d' % (name, next(_fresh))
        self.w = w

    def __repr__(self):
        return '?' + self.name


# ------------------------------------------------------------------ functional arrays
DECIDE = [None]     # decides an index condition under a path condition: True / False / None


def decide(st, c):
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    if st is None or DECIDE[0] is None:
        return None
    return DECIDE[0](st, c)


class FArr:
    """Immutable array index(BV64) -> BV w."""
    w = 8

    def get(self, st, i):
        raise NotImplementedError

    def store(self, i, v):
        return AStore(self, i, v)


class ABase(FArr):
    def __init__(self, name, w, facts=None):
        self.w = w
        self.a = z3.Array('%s!%d' % (name, next(_fresh)), z3.BitVecSort(64), z3.BitVecSort(w))
        self.facts = facts

    def get(self, st, i):
        iv = bv(i, 64)
        v = z3.Select(self.a, iv)
        if self.facts and st is not None:
            key = (self.a.get_id(), iv.get_id())
            if key not in st.instd:
                st.instd = st.instd | {key}
                for f in self.facts:
                    st.assume(f(st, iv, v))
        return v


class ATable(FArr):
    def __init__(self, vals, w):
        self.vals = vals
        self.w = w
        self._fn = {}

    def get(self, st, i):
        if isinstance(i, int):
            return self.vals[i] if i < len(self.vals) else z3.BitVecVal(0, self.w)
        key = i.get_id()
        if key in self._fn:
            return self._fn[key][1]
        n = len(self.vals)
        bits = max(1, (n - 1).bit_length())
        ix = z3.Extract(bits - 1, 0, i)

        def build(lo, b):
            if b < 0:
                return self.vals[lo] if lo < n else self.vals[n - 1]
            l = build(lo, b - 1)
            r = build(lo + (1 << b), b - 1)
            if isinstance(l, int) and isinstance(r, int) and l == r:
                return l
            if l is r:
                return l
            return z3.If(z3.Extract(b, b, ix) == 1, bv(r, self.w), bv(l, self.w))
        r = build(0, bits - 1)
        self._fn[key] = (i, r)
        return r


class AStore(FArr):
    def __init__(self, p, i, v):
        self.p, self.i, self.v, self.w = p, i, v, p.w

    def get(self, st, i):
        d = self
        chain = []
        while isinstance(d, AStore):
            if isinstance(i, int) and isinstance(d.i, int):
                if i == d.i:
                    return self._wrap(chain, d.v)
            else:
                a, b = bv(i, 64), bv(d.i, 64)
                if a.eq(b):
                    return self._wrap(chain, d.v)
                la, lb = Lin.of(a), Lin.of(b)
                df = la.sub(lb)
                if df.conc() is not None:
                    if df.conc() == 0:
                        return self._wrap(chain, d.v)
                else:
                    e = decide(st, a == b)
                    if e is True:
                        return self._wrap(chain, d.v)
                    if e is None:
                        chain.append((a == b, d.v))
            d = d.p
        return self._wrap(chain, d.get(st, i))

    def _wrap(self, chain, r):
        for c, v in reversed(chain):
            r = z3.If(c, bv(v, self.w), bv(r, self.w))
        return r


class ACopy(FArr):
    """p with [d, d+n) replaced by src[s, s+n)."""
    def __init__(self, p, d, n, src, s):
        self.p, self.d, self.n, self.src, self.s, self.w = p, d, n, src, s, p.w

    def get(self, st, i):
        d, n = self.d, self.n
        rel = Lin.of(i).sub(Lin.of(d)).val()
        if isinstance(rel, int) and isinstance(n, int):
            if rel < n:
                return self.src.get(st, Lin.of(self.s).add(rel).val())
            return self.p.get(st, i)
        c = z3.ULT(bv(rel, 64), bv(n, 64))
        e = decide(st, c)
        if e is True:
            return self.src.get(st, Lin.of(self.s).add(Lin.of(rel)).val())
        if e is False:
            return self.p.get(st, i)
        a = self.src.get(st, Lin.of(self.s).add(Lin.of(rel)).val())
        b = self.p.get(st, i)
        return z3.If(c, bv(a, self.w), bv(b, self.w))


class AFill(FArr):
    def __init__(self, p, d, n, v):
        self.p, self.d, self.n, self.v, self.w = p, d, n, v, p.w

    def get(self, st, i):
        rel = Lin.of(i).sub(Lin.of(self.d)).val()
        if isinstance(rel, int) and isinstance(self.n, int):
            return self.v if rel < self.n else self.p.get(st, i)
        c = z3.ULT(bv(rel, 64), bv(self.n, 64))
        e = decide(st, c)
        if e is True:
            return self.v
        if e is False:
            return self.p.get(st, i)
        return z3.If(c, bv(self.v, self.w), bv(self.p.get(st, i), self.w))


class AFn(FArr):
    """Array defined by a Python function of the index."""
    def __init__(self, w, f):
        self.w, self.f = w, f

    def get(self, st, i):
        return self.f(i)


class AObjs(FArr):
    """Array of arbitrary values (pointers, ghosts) at concrete indices."""
    w = 0

    def __init__(self, vals=()):
        self.vals = dict(enumerate(vals)) if not isinstance(vals, dict) else vals

    def get(self, st, i):
        if not isinstance(i, int):
            raise Unsupported('symbolic index into array of objects')
        if i not in self.vals:
            raise Unsupported('unset object element')
        return self.vals[i]

    def store(self, i, v):
        if not isinstance(i, int):
            raise Unsupported('symbolic index into array of objects')
        d = dict(self.vals)
        d[i] = v
        return AObjs(d)


class Region:
    """Array sub-object [start, start + n*stride) of an object; one FArr per (suboffset, size)."""
    __slots__ = ('start', 'n', 'stride', 'fields')

    def __init__(self, start, n, stride, fields=None):
        self.start, self.n, self.stride = start, n, stride
        self.fields = fields or {}

    def copy(self):
        return Region(self.start, self.n, self.stride, dict(self.fields))


class Obj:
    __slots__ = ('id', 'name', 'size', 'cells', 'regions', 'kind', 'const', 'dead', 'tag')

    def __init__(self, id, name, size, kind='stack', const=False):
        self.id, self.name, self.size, self.kind, self.const = id, name, size, kind, const
        self.cells = {}
        self.regions = []
        self.dead = False
        self.tag = None

    def copy(self):
        o = Obj(self.id, self.name, self.size, self.kind, self.const)
        o.cells = dict(self.cells)
        o.regions = [r.copy() for r in self.regions]
        o.dead = self.dead
        o.tag = self.tag
        return o


class GStr:
    """Ghost value of a std::basic_string: its length and the object holding its characters."""
    __slots__ = ('len', 'data', 'w')

    def __init__(self, len, data, w):
        self.len, self.data, self.w = len, data, w      # w = bytes per character

    def __repr__(self):
        return 'GStr(%s)' % (self.len,)


class GVec:
    __slots__ = ('len', 'data', 'w')

    def __init__(self, len, data, w):
        self.len, self.data, self.w = len, data, w


class Ghost:
    """Free-form immutable ghost record stored in memory."""
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def set(self, **kw):
        d = dict(self.__dict__)
        d.update(kw)
        k = d.pop('kind')
        return Ghost(k, **d)

    def __repr__(self):
        return 'Ghost(%s)' % self.__dict__
