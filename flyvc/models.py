"""Assumed contracts of the standard library (the trusted part of the proofs), keyed by demangled name."""
import re
import z3
from .val import *
from .execu import Throw, Outcomes, PathEnd

MODELS = []
CW = {'char': 1, 'wchar_t': 4, 'char8_t': 1, 'char16_t': 2, 'char32_t': 4}


def model(rx):
    def d(f):
        MODELS.append((re.compile(rx), f))
        return f
    return d


def T(n):
    """length as an executor integer"""
    return n.val() if isinstance(n, Lin) else n


def add(a, b):
    return Lin.of(a).add(Lin.of(b)).val()


def sub(a, b):
    return Lin.of(a).sub(Lin.of(b)).val()


def rd_range(ex, st, p, n, w):
    """(farr, start) of the n elements of width w at p; generates the bounds obligation."""
    n = T(n)
    if isinstance(n, int) and n == 0:
        return ABase('empty', 8 * w), 0
    o = ex.check_access(st, p, 0, False)
    rr = ex.region_for(st, o, p, w)
    if rr is None:
        c = p.off.conc()
        if c is not None and isinstance(n, int) and n <= 64:
            vals = [ex.load(st, p.add(i * w), w) for i in range(n)]
            return ATable(vals, 8 * w), 0
        o = ex.make_region(st, o, p, w)
        rr = ex.region_for(st, o, p, w)
    r, i, sub_ = rr
    if r.stride != w or sub_:
        raise Unsupported('range of width %d in %s' % (w, o.name))
    ex.range_check(st, o, r, i, n, 'read')
    return ex.region_elem(st, o, r, 0, w), i.val()


def getstr(ex, st, p):
    o = ex.check_access(st, p, 0, False)
    c = p.off.conc()
    if c is None:
        # element of a ghost vector of strings
        raise Unsupported('string at a symbolic offset')
    v = o.cells.get(c)
    v = v[1] if v else None
    if v is None:
        rr = ex.region_for(st, o, p, 32)
        if rr is not None:
            v = ex.load(st, p, 32)
    if not isinstance(v, GStr):
        raise Unsupported('string object without a value in %s: %r' % (o.name, v))
    return v


def putstr(ex, st, p, g):
    o = ex.check_access(st, p, 32, True)
    c = p.off.conc()
    if c is not None and not any(r for r in o.regions if ex.region_for(st, o, p, 32)):
        o = st.wobj(o.id)
        for k in [k for k, v in o.cells.items() if k < c + 32 and c < k + v[0]]:
            del o.cells[k]
        o.cells[c] = (32, g)
        ex.record(st, (o.id, c, 32))
    else:
        ex.store(st, p, 32, g)


def content(ex, st, g):
    """FArr of the characters (without the terminator layer)."""
    fa = ex.str_farr(st, g)
    if isinstance(fa, AStore) and isinstance(fa.v, int) and fa.v == 0 and same(fa.i, g.len):
        return fa.p
    return fa


def appended(fa, n):
    """The parts an array of n elements was appended from, in order: [(length, get(state, j))], or None.
    Each part ends exactly where the next one starts, so later parts never cover earlier ones."""
    out = []
    end = Lin.of(n)
    while end.conc() != 0:
        if isinstance(fa, AStore):
            if Lin.of(fa.i).add(1).sub(end).conc() != 0:
                return None
            out.append((1, lambda st, j, v=fa.v: v))
            end, fa = Lin.of(fa.i), fa.p
        elif isinstance(fa, ACopy):
            if Lin.of(fa.d).add(Lin.of(fa.n)).sub(end).conc() != 0:
                return None
            out.append((fa.n, lambda st, j, f=fa: f.src.get(st, Lin.of(f.s).add(Lin.of(j)).val())))
            end, fa = Lin.of(fa.d), fa.p
        else:
            return None
    return out[::-1]


def same(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return a.eq(b)


def mk(ex, st, farr, n, w, off=0):
    n = T(n)
    if not (isinstance(off, int) and off == 0):
        farr = ACopy(ABase('z', 8 * w), 0, n, farr, off)
    return ex.mkstr(st, n, AStore(farr, n, 0), w)


def append(ex, st, g, farr, off, n):
    n = T(n)
    if isinstance(n, int) and n == 0:
        return g
    old = content(ex, st, g)
    nl = add(g.len, n)
    if isinstance(n, int) and n == 1:
        new = AStore(old, g.len, farr.get(st, off))
    else:
        new = ACopy(old, g.len, n, farr, off)
    st.assume(z3.ULE(bv(nl, 64), 1 << 61))
    st.assume(z3.ULE(bv(g.len, 64), bv(nl, 64)))
    return mk(ex, st, new, nl, g.w)


def data_ptr(ex, st, g, i=0):
    sz = st.mem[g.data].regions[0].n
    return Ptr(g.data, Lin.of(i).mul(g.w), None)


def cstrlen(ex, st, p, w):
    """Length of a NUL terminated constant string."""
    o = ex.check_access(st, p, w, False)
    if p.off.conc() is None:
        raise Unsupported('strlen at symbolic offset')
    if o.tag == 'strdata' and p.off.conc() == 0:
        # c_str() of a ghost string: equals its length unless it contains NULs - only used for literals
        raise Unsupported('strlen of a dynamic string')
    for i in range(4096):
        v = ex.load(st, p.add(i * w), w)
        if not isinstance(v, int):
            raise Unsupported('strlen of symbolic data')
        if v == 0:
            return i
    raise Unsupported('strlen')


def decide(ex, st, c):
    """[(state, truth)]"""
    return ex.branch(st, c)


S = r'(?:^|[ &*])bstr<(char|wchar_t|char8_t|char16_t|char32_t)>::'
RS = re.compile(S + r'(~?[A-Za-z_][\w]*|operator[^(]*)(?:<.*>)?\(')


def arg_sig(dem, method):
    """Text of the parameter list."""
    i = dem.rfind('::' + method)
    d = 0
    # the last top level parenthesis group
    e = len(dem)
    if dem.endswith(' const'):
        e -= 6
    if dem.endswith(' const &'):
        e -= 8
    j = e - 1
    depth = 0
    while j >= 0:
        if dem[j] == ')':
            depth += 1
        elif dem[j] == '(':
            depth -= 1
            if depth == 0:
                break
        j -= 1
    return dem[j + 1:e - 1]


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        if ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


_sigc = {}


def str_source(ex, st, tys, a, w, ch):
    """Interpret (args) describing a character sequence: (farr, off, n) and number of ir args used; None if not."""
    t0 = tys[0]
    cp = '%s const*' % ch
    if t0 == 'bstr<%s> const&' % ch or t0 == 'bstr<%s>&&' % ch or t0 == 'bstr<%s>&' % ch:
        g = getstr(ex, st, a[0])
        fa = content(ex, st, g)
        if len(tys) >= 2 and tys[1] == 'unsigned long':
            pos = a[1]
            ex.oblige(st, z3.ULE(bv(pos, 64), bv(g.len, 64)), 'std::string: position within the string')
            n = sub(g.len, pos)
            if len(tys) >= 3 and tys[2] == 'unsigned long':
                n = umin(a[2], n)
                return fa, pos, n, 3
            return fa, pos, n, 2
        return fa, 0, g.len, 1
    if t0 == cp:
        if len(tys) >= 2 and tys[1] == 'unsigned long':
            fa, off = rd_range(ex, st, a[0], a[1], w)
            return fa, off, T(a[1]), 2
        if len(tys) >= 2 and tys[1] == cp:
            n = ptrdiff(ex, st, a[0], a[1], w)
            fa, off = rd_range(ex, st, a[0], n, w)
            return fa, off, n, 2
        n = cstrlen(ex, st, a[0], w)
        fa, off = rd_range(ex, st, a[0], n, w)
        return fa, off, n, 1
    if t0 == ch:
        return ATable([a[0]], 8 * w), 0, 1, 1
    if t0 == 'unsigned long' and len(tys) >= 2 and tys[1] == ch:
        return AFn(8 * w, lambda i, v=a[1]: v), 0, T(a[0]), 2
    if t0 == 'sview<%s> const&' % ch:
        n = ex.load(st, a[0], 8)
        p = ex.load(st, a[0].add(8), 8)
        if p is NULL or p == 0:
            return ATable([], 8 * w), 0, 0, 1
        fa, off = rd_range(ex, st, p, n, w)
        return fa, off, T(n), 1
    if t0.startswith('__gnu_cxx::__normal_iterator<') and len(tys) >= 2 and tys[1] == t0:
        if ch + '*' in t0 or ch + ' const*' in t0:
            n = ptrdiff(ex, st, a[0], a[1], w)
            fa, off = rd_range(ex, st, a[0], n, w)
            return fa, off, n, 2
    return None


def ptrdiff(ex, st, a, b, w):
    if a is NULL and b is NULL:
        return 0
    if a.obj != b.obj:
        raise Unsupported('range over two objects')
    d = b.off.sub(a.off)
    if not d.divides(w):
        raise Unsupported('range not a multiple of the element width')
    return d.div(w).val()


def umin(a, b):
    a, b = T(a), T(b)
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    if isinstance(a, int) and a == M64:
        return b
    r = z3.simplify(z3.If(z3.ULT(bv(a, 64), bv(b, 64)), bv(a, 64), bv(b, 64)))
    return r.as_long() if z3.is_bv_value(r) else r


def iter_index(ex, st, g, it):
    """index designated by an iterator into string g"""
    if not isinstance(it, Ptr) or it.obj != g.data:
        raise Unsupported('iterator does not point into the string')
    return it.off.div(g.w).val()


@model(S)
def str_member(ex, st, a, fn, ins):
    dem = fn.dem
    m = RS.search(dem)
    if not m:
        return NotImplemented
    ch, meth = m.group(1), m.group(2)
    w = CW[ch]
    key = dem
    if key not in _sigc:
        _sigc[key] = split_args(arg_sig(dem, meth))
    tys = _sigc[key]
    if tys and tys[-1] in ('std::allocator<%s> const&' % ch,):
        tys = tys[:-1]
    if meth in ('_Alloc_hider', '_M_data', '_M_local_data', '_M_set_length', '_M_is_local', '_S_copy_chars', '_S_compare'):
        return NotImplemented
    if meth == 'basic_string':
        p, r = a[0], a[1:]
        if not tys:
            putstr(ex, st, p, mk(ex, st, ABase('empty', 8 * w), 0, w))
            return None
        if tys[0].startswith('std::initializer_list'):
            # passed as (pointer, length)
            fa, off = rd_range(ex, st, r[0], r[1], w)
            putstr(ex, st, p, mk(ex, st, fa, T(r[1]), w, off))
            return None
        src = str_source(ex, st, tys, r, w, ch)
        if src is None:
            return NotImplemented
        fa, off, n, _ = src
        g = mk(ex, st, fa, n, w, off)
        if tys[0] == 'bstr<%s>&&' % ch:
            putstr(ex, st, r[0], mk(ex, st, ABase('moved', 8 * w), 0, w))
        putstr(ex, st, p, g)
        return None
    if meth == '~basic_string':
        p = a[0]
        o = st.mem.get(p.obj)
        if o is not None and p.off.conc() is not None and o.cells.get(p.off.conc(), (0, None))[0] == 32:
            del st.wobj(p.obj).cells[p.off.conc()]      # other values may take its place
        return None
    p, r = a[0], a[1:]
    if meth == 'substr':
        sret, p, r = a[0], a[1], a[2:]
        g = getstr(ex, st, p)
        outs = []
        c = z3.ULE(bv(r[0], 64), bv(g.len, 64))
        for s, ok in decide(ex, st, c):
            if ok:
                n = umin(r[1], sub(g.len, r[0]))
                putstr(ex, s, sret, mk(ex, s, content(ex, s, g), n, w, T(r[0])))
                outs.append((s, None))
            else:
                outs.append(Throw(s, 'std::out_of_range'))
        return Outcomes(outs)
    g = getstr(ex, st, p)
    L = g.len
    if meth in ('size', 'length'):
        return L
    if meth == 'empty':
        return int(L == 0) if isinstance(L, int) else L == 0
    if meth in ('data', 'c_str', 'begin', 'cbegin'):
        return data_ptr(ex, st, g)
    if meth in ('end', 'cend'):
        return data_ptr(ex, st, g, L)
    if meth in ('operator[]', 'at', 'front', 'back'):
        i = r[0] if r else 0 if meth == 'front' else sub(L, 1)
        if meth == 'at':
            outs = []
            for s, ok in decide(ex, st, z3.ULT(bv(i, 64), bv(L, 64))):
                outs.append((s, data_ptr(ex, s, g, i)) if ok else Throw(s, 'std::out_of_range'))
            return Outcomes(outs)
        if meth == 'operator[]':
            ex.oblige(st, z3.ULE(bv(i, 64), bv(L, 64)), 'std::string: operator[] index within the string')
        else:
            ex.oblige(st, bv(L, 64) != 0, 'std::string: %s() of a non-empty string' % meth)
        return data_ptr(ex, st, g, i)
    if meth == 'push_back':
        putstr(ex, st, p, append(ex, st, g, ATable([r[0]], 8 * w), 0, 1))
        return None
    if meth == 'pop_back':
        ex.oblige(st, bv(L, 64) != 0, 'std::string: pop_back() of a non-empty string')
        putstr(ex, st, p, mk(ex, st, content(ex, st, g), sub(L, 1), w))
        return None
    if meth in ('append', 'operator+='):
        src = str_source(ex, st, tys, r, w, ch)
        if src is None:
            return NotImplemented
        putstr(ex, st, p, append(ex, st, g, src[0], src[1], src[2]))
        return p
    if meth in ('assign', 'operator='):
        src = str_source(ex, st, tys, r, w, ch)
        if src is None:
            return NotImplemented
        ng = mk(ex, st, src[0], src[2], w, src[1])
        if tys[0] == 'bstr<%s>&&' % ch and not (r[0].obj == p.obj and r[0].off.sub(p.off).conc() == 0):
            putstr(ex, st, r[0], mk(ex, st, ABase('moved', 8 * w), 0, w))
        putstr(ex, st, p, ng)
        return p
    if meth == 'clear':
        putstr(ex, st, p, mk(ex, st, ABase('empty', 8 * w), 0, w))
        return None
    if meth in ('reserve', 'shrink_to_fit'):
        return None
    if meth == 'resize':
        n = T(r[0])
        c = r[1] if len(r) > 1 else 0
        old = content(ex, st, g)
        if isinstance(n, int) and n == 0:
            new = ABase('empty', 8 * w)
        else:
            new = AFnSt(8 * w, lambda s, i, old=old, L=L, c=c: z3.If(z3.ULT(bv(i, 64), bv(L, 64)), bv(old.get(s, i), 8 * w), bv(c, 8 * w)))
            if isinstance(n, int) and isinstance(L, int):
                new = ATable([old.get(st, i) if i < L else c for i in range(n)], 8 * w)
        putstr(ex, st, p, mk(ex, st, new, n, w))
        return None
    if meth == 'insert':
        if tys[0].startswith('__gnu_cxx::__normal_iterator<') and len(tys) == 2 and tys[1] == ch:
            i = iter_index(ex, st, g, r[0])
            src = (ATable([r[1]], 8 * w), 0, 1)
            ret = lambda ng: data_ptr(ex, st, ng, i)
        elif tys[0].startswith('__gnu_cxx::__normal_iterator<'):
            i = iter_index(ex, st, g, r[0])
            src = str_source(ex, st, tys[1:], r[1:], w, ch)
            ret = lambda ng: data_ptr(ex, st, ng, i)
        else:
            i = r[0]
            src = str_source(ex, st, tys[1:], r[1:], w, ch)
            ret = lambda ng: p
        if src is None:
            return NotImplemented
        ex.oblige(st, z3.ULE(bv(i, 64), bv(L, 64)), 'std::string: insert position within the string')
        old = content(ex, st, g)
        n = src[2]
        nl = add(L, n)
        st.assume(z3.ULE(bv(nl, 64), 1 << 61))
        st.assume(z3.ULE(bv(L, 64), bv(nl, 64)))
        t1 = ACopy(old, i, n, src[0], src[1])
        new = ACopy(t1, add(i, n), sub(L, i), old, i)
        ng = mk(ex, st, new, nl, w)
        putstr(ex, st, p, ng)
        return ret(ng)
    if meth == 'erase':
        if tys and tys[0].startswith('__gnu_cxx::__normal_iterator<'):
            i = iter_index(ex, st, g, r[0])
            j = iter_index(ex, st, g, r[1]) if len(tys) > 1 else add(i, 1)
            ex.oblige(st, z3.And(z3.ULE(bv(i, 64), bv(j, 64)), z3.ULE(bv(j, 64), bv(L, 64))), 'std::string: erase range within the string')
            n = sub(j, i)
            ret = lambda ng: data_ptr(ex, st, ng, i)
        else:
            i = T(r[0])
            ex.oblige(st, z3.ULE(bv(i, 64), bv(L, 64)), 'std::string: erase position within the string')
            n = umin(r[1], sub(L, i))
            ret = lambda ng: p
        old = content(ex, st, g)
        new = ACopy(old, i, sub(sub(L, i), n), old, add(i, n))
        ng = mk(ex, st, new, sub(L, n), w)
        putstr(ex, st, p, ng)
        return ret(ng)
    if meth == 'replace' and tys[0] == 'unsigned long' and tys[1] == 'unsigned long':
        src = str_source(ex, st, tys[2:], r[2:], w, ch)
        if src is None:
            return NotImplemented
        i = T(r[0])
        ex.oblige(st, z3.ULE(bv(i, 64), bv(L, 64)), 'std::string: replace position within the string')
        n1 = umin(r[1], sub(L, i))
        fa, off, n2 = src[:3]
        old = content(ex, st, g)
        t1 = ACopy(old, i, n2, fa, off)
        tail = sub(sub(L, i), n1)
        new = ACopy(t1, add(i, n2), tail, old, add(i, n1))
        nl = add(sub(L, n1), n2)
        st.assume(z3.ULE(bv(nl, 64), 1 << 61))
        ng = mk(ex, st, new, nl, w)
        putstr(ex, st, p, ng)
        return p
    if meth == 'swap':
        h = getstr(ex, st, r[0])
        putstr(ex, st, p, h)
        putstr(ex, st, r[0], g)
        return None
    if meth.startswith('operator sview') or meth.startswith('operator std::basic_string_view') or 'operator sview' in dem:
        return Agg([L, data_ptr(ex, st, g)])
    return NotImplemented


class AFnSt(FArr):
    def __init__(self, w, f):
        self.w, self.f = w, f

    def get(self, st, i):
        return self.f(st, i)


@model(r'bstr<(char|wchar_t|char8_t|char16_t|char32_t)>::operator sview<')
def str_to_view(ex, st, a, fn, ins):
    g = getstr(ex, st, a[0])
    return Agg([g.len, data_ptr(ex, st, g)])


RPLUS = re.compile(r'^bstr<(char|wchar_t|char8_t|char16_t|char32_t)> std::operator\+<')


@model(r'^bstr<(char|wchar_t|char8_t|char16_t|char32_t)> std::operator\+<')
def str_plus(ex, st, a, fn, ins):
    ch = RPLUS.match(fn.dem).group(1)
    w = CW[ch]
    tys = split_args(arg_sig(fn.dem, 'operator+'))
    s1 = str_source(ex, st, tys[:1], a[1:2], w, ch)
    s2 = str_source(ex, st, tys[1:], a[2:3], w, ch)
    if s1 is None or s2 is None:
        return NotImplemented
    g = mk(ex, st, s1[0], s1[2], w, s1[1])
    putstr(ex, st, a[0], append(ex, st, g, *s2[:3]))
    return None


# ------------------------------------------------------------------ character sequences
def eq_ranges(ex, st, fa, oa, fb, ob, n, w):
    """Boolean: the n characters are equal; n concrete and small, else a skolemised / instantiated equality."""
    n = T(n)
    if isinstance(n, int) and n <= 64:
        cs = []
        for i in range(n):
            x, y = fa.get(st, add(oa, i)), fb.get(st, add(ob, i))
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    return 0
                continue
            cs.append(bv(x, 8 * w) == bv(y, 8 * w))
        if not cs:
            return 1
        return z3.And(*cs) if len(cs) > 1 else cs[0]
    hook = ex.__dict__.get('eq_hook')
    if hook:
        return hook(ex, st, fa, oa, fb, ob, n, w)
    b = fresh('eq', 1)
    i = fresh('neq_at', 64)
    x, y = fa.get(st, add(oa, i)), fb.get(st, add(ob, i))
    st.assume(z3.Or(b, z3.And(z3.ULT(i, bv(n, 64)), bv(x, 8 * w) != bv(y, 8 * w))))
    inst = st.ghost.get('eqfacts', ())
    st.ghost['eqfacts'] = inst + ((b, fa, oa, fb, ob, n, w),)
    for j in st.ghost.get('eqidx', ()):
        inst_eq(st, st.ghost['eqfacts'][-1], j)
    return b


def inst_eq(st, fact, j):
    b, fa, oa, fb, ob, n, w = fact
    x, y = fa.get(st, add(oa, j)), fb.get(st, add(ob, j))
    st.assume(z3.Implies(z3.And(b, z3.ULT(bv(j, 64), bv(n, 64))), bv(x, 8 * w) == bv(y, 8 * w)))


def instantiate_eqs(st, j):
    """Use every assumed sequence equality at index j."""
    for f in st.ghost.get('eqfacts', ()):
        inst_eq(st, f, j)


def seq_of(ex, st, ty, a, w, ch):
    return str_source(ex, st, [ty], a, w, ch)


@model(r'^bool std::operator==<(char|wchar_t|char8_t|char16_t|char32_t), .*\((bstr<.*> const&), (bstr<.*> const&|\w+ const\*)\)$')
def str_eq(ex, st, a, fn, ins):
    tys = split_args(arg_sig(fn.dem, 'operator=='))
    ch = re.search(r'operator==<(\w+)', fn.dem).group(1)
    w = CW[ch]
    fa, oa, na, _ = str_source(ex, st, tys[:1], a[:1], w, ch)
    fb, ob, nb, _ = str_source(ex, st, tys[1:], a[1:], w, ch)
    return seq_eq(ex, st, fa, oa, na, fb, ob, nb, w)


def seq_eq(ex, st, fa, oa, na, fb, ob, nb, w):
    na, nb = T(na), T(nb)
    if isinstance(na, int) and isinstance(nb, int):
        if na != nb:
            return 0
        return eq_ranges(ex, st, fa, oa, fb, ob, na, w)
    n = na if isinstance(na, int) else nb
    e = eq_ranges(ex, st, fa, oa, fb, ob, n, w)
    l = bv(na, 64) == bv(nb, 64)
    return z3.And(l, boolv(e))


def _view(ex, st, n, p, w):
    n = T(n)
    if p is NULL or (isinstance(n, int) and n == 0):
        return ATable([], 8 * w), 0, n
    fa, off = rd_range(ex, st, p, n, w)
    return fa, off, n


@model(r'^(bool )?(constexpr )?.*std::operator==<(char|wchar_t|char8_t|char16_t|char32_t), std::char_traits<\w+> ?>\(sview<.*>, (sview<.*>|std::type_identity.*|std::__type_identity_t.*|std::common_type<.*)\)$')
def view_eq(ex, st, a, fn, ins):
    ch = re.search(r'operator==<(\w+)', fn.dem).group(1)
    w = CW[ch]
    fa, oa, na = _view(ex, st, a[0], a[1], w)
    fb, ob, nb = _view(ex, st, a[2], a[3], w)
    return seq_eq(ex, st, fa, oa, na, fb, ob, nb, w)


@model(r'^std::char_traits<(\w+)>::compare\(')
def ct_compare(ex, st, a, fn, ins):
    w = CW[re.search(r'char_traits<(\w+)>', fn.dem).group(1)]
    n = T(a[2])
    if isinstance(n, int) and n == 0:
        return 0
    fa, oa = rd_range(ex, st, a[0], n, w)
    fb, ob = rd_range(ex, st, a[1], n, w)
    e = eq_ranges(ex, st, fa, oa, fb, ob, n, w)
    r = fresh('cmp', 32)
    st.assume((r == 0) == boolv(e))
    return r


@model(r'^std::char_traits<(\w+)>::length\(')
def ct_length(ex, st, a, fn, ins):
    w = CW[re.search(r'char_traits<(\w+)>', fn.dem).group(1)]
    return cstrlen(ex, st, a[0], w)


@model(r'^strlen$')
def c_strlen(ex, st, a, fn, ins):
    return cstrlen(ex, st, a[0], 1)


@model(r'^std::char_traits<(\w+)>::find\(')
def ct_find(ex, st, a, fn, ins):
    """find(p, n, c const&): pointer to the first match or null"""
    ch = re.search(r'char_traits<(\w+)>', fn.dem).group(1)
    w = CW[ch]
    n = T(a[1])
    c = ex.load(st, a[2], w)
    if isinstance(n, int) and n == 0:
        return NULL
    fa, off = rd_range(ex, st, a[0], n, w)
    if isinstance(n, int) and n <= 40:
        outs = []
        cur = st
        for i in range(n):
            x = fa.get(cur, add(off, i))
            nxt = None
            eq = ex.icmp(cur, 'eq', x, c, type('t', (), {'bits': 8 * w, 'kind': 'int'})())
            for s, tv in ex.branch(cur, eq):
                if tv:
                    outs.append((s, a[0].add(i * w)))
                else:
                    nxt = s
            if nxt is None:
                return Outcomes(outs)
            cur = nxt
        outs.append((cur, NULL))
        return Outcomes(outs)
    s2 = st.clone()
    i = fresh('found', 64)
    st.assume(z3.ULT(i, bv(n, 64)))
    st.assume(bv(fa.get(st, add(off, i)), 8 * w) == bv(c, 8 * w))
    st.ghost['nofind'] = st.ghost.get('nofind', ()) + ((fa, off, i, c, w),)
    s2.ghost['nofind'] = s2.ghost.get('nofind', ()) + ((fa, off, n, c, w),)
    return Outcomes([(st, a[0].add(Lin.of(i).mul(w))), (s2, NULL)])


def inst_nofind(st, j):
    """No earlier occurrence: instantiate every find() result at (relative) index j."""
    for fa, off, n, c, w in st.ghost.get('nofind', ()):
        x = fa.get(st, add(off, j))
        st.assume(z3.Implies(z3.ULT(bv(j, 64), bv(n, 64)), bv(x, 8 * w) != bv(c, 8 * w)))


# ------------------------------------------------------------------ misc
@model(r'^std::__glibcxx_assert_fail|^std::__throw_|^__assert_fail')
def assert_fail(ex, st, a, fn, ins):
    m = re.match(r'std::__throw_(\w+)', fn.dem)
    if m:
        n = m.group(1).replace('_fmt', '')
        return Throw(st, 'std::' + n)
    ex.oblige(st, False, 'undefined behaviour: violated precondition of a standard library function')
    raise PathEnd()


@model(r'^(std::terminate\(\)|__clang_call_terminate|abort)$')
def term(ex, st, a, fn, ins):
    ex.oblige(st, False, 'control: std::terminate is reached')
    raise PathEnd()


@model(r'^operator delete|^operator delete\[\]')
def op_delete(ex, st, a, fn, ins):
    return None


@model(r'^operator new(\[\])?\(unsigned long\)')
def op_new(ex, st, a, fn, ins):
    n = a[0]
    return ex.new(st, 'heap', n, 'heap')


@model(r'^__cxa_begin_catch$')
def begin_catch(ex, st, a, fn, ins):
    return NULL


@model(r'^__cxa_end_catch$')
def end_catch(ex, st, a, fn, ins):
    return None


@model(r'^__cxa_allocate_exception$')
def alloc_exc(ex, st, a, fn, ins):
    return ex.new(st, 'exception', a[0], 'heap')


@model(r'^std::(out_of_range|invalid_argument|length_error|logic_error|runtime_error)::\1\(char const\*\)$')
def std_exc(ex, st, a, fn, ins):
    return None


@model(r'^__cxa_free_exception$')
def free_exc(ex, st, a, fn, ins):
    return None


@model(r'^__cxa_throw$')
def cxa_throw(ex, st, a, fn, ins):
    nm = a[1].obj[1:] if isinstance(a[1], Ptr) else ''
    return Throw(st, ex.dem_type(nm), a[0])


@model(r'^__cxa_rethrow$')
def cxa_rethrow(ex, st, a, fn, ins):
    return Throw(st, st.exc, None)


@model(r'^__cxa_guard_acquire$')
def guard_acq(ex, st, a, fn, ins):
    return 1


@model(r'^__cxa_guard_release$|^__cxa_atexit$|^__cxa_guard_abort$')
def guard_rel(ex, st, a, fn, ins):
    return 0


@model(r'^std::(allocator|__new_allocator)<.*>::~?(allocator|__new_allocator)\(|^std::__new_allocator')
def allocator_(ex, st, a, fn, ins):
    return None


# ------------------------------------------------------------------ streams
VB = 256


def new_istream(ex, st, name='in', n=None, farr=None):
    """An istream over n ghost bytes, good(), position 0."""
    vt = ex.new(st, name + '.vtbl', 64, 'global', True)
    st.mem[vt.obj].cells[0] = (8, VB)
    p = ex.new(st, name, 1024, 'param')
    st.mem[p.obj].cells[0] = (8, Ptr(vt.obj, Lin(24)))
    n = fresh(name + '_size', 64) if n is None else n
    if not isinstance(n, int):
        st.assume(z3.ULT(n, 1 << 60))
    st.ghost[('stream', p.obj)] = Ghost('istream', data=farr or ABase(name, 8), n=n, pos=z3.BitVecVal(0, 64), eof=z3.BoolVal(False),
                                        fail=z3.BoolVal(False), gcount=z3.BitVecVal(0, 64))
    return p


def new_ostream(ex, st, name='out', farr=None, can_fail=False):
    vt = ex.new(st, name + '.vtbl', 64, 'global', True)
    st.mem[vt.obj].cells[0] = (8, VB)
    p = ex.new(st, name, 1024, 'param')
    st.mem[p.obj].cells[0] = (8, Ptr(vt.obj, Lin(24)))
    st.ghost[('stream', p.obj)] = Ghost('ostream', data=ABase(name, 8), n=z3.BitVecVal(0, 64), fail=z3.BoolVal(False),
                                        eof=z3.BoolVal(False), spec=None)
    return p


def gstream(st, p):
    g = st.ghost.get(('stream', p.obj))
    if g is None:
        raise Unsupported('unknown stream object %s' % p.obj)
    return g


def setstream(ex, st, p, g):
    st.ghost[('stream', p.obj)] = g
    ex.record(st, ('ghost', ('stream', p.obj)))


@model(r'^std::ios::(good|eof|fail|bad|operator!|operator bool|rdstate|setstate|clear)(\(| )')
def ios_state(ex, st, a, fn, ins):
    g = gstream(st, a[0])
    m = re.search(r'std::ios::(good|eof|fail|bad|operator!|operator bool|rdstate|setstate|clear)', fn.dem).group(1)
    if m == 'good':
        return z3.Not(z3.Or(g.eof, g.fail))
    if m == 'eof':
        return g.eof
    if m in ('fail', 'operator!'):
        return g.fail
    if m == 'bad':
        return z3.BoolVal(False)
    if m == 'operator bool':
        return z3.Not(g.fail)
    if m == 'rdstate':
        return bv(g.eof, 32) * 2 + bv(g.fail, 32) * 4
    f = a[1]
    if not isinstance(f, int):
        raise Unsupported('symbolic iostate')
    ng = g
    if m == 'clear':
        ng = ng.set(eof=z3.BoolVal(bool(f & 2)), fail=z3.BoolVal(bool(f & 5)))
    else:
        if f & 5:
            ng = ng.set(fail=z3.BoolVal(True))
        if f & 2:
            ng = ng.set(eof=z3.BoolVal(True))
    setstream(ex, st, a[0], ng)
    return None


@model(r'^std::istream::read\(char\*, long\)')
def is_read(ex, st, a, fn, ins):
    p, buf, n = a
    g = gstream(st, p)
    outs = []
    for s, ok in decide(ex, st, z3.Not(z3.Or(g.eof, g.fail))):
        if not ok:
            setstream(ex, s, p, g.set(fail=z3.BoolVal(True), gcount=z3.BitVecVal(0, 64)))
            outs.append((s, p))
            continue
        av = sub(g.n, g.pos)
        for s2, full in decide(ex, s, z3.ULE(bv(n, 64), bv(av, 64))):
            cnt = T(n) if full else av
            copy_in(ex, s2, buf, g.data, g.pos, cnt)
            ng = g.set(pos=bv(add(g.pos, cnt), 64), gcount=bv(cnt, 64))
            if not full:
                ng = ng.set(eof=z3.BoolVal(True), fail=z3.BoolVal(True))
            setstream(ex, s2, p, ng)
            outs.append((s2, p))
    return Outcomes(outs)


def copy_in(ex, st, buf, farr, pos, cnt):
    o = ex.check_access(st, buf, 0, True)
    if isinstance(cnt, int) and cnt <= 16 and ex.region_for(st, o, buf, 1) is None and buf.off.conc() is not None:
        for i in range(cnt):
            ex.store(st, buf.add(i), 1, farr.get(st, add(pos, i)))
        return
    rr = ex.region_for(st, o, buf, 1)
    if rr is None:
        o = ex.make_region(st, o, buf, 1)
        rr = ex.region_for(st, o, buf, 1)
    r, i, sb = rr
    ex.range_check(st, o, r, i, cnt, 'write')
    o = st.wobj(o.id)
    r = [x for x in o.regions if x.start == r.start and x.stride == r.stride][0]
    ex.record(st, (o.id, 'r', r.start))
    base = r.fields.get((0, 1)) or ABase(o.name, 8)
    r.fields[(0, 1)] = ACopy(base, i.val(), cnt, farr, pos)


@model(r'^std::istream::gcount\(\) const')
def is_gcount(ex, st, a, fn, ins):
    return gstream(st, a[0]).gcount


@model(r'^std::istream::peek\(\)')
def is_peek(ex, st, a, fn, ins):
    return _getpeek(ex, st, a[0], False)


@model(r'^std::istream::get\(\)')
def is_get(ex, st, a, fn, ins):
    return _getpeek(ex, st, a[0], True)


def _getpeek(ex, st, p, adv):
    g = gstream(st, p)
    outs = []
    for s, ok in decide(ex, st, z3.Not(z3.Or(g.eof, g.fail))):
        if not ok:
            ng = g.set(gcount=z3.BitVecVal(0, 64))
            ng = ng.set(fail=z3.BoolVal(True))
            setstream(ex, s, p, ng)
            outs.append((s, 0xffffffff))
            continue
        for s2, more in decide(ex, s, z3.ULT(bv(g.pos, 64), bv(g.n, 64))):
            if more:
                c = z3.ZeroExt(24, bv(g.data.get(s2, g.pos), 8))
                ng = g.set(gcount=z3.BitVecVal(1 if adv else 0, 64))
                if adv:
                    ng = ng.set(pos=bv(add(g.pos, 1), 64))
                setstream(ex, s2, p, ng)
                outs.append((s2, c))
            else:
                ng = g.set(eof=z3.BoolVal(True), gcount=z3.BitVecVal(0, 64))
                if adv:
                    ng = ng.set(fail=z3.BoolVal(True))
                setstream(ex, s2, p, ng)
                outs.append((s2, 0xffffffff))
    return Outcomes(outs)


@model(r'^std::istream::(tellg\(\)|seekg\()')
def is_tell(ex, st, a, fn, ins):
    raise Unsupported('tellg/seekg')


@model(r'^std::ostream::write\(char const\*, long\)')
def os_write(ex, st, a, fn, ins):
    p, buf, n = a
    n = T(n)
    ex.oblige(st, bv(n, 64) >= 0, 'std::ostream::write: non-negative count')
    fa, off = rd_range(ex, st, buf, n, 1)
    return os_put(ex, st, p, fa, off, n)


@model(r'^std::ostream::put\(char\)')
def os_putc(ex, st, a, fn, ins):
    return os_put(ex, st, a[0], ATable([a[1]], 8), 0, 1)


@model(r'^std::ostream& std::operator<< <std::char_traits<char> ?>\(std::ostream&, (char const\*|char|signed char|unsigned char)\)')
def os_shl(ex, st, a, fn, ins):
    if 'const*' in fn.dem:
        n = cstrlen(ex, st, a[1], 1)
        fa, off = rd_range(ex, st, a[1], n, 1)
        return os_put(ex, st, a[0], fa, off, n)
    return os_put(ex, st, a[0], ATable([a[1]], 8), 0, 1)


@model(r'^std::ostream& std::operator<< <char, .*>\(std::ostream&, (bstr<char> const&|sview<char>)\)')
def os_shls(ex, st, a, fn, ins):
    if 'bstr' in fn.dem.split('(')[-1]:
        g = getstr(ex, st, a[1])
        return os_put(ex, st, a[0], content(ex, st, g), 0, g.len)
    fa, off, n = _view(ex, st, a[1], a[2], 1)
    return os_put(ex, st, a[0], fa, off, n)


@model(r'^std::ostream::flush\(\)')
def os_flush(ex, st, a, fn, ins):
    return a[0]


def os_put(ex, st, p, fa, off, n):
    """Append to the ghost output log.  A spec attached to the stream is checked against every appended range."""
    g = gstream(st, p)
    outs = []
    for s, failed in decide(ex, st, z3.Or(g.fail, g.eof)):
        if failed:
            outs.append((s, p))
            continue
        if g.spec is not None:
            g.spec(ex, s, g, fa, off, n)
        if isinstance(n, int) and n == 1:
            data = AStore(g.data, g.n, fa.get(s, off))
        else:
            data = ACopy(g.data, g.n, n, fa, off)
        setstream(ex, s, p, g.set(data=data, n=bv(add(g.n, n), 64)))
        outs.append((s, p))
    return Outcomes(outs)


# ------------------------------------------------------------------------------ <charconv>
CBITS = {'char': 8, 'short': 16, 'int': 32, 'long': 64, 'long long': 64}


def ghost_digits(base):
    """The digits of a number: how many there are, and the i-th one as a character (most significant first)."""
    B = z3.BitVecSort(64)
    return z3.Function('ndigits_%d' % base, B, B), z3.Function('digit_%d' % base, B, B, z3.BitVecSort(8))


class AFun(FArr):
    """Contents given by a function of the index."""

    def __init__(self, f, w):
        self.f, self.w = f, w

    def get(self, st, i):
        return self.f(st, bv(i, 64))


@model(r'^std::to_chars\(char\*, char\*, unsigned (char|short|int|long|long long), int\)')
def to_chars(ex, st, a, fn, ins):
    """to_chars of an unsigned integer: its digits in the base, without leading zeros."""
    first, last, v, base = a
    w = CBITS[re.search(r'unsigned (char|short|int|long long|long)', fn.dem).group(1)]
    outs = []
    bases = [(st, base)]
    if not isinstance(base, int):
        vs = ex.few_values(st, bv(base, 32)) or []
        if not vs:
            raise Unsupported('to_chars with an arbitrary base')
        bases = []
        for b in vs[:-1]:
            for s, y in decide(ex, st, bv(base, 32) == b):
                if y:
                    bases.append((s, b))
                else:
                    st = s
        bases.append((st, vs[-1]))
    for s, b in bases:
        ex.oblige(s, 2 <= b <= 36, 'to_chars: base between 2 and 36')
        room = ptrdiff(ex, s, last, first, 1)
        x = bv(v, w)
        bits = w
        for nb in (8, 16):
            if nb < w and not ex.sol.feasible(s.pc, z3.Not(z3.ULT(x, z3.BitVecVal(1 << nb, w)))):
                bits = nb
                break
        if bits <= 16 and getattr(ex, 'concrete_digits', True):
            # one path per number of digits
            y = z3.Extract(bits - 1, 0, x) if bits < w else x
            m = 1
            while b ** m < (1 << bits):
                m += 1
            for n in range(1, m + 1):
                lo = z3.UGE(y, b ** (n - 1)) if n > 1 else True
                hi = z3.ULT(y, b ** n) if n < m else True
                c = z3.simplify(z3.And(lo, hi))
                if not ex.sol.feasible(s.pc, c):
                    continue
                s1 = s.clone()
                s1.assume(c)
                ex.oblige(s1, z3.UGE(bv(room, 64), n), 'to_chars: the buffer has room for the digits')
                for i in range(n):
                    d = z3.UDiv(y, z3.BitVecVal(b ** (n - 1 - i), bits)) if n - 1 - i else y
                    d = z3.URem(d, z3.BitVecVal(b, bits)) if i else d
                    d = z3.Extract(7, 0, d) if bits > 8 else d
                    ex.store(s1, first.add(i), 1, z3.simplify(z3.If(z3.ULT(d, 10), d + 48, d + 87) if b > 10 else d + 48))
                outs.append((s1, Agg([first.add(n), 0])))
            continue
        nd, dg = ghost_digits(b)
        x = z3.ZeroExt(64 - w, x) if w < 64 else x
        n = nd(x)
        m = 1
        while b ** m < (1 << w):
            m += 1
        s.assume(z3.And(z3.UGE(n, 1), z3.ULE(n, m)))
        ex.oblige(s, z3.UGE(bv(room, 64), n), 'to_chars: the buffer has room for the digits')
        copy_in(ex, s, first, AFun(lambda st_, i, x=x, dg=dg: dg(x, i), 8), 0, n)
        outs.append((s, Agg([first.add(n), 0])))
    return Outcomes(outs)


# ------------------------------------------------------------------ stream buffers (assumed contract of std::streambuf)
def new_streambuf(ex, st, sp, file, size, writable):
    """The buffer of stream sp: `file` is a byte buffer object, of `size` bytes for reading or that capacity for writing."""
    b = ex.new(st, 'streambuf', 64, 'param')
    st.ghost[('sb', b.obj)] = Ghost('sb', file=file, n=size, pos=0, w=writable, high=0)
    st.ghost[('rdbuf', sp.obj)] = b
    return b


def _sb(st, p):
    g = st.ghost.get(('sb', p.obj))
    if g is None:
        raise Unsupported('unknown stream buffer')
    return g


def _setsb(ex, st, p, g):
    st.ghost[('sb', p.obj)] = g
    ex.record(st, ('ghost', ('sb', p.obj)))


@model(r'^std::ios::rdbuf\(\) const')
def sb_rdbuf(ex, st, a, fn, ins):
    b = st.ghost.get(('rdbuf', a[0].obj))
    if b is None:
        raise Unsupported('rdbuf of an unknown stream')
    return b


SB = r'^std::basic_streambuf<char(, std::char_traits<char>)? ?>::'


@model(SB + r'pubseekpos\(')
def sb_seekpos(ex, st, a, fn, ins):
    g = _sb(st, a[0])
    _setsb(ex, st, a[0], g.set(pos=a[1]))
    return Agg([a[1], 0])


def _split(ex, st, v, lo, hi):
    """[(state, n)] for the values of v, which must be within lo..hi."""
    if isinstance(v, int):
        return [(st, v)]
    r = []
    for n in range(lo, hi):
        yes, no = None, None
        for s, t in ex.branch(st, bv(v, 64) == n):
            if t:
                r.append((s, n))
            else:
                no = s
        if no is None:
            return r
        st = no
    ex.oblige(st, bv(v, 64) == hi, 'streambuf: the count is at most %d' % hi)
    return r + [(st, hi)]


@model(SB + r'sgetn\(char\*, long\)')
def sb_sgetn(ex, st, a, fn, ins):
    out = []
    ex.oblige(st, bv(a[2], 64) >= 0, 'streambuf: non-negative count')
    for s, n in _split(ex, st, a[2], 0, 8):
        g = _sb(s, a[0])
        left = sub(g.n, g.pos)
        got = z3.If(z3.ULT(bv(left, 64), n), bv(left, 64), z3.BitVecVal(n, 64)) if n else 0
        for s2, m in _split(ex, s, got, 0, n):
            g = _sb(s2, a[0])
            for i in range(m):
                ex.store(s2, a[1].add(i), 1, ex.load(s2, g.file.add(add(g.pos, i)), 1))
            _setsb(ex, s2, a[0], g.set(pos=add(g.pos, m)))
            out.append((s2, m))
    return Outcomes(out)


@model(SB + r'sputn\(char const\*, long\)')
def sb_sputn(ex, st, a, fn, ins):
    out = []
    ex.oblige(st, bv(a[2], 64) >= 0, 'streambuf: non-negative count')
    for s, n in _split(ex, st, a[2], 0, 8):
        g = _sb(s, a[0])
        for i in range(n):
            ex.store(s, g.file.add(add(g.pos, i)), 1, ex.load(s, a[1].add(i), 1))
        _setsb(ex, s, a[0], g.set(pos=add(g.pos, n)))
        out.append((s, n))
    return Outcomes(out)


@model(SB + r'sgetc\(\)')
def sb_sgetc(ex, st, a, fn, ins):
    g = _sb(st, a[0])
    out = []
    for s, more in ex.branch(st, z3.ULT(bv(g.pos, 64), bv(g.n, 64))):
        if more:
            b = ex.load(s, g.file.add(g.pos), 1)
            out.append((s, b if isinstance(b, int) else z3.ZeroExt(24, bv(b, 8))))
        else:
            out.append((s, 0xffffffff))
    return Outcomes(out)


@model(r'^memcmp$')
def memcmp(ex, st, a, fn, ins):
    """Constant sizes: the sign of the first difference."""
    p, q, n = a
    if not isinstance(n, int) or n > 256:
        raise Unsupported('memcmp of unknown or large size')
    r = z3.BitVecVal(0, 32)
    for i in reversed(range(n)):
        x, y = bv(ex.load(st, p.add(i), 1), 8), bv(ex.load(st, q.add(i), 1), 8)
        r = z3.If(z3.ULT(x, y), z3.BitVecVal(-1, 32), z3.If(z3.UGT(x, y), z3.BitVecVal(1, 32), r))
    return r
