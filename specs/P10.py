"""P10: IPv6 addresses."""
import z3
from flyvc.val import *
from flyvc.execu import LoopSpec, Imp
from flyvc.models import getstr, content, appended, ghost_digits
from . import P12
from .digits import Digits, Run, number_contract, c_number, HEX

BUDGET = 400
DRIVER_S = 25
B = lambda v: z3.BitVecVal(v, 64)


def reference(ex, st, D):
    """The grammar, as a reference recogniser over the ghost runs of digits: (state, groups or None, where :: stands)."""
    def is_colon(s, i):
        return z3.And(z3.ULT(i, D.n), D.at(s, i) == ord(':'))

    def group(s, p):
        """A group at p: (state, value or None, the position after it)"""
        D.start(s, p)
        some, fits, v, e = D.number(p)
        for s1, y in ex.branch(s, z3.And(z3.ULT(p, D.n), some, fits, z3.ULE(v, 0xffff))):
            yield s1, (z3.Extract(15, 0, v) if y else None), e

    def groups(s, p, short, left, right):
        """Groups from position p on."""
        for s1, v, e in group(s, p):
            if v is None:
                yield s1, None, None
                continue
            l, r = (left, right + [v]) if short else (left + [v], right)
            yield from after(s1, e, short, l, r)

    def after(s, e, short, left, right):
        for s1, end in ex.branch(s, e == D.n):
            if end:
                k = len(left) + len(right)
                if short:
                    yield s1, (left + [None] * (8 - k) + right if k < 8 else None), len(left)
                else:
                    yield s1, (left if k == 8 else None), None
                continue
            if len(left) + len(right) >= 8:
                yield s1, None, None
                continue
            for s2, c in ex.branch(s1, is_colon(s1, e)):
                if not c:
                    yield s2, None, None
                    continue
                for s3, cc in ex.branch(s2, is_colon(s2, e + 1)):
                    if not cc:
                        yield from groups(s3, e + 1, short, left, right)
                    elif short:
                        yield s3, None, None
                    else:
                        yield from tail(s3, e + 2, left)

    def tail(s, p, left):
        """After the shortened run."""
        for s1, end in ex.branch(s, p == D.n):
            if end:
                yield s1, (left + [None] * (8 - len(left)) if len(left) < 8 else None), len(left)
            else:
                yield from groups(s1, p, True, left, [])

    for s, lead in ex.branch(st, z3.And(is_colon(st, B(0)), is_colon(st, B(1)))):
        if lead:
            yield from tail(s, B(2), [])
        else:
            yield from groups(s, B(0), False, [], [])


def c_parse(t):
    """from_string accepts exactly the grammar and yields the address it denotes"""
    ex, st = t.ex, t.state()
    n = fresh('n', 64)
    st.assume(z3.ULT(n, 1 << 48))
    p = ex.buffer(st, 'text', n, 1, const=True)
    out = ex.buffer(st, 'out', 16, 1)
    fa = st.mem[p.obj].regions[0].fields[(0, 1)]
    D = Digits(fa, n, 16)
    t.watch('n', n)
    for i in range(40):
        t.watch('text %d' % i, D.at(st, B(i)))
    ex.loopspecs = [Run(D)]                    # for a tree where the number is not read by a call
    ex.contracts[HEX] = number_contract(D, p)
    count = 0
    for kind, s, r in ex.run(ex.find('^vp_parse6$'), [p, n, out], st):
        ex.oblige(s, kind == 'ret', 'from_string returns')
        D.settle(ex, s)
        for s1, good in ex.branch(s, boolv(r)):
            ex.cover(s1, 'accepted' if good else 'rejected')
            for s2, want, short in reference(ex, s1, D):
                count += 1
                if want is None:
                    ex.oblige(s2, not good, 'from_string: only addresses of the grammar are accepted')
                    continue
                ex.oblige(s2, good, 'from_string: every address of the grammar is accepted')
                if good:
                    got = bytes_at(ex, s2, out)
                    exp = [x for g in want for x in ([z3.BitVecVal(0, 8)] * 2 if g is None else [z3.Extract(15, 8, g), z3.Extract(7, 0, g)])]
                    ex.oblige(s2, z3.And(*[x == y for x, y in zip(got, exp)]), 'from_string: the address the text denotes')


def bytes_at(ex, st, p, n=16):
    fa = st.mem[p.obj].regions[0].fields[(0, 1)]
    return [bv(fa.get(st, i), 8) for i in range(n)]


def c_orders(t):
    """an address holds the bytes it is made of; comparison is the one of the bytes"""
    ex = t.ex
    st = t.state()
    b = ex.buffer(st, 'octets', 16, 1, const=True)
    out = ex.buffer(st, 'out', 16, 1)
    x = bytes_at(ex, st, b)
    for kind, s, r in ex.run(ex.find('^vp_copy6$'), [b, out], st):
        ex.cover(s, 'copy')
        ex.oblige(s, z3.And(*[u == v for u, v in zip(x, bytes_at(ex, s, out))]), 'copy gives the bytes of the address')
    st = t.state()
    a, b = ex.buffer(st, 'a', 16, 1, const=True), ex.buffer(st, 'b', 16, 1, const=True)
    x, y = z3.Concat(*bytes_at(ex, st, a)), z3.Concat(*bytes_at(ex, st, b))
    for kind, s, r in ex.run(ex.find('^vp_eq6$'), [a, b], st.clone()):
        ex.cover(s, 'equal')
        ex.oblige(s, boolv(r) == (x == y), 'addresses are equal iff their bytes are')
    for kind, s, r in ex.run(ex.find('^vp_cmp6$'), [a, b], st):
        ex.cover(s, 'compare')
        ex.oblige(s, bv(r, 32) == z3.If(z3.ULT(x, y), z3.BitVecVal(-1, 32), z3.If(x == y, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))), 'addresses are ordered as their bytes')


def hex_facts(st, v):
    """What the hexadecimal digits of a 16 bit value are (their number, their characters)."""
    nd, dg = ghost_digits(16)
    x = z3.ZeroExt(48, v)
    n = z3.If(z3.ULT(x, 16), B(1), z3.If(z3.ULT(x, 256), B(2), z3.If(z3.ULT(x, 4096), B(3), B(4))))
    st.assume(nd(x) == n)
    for j in range(4):
        # the j-th most significant of n digits
        h = z3.Extract(7, 0, z3.LShR(x, (n - 1 - j) * 4)) & 15
        st.assume(z3.Implies(z3.ULT(B(j), n), dg(x, B(j)) == z3.If(z3.ULT(h, 10), h + 48, h + 87)))
    return nd(x), lambda j: dg(x, B(j))


def shorthand(ex, st, seg):
    """(state, first zero group, end of the run of zero groups that starts there)"""
    def first(s, i):
        if i == 8:
            yield s, 8, 8
            return
        for s1, z in ex.branch(s, seg[i] == 0):
            if z:
                yield from run(s1, i, i + 1)
            else:
                yield from first(s1, i + 1)

    def run(s, a, b):
        if b == 8:
            yield s, a, b
            return
        for s1, z in ex.branch(s, seg[b] == 0):
            if z:
                yield from run(s1, a, b + 1)
            else:
                yield s1, a, b
    yield from first(st, 0)


def pieces(st, seg, a, b):
    """The text of an address: literal characters and groups (value index)."""
    r = []
    for i in range(a):
        r += ([':'] if i else []) + [i]
    if a < 8:
        r += [':', ':']
    for i in range(b, 8):
        r += ([':'] if i > b else []) + [i]
    return r


def flat(parts):
    """... with parts of a constant length taken apart."""
    if parts is None:
        return None
    r = []
    for n, get in parts:
        c = Lin.of(n).conc()
        r += [(n, get)] if c is None else [(1, lambda st, j, get=get, i=i: get(st, i)) for i in range(c)]
    return r


def c_print(first):
    def f(t):
        """printing an address gives its groups in lower case without leading zeros, the first run of zero groups shortened"""
        ex, st = t.ex, t.state()
        from .P05 import strobj
        ex.concrete_digits = False
        b = ex.buffer(st, 'octets', 16, 1, const=True)
        x = bytes_at(ex, st, b)
        for i in range(16):
            t.watch('octet %d' % i, x[i])
        seg = groups = [fresh('group%d' % i, 16) for i in range(8)]
        for i in range(8):
            st.assume(seg[i] == z3.Concat(x[2 * i], x[2 * i + 1]))
        st.assume(first(seg))
        out, _ = strobj(ex, st, 'out', 1, 0, ATable([0], 8))
        P12.contracts(ex, 'u16', 16, False, [(groups[i], z3.Concat(x[2 * i], x[2 * i + 1])) for i in range(8)])
        for kind, s, r in ex.run(ex.find('^vp_print6$'), [b, out], st):
            ex.oblige(s, kind == 'ret', 'format returns')
            v = getstr(ex, s, out)
            fo = content(ex, s, v)
            for s1, za, zb in shorthand(ex, s, seg):
                ex.cover(s1, 'printed %d-%d' % (za, zb))
                pos = B(0)
                got = flat(appended(fo, v.len))
                ps = pieces(s1, seg, za, zb)
                if got is not None and len(got) == len(ps):
                    # part by part
                    for (k, get), pc in zip(got, ps):
                        if pc == ':':
                            ex.oblige(s1, z3.And(bv(k, 64) == 1, bv(get(s1, 0), 8) == ord(':')), 'format: separators where they belong')
                        else:
                            n, dg = hex_facts(s1, seg[pc])
                            ex.oblige(s1, bv(k, 64) == n, 'format: as many characters as the group has digits')
                            for j in range(4):
                                ex.oblige(s1, z3.Implies(z3.ULT(B(j), n), bv(get(s1, j), 8) == dg(j)), 'format: the digits of a group')
                    continue
                digits = {i: hex_facts(s1, seg[i]) for i in pieces(s1, seg, za, zb) if i != ':'}
                for k, pc in enumerate(pieces(s1, seg, za, zb)):
                    if pc == ':':
                        ex.oblige(s1, bv(fo.get(s1, pos), 8) == ord(':'), 'format: separators where they belong')
                        pos = pos + 1
                    else:
                        n, dg = digits[pc]
                        for j in range(4):
                            ex.oblige(s1, z3.Implies(z3.ULT(B(j), n), bv(fo.get(s1, pos + j), 8) == dg(j)), 'format: the digits of a group')
                        pos = pos + n
                ex.oblige(s1, bv(v.len, 64) == pos, 'format: the length of the text')
    return f


def tasks(tier):
    u = ['ipv6']
    r = [('from_string', c_parse, u), ('consume_hex_number', c_number(16), u), ('bytes', c_orders, u)]
    z = lambda a, b: (lambda g: z3.And(*[g[k] != 0 for k in range(a)], *[g[k] == 0 for k in range(a, b)], *([g[b] != 0] if b < 8 else [])))
    for a in range(8):
        for b in range(a + 1, 9):
            r.append(('print, zero groups from %d to %d' % (a, b - 1), c_print(z(a, b)), u))
    r.append(('print, no zero group', c_print(lambda g: z3.And(*[x != 0 for x in g])), u))
    return r
