"""P11: network endpoints."""
import re
import z3
from flyvc.val import *
from flyvc.execu import Outcomes, AFnS
from flyvc.models import getstr, putstr, content, append, appended, ghost_digits
from . import P12
from .digits import Digits, Run, number_contract, c_number, DEC
from .P05 import strobj

BUDGET = 300
DRIVER_S = 25
B = lambda v: z3.BitVecVal(v, 64)
NPOS = (1 << 64) - 1
ASSUMPTIONS = ['std::string_view::find_last_of(char): the last position of the character, or npos (assumed contract of the standard library)',
               'the addresses by contract: from_string is a function of its text (exact: P09, P10), the formatter appends the text of the address (exact: P09, P10)']
SIZE = {4: 4, 6: 16}


def octets(ex, st, p, k):
    fa = st.mem[p.obj].regions[0].fields[(0, 1)]
    return [bv(fa.get(st, i), 8) for i in range(SIZE[k])]


def c_parse(k):
    def f(t):
        """from_string accepts exactly an address, the last colon and a port, and yields what the two denote"""
        ex, st = t.ex, t.state()
        n = fresh('n', 64)
        st.assume(z3.ULT(n, 1 << 48))
        p = ex.buffer(st, 'text', n, 1, const=True)
        fa = st.mem[p.obj].regions[0].fields[(0, 1)]
        out, port = ex.buffer(st, 'out', SIZE[k], 1), ex.buffer(st, 'port', 1, 2)
        D = Digits(fa, n, 10)
        t.watch('n', n)
        for i in range(24):
            t.watch('text %d' % i, D.at(st, B(i)))
        S = z3.BitVecSort(64)
        accepted = z3.Function('accepted%d' % fresh_id(), S, S, z3.BoolSort())      # from_string of the address, by where its text lies
        value = z3.Function('value%d' % fresh_id(), S, S, z3.BitVecSort(8 * SIZE[k]))
        last = fresh('last', 64)                                                      # the last colon
        none = last == B(NPOS)
        st.assume(z3.Or(none, z3.And(z3.ULT(last, n), D.at(st, last) == ord(':'))))

        def address(ex, st, a, fn, ins):
            sret = a[0] if k == 6 else None
            ln, data = a[-2:]
            if data.obj != p.obj:
                raise Unsupported('an address from another text')
            off, ln = bv(data.off.val(), 64), bv(ln, 64)
            ex.oblige(st, z3.And(z3.ULE(off, n), z3.ULE(ln, n - off)), 'the text of the address lies in the text')
            v, ok = value(off, ln), accepted(off, ln)
            if k == 4:
                return Outcomes([(st, z3.Concat(fresh('padding', 24), z3.If(ok, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), v))])
            b = ex.buffer(st, 'address', 16, 1)
            for i in range(16):
                ex.store(st, b.add(i), 1, z3.Extract(8 * i + 7, 8 * i, v))
            return Outcomes([(s, None) for kind, s, r in ex.run(ex.find('^vp_make6$'), [b, ok, sret], st)])

        def find(ex, st, a, fn, ins):
            (_, st, d), = ex.run(ex.find(r'^sview<char>::data\(\) const$'), [a[0]], st)
            (_, st, m), = ex.run(ex.find(r'^sview<char>::size\(\) const$'), [a[0]], st)
            if a[1] != ord(':') or a[2] != NPOS or d.obj != p.obj or d.off.conc() != 0:
                return NotImplemented
            ex.oblige(st, bv(m, 64) == n, 'find_last_of: called on the whole text')
            return Outcomes([(st, last)])
        for fn in ex.find(r'^sview<char>::(find_last_of|rfind)\(char, unsigned long\) const$', False):
            ex.contracts[fn.dem] = find
        ex.contracts[ex.find(r'^fly::net::IPv%dAddress::from_string\(sview<char>\)$' % k).dem] = address
        ex.contracts[DEC] = number_contract(D, p)
        for kind, s, r in ex.run(ex.find('^vp_parse%d$' % k), [p, n, out, port], st):
            ex.oblige(s, kind == 'ret', 'from_string returns')
            some, fits, v, e = D.number(last + 1)
            D.start(s, last + 1)
            lo, ln = (B(0), last) if k == 4 else (B(1), last - 2)
            frame = z3.BoolVal(True) if k == 4 else z3.And(z3.UGE(last, 2), D.at(s, B(0)) == ord('['), D.at(s, last - 1) == ord(']'))
            ok = z3.And(z3.Not(none), last != 0, frame, accepted(lo, ln), some, fits, e == n, z3.ULE(v, 0xffff))
            for s1, good in ex.branch(s, boolv(r)):
                ex.cover(s1, 'accepted' if good else 'refused')
                if not good:
                    ex.oblige(s1, z3.Not(ok), 'from_string: every endpoint is accepted')
                    continue
                ex.oblige(s1, ok, 'from_string: nothing but endpoints')
                ex.oblige(s1, bv(ex.load(s1, port, 2), 16) == z3.Extract(15, 0, v), 'from_string: the port')
                ex.oblige(s1, z3.And(*[bv(ex.load(s1, out.add(i), 1), 8) == z3.Extract(8 * i + 7, 8 * i, value(lo, ln)) for i in range(SIZE[k])]),
                          'from_string: the address')
    return f


def c_print(k):
    def f(t):
        """printing gives the text of the address (in brackets for IPv6), a colon and the decimal port"""
        ex, st = t.ex, t.state()
        ex.concrete_digits = False
        b = ex.buffer(st, 'octets', SIZE[k], 1, const=True)
        x = octets(ex, st, b, k)
        for i, o in enumerate(x):
            t.watch('octet %d' % i, o)
        pt = fresh('port', 16)
        t.watch('port', pt)
        m, ft = fresh('length', 64), ABase('text of the address', 8)
        st.assume(z3.And(z3.UGT(m, 0), z3.ULT(m, 64)))
        out, _ = strobj(ex, st, 'out', 1, 0, ATable([0], 8))

        def address(ex, st, a, fn, ins):
            this, addr, context = a
            y = ex.buffer(st, 'printed octets', SIZE[k], 1)
            (_, st, r), = ex.run(ex.find('^vp_bytes%d$' % k), [addr, y], st)
            ex.oblige(st, z3.And(*[u == v for u, v in zip(octets(ex, st, y, k), x)]), 'format: the address of the endpoint is printed')
            (_, st, o), = ex.run(ex.find('^vp_context_out$'), [context], st)
            st = st.clone()
            putstr(ex, st, o, append(ex, st, getstr(ex, st, o), ft, 0, m))
            return Outcomes([(st, None)])
        for fn in ex.find(r'void fly::string::Formatter<fly::net::IPv%dAddress, char>::format<' % k, False):
            if not fn.isdecl:
                ex.contracts[fn.dem] = address
        P12.contracts(ex, 'u16', 10, False, [(pt, pt)])
        for kind, s, r in ex.run(ex.find('^vp_print%d$' % k), [b, pt, out], st):
            ex.oblige(s, kind == 'ret', 'format returns')
            ex.cover(s, 'printed')
            v = getstr(ex, s, out)
            fo = content(ex, s, v)
            nd, dg = P12.digits_of(s, 10, pt, False)
            lead = 0 if k == 4 else 1
            size = m + nd + 1 + 2 * lead
            ex.oblige(s, bv(v.len, 64) == size, 'format: the length of the text')
            j = fresh('j', 64)
            at = lambda i: bv(fo.get(s, i), 8)
            if k == 6:
                ex.oblige(s, z3.And(at(B(0)) == ord('['), at(m + 1) == ord(']')), 'format: the brackets')
            ex.oblige(s, Imp_(z3.ULT(j, m), at(j + lead) == bv(ft.get(s, j), 8)), 'format: the text of the address')
            ex.oblige(s, at(m + 2 * lead) == ord(':'), 'format: the separator')
            ex.oblige(s, Imp_(z3.ULT(j, nd), at(m + 2 * lead + 1 + j) == dg(j)), 'format: the digits of the port')
    return f


def Imp_(a, b):
    return z3.Implies(a, b)


def c_round(t):
    """the decimal digits of a port are a port of the grammar, without colons, that denotes it"""
    ex = t.ex
    for nd in range(1, 6):
        st = t.state()
        ds = [fresh('digit', 8) for _ in range(nd)]
        pt, val = fresh('port', 16), B(0)
        for d in ds:
            st.assume(z3.ULE(d, 9))
            val = val * 10 + z3.ZeroExt(56, d)
        st.assume(val == z3.ZeroExt(48, pt))
        p = ex.buffer(st, 'text', nd, 1, const=True)
        fa = st.mem[p.obj].regions[0].fields[(0, 1)]
        for i, d in enumerate(ds):
            st.assume(bv(fa.get(st, i), 8) == d + 48)
        D = Digits(fa, B(nd), 10)
        D.start(st, B(0))
        for i in range(nd + 1):
            D.unfold(st, B(0), B(i))
        c = D.end(B(0)) == nd
        ex.oblige(st, c, 'the whole port is one run of digits')
        st.assume(c)
        some, fits, v, e = D.number(B(0))
        ex.cover(st, 'read back')
        ex.oblige(st, z3.And(some, fits, e == nd, z3.ULE(v, 0xffff), z3.Extract(15, 0, v) == pt), 'the digits of a port denote it')
        ex.oblige(st, z3.And(*[bv(fa.get(st, i), 8) != ord(':') for i in range(nd)]), 'the last colon is the separator')


def c_order(k):
    def f(t):
        """endpoints are compared by address, then by port"""
        ex = t.ex
        st = t.state()
        a, b = ex.buffer(st, 'a', SIZE[k], 1, const=True), ex.buffer(st, 'b', SIZE[k], 1, const=True)
        x, y = octets(ex, st, a, k), octets(ex, st, b, k)
        px, py = fresh('px', 16), fresh('py', 16)
        same = z3.And(*[u == v for u, v in zip(x, y)])
        num = (lambda o: z3.Concat(*reversed(o))) if k == 4 else (lambda o: z3.Concat(*o))
        for kind, s, r in ex.run(ex.find('^vp_eq%d$' % k), [a, px, b, py], st.clone()):
            ex.cover(s, 'equal')
            ex.oblige(s, z3.And(kind == 'ret', boolv(r) == z3.And(same, px == py)), 'equal endpoints have equal addresses and ports')
        for kind, s, r in ex.run(ex.find('^vp_less%d$' % k), [a, px, b, py], st.clone()):
            ex.cover(s, 'less')
            ex.oblige(s, z3.And(kind == 'ret', boolv(r) == z3.Or(z3.ULT(num(x), num(y)), z3.And(same, z3.ULT(px, py)))), 'endpoints are ordered by address, then by port')
    return f


def tasks(tier):
    u = ['endpoint']
    r = [('from_string IPv%d' % k, c_parse(k), u) for k in (4, 6)] + [('print IPv%d' % k, c_print(k), u) for k in (4, 6)]
    return r + [('consume_number', c_number(10), u), ('ports read back', c_round, u)] + [('order IPv%d' % k, c_order(k), u) for k in (4, 6)]
