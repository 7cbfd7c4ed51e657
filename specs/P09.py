"""P09: IPv4 addresses."""
import z3
from flyvc.val import *
from flyvc.execu import LoopSpec, Imp
from flyvc.models import getstr, content
from .digits import Digits, Run

BUDGET = 300
DRIVER_S = 25
B = lambda v: z3.BitVecVal(v, 64)
bytes_of = lambda x: [z3.Extract(8 * i + 7, 8 * i, x) for i in range(4)]


def swap(x):
    return z3.Concat(*bytes_of(x))


def grammar(st, D):
    """(accepted, host order address): N, N.N, N.N.N or N.N.N.N, the last number filling the remaining bytes."""
    acc, val = z3.BoolVal(False), z3.BitVecVal(0, 32)
    s, pre, high = B(0), z3.BoolVal(True), z3.BitVecVal(0, 64)
    for parts in range(1, 5):
        D.start(st, s)
        some, fits, v, e = D.number(s)
        rest = 8 * (5 - parts)
        last = z3.And(pre, some, fits, e == D.n, z3.ULE(v, (1 << rest) - 1))
        val = z3.If(last, z3.Extract(31, 0, high + v), val)
        acc = z3.Or(acc, last)
        pre = z3.And(pre, some, fits, z3.ULT(e, D.n), D.at(st, e) == ord('.'), z3.ULE(v, 255))
        high = high + (v << (rest - 8))
        s = e + 1
    return acc, val


def c_parse(t):
    """from_string accepts exactly the grammar and yields the address it denotes"""
    ex, st = t.ex, t.state()
    n = fresh('n', 64)
    st.assume(z3.ULT(n, 1 << 48))
    p = ex.buffer(st, 'text', n, 1, const=True)
    net, host = ex.buffer(st, 'net', 1, 4), ex.buffer(st, 'host', 1, 4)
    fa = st.mem[p.obj].regions[0].fields[(0, 1)]
    D = Digits(fa, n, 10)
    t.watch('n', n)
    for i in range(16):
        t.watch('text %d' % i, D.at(st, B(i)))
    ex.loopspecs = [Run(D)]
    for kind, s, r in ex.run(ex.find('^vp_parse$'), [p, n, net, host], st):
        ex.oblige(s, kind == 'ret', 'from_string returns')
        for s1, good in ex.branch(s, boolv(r)):
            ex.cover(s1, 'accepted' if good else 'rejected')
            D.settle(ex, s1)
            acc, val = grammar(s1, D)
            if not good:
                ex.oblige(s1, z3.Not(acc), 'from_string: every address of the grammar is accepted')
                continue
            ex.oblige(s1, acc, 'from_string: only addresses of the grammar are accepted')
            ex.oblige(s1, bv(ex.load(s1, host, 4), 32) == val, 'from_string: the address the text denotes (host order)')
            ex.oblige(s1, bv(ex.load(s1, net, 4), 32) == swap(val), 'from_string: network order is the byte reversal')


def dec_digits(v, nd):
    """The nd decimal digits of an 8 bit value."""
    return [z3.URem(z3.UDiv(v, z3.BitVecVal(10 ** i, 8)), z3.BitVecVal(10, 8)) + 48 for i in reversed(range(nd))]


def dec_len(v, nd):
    return {1: z3.ULT(v, 10), 2: z3.And(z3.UGE(v, 10), z3.ULT(v, 100)), 3: z3.UGE(v, 100)}[nd]


def octet_lengths(first):
    return [(first, b, c, d) for b in (1, 2, 3) for c in (1, 2, 3) for d in (1, 2, 3)]


def text_of(octets, lens):
    want = []
    for o, nd in zip(octets, lens):
        want += ([z3.BitVecVal(46, 8)] if want else []) + dec_digits(o, nd)
    return want


def c_print(first):
    def f(t):
        """printing an address gives its dotted decimal form"""
        ex, st = t.ex, t.state()
        from .P05 import strobj
        a = fresh('network', 32)
        t.watch('network', a)
        st.assume(dec_len(bytes_of(a)[0], first))
        out, _ = strobj(ex, st, 'out', 1, 0, ATable([0], 8))
        for kind, s, r in ex.run(ex.find('^vp_print$'), [a, out], st):
            ex.oblige(s, kind == 'ret', 'format returns')
            v = getstr(ex, s, out)
            fo = content(ex, s, v)
            ex.cover(s, 'printed')
            octets = bytes_of(a)
            lens = []
            for o in octets:
                lens.append([nd for nd in (1, 2, 3) if ex.sol.feasible(s.pc, dec_len(o, nd))])
            if any(len(x) != 1 for x in lens):
                raise Unsupported('a path of the printer covers several lengths of an octet')
            want = text_of(octets, [x for x, in lens])
            ex.oblige(s, bv(v.len, 64) == len(want), 'format: the length of the dotted decimal form')
            ex.oblige(s, z3.And(*[bv(fo.get(s, i), 8) == c for i, c in enumerate(want)]), 'format: the dotted decimal form')
    return f


def c_round():
    def f(t):
        """the dotted decimal form of an address is a text of the grammar that denotes the address"""
        ex = t.ex
        ex.loopspecs = []
        for lens in [x for k in (1, 2, 3) for x in octet_lengths(k)]:
            st = t.state()
            octets = [fresh('octet', 8) for _ in range(4)]
            a = z3.Concat(*octets)
            text, where = [], []
            for o, nd in zip(octets, lens):
                ds = [fresh('digit', 8) for _ in range(nd)]
                for d in ds:
                    st.assume(z3.ULE(d, 9))
                val = z3.BitVecVal(0, 64)
                for d in ds:
                    val = val * 10 + z3.ZeroExt(56, d)
                st.assume(val == z3.ZeroExt(56, o))
                text += ([z3.BitVecVal(46, 8)] if text else [])
                where.append((len(text), nd))
                text += [d + 48 for d in ds]
            n = len(text)
            p = ex.buffer(st, 'text', n, 1, const=True)
            fa = st.mem[p.obj].regions[0].fields[(0, 1)]
            for i, c in enumerate(text):
                st.assume(bv(fa.get(st, i), 8) == c)
            D = Digits(fa, B(n), 10)
            for s, nd in where:
                D.start(st, B(s))
                for k in range(nd + 1):
                    D.unfold(st, B(s), B(k))
                c = D.end(B(s)) == s + nd
                ex.oblige(st, c, 'where the digits of a number end')
                st.assume(c)
            acc, val = grammar(st, D)
            ex.cover(st, 'read back')
            ex.oblige(st, z3.And(acc, val == a), 'the dotted decimal form is in the grammar and denotes the address')
    return f


def c_orders(t):
    """construction and byte orders; comparison"""
    ex = t.ex
    st = t.state()
    b = ex.buffer(st, 'octets', 4, 1, const=True)
    fa = st.mem[b.obj].regions[0].fields[(0, 1)]
    net, host = ex.buffer(st, 'net', 1, 4), ex.buffer(st, 'host', 1, 4)
    o = [bv(fa.get(st, i), 8) for i in range(4)]
    for i in range(4):
        t.watch('octet %d' % i, o[i])
    for kind, s, r in ex.run(ex.find('^vp_from_bytes$'), [b, net, host], st):
        ex.oblige(s, kind == 'ret', 'the constructor returns')
        ex.cover(s, 'octets')
        ex.oblige(s, bv(ex.load(s, host, 4), 32) == z3.Concat(*o), 'host order of an address made of octets')
        ex.oblige(s, bv(ex.load(s, net, 4), 32) == z3.Concat(*reversed(o)), 'network order of an address made of octets')
    st = t.state()
    i = fresh('integer', 32)
    t.watch('integer', i)
    net, host = ex.buffer(st, 'net', 1, 4), ex.buffer(st, 'host', 1, 4)
    for kind, s, r in ex.run(ex.find('^vp_from_int$'), [i, net, host], st):
        ex.cover(s, 'integer')
        ex.oblige(s, z3.And(bv(ex.load(s, net, 4), 32) == i, bv(ex.load(s, host, 4), 32) == swap(i)), 'byte orders of an address made of an integer')
    st = t.state()
    a, b = fresh('a', 32), fresh('b', 32)
    for kind, s, r in ex.run(ex.find('^vp_eq$'), [a, b], st):
        ex.cover(s, 'equal')
        ex.oblige(s, boolv(r) == (a == b), 'addresses are equal iff their network order values are')
    st = t.state()
    for kind, s, r in ex.run(ex.find('^vp_cmp$'), [a, b], st):
        ex.cover(s, 'compare')
        ex.oblige(s, bv(r, 32) == z3.If(z3.ULT(a, b), z3.BitVecVal(-1, 32), z3.If(a == b, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))), 'addresses are ordered as their network order values')


def tasks(tier):
    u = ['ipv4']
    r = [('from_string', c_parse, u), ('byte orders', c_orders, u), ('read back', c_round(), u)]
    return r + [('print %d' % k, c_print(k), u) for k in (3, 2, 1)]
