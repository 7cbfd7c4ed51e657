"""P12: formatting of integers and strings."""
import re
import z3
from flyvc.val import *
from flyvc.execu import LoopSpec, Elementwise, Imp, Outcomes, AFnS
from flyvc.models import getstr, putstr, content, append, ghost_digits
from .P05 import strobj

BUDGET = 300
DRIVER_S = 30
B = lambda v: z3.BitVecVal(v, 64)
TYPES = {'i8': (8, True), 'u8': (8, False), 'i16': (16, True), 'u16': (16, False), 'i32': (32, True), 'u32': (32, False), 'i64': (64, True), 'u64': (64, False)}


def unfold_digits(ex, st, base, v):
    """How many digits a number has: one if it is below the base, else one more than its quotient."""
    nd, dg = ghost_digits(base)
    w = v.size()
    z = lambda x: z3.ZeroExt(64 - w, x) if w < 64 else x
    some = lambda x: z3.And(z3.UGE(nd(z(x)), 1), z3.ULE(nd(z(x)), 64))
    st.assume(some(v))
    if base < (1 << w):
        q = bv(ex.arith(st, 'udiv', v, base, w), w)
        st.assume(nd(z(v)) == z3.If(z3.ULT(v, z3.BitVecVal(base, w)), B(1), 1 + nd(z(q))))
        st.assume(some(q))
    return nd(z(v))


class FormatLoops(Elementwise):
    """The loops of the formatters: they append or rewrite one character per iteration, or count digits by dividing."""

    def __init__(self, base, match=None):
        super().__init__(match=match)
        self.base = base

    def matches(self, ex, st, f, blk):
        return len(st.cuts) == 0 and 'force'

    def numbers(self, ex, L, st):
        return [(k, v) for k, v in L.vars(st).items() if isinstance(v, z3.BitVecRef) and v.size() in (8, 16, 32, 64) and k not in L.steps]

    def candidates(self, ex, st, lvs, L):
        r = []
        nd, dg = ghost_digits(self.base)
        for key, sym, w, kind, e in lvs:
            if key in L.steps or kind != 'int' or w not in (8, 16, 32, 64):
                continue
            ev = ex.lv_conv(e, (key, sym, w, kind, e))
            if ev is None:
                continue
            L.entry.assume(z3.ULE(nd(z3.ZeroExt(64 - w, ev) if w < 64 else ev), 64))
            z = (lambda v: z3.ZeroExt(64 - w, v) if w < 64 else v)
            r.append(('the digits counted so far', z3.And(nd(z(ev)) == L.k + nd(z(sym)), z3.ULE(L.k, 64))))
        return r

    def inv(self, ex, st, L):
        for key, v in self.numbers(ex, L, st):
            unfold_digits(ex, st, self.base, v)
        nd, dg = ghost_digits(self.base)
        for key, v in self.numbers(ex, L, L.entry):
            st.assume(z3.ULE(nd(z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else v), 64))
        return []


def digits_of(st, base, v, upper):
    """(number of digits, j-th digit) of an unsigned value"""
    nd, dg = ghost_digits(base)
    w = v.size()
    x = z3.ZeroExt(64 - w, v) if w < 64 else v
    st.assume(z3.And(z3.UGE(nd(x), 1), z3.ULE(nd(x), 64)))

    def d(j):
        c = dg(x, j)
        if not upper:
            return c
        return z3.If(z3.And(z3.UGE(c, ord('a')), z3.ULE(c, ord('z'))), c - 32, c)
    return nd(x), d


def contracts(ex, ty, base, upper, mags):
    """The contracts of count_digits and append_number (proved by c_parts), for the functions that call them."""
    def same(st, v):
        # one of the values the contract of the caller speaks about, if that is what is printed
        v = bv(v, TYPES[ty][0])
        sv = z3.simplify(v)
        for m, d in mags:
            if m.eq(v) or z3.simplify(d).eq(sv):
                return m
        for m, d in mags:
            if not ex.sol.feasible(st.pc, v != m):
                return m
        return v

    def count(ex, st, args, fn, ins):
        v, b = args
        if not isinstance(b, int) or b != base:
            return NotImplemented
        return Outcomes([(st, digits_of(st, base, same(st, v), False)[0])])

    def number(ex, st, args, fn, ins):
        this, v, b, context = args
        if not isinstance(b, int) or b != base:
            return NotImplemented
        (kind, st, r), = ex.run(ex.find('^vp_formatter_is_%s$' % ty), [this, base, int(upper)], st)
        ex.oblige(st, boolv(r), 'append a number: by a formatter of the same base and letter case')
        (kind, st, out), = ex.run(ex.find('^vp_context_out$'), [context], st)
        n, d = digits_of(st, base, same(st, v), upper and base == 16)
        st = st.clone()
        putstr(ex, st, out, append(ex, st, getstr(ex, st, out), AFnS(8, lambda s, j: d(bv(j, 64))), 0, n))
        return Outcomes([(st, None)])
    for name, c in (('count_digits', count), ('append_number', number)):
        for fn in [x for m in ex.mods for x in m.funcs.values()]:
            if re.search(r'^(void|unsigned long) fly::string::Formatter<[a-z ]+, char>::%s<' % name, fn.dem) and not fn.isdecl:
                ex.contracts[fn.dem] = c


def c_parts(ty, base, upper):
    def f(t):
        """count_digits counts the digits, append_number appends them"""
        ex, st = t.ex, t.state()
        ex.concrete_digits = False
        w, signed = TYPES[ty]
        value = fresh('value', w)
        t.watch('value', value)
        t.watch('base', z3.IntVal(base))
        ex.loopspecs = [FormatLoops(base)]
        nd, dg = ghost_digits(base)
        z = lambda x: z3.ZeroExt(64 - w, x) if w < 64 else x
        if not upper:
            for kind, s, r in ex.run(ex.find('^vp_count_%s$' % ty), [value, base], st.clone()):
                ex.oblige(s, kind == 'ret', 'count_digits returns')
                unfold_digits(ex, s, base, value)
                ex.cover(s, 'counted')
                ex.oblige(s, bv(r, 64) == nd(z(value)), 'count_digits: how many digits the number has')
        n0 = fresh('n0', 64)
        st.assume(z3.ULT(n0, 1 << 40))
        before = ABase('before', 8)
        out, _ = strobj(ex, st, 'out', 1, n0, before)
        for kind, s, r in ex.run(ex.find('^vp_append_%s$' % ty), [value, base, int(upper), out], st):
            ex.oblige(s, kind == 'ret', 'append_number returns')
            v = getstr(ex, s, out)
            fo = content(ex, s, v)
            n, d = digits_of(s, base, value, upper and base == 16)
            J = fresh('J', 64)
            ex.cover(s, 'appended')
            ex.oblige(s, bv(v.len, 64) == n0 + n, 'append_number: as many characters as digits')
            ex.oblige(s, Imp(z3.ULT(J, n0), lambda st: bv(fo.get(st, J), 8) == bv(before.get(st, J), 8)), 'append_number: what was there before stays')
            ex.oblige(s, Imp(z3.ULT(J, n), lambda st: bv(fo.get(st, n0 + J), 8) == d(J)), 'append_number: the digits')
    return f


def c_integer(ty, base, upper, alternate, filled):
    def f(t):
        """sign, prefix, digits and padding of an integer"""
        ex, st = t.ex, t.state()
        ex.concrete_digits = False
        w, signed = TYPES[ty]
        value = fresh('value', w)
        has_fill, fill = z3.BoolVal(filled), fresh('fill', 8)
        align, sign, zero = fresh('align', 8), fresh('sign', 8), fresh('zero', 1)
        width = fresh('width', 64)
        st.assume(z3.And(z3.ULT(align, 4), z3.ULT(sign, 4), z3.ULT(width, 1 << 40)))
        for n, x in (('value', value), ('fill', fill), ('has_fill', z3.If(has_fill, 1, 0)), ('align', align), ('sign', sign), ('zero', z3.If(zero, 1, 0)), ('width', width)):
            t.watch(n, x)
        t.watch('base', z3.IntVal(base))
        t.watch('type', z3.StringVal(ty))
        t.watch('upper', z3.IntVal(int(upper)))
        t.watch('alternate', z3.IntVal(int(alternate)))
        out, _ = strobj(ex, st, 'out', 1, 0, ATable([0], 8))
        ex.loopspecs = [FormatLoops(base)]
        mag = fresh('magnitude', w)
        st.assume(mag == (z3.If(value < 0, -value, value) if signed else value))
        contracts(ex, ty, base, upper, [(mag, z3.If(value < 0, -value, value) if signed else value)])
        for kind, s, r in ex.run(ex.find('^vp_format_%s$' % ty), [value, int(filled), fill, align, sign, int(alternate), zero, width, base, int(upper), out], st):
            ex.oblige(s, kind == 'ret', 'format returns')
            v = getstr(ex, s, out)
            fo = content(ex, s, v)
            neg = value < 0 if signed else z3.BoolVal(False)
            for s1, isneg in ex.branch(s, neg):
                for s2, sg in [x for a in (0, 1, 3) for x in [(None, a)]]:
                    s3 = s1.clone()
                    s3.assume(sign == sg if sg != 0 else z3.Or(sign == 0, sign == 2))
                    if not ex.sol.feasible(s3.pc):
                        continue
                    prefix = '-' if isneg else {0: '', 1: '+', 3: ' '}[sg]
                    if alternate:
                        prefix += {2: '0B' if upper else '0b', 8: '0', 10: '0', 16: '0X' if upper else '0x'}[base]
                    n, d = digits_of(s3, base, mag, upper and base == 16)
                    for a in range(4):
                        for z in ((False, True) if a == 0 else (None,)):
                            s4 = s3.clone()
                            s4.assume(align == a)
                            if z is not None:
                                s4.assume(zero if z else z3.Not(zero))
                            if not ex.sol.feasible(s4.pc):
                                continue
                            ex.cover(s4, 'align %d zero %s prefix "%s"' % (a, z, prefix))
                            check_field(ex, s4, v, fo, prefix, n, d, width, z3.If(has_fill, fill, z3.BitVecVal(32, 8)), a, z)
    return f


def check_field(ex, s, v, fo, prefix, n, d, width, fill, a, z):
    """The field: padding, prefix, zeros, digits, padding."""
    size = n + len(prefix)
    pad = z3.If(z3.UGT(width, size), width - size, B(0))
    left = {0: B(0) if z else pad, 1: B(0), 2: pad, 3: z3.LShR(pad, 1)}[a]
    zeros = pad if z else B(0)
    right = pad - left - zeros
    J = fresh('J', 64)
    at = lambda st, i: bv(fo.get(st, i), 8)
    ex.oblige(s, bv(v.len, 64) == size + pad, 'the width of the field')
    ex.oblige(s, Imp(z3.ULT(J, left), lambda st: at(st, J) == fill), 'padding on the left')
    for i, c in enumerate(prefix):
        ex.oblige(s, at(s, left + i) == ord(c), 'sign and prefix')
    p = left + len(prefix)
    ex.oblige(s, Imp(z3.ULT(J, zeros), lambda st: at(st, p + J) == ord('0')), 'zero padding')
    ex.oblige(s, Imp(z3.ULT(J, n), lambda st: at(st, p + zeros + J) == d(J)), 'the digits')
    ex.oblige(s, Imp(z3.ULT(J, right), lambda st: at(st, p + zeros + n + J) == fill), 'padding on the right')


def c_string(t):
    """a string is cut to the precision and padded to the width"""
    ex, st = t.ex, t.state()
    n = fresh('n', 64)
    st.assume(z3.ULT(n, 1 << 40))
    p = ex.buffer(st, 'text', n, 1, const=True)
    fa = st.mem[p.obj].regions[0].fields[(0, 1)]
    view = ex.new(st, 'view', 16, 'param')
    ex.store(st, view, 8, n)
    ex.store(st, Ptr(view.obj, Lin.of(8), None), 8, p)
    has_fill, fill = fresh('has_fill', 1), fresh('fill', 8)
    align = fresh('align', 8)
    has_precision, precision = fresh('has_precision', 1), fresh('precision', 64)
    width = fresh('width', 64)
    st.assume(z3.And(z3.ULT(align, 4), z3.ULT(width, 1 << 40)))
    for k, x in (('n', n), ('fill', fill), ('has_fill', z3.If(has_fill, 1, 0)), ('align', align), ('width', width), ('has_precision', z3.If(has_precision, 1, 0)), ('precision', precision)):
        t.watch(k, x)
    out, _ = strobj(ex, st, 'out', 1, 0, ATable([0], 8))
    ex.loopspecs = [FormatLoops(10)]
    for kind, s, r in ex.run(ex.find('^vp_format_string$'), [view, has_fill, fill, align, width, has_precision, precision, out], st):
        ex.oblige(s, kind == 'ret', 'format returns')
        v = getstr(ex, s, out)
        fo = content(ex, s, v)
        m = z3.If(z3.And(has_precision, z3.ULT(precision, n)), precision, n)
        for a in range(4):
            s1 = s.clone()
            s1.assume(align == a)
            if not ex.sol.feasible(s1.pc):
                continue
            ex.cover(s1, 'align %d' % a)
            check_field(ex, s1, v, fo, '', m, lambda j: bv(fa.get(s1, j), 8), width, z3.If(has_fill, fill, z3.BitVecVal(32, 8)), 1 if a == 0 else a, None)
    return


def tasks(tier):
    u = ['format']
    r = [('a string', c_string, u)]
    conf = ((10, False, False), (16, False, False), (16, True, True), (2, False, True), (8, False, True))
    few = {('i64', 10), ('i8', 10), ('u32', 16), ('u64', 2), ('u16', 8)}
    for ty in TYPES:
        for base, upper, alt in conf:
            name = '%s, base %d%s%s' % (ty, base, ', upper case' if upper else '', ', alternate form' if alt else '')
            r.append(('%s, the digits of base %d%s' % (ty, base, ' upper' if upper else ''), c_parts(ty, base, upper), u))
            if tier == 'thorough' or ((ty, base) in few and (base != 16 or alt)):
                r.append((name, c_integer(ty, base, upper, alt, (ty, base) != ('i64', 10)), u))
    return sorted(r, key=lambda t: 'digits' in t[0])
