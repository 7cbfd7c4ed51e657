"""P06: escaping and unescaping of one codepoint."""
import z3
from flyvc.val import *
from flyvc.execu import LoopSpec, Imp
from flyvc.models import getstr, content
from . import unispec as U
from .P05 import strobj

BUDGET = 400
DRIVER_S = 30


def printable(cp):
    return z3.And(z3.UGE(cp, 0x20), z3.ULE(cp, 0x7E))


def hexdigit(v4, w):
    """lower case digit of a 4-bit value, in w bits"""
    v = z3.ZeroExt(w - 4, v4) if w > 4 else v4
    return z3.If(z3.ULT(v, 10), v + 0x30, v + 0x57)


def hexval(c):
    """(is a hexadecimal digit, value in 32 bits)"""
    r = lambda lo, hi: z3.And(z3.UGE(c, ord(lo)), z3.ULE(c, ord(hi)))
    x = U.z32(c)
    return z3.Or(r('0', '9'), r('a', 'f'), r('A', 'F')), z3.If(r('0', '9'), x - 48, z3.If(r('a', 'f'), x - 87, x - 55))


def escaped(cp, prefix, w):
    """[(condition, units)]: the escape forms of the documentation."""
    C = lambda ch: z3.BitVecVal(ord(ch), w)
    digits = lambda v, n: [hexdigit(z3.Extract(4 * i + 3, 4 * i, v), w) for i in reversed(range(n))]
    v = cp - 0x10000
    hi, lo = 0xD800 + z3.LShR(v, 10), 0xDC00 + (v & 0x3FF)
    lit = z3.Extract(w - 1, 0, cp) if w < 32 else cp
    big = z3.UGT(cp, 0xFFFF)
    r = [(printable(cp), [lit]), (z3.And(z3.Not(printable(cp)), z3.Not(big)), [C('\\'), C('u')] + digits(cp, 4))]
    if prefix == 'u':
        r.append((big, [C('\\'), C('u')] + digits(hi, 4) + [C('\\'), C('u')] + digits(lo, 4)))
    else:
        r.append((big, [C('\\'), C('U')] + digits(cp, 8)))
    return r


def unescape(get, n):
    """(valid, consumed units, codepoint) of the escape the text begins with."""
    B = lambda k: z3.BitVecVal(k, 64)

    def num(at, cnt):
        oks, v = [], z3.BitVecVal(0, 32)
        for i in range(cnt):
            ok, d = hexval(get(at + i))
            oks.append(ok)
            v = v | (d << (4 * (cnt - 1 - i)))
        return z3.And(z3.UGE(n, at + cnt), *oks), v
    intro = lambda at, ch: z3.And(z3.UGE(n, at + 2), get(at) == ord('\\'), get(at + 1) == ord(ch))
    ok1, v1 = num(2, 4)
    ok2, v2 = num(8, 4)
    hs = z3.And(z3.UGE(v1, 0xD800), z3.ULE(v1, 0xDBFF))
    ls = lambda v: z3.And(z3.UGE(v, 0xDC00), z3.ULE(v, 0xDFFF))
    single = z3.And(intro(0, 'u'), ok1, z3.Not(hs), z3.Not(ls(v1)))
    pair = z3.And(intro(0, 'u'), ok1, hs, intro(6, 'u'), ok2, ls(v2))
    ok8, v8 = num(2, 8)
    long = z3.And(intro(0, 'U'), ok8, U.scalar(v8))
    return (z3.Or(single, pair, long), z3.If(single, B(6), z3.If(pair, B(12), B(10))),
            z3.If(single, v1, z3.If(pair, (v1 - 0xD800) * 0x400 + (v2 - 0xDC00) + 0x10000, v8)))


def args(t, ty):
    ex, st = t.ex, t.state()
    w = U.WIDTH[ty]
    n = fresh('n', 64)
    st.assume(z3.ULT(n, 1 << 48))
    p = ex.buffer(st, 'text', n, w, const=True)
    fa = st.mem[p.obj].regions[0].fields[(0, w)]
    slot = ex.new(st, 'it', 8, 'param')
    ex.store(st, slot, 8, p)
    out, _ = strobj(ex, st, 'out', w, 0, ATable([0], 8 * w))
    get = lambda s: (lambda i: bv(fa.get(s, i), 8 * w))
    t.watch('n', n)
    for i in range(12):
        t.watch('%s unit %d' % (ty, i), get(st)(i))
    return ex, st, w, n, p, fa, slot, out, get


def c_escape(ty, prefix):
    def f(t):
        ex, st, w, n, p, fa, slot, out, get = args(t, ty)
        nm = "escape_codepoint<%s, '%s'>" % (ty, prefix)
        for kind, s, r in ex.run(ex.find('^vp_escape_%s_%s$' % (prefix, ty)), [slot, Ptr(p.obj, Lin.of(n).mul(w)), out], st):
            ex.oblige(s, kind == 'ret', nm + ' returns')
            for s1, good in ex.branch(s, boolv(r)):
                ex.cover(s1, 'escapes' if good else 'refuses')
                ok, ln, cp = U.decode(w, get(s1), n)
                if not good:
                    ex.oblige(s1, z3.Not(ok), nm + ': every well-formed codepoint can be escaped')
                    continue
                ex.oblige(s1, ok, nm + ': only well-formed codepoints can be escaped')
                it = ex.load(s1, slot, 8)
                ex.oblige(s1, isinstance(it, Ptr) and it.obj == p.obj and bv(it.off.div(w).val(), 64) == ln, nm + ': consumes exactly the codepoint')
                v = getstr(ex, s1, out)
                fo = content(ex, s1, v)
                for cond, units in escaped(cp, prefix, 8 * w):
                    ex.oblige(s1, z3.Implies(cond, z3.And(bv(v.len, 64) == len(units), *[bv(fo.get(s1, i), 8 * w) == u for i, u in enumerate(units)])),
                              nm + ': the text is the documented form of %d characters' % len(units))
    return f


class Digits(LoopSpec):
    """Loop over the digits of one escape: the value of the k digits read so far, most significant first."""

    def __init__(self, w, text, fa, n):
        super().__init__()
        self.w, self.text, self.fa, self.n = w, text, fa, n

    def matches(self, ex, st, f, blk):
        # the loop whose iterations move through the text (the loops over tables are unrolled)
        return self.cursor(st) is not None and len(f.fn.blocks) < 60 and self.inside(st) and 'force'

    def cursor(self, st):
        c = st.mem[st.ghost['slot']].cells.get(0)
        return c[1] if c and isinstance(c[1], Ptr) and c[1].obj == self.text else None

    def inside(self, st):
        c = self.cursor(st)
        return c.off.conc() in (2 * self.w, 8 * self.w)

    def split(self, ex, st, L):
        # one case per digit: the positions of each case are concrete
        return list(range(9))

    def inv(self, ex, st, L):
        e = self.cursor(L.entry)
        b = e.off.div(self.w).conc()
        # the number of digits follows from the prefix character
        u = lambda i: bv(self.fa.get(st, i), 8 * self.w)
        D = 8 if ex.sol.feasible(L.entry.pc, u(b - 1) != ord('u')) else 4
        vs = [bv(v, 32) for key, v in L.vars(st).items() if isinstance(v, (z3.BitVecRef, int)) and key not in L.steps
              and (isinstance(v, int) or v.size() == 32)]
        k = z3.simplify(bv(L.k, 64))
        x = z3.BitVecVal(0, 32)
        ds = []
        for j in range(D):
            ok, d = hexval(u(b + j))
            x = x + z3.If(z3.UGT(k, j), d << (4 * (D - 1 - j)), z3.BitVecVal(0, 32))
            ds.append(z3.Implies(z3.UGT(k, j), ok))
        if len(vs) != 1:
            if ex.dry:
                return []
            raise Unsupported('the digit loop has %d accumulators' % len(vs))
        return [('digits in range', z3.And(z3.ULE(k, D), z3.ULE(k + b, self.n))), ('digits so far', z3.And(*ds)), ('value so far', vs[0] == x)]


def c_unescape(ty):
    def f(t):
        ex, st, w, n, p, fa, slot, out, get = args(t, ty)
        st.ghost['slot'] = slot.obj
        ex.loopspecs = [Digits(w, p.obj, fa, n)]
        nm = 'unescape_codepoint<%s>' % ty
        for kind, s, r in ex.run(ex.find('^vp_unescape_%s$' % ty), [slot, Ptr(p.obj, Lin.of(n).mul(w)), out], st):
            ex.oblige(s, kind == 'ret', nm + ' returns')
            for s1, good in ex.branch(s, boolv(r)):
                ex.cover(s1, 'unescapes' if good else 'refuses')
                ok, ln, cp = unescape(get(s1), n)
                if not good:
                    ex.oblige(s1, z3.Not(ok), nm + ': every well-formed escape is accepted')
                    continue
                ex.oblige(s1, ok, nm + ': only well-formed escapes are accepted')
                it = ex.load(s1, slot, 8)
                ex.oblige(s1, isinstance(it, Ptr) and it.obj == p.obj and bv(it.off.div(w).val(), 64) == ln, nm + ': consumes exactly the escape')
                v = getstr(ex, s1, out)
                fo = content(ex, s1, v)
                el = U.enc_len(w, cp)
                ex.oblige(s1, bv(v.len, 64) == el, nm + ': yields one codepoint')
                for i in range({1: 4, 2: 2, 4: 1}[w]):
                    ex.oblige(s1, z3.Implies(z3.UGT(el, i), bv(fo.get(s1, i), 8 * w) == U.enc_unit(w, cp, i)), nm + ': unit %d of the codepoint' % i)
    return f


def lemma(w, prefix):
    def f(t):
        ex, st = t.ex, t.state()
        cp = fresh('cp', 32)
        st.assume(U.scalar(cp))
        n = fresh('n', 64)
        rest = [fresh('any', w) for _ in range(12)]
        for cond, units in escaped(cp, prefix, w)[1:]:
            s = st.clone()
            s.assume(cond)
            s.assume(z3.UGE(n, len(units)))
            ex.cover(s, 'form of %d' % len(units))
            ok, ln, c2 = unescape(lambda i: units[i] if i < len(units) else rest[i], n)
            ex.oblige(s, z3.And(ok, ln == len(units), c2 == cp), 'lemma: unescape(escape(c)) = c, form of %d characters' % len(units))
    return f


def tasks(tier):
    u = ['escape']
    tys = list(U.WIDTH)
    return [("escape_codepoint<%s, '%s'>" % (ty, x), c_escape(ty, x), u) for ty in tys for x in 'uU'] + \
        [('unescape_codepoint<%s>' % ty, c_unescape(ty), u) for ty in tys] + \
        [("lemma: %d bit, '%s'" % (w, x), lemma(w, x), u) for w in (8, 16, 32) for x in 'uU']
