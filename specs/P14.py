"""P14: conversion of text to integers."""
import re
import z3
from flyvc.val import *
from flyvc.execu import Outcomes
from flyvc.models import getstr, content
from .digits import Digits
from .P05 import strobj

BUDGET = 200
DRIVER_S = 25
B = lambda v, w=64: z3.BitVecVal(v, w)
TY = {'c': ('char', 8, 1), 'sc': ('signed char', 8, 1), 'uc': ('unsigned char', 8, 0), 's': ('short', 16, 1), 'us': ('unsigned short', 16, 0), 'i': ('int', 32, 1),
      'ui': ('unsigned int', 32, 0), 'l': ('long', 64, 1), 'ul': ('unsigned long', 64, 0), 'll': ('long long', 64, 1), 'ull': ('unsigned long long', 64, 0)}
ASSUMPTIONS = ['std::from_chars: reads the longest decimal numeral at the start of its range ("-" only for signed types), reports invalid_argument when there is '
               'none and result_out_of_range when it does not fit, and leaves the value alone in both cases (assumed contract of the standard library)',
               'the parameter packs of literals are proved one digit at a time; the induction over the length of the pack is the recursion of the template']


def numeral(st, D, w, signed):
    """(there is a numeral, it fits, its value as a w bit pattern, where it ends) at the start of the text."""
    neg = z3.And(D.n != 0, D.at(st, B(0)) == ord('-')) if signed else z3.BoolVal(False)
    s = z3.If(neg, B(1), B(0))
    D.start(st, s)
    some, fits, v, e = D.number(s)
    some = z3.And(z3.ULE(s, D.n), some)
    lim = (1 << (w - 1)) if signed else (1 << w)
    fits = z3.And(fits, z3.If(neg, z3.ULE(v, lim), z3.ULE(v, lim - 1)))
    return some, fits, z3.Extract(w - 1, 0, z3.If(neg, -v, v)), e


def from_chars(D, text):
    def contract(ex, st, a, fn, ins):
        m = re.search(r'std::from_chars<([a-z ]+)>\(', fn.dem)
        if not m:
            return NotImplemented
        w, signed = [(w, s) for n, w, s in TY.values() if n == m.group(1)][0]
        first, last, out = a[:3]
        if len(a) > 3 and a[3] != 10:
            raise Unsupported('from_chars with another base')
        if first.obj != text or last.obj != text:
            raise Unsupported('from_chars over another text')
        lo, hi = first.off.val(), last.off.val()
        ex.oblige(st, z3.And(bv(lo, 64) == 0, bv(hi, 64) == D.n), 'from_chars: called on the whole text')
        some, fits, v, e = numeral(st, D, w, signed)
        res = []
        for s1, x in ex.branch(st, some):
            if not x:
                res.append((s1, Agg([first, 22])))
                continue
            for s2, y in ex.branch(s1, fits):
                if y:
                    ex.store(s2, out, w // 8, v)
                res.append((s2, Agg([first.add(e), 0 if y else 34])))
        return Outcomes(res)
    return contract


def c_convert(k):
    def f(t):
        """convert yields exactly the value of the whole string, or nothing"""
        ex, st = t.ex, t.state()
        name, w, signed = TY[k]
        n = fresh('n', 64)
        st.assume(z3.ULT(n, 1 << 48))
        fa = ABase('text', 8)
        p, _ = strobj(ex, st, 'text', 1, n, AStore(fa, n, 0))
        D = Digits(fa, n, 10)
        t.watch('n', n)
        for i in range(24):
            t.watch('text %d' % i, D.at(st, B(i)))
        out = ex.buffer(st, 'out', 1, w // 8)
        text = [None]

        def fc(ex, st, a, fn, ins):
            g = getstr(ex, st, p)
            return from_chars(D, a[0].obj)(ex, st, a, fn, ins)
        for g in ex.find(r'std::from_chars<%s>\(' % name, False):
            ex.contracts[g.dem] = fc
        for kind, s, r in ex.run(ex.find('^vp_to_%s$' % k), [p, out], st):
            ex.oblige(s, kind == 'ret', 'convert returns')
            some, fits, v, e = numeral(s, D, w, signed)
            ok = z3.And(some, fits, e == n)
            for s1, good in ex.branch(s, boolv(r)):
                ex.cover(s1, 'converted' if good else 'refused')
                if not good:
                    ex.oblige(s1, z3.Not(ok), 'convert<%s>: every numeral that fits is converted' % name)
                else:
                    ex.oblige(s1, ok, 'convert<%s>: nothing but numerals that fit' % name)
                    ex.oblige(s1, bv(ex.load(s1, out, w // 8), w) == v, 'convert<%s>: the value' % name)
    return f


def c_digits(base):
    def f(t):
        """one more digit of a literal: refused (not a constant expression) on overflow, else base * value + digit"""
        ex = t.ex
        for n in range(26):
            d = n if n < 16 else n - 10
            if n >= base and not (base == 16 and n >= 20) or 16 <= n < 20:
                continue
            for sg in 'us':
                st = t.state()
                a = fresh('value', 64)
                t.watch('value', a)
                if sg == 's':
                    st.assume(a >= 0)
                wide = z3.ZeroExt(64, a) * base + d
                fits = z3.ULE(wide, B((1 << (63 if sg == 's' else 64)) - 1, 128))
                if sg == 's':
                    st.assume(fits)          # overflow of a signed type is no constant expression by the language rules
                for kind, s, r in ex.run(ex.find('^vp_d%s_%d_%d$' % (sg, base, n)), [a], st):
                    ex.cover(s, 'digit')
                    if kind == 'ret':
                        ex.oblige(s, fits, 'literal digit: overflow is refused')
                        ex.oblige(s, z3.ZeroExt(64, bv(r, 64)) == wide, 'literal digit: base * value + digit')
                    else:
                        ex.oblige(s, z3.Not(fits), 'literal digit: only overflow is refused')
    return f


def c_pack(t):
    """separators are skipped, digits are taken from left to right"""
    ex = t.ex
    for fn, f in (('vp_sep', lambda a: a), ('vp_none', lambda a: a), ('vp_more', lambda a: ((a * 10 + 7) * 10 + 3) * 10 + 5),
                  ('vp_morex', lambda a: ((a * 16 + 15) * 16 + 3) * 16 + 10)):
        st = t.state()
        a = fresh('value', 64)
        st.assume(z3.ULT(a, 1 << 40))
        for kind, s, r in ex.run(ex.find('^%s$' % fn), [a], st):
            ex.cover(s, fn)
            ex.oblige(s, kind == 'ret', fn + ' returns')
            if kind == 'ret':
                ex.oblige(s, bv(r, 64) == f(a), fn + ': value')


def tasks(tier):
    return [('convert to ' + TY[k][0], c_convert(k), ['convint']) for k in TY] + \
        [('literal digits of base %d' % b, c_digits(b), ['convint']) for b in (2, 8, 10, 16)] + [('literal packs', c_pack, ['convint'])]
