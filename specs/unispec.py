"""Specification of the Unicode encoding forms, written from tables 3-5, 3-6 and 3-7 of the Unicode standard."""
import z3
from flyvc.val import *

WIDTH = {'char': 1, 'wchar': 4, 'char8': 1, 'char16': 2, 'char32': 4}


def scalar(cp):
    return z3.Or(z3.ULT(cp, 0xD800), z3.And(z3.UGT(cp, 0xDFFF), z3.ULE(cp, 0x10FFFF)))


def z32(x):
    return z3.ZeroExt(32 - x.size(), x) if x.size() < 32 else x


def enc_len(w, cp):
    c = lambda x: z3.BitVecVal(x, 64)
    if w == 1:
        return z3.If(z3.ULT(cp, 0x80), c(1), z3.If(z3.ULT(cp, 0x800), c(2), z3.If(z3.ULT(cp, 0x10000), c(3), c(4))))
    if w == 2:
        return z3.If(z3.ULT(cp, 0x10000), c(1), c(2))
    return c(1)


def enc_unit(w, cp, i):
    """i-th code unit of the encoding of the scalar value cp (meaningful for i < enc_len)."""
    E = lambda hi, lo, n: z3.ZeroExt(n - (hi - lo + 1), z3.Extract(hi, lo, cp)) if n > hi - lo + 1 else z3.Extract(hi, lo, cp)
    if w == 1:
        b = lambda v: z3.BitVecVal(v, 8)
        tail = lambda k: b(0x80) | E(6 * k + 5, 6 * k, 8)
        one, two, three = z3.ULT(cp, 0x80), z3.ULT(cp, 0x800), z3.ULT(cp, 0x10000)
        if i == 0:
            return z3.If(one, E(7, 0, 8), z3.If(two, b(0xC0) | E(10, 6, 8), z3.If(three, b(0xE0) | E(15, 12, 8), b(0xF0) | E(20, 18, 8))))
        if i == 1:
            return z3.If(two, tail(0), z3.If(three, tail(1), tail(2)))
        if i == 2:
            return z3.If(three, tail(0), tail(1))
        return tail(0)
    if w == 2:
        v = cp - 0x10000
        hi = z3.BitVecVal(0xD800, 16) + z3.Extract(25, 10, v)
        lo = z3.BitVecVal(0xDC00, 16) + (z3.Extract(15, 0, v) & 0x3FF)
        return z3.If(z3.ULT(cp, 0x10000), z3.Extract(15, 0, cp), hi) if i == 0 else lo
    return cp


def decode(w, get, n):
    """(valid, length, codepoint) of the encoding the text begins with.  get(i) is code unit i, n the number of units (64 bit)."""
    has = lambda k: z3.UGE(n, k)
    L = lambda k: z3.BitVecVal(k, 64)
    if w == 4:
        c = get(0)
        return z3.And(has(1), scalar(c)), L(1), c
    if w == 2:
        a, b = get(0), get(1)
        hs = z3.And(z3.UGE(a, 0xD800), z3.ULE(a, 0xDBFF))
        ls = lambda x: z3.And(z3.UGE(x, 0xDC00), z3.ULE(x, 0xDFFF))
        pair = z3.And(has(2), hs, ls(b))
        single = z3.And(has(1), z3.Not(hs), z3.Not(ls(a)))
        v = (z32(a) - 0xD800) * 0x400 + (z32(b) - 0xDC00) + 0x10000
        return z3.Or(single, pair), z3.If(hs, L(2), L(1)), z3.If(hs, v, z32(a))
    b = [get(i) for i in range(4)]
    r = lambda x, lo, hi: z3.And(z3.UGE(x, lo), z3.ULE(x, hi))
    t = lambda x: r(x, 0x80, 0xBF)
    f1 = z3.And(has(1), r(b[0], 0, 0x7F))
    f2 = z3.And(has(2), r(b[0], 0xC2, 0xDF), t(b[1]))
    f3 = z3.And(has(3), t(b[2]), z3.Or(z3.And(b[0] == 0xE0, r(b[1], 0xA0, 0xBF)), z3.And(r(b[0], 0xE1, 0xEC), t(b[1])),
                                       z3.And(b[0] == 0xED, r(b[1], 0x80, 0x9F)), z3.And(r(b[0], 0xEE, 0xEF), t(b[1]))))
    f4 = z3.And(has(4), t(b[2]), t(b[3]), z3.Or(z3.And(b[0] == 0xF0, r(b[1], 0x90, 0xBF)), z3.And(r(b[0], 0xF1, 0xF3), t(b[1])),
                                                z3.And(b[0] == 0xF4, r(b[1], 0x80, 0x8F))))
    x = [z32(v) for v in b]
    c1 = x[0]
    c2 = ((x[0] & 0x1F) << 6) | (x[1] & 0x3F)
    c3 = ((x[0] & 0xF) << 12) | ((x[1] & 0x3F) << 6) | (x[2] & 0x3F)
    c4 = ((x[0] & 7) << 18) | ((x[1] & 0x3F) << 12) | ((x[2] & 0x3F) << 6) | (x[3] & 0x3F)
    return (z3.Or(f1, f2, f3, f4), z3.If(f1, L(1), z3.If(f2, L(2), z3.If(f3, L(3), L(4)))),
            z3.If(f1, c1, z3.If(f2, c2, z3.If(f3, c3, c4))))
