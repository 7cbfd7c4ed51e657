"""P20: endian conversion (loop-free: a complete proof for every value)."""
import z3
from flyvc.val import *

BUDGET = 120
DRIVER_S = 20
W = {'i8': 8, 'u8': 8, 'c': 8, 'i16': 16, 'u16': 16, 'c16': 16, 'i32': 32, 'u32': 32, 'w': 32, 'i64': 64, 'u64': 64, 'l': 64, 'll': 64, 'ull': 64}


def rev(v):
    n = v.size() // 8
    b = [z3.Extract(8 * i + 7, 8 * i, v) for i in range(n)]
    return z3.Concat(*b) if n > 1 else v


def group(ty):
    def f(t):
        ex = t.ex
        w = W[ty]
        little = bool(t.const('vp_native_is_little'))
        v = fresh('value', w)
        for fn, spec in (('swap', rev), ('little', (lambda x: x) if little else rev), ('big', rev if little else (lambda x: x))):
            st = t.state()
            t.watch('%s %s' % (fn, ty), v)
            for kind, s, r in ex.run(ex.find(r'^vp_%s_%s$' % (fn, ty)), [v], st):
                ex.cover(s, fn + ' returns')
                ex.oblige(s, kind == 'ret', fn + ' returns')
                ex.oblige(s, bv(r, w) == spec(v), '%s<%s>: bytes are exactly reversed / kept' % (fn, ty))
                if fn == 'swap':
                    for k2, s2, r2 in ex.run(ex.find(r'^vp_swap_%s$' % ty), [r], s):
                        ex.oblige(s2, bv(r2, w) == v, 'swap<%s>: swapping twice is the identity' % ty)
    return f


def tasks(tier):
    return [('endian conversion of ' + ty, group(ty), ['endian']) for ty in W]
