"""P07: character classification, for every value of every character type (loop-free: a complete proof)."""
import z3
from flyvc.val import *

BUDGET = 120
DRIVER_S = 40
STANDIN = 'exhaustive run of the compiled functions over char, char8_t and char16_t, and over all 2^32 values of wchar_t and char32_t (thorough; sampled windows in quick)'
WIDTH = {'char': 8, 'wchar': 32, 'char8': 8, 'char16': 16, 'char32': 32}


def rng(c, a, b):
    """a <= c <= b as a set of code values: no signedness is involved, the set lies in 0..127."""
    w = c.size()
    return z3.And(z3.UGE(c, ord(a)), z3.ULE(c, ord(b)))


UP = lambda c: rng(c, 'A', 'Z')
LO = lambda c: rng(c, 'a', 'z')
DI = lambda c: rng(c, '0', '9')
SPEC = {
    'is_alpha': lambda c: z3.Or(UP(c), LO(c)), 'is_upper': UP, 'is_lower': LO, 'is_digit': DI,
    'is_x_digit': lambda c: z3.Or(DI(c), rng(c, 'a', 'f'), rng(c, 'A', 'F')),
    'is_space': lambda c: z3.Or(c == 32, z3.And(z3.UGE(c, 9), z3.ULE(c, 13))),
    'to_upper': lambda c: z3.If(LO(c), c - 32, c), 'to_lower': lambda c: z3.If(UP(c), c + 32, c),
}


def contract(ty, fn):
    def f(t):
        ex, st = t.ex, t.state()
        c = fresh('ch', WIDTH[ty])
        t.watch('%s %s' % (ty, fn), c)
        for kind, s, r in ex.run(ex.find(r'^vp_%s_%s$' % (fn, ty)), [c], st):
            ex.cover(s, 'returns')
            ex.oblige(s, kind == 'ret', '%s<%s> returns' % (fn, ty))
            w = SPEC[fn](c)
            ex.oblige(s, (boolv(r) == w) if z3.is_bool(w) else (bv(r, WIDTH[ty]) == w), '%s<%s>: exactly the ASCII table' % (fn, ty))
    return f


def tasks(tier):
    def group(ty):
        def f(t):
            for fn in SPEC:
                contract(ty, fn)(t)
        f.__doc__ = ty
        return f
    return [('classification of ' + ty, group(ty), ['classifier']) for ty in WIDTH]
