"""P08: the lexer, from an arbitrary state (text, position)."""
import z3
from flyvc.val import *
from flyvc.execu import LoopSpec, Imp
from . import unispec as U
from .P06 import hexval

BUDGET = 200
DRIVER_S = 20
STANDIN = 'operation histories on exactly sized texts against an independent oracle (ASan)'
B = lambda v: z3.BitVecVal(v, 64)


class Run(LoopSpec):
    """Loop over a run of digits starting at `pos`: k digits have been taken."""

    def __init__(self, T):
        super().__init__()
        self.T = T

    def matches(self, ex, st, f, blk):
        return len(st.cuts) == 0 and 'force'

    def candidates(self, ex, st, lvs, L):
        T = self.T
        r = []
        for key, sym, w, kind, e in lvs:
            if key in L.steps or kind == 'strlen' or isinstance(kind, tuple):
                continue
            if w == 64:
                r.append(('value of the digits so far', sym == T.val(L.k)))
            else:
                b = sym if kind == 'bool' else sym != 0
                rng = [] if kind == 'bool' else [z3.ULE(sym, 1)]
                r.append(('some digit', z3.And(b == (L.k != 0), *rng)))
                r.append(('overflow so far', z3.And(b == T.ovf(L.k), *rng)))
        return r

    def inv(self, ex, st, L):
        T = self.T
        if L.head is None:
            T.unfold(st, L.k)
        return [('the digits lie in the text', z3.Or(L.k == 0, z3.And(z3.ULT(T.pos, T.n), z3.ULE(L.k, T.n - T.pos)))),
                ('everything taken is a digit', z3.Implies(z3.ULT(T.A, L.k), T.digit(st, T.A)[0]))]

    def variant(self, ex, st, L):
        return self.T.n - L.k


class Txt:
    def __init__(self, ex, st, ty, base):
        self.w, self.base = U.WIDTH[ty], base
        self.n, self.pos, self.A = fresh('n', 64), fresh('pos', 64), fresh('A', 64)
        st.assume(z3.ULT(self.n, 1 << 48))
        self.p = ex.buffer(st, 'text', self.n, self.w, const=True)
        self.fa = st.mem[self.p.obj].regions[0].fields[(0, self.w)]
        u = fresh_id()
        self.val = z3.Function('val%d' % u, z3.BitVecSort(64), z3.BitVecSort(64))
        self.ovf = z3.Function('ovf%d' % u, z3.BitVecSort(64), z3.BoolSort())
        st.assume(self.val(B(0)) == 0)
        st.assume(z3.Not(self.ovf(B(0))))

    def at(self, st, i):
        return bv(self.fa.get(st, bv(i, 64)), 8 * self.w)

    def digit(self, st, k):
        c = self.at(st, self.pos + k)
        if self.base == 10:
            return z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), U.z32(c) - 48
        return hexval(c)

    def unfold(self, st, k):
        """The exact value of k+1 digits, from that of k digits (128 bit arithmetic: nothing is lost)."""
        ok, d = self.digit(st, k)
        x = z3.ZeroExt(64, self.val(k)) * self.base + z3.ZeroExt(96, d)
        st.assume(self.val(k + 1) == z3.Extract(63, 0, x))
        st.assume(self.ovf(k + 1) == z3.Or(self.ovf(k), z3.Extract(127, 64, x) != 0))


def numbers(ty, fn, base):
    def f(t):
        ex, st = t.ex, t.state()
        T = Txt(ex, st, ty, base)
        out, after = ex.buffer(st, 'out', 1, 8), ex.buffer(st, 'after', 1, 8)
        t.watch('n', T.n), t.watch('pos', T.pos)
        ex.loopspecs = [Run(T)]
        nm = 'consume_%s<%s>' % ('number' if base == 10 else 'hex_number', ty)
        for kind, s, r in ex.run(ex.find('^vp_%s_%s$' % (fn, ty)), [T.p, T.n, T.pos, out, after], st):
            ex.oblige(s, kind == 'ret', nm + ' returns')
            p2 = bv(ex.load(s, after, 8), 64)
            c = p2 - T.pos
            for s1, good in ex.branch(s, boolv(r)):
                ex.cover(s1, 'number' if good else 'none')
                ex.oblige(s1, z3.Implies(c != 0, z3.And(z3.ULE(p2, T.n), z3.ULT(T.pos, p2))), nm + ': the position stays in the text')
                ex.oblige(s1, z3.Implies(z3.ULT(T.A, c), T.digit(s1, T.A)[0]), nm + ': consumes digits only')
                ex.oblige(s1, z3.Or(z3.UGE(p2, T.n), z3.Not(T.digit(s1, c)[0])), nm + ': consumes the whole run of digits')
                if good:
                    ex.oblige(s1, z3.And(c != 0, z3.Not(T.ovf(c))), nm + ': a number is at least one digit and fits')
                    ex.oblige(s1, bv(ex.load(s1, out, 8), 64) == T.val(c), nm + ': the value of the digits')
                else:
                    ex.oblige(s1, z3.Or(c == 0, T.ovf(c)), nm + ': every number that fits is returned')
    return f


def single(ty):
    def f(t):
        for op in ('peek', 'consume', 'consume_if', 'fresh'):
            ex, st = t.ex, t.state()
            T = Txt(ex, st, ty, 10)
            nm = op + '<%s>' % ty
            w = T.w
            out, after = ex.buffer(st, 'out', 1, w), ex.buffer(st, 'after', 1, 8)
            off, ch = fresh('off', 64), fresh('ch', 8 * w)
            vp, vs = ex.buffer(st, 'vp', 1, 8), ex.buffer(st, 'vs', 1, 8)
            t.watch('n', T.n), t.watch('pos', T.pos), t.watch('off', off)
            args = {'peek': [off, out, after], 'consume': [out, after], 'consume_if': [ch, after], 'fresh': [after, vp, vs]}[op]
            pos = [] if op == 'fresh' else [T.pos]
            for kind, s, r in ex.run(ex.find('^vp_%s_%s$' % (op, ty)), [T.p, T.n] + pos + args, st):
                ex.oblige(s, kind == 'ret', nm + ' returns')
                p2 = bv(ex.load(s, after, 8), 64)
                inside = z3.ULT(T.pos, T.n)
                if op == 'fresh':
                    ex.cover(s, 'constructed')
                    v = ex.load(s, vp, 8)
                    ex.oblige(s, isinstance(v, Ptr) and v.obj == T.p.obj and v.off.bv() == 0, 'view(): begins with the text')
                    ex.oblige(s, z3.And(p2 == 0, bv(ex.load(s, vs, 8), 64) == T.n), 'a new lexer stands at the start of the whole text')
                    continue
                for s1, good in ex.branch(s, boolv(r)):
                    ex.cover(s1, 'yes' if good else 'no')
                    if op == 'peek':
                        ok = z3.And(inside, z3.ULT(off, T.n - T.pos))
                        i = T.pos + off
                        want = T.pos
                    elif op == 'consume':
                        ok, i, want = inside, T.pos, T.pos + 1
                    else:
                        ok, i, want = z3.And(inside, T.at(s1, T.pos) == ch), T.pos, T.pos + 1
                    ex.oblige(s1, ok if good else z3.Not(ok), nm + ': succeeds exactly when %s' % ('the text has the character' if op != 'consume_if' else 'the next character matches'))
                    ex.oblige(s1, p2 == (want if good else T.pos), nm + ': position afterwards')
                    if good and op != 'consume_if':
                        ex.oblige(s1, bv(ex.load(s1, out, w), 8 * w) == T.at(s1, i), nm + ': yields the character of the text')
    return f


def tasks(tier):
    tys = list(U.WIDTH)
    return [('single characters, ' + ty, single(ty), ['lexer']) for ty in tys] + \
        [('%s number, %s' % (n, ty), numbers(ty, fn, b), ['lexer']) for ty in tys for n, fn, b in (('decimal', 'number', 10), ('hexadecimal', 'hex', 16))]
