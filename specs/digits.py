"""Runs of digits in a text: their end and their exact value, as ghost functions that the contracts unfold where needed."""
import z3
from flyvc.val import *
from flyvc.execu import LoopSpec, Outcomes
from .P06 import hexval
B = lambda v: z3.BitVecVal(v, 64)


class Digits:
    def __init__(self, fa, n, base):
        self.fa, self.n, self.base = fa, n, base
        u = fresh_id()
        S = z3.BitVecSort(64)
        self.end = z3.Function('end%d' % u, S, S)                       # end of the run of digits that starts at a position
        self.val = z3.Function('val%d' % u, S, S, S)                    # value of the first k digits from a position, modulo 2^64
        self.ovf = z3.Function('ovf%d' % u, S, S, z3.BoolSort())        # whether that value exceeds 64 bits

    def at(self, st, i):
        return bv(self.fa.get(st, bv(i, 64)), 8)

    def digit(self, st, i):
        c = self.at(st, i)
        if self.base == 10:
            return z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), z3.ZeroExt(24, c) - 48
        return hexval(c)

    def start(self, st, s):
        """Definition of the run from position s <= n."""
        e = self.end(s)
        st.assume(z3.Implies(z3.ULE(s, self.n), z3.And(z3.ULE(s, e), z3.ULE(e, self.n), z3.Or(e == self.n, z3.Not(self.digit(st, e)[0])))))
        st.assume(z3.Implies(z3.ULT(s, e), self.digit(st, s)[0]))
        st.assume(self.val(s, B(0)) == 0)
        st.assume(z3.Not(self.ovf(s, B(0))))

    def unfold(self, st, s, k):
        """... its member at s+k, and the value of k+1 digits from that of k."""
        ok, d = self.digit(st, s + k)
        st.assume(z3.Implies(z3.ULT(s + k, self.end(s)), ok))
        x = z3.ZeroExt(64, self.val(s, k)) * self.base + z3.ZeroExt(96, d)
        st.assume(self.val(s, k + 1) == z3.Extract(63, 0, x))
        st.assume(self.ovf(s, k + 1) == z3.Or(self.ovf(s, k), z3.Extract(127, 64, x) != 0))

    def settle(self, ex, st):
        """The runs the code has been through end where they end (an obligation, then a fact)."""
        for s, k in st.ghost.get('runs', ()):
            c = self.end(s) == s + k
            ex.oblige(st, c, 'the whole run of digits is read')
            st.assume(c)

    def number(self, s):
        """(there is one, it fits in 64 bits, its value, where it ends) for the number at s"""
        e = self.end(s)
        return e != s, z3.Not(self.ovf(s, e - s)), self.val(s, e - s), e


class Run(LoopSpec):
    """The loop over one run of digits."""

    def __init__(self, D):
        super().__init__()
        self.D = D

    def matches(self, ex, st, f, blk):
        return len(st.cuts) == 0 and self.is_run(ex, st, f, blk) and 'force'

    def is_run(self, ex, st, f, blk):
        return 'consume_number' in f.fn.dem or 'consume_hex_number' in f.fn.dem

    def pos(self, L):
        """Where the run starts: the entry value of the variable that moves by one."""
        c = [k for k, s in L.steps.items() if k[0] != 'w' and s == 1]
        v = L.vars(L.entry)
        if not c:
            return None                                                  # the loop does not run at all on this path
        if len(c) != 1 or c[0] not in v:
            raise Unsupported('the digit loop has %d positions' % len(c))
        return bv(v[c[0]], 64)

    def candidates(self, ex, st, lvs, L):
        D, r = self.D, []
        try:
            s = self.pos(L)
        except Unsupported:
            return []
        if s is None:
            return []
        D.start(L.entry, s)
        for key, sym, w, kind, e in lvs:
            if key in L.steps or kind == 'strlen' or isinstance(kind, tuple):
                continue
            if w == 64:
                r.append(('value of the digits so far', sym == D.val(s, L.k)))
            else:
                b = sym if kind == 'bool' else sym != 0
                rng = [] if kind == 'bool' else [z3.ULE(sym, 1)]
                r.append(('some digit', z3.And(b == (L.k != 0), *rng)))
                r.append(('overflow so far', z3.And(b == D.ovf(s, L.k), *rng)))
        return r

    def inv(self, ex, st, L):
        D = self.D
        s = self.pos(L)
        if s is None:
            return []
        D.start(st, s)
        if L.head is None:
            D.unfold(st, s, L.k)
            st.ghost['runs'] = st.ghost.get('runs', ()) + ((s, L.k),)
        return [('the digits lie in the run', z3.And(z3.ULE(s, D.n), z3.ULE(L.k, D.end(s) - s)))]

    def variant(self, ex, st, L):
        return self.D.n - L.k


HEX, DEC = 'fly::BasicLexer<char>::consume_hex_number()', 'fly::BasicLexer<char>::consume_number()'


def number_contract(D, text):
    """The contract of consume_number / consume_hex_number, for callers (proved by c_number): from a position within the
    text, the position becomes the end of the run of digits, and the value is that of the run, if there is one and it fits."""
    def contract(ex, st, args, fn, ins):
        this = args[0]
        if not isinstance(this, Ptr) or len(args) != 1:
            return NotImplemented

        def get(st, name):
            (kind, s, r), = ex.run(ex.find('^vp_lexer_%s$' % name), [this], st)
            return s, r
        st, p = get(st, 'data')
        st, n = get(st, 'size')
        st, pos = get(st, 'position')
        pos = bv(pos, 64)
        if p.obj != text.obj:
            raise Unsupported('a lexer over another text')
        off = bv(p.off.val(), 64)                                        # a lexer over an end of the text
        ex.oblige(st, z3.And(z3.ULE(off, D.n), bv(n, 64) == D.n - off, z3.ULE(pos, bv(n, 64))), 'consume number: called within the text')
        pos = z3.simplify(off + pos)
        D.start(st, pos)
        some, fits, v, e = D.number(pos)
        (kind, st, r), = ex.run(ex.find('^vp_lexer_set$'), [this, z3.simplify(e - off)], st)
        return Outcomes([(st, Agg([v, z3.If(z3.And(some, fits), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))]))])
    return contract


def c_number(base):
    """Proof of number_contract: from every position of every text."""
    def f(t):
        ex, st = t.ex, t.state()
        n, pos = fresh('n', 64), fresh('position', 64)
        st.assume(z3.ULT(n, 1 << 48))
        st.assume(z3.ULE(pos, n))
        p = ex.buffer(st, 'text', n, 1, const=True)
        out, after = ex.buffer(st, 'out', 1, 8), ex.buffer(st, 'after', 1, 8)
        fa = st.mem[p.obj].regions[0].fields[(0, 1)]
        D = Digits(fa, n, base)
        t.watch('n', n)
        t.watch('position', pos)
        for i in range(20):
            t.watch('text %d' % i, D.at(st, pos + i))
        ex.loopspecs = [Run(D)]
        for kind, s, r in ex.run(ex.find('^vp_hex_number$' if base == 16 else '^vp_number$'), [p, n, pos, out, after], st):
            ex.oblige(s, kind == 'ret', 'consume number returns')
            D.start(s, pos)
            D.settle(ex, s)
            some, fits, v, e = D.number(pos)
            ex.cover(s, 'number read')
            ex.oblige(s, bv(ex.load(s, after, 8), 64) == e, 'consume number: exactly the run of digits is consumed')
            ex.oblige(s, boolv(r) == z3.And(some, fits), 'consume number: there is a result iff there are digits and they fit')
            for s1, y in ex.branch(s, boolv(r)):
                if y:
                    ex.oblige(s1, bv(ex.load(s1, out, 8), 64) == v, 'consume number: the value of the digits')
    return f
