"""P05: validation and conversion of whole strings, by induction over the codepoints."""
import z3
from flyvc.val import *
from flyvc.execu import LoopSpec, Imp
from flyvc.models import getstr, content
from . import unispec as U

BUDGET = 500
DRIVER_S = 30


def position(st, L, oid, w):
    """The position of the loop in the text: its one cursor."""
    cur = [(k, v) for k, v in L.vars(st).items() if isinstance(v, Ptr) and v.obj == oid]
    cur.sort(key=lambda x: str(x[0]))
    if not cur:
        raise Unsupported('the loop has no cursor into the text')
    return bv(cur[0][1].off.div(w).val(), 64)


class Text:
    """The text, and the recursive definitions over it (unfolded where the invariants need them)."""

    def __init__(self, fa, w, n):
        self.fa, self.w, self.n = fa, w, n
        u = fresh_id()
        B = z3.BitVecSort(64)
        self.valid = z3.Function('valid%d' % u, B, z3.BoolSort())       # the text from position i on is well formed
        self.start = z3.Function('start%d' % u, B, B)                   # position of the k-th codepoint
        self.opos = z3.Function('opos%d' % u, B, B)                     # units of output before the k-th codepoint

    def dec(self, st, i):
        c = {}

        def get(k):
            if k not in c:
                c[k] = bv(self.fa.get(st, Lin.of(i).add(k).val()), 8 * self.w)
            return c[k]
        return U.decode(self.w, get, self.n - i)

    def unfold_valid(self, st, i):
        ok, ln, cp = self.dec(st, i)
        st.assume(self.valid(i) == z3.If(i == self.n, z3.BoolVal(True), z3.And(ok, self.valid(i + ln))))

    def unfold_start(self, st, k, i, wout):
        """start(k+1), opos(k+1), given that start(k) = i"""
        ok, ln, cp = self.dec(st, i)
        st.assume(self.start(k + 1) == i + ln)
        st.assume(self.opos(k + 1) == self.opos(k) + U.enc_len(wout, cp))


def c_validate(ty):
    def f(t):
        ex, st = t.ex, t.state()
        w = U.WIDTH[ty]
        n = fresh('n', 64)
        st.assume(z3.ULT(n, 1 << 48))
        p = ex.buffer(st, 'text', n, w, const=True)
        fa = st.mem[p.obj].regions[0].fields[(0, w)]
        X = Text(fa, w, n)
        zero = z3.BitVecVal(0, 64)

        def inv(ex, s, L):
            i = position(s, L, p.obj, w)
            if L.head is None:
                X.unfold_valid(s, i)
            return [('the position is in the text', z3.ULE(i, n)), ('the whole is valid iff the rest is', X.valid(zero) == X.valid(i))]
        ex.loopspecs = [LoopSpec(inv, variant=lambda ex, s, L: n - position(s, L, p.obj, w), match=lambda ex, s, f, b: len(s.cuts) == 0)]
        for kind, s, r in ex.run(ex.find('^vp_validate_%s$' % ty), [p, n], st):
            ex.oblige(s, kind == 'ret', 'validate<%s> returns' % ty)
            for s1, good in ex.branch(s, boolv(r)):
                ex.cover(s1, 'valid' if good else 'invalid')
                X.unfold_valid(s1, n)
                ex.oblige(s1, X.valid(zero) if good else z3.Not(X.valid(zero)),
                          'validate<%s>: %s' % (ty, 'only well-formed strings are valid' if good else 'every well-formed string is valid'))
    return f


def strobj(ex, st, name, w, n, fa=None):
    o = ex.new(st, name, 32, 'param')
    g = ex.mkstr(st, n, fa if fa is not None else ABase(name, 8 * w), w)
    ex.store(st, o, 32, g)
    return o, g


def c_convert(a, b):
    def f(t):
        ex, st = t.ex, t.state()
        wa, wb = U.WIDTH[a], U.WIDTH[b]
        n = fresh('n', 64)
        st.assume(z3.ULT(n, 1 << 48))
        fa = ABase('text', 8 * wa)
        src, g = strobj(ex, st, 'in', wa, n, AStore(fa, n, 0))
        dst, _ = strobj(ex, st, 'out', wb, 0, ATable([0], 8 * wb))
        X = Text(fa, wa, n)
        zero = z3.BitVecVal(0, 64)
        st.assume(z3.And(X.start(zero) == 0, X.opos(zero) == 0))
        K = fresh('K', 64)         # an arbitrary codepoint of the text
        J = {1: 4, 2: 2, 4: 1}[wb]

        def copied(s, out, k, j):
            """Unit j of the K-th codepoint is at its place in the output."""
            cp = X.dec(s, X.start(K))[2]
            return z3.Implies(z3.UGT(U.enc_len(wb, cp), j), bv(out.get(s, Lin.of(X.opos(K)).add(j).val()), 8 * wb) == U.enc_unit(wb, cp, j))

        def before(s, k, i):
            """Facts of codepoint K below k: it lies in the text and its place in the output is below that of k."""
            ok, ln, cp = X.dec(s, X.start(K))
            return z3.And(ok, z3.ULE(X.opos(K) + U.enc_len(wb, cp), X.opos(k)), z3.ULT(X.opos(K), X.opos(k)), z3.ULT(X.start(K), i))

        def result(s, L=None):
            cells = [(o, c) for o in s.mem.values() for c, v in o.cells.items() if isinstance(v[1], GStr) and v[1].w == wb and o.id not in (src.obj, dst.obj)]
            r = [c[0].cells[c[1]][1] for c in cells]
            return r

        def outstr(s, L):
            r = [v for key, v in L.vars(s).items() if isinstance(v, GStr) and v.w == wb]
            if len(r) != 1:
                if ex.dry:
                    return None
                raise Unsupported('the loop does not write exactly one string')
            return r[0]

        def inv(ex, s, L):
            i, k, o = position(s, L, g.data, wa), L.k, outstr(s, L)
            if o is None:
                return [('the position is in the text', z3.ULE(i, n))]
            if L.head is None:
                X.unfold_valid(s, i)
                X.unfold_start(s, k, i, wb)
                s.ghost['k'] = k
            out = content(ex, s, o)
            return [('the position is in the text', z3.ULE(i, n)), ('the whole is valid iff the rest is', X.valid(zero) == X.valid(i)),
                    ('k codepoints are consumed', z3.And(X.start(k) == i, z3.ULE(k, i))), ('the output has their length', bv(o.len, 64) == X.opos(k)),
                    ('the output is not larger than the input allows', z3.ULE(X.opos(k), i * 4)),
                    ('earlier codepoints are placed before', Imp(z3.ULT(K, k), lambda s2: before(s2, k, i), [K + 1 == k]))] + \
                [('unit %d of earlier codepoints' % j, Imp(z3.ULT(K, k), lambda s2, j=j: copied(s2, out, k, j), [K + 1 == k])) for j in range(J)]
        ex.loopspecs = [LoopSpec(inv, variant=lambda ex, s, L: n - position(s, L, g.data, wa), match=lambda ex, s, f, b: len(s.cuts) == 0)]
        for kind, s, r in ex.run(ex.find('^vp_convert_%s_%s$' % (a, b)), [src, dst], st):
            ex.oblige(s, kind == 'ret', 'convert<%s, %s> returns' % (a, b))
            for s1, good in ex.branch(s, boolv(r)):
                ex.cover(s1, 'converts' if good else 'refuses')
                X.unfold_valid(s1, n)
                if not good:
                    ex.oblige(s1, z3.Not(X.valid(zero)), 'convert<%s, %s>: every well-formed string converts' % (a, b))
                    continue
                ex.oblige(s1, X.valid(zero), 'convert<%s, %s>: only well-formed strings convert' % (a, b))
                k = s1.ghost['k']
                v = getstr(ex, s1, dst)
                out = content(ex, s1, v)
                ex.oblige(s1, X.start(k) == n, 'convert<%s, %s>: all codepoints are consumed' % (a, b))
                ex.oblige(s1, bv(v.len, 64) == X.opos(k), 'convert<%s, %s>: the output holds nothing else' % (a, b))
                for j in range(J):
                    ex.oblige(s1, Imp(z3.ULT(K, k), lambda s2, j=j: copied(s2, out, k, j)),
                              'convert<%s, %s>: unit %d of every codepoint is at its place' % (a, b, j))
    return f


def l_back(wa, wb):
    def f(t):
        """Induction step of: converting back consumes the output codepoint by codepoint, and yields the original text."""
        ex, st = t.ex, t.state()
        n, m = fresh('n', 64), fresh('m', 64)
        st.assume(z3.And(z3.ULT(n, 1 << 48), z3.ULT(m, 1 << 50)))
        X, Y = Text(ABase('text', 8 * wa), wa, n), Text(ABase('converted', 8 * wb), wb, m)
        k = fresh('k', 64)
        i, o = X.start(k), X.opos(k)
        ok, ln, cp = X.dec(st, i)
        # contract of the conversion a -> b, for codepoint k
        st.assume(z3.And(ok, z3.ULT(i, n), z3.ULE(o + U.enc_len(wb, cp), m), z3.ULT(o, m), z3.ULE(i + ln, n)))
        for j in range(4):
            st.assume(z3.Implies(z3.UGT(U.enc_len(wb, cp), j), bv(Y.fa.get(st, Lin.of(o).add(j).val()), 8 * wb) == U.enc_unit(wb, cp, j)))
        # induction hypothesis: the way back is at the corresponding places
        st.assume(z3.And(Y.start(k) == o, Y.opos(k) == i))
        X.unfold_start(st, k, i, wb)
        Y.unfold_start(st, k, o, wa)
        ok2, ln2, cp2 = Y.dec(st, o)
        ex.cover(st, 'step')
        ex.oblige(st, z3.And(ok2, cp2 == cp), 'lemma: the converted text decodes to the same codepoint')
        ex.oblige(st, z3.And(Y.start(k + 1) == X.opos(k + 1), Y.opos(k + 1) == X.start(k + 1)), 'lemma: both ways stay aligned')
        for j in range({1: 4, 2: 2, 4: 1}[wa]):
            ex.oblige(st, z3.Implies(z3.UGT(ln, j), U.enc_unit(wa, cp2, j) == bv(X.fa.get(st, Lin.of(i).add(j).val()), 8 * wa)),
                      'lemma: converting back yields the original unit %d' % j)
    return f


def tasks(tier):
    u = ['convert']
    tys = list(U.WIDTH)
    r = [('validate<%s>' % ty, c_validate(ty), u) for ty in tys]
    r += [('convert<%s to %s>' % (a, b), c_convert(a, b), u) for a in tys for b in tys]
    r += [('lemma: UTF-%d to UTF-%d and back' % (8 * a, 8 * b), l_back(a, b), u) for a in (1, 2, 4) for b in (1, 2, 4)]
    return r
