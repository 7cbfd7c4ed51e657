"""P04: decoding and encoding of one codepoint in UTF-8, UTF-16 and UTF-32."""
import z3
from flyvc.val import *
from flyvc.models import getstr, content
from . import unispec as U

BUDGET = 300
DRIVER_S = 30
ASSUMPTIONS = ['iterators are pointers into the text; other iterator types run the same template']


def text(t, st, w, n):
    p = t.ex.buffer(st, 'text', n, w, const=True)
    return p, st.mem[p.obj].regions[0].fields[(0, w)]


def c_decode(ty):
    def f(t):
        ex, st = t.ex, t.state()
        w = U.WIDTH[ty]
        n = fresh('n', 64)
        st.assume(z3.ULT(n, 1 << 48))
        p, fa = text(t, st, w, n)
        slot = ex.new(st, 'it', 8, 'param')
        ex.store(st, slot, 8, p)
        out = ex.new(st, 'out', 4, 'param')
        get = lambda s: (lambda i: bv(fa.get(s, i), 8 * w))
        t.watch('n', n)
        for i in range(4):
            t.watch('%s unit %d' % (ty, i), get(st)(i))
        for kind, s, r in ex.run(ex.find('^vp_decode_%s$' % ty), [slot, Ptr(p.obj, Lin.of(n).mul(w)), out], st):
            ex.oblige(s, kind == 'ret', 'decode_codepoint<%s> returns' % ty)
            ok, ln, cp = U.decode(w, get(s), n)
            it = ex.load(s, slot, 8)
            ex.oblige(s, isinstance(it, Ptr) and it.obj == p.obj, 'decode_codepoint<%s>: the iterator stays in the text' % ty)
            pos = bv(it.off.div(w).val(), 64)
            for s1, good in ex.branch(s, boolv(r)):
                ex.cover(s1, 'accepts' if good else 'rejects')
                ok, ln, cp = U.decode(w, get(s1), n)
                ex.oblige(s1, z3.ULE(pos, n), 'decode_codepoint<%s>: the iterator does not pass the end' % ty)
                if good:
                    ex.oblige(s1, ok, 'decode_codepoint<%s>: accepts only well-formed encodings' % ty)
                    ex.oblige(s1, bv(ex.load(s1, out, 4), 32) == cp, 'decode_codepoint<%s>: yields the encoded value' % ty)
                    ex.oblige(s1, pos == ln, 'decode_codepoint<%s>: consumes exactly the encoding' % ty)
                else:
                    ex.oblige(s1, z3.Not(ok), 'decode_codepoint<%s>: rejects only ill-formed encodings' % ty)
    return f


def c_encode(ty):
    def f(t):
        ex, st = t.ex, t.state()
        w = U.WIDTH[ty]
        cp = fresh('codepoint', 32)
        t.watch('%s codepoint' % ty, cp)
        out = ex.new(st, 'out', 32, 'param')
        g = ex.mkstr(st, 0, ATable([0], 8 * w), w)
        ex.store(st, out, 32, g)
        for kind, s, r in ex.run(ex.find('^vp_encode_%s$' % ty), [cp, out], st):
            ex.oblige(s, kind == 'ret', 'encode_codepoint<%s> returns' % ty)
            for s1, good in ex.branch(s, boolv(r)):
                ex.cover(s1, 'accepts' if good else 'rejects')
                if not good:
                    ex.oblige(s1, z3.Not(U.scalar(cp)), 'encode_codepoint<%s>: every scalar value can be encoded' % ty)
                    continue
                ex.oblige(s1, U.scalar(cp), 'encode_codepoint<%s>: only scalar values can be encoded' % ty)
                v = getstr(ex, s1, out)
                fa = content(ex, s1, v)
                ln = U.enc_len(w, cp)
                ex.oblige(s1, bv(v.len, 64) == ln, 'encode_codepoint<%s>: length of the encoding' % ty)
                for i in range({1: 4, 2: 2, 4: 1}[w]):
                    ex.oblige(s1, z3.Implies(z3.UGT(ln, i), bv(fa.get(s1, i), 8 * w) == U.enc_unit(w, cp, i)),
                              'encode_codepoint<%s>: code unit %d' % (ty, i))
    return f


def lemma(w):
    def f(t):
        """The encodings are a bijection: decode(encode(c)) = c, and any text that decodes to c begins with encode(c)."""
        ex, st = t.ex, t.state()
        cp = fresh('cp', 32)
        st.assume(U.scalar(cp))
        ln = U.enc_len(w, cp)
        n, ext = fresh('n', 64), [fresh('any', 8 * w) for _ in range(4)]
        st.assume(z3.UGE(n, ln))
        get = lambda i: z3.If(z3.UGT(ln, i), U.enc_unit(w, cp, i), ext[i])
        ok, l2, c2 = U.decode(w, get, n)
        ex.cover(st, 'lemma')
        ex.oblige(st, z3.And(ok, l2 == ln, c2 == cp), 'lemma: decode(encode(c) ++ rest) = c, consuming encode(c)')
        st = t.state()
        u, n = [fresh('u', 8 * w) for _ in range(4)], fresh('n', 64)
        ok, l2, c2 = U.decode(w, lambda i: u[i], n)
        st.assume(ok)
        ex.cover(st, 'converse')
        ex.oblige(st, z3.And(U.scalar(c2), U.enc_len(w, c2) == l2), 'lemma: what is decoded is a scalar value, of that length')
        for i in range({1: 4, 2: 2, 4: 1}[w]):
            ex.oblige(st, z3.Implies(z3.UGT(l2, i), U.enc_unit(w, c2, i) == u[i]), 'lemma: encode(decode(x)) = x, unit %d' % i)
    return f


def tasks(tier):
    u = ['unicode']
    return [('decode_codepoint<%s>' % ty, c_decode(ty), u) for ty in U.WIDTH] + [('encode_codepoint<%s>' % ty, c_encode(ty), u) for ty in U.WIDTH] + \
        [('lemma: UTF-%d is a bijection' % (8 * w), lemma(w), u) for w in (1, 2, 4)]
