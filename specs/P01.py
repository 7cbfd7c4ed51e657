"""P01 Base64: encoding is RFC 4648, decoding is its exact inverse and rejects everything else."""
import z3
from flyvc.val import *
from flyvc.execu import LoopSpec, Imp
from flyvc.models import new_istream, new_ostream, T as tv

B = lambda x: bv(x, 8)
ALPHA = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def sym(v6):
    """RFC 4648 table 1 as a formula over a 6-bit value held in 8 bits."""
    v = v6
    return z3.If(z3.ULT(v, 26), v + 65, z3.If(z3.ULT(v, 52), v - 26 + 97, z3.If(z3.ULT(v, 62), v - 52 + 48,
                 z3.If(v == 62, B(43), B(47)))))


def code(c):
    """Inverse table: (valid, value)."""
    up = z3.And(z3.UGE(c, 65), z3.ULE(c, 90))
    lo = z3.And(z3.UGE(c, 97), z3.ULE(c, 122))
    di = z3.And(z3.UGE(c, 48), z3.ULE(c, 57))
    ok = z3.Or(up, lo, di, c == 43, c == 47)
    val = z3.If(up, c - 65, z3.If(lo, c - 97 + 26, z3.If(di, c - 48 + 52, z3.If(c == 43, B(62), B(63)))))
    return ok, val


def enc4(b0, b1, b2):
    return [sym(z3.LShR(b0, 2)), sym(((b0 & 3) << 4) | z3.LShR(b1, 4)), sym(((b1 & 15) << 2) | z3.LShR(b2, 6)), sym(b2 & 63)]


def dec3(v0, v1, v2, v3):
    return [(v0 << 2) | z3.LShR(v1, 4), ((v1 & 15) << 4) | z3.LShR(v2, 2), ((v2 & 3) << 6) | v3]


def bytes_in(t, st, name, n):
    p = t.ex.buffer(st, name, n, 1, const=True)
    fa = st.mem[p.obj].regions[0].fields[(0, 1)]
    return p, [fa.get(st, i) for i in range(n)]


def out_bytes(st, p, n):
    fa = st.mem[p.obj].regions[0].fields[(0, 1)]
    return [bv(fa.get(st, i), 8) for i in range(n)]


def c_encode_chunk(t):
    """encode_chunk: three bytes become the four RFC 4648 symbols."""
    ex, st = t.ex, t.state()
    p, b = bytes_in(t, st, 'decoded', 3)
    q = ex.buffer(st, 'encoded', 4)
    for i, x in enumerate(b):
        t.watch('in%d' % i, x)
    for kind, s, r in ex.run(ex.find(r'::encode_chunk\(char const\*, char\*\)'), [p, q], st):
        ex.cover(s, 'returns')
        ex.oblige(s, kind == 'ret', 'encode_chunk returns')
        for i, (g, w) in enumerate(zip(out_bytes(s, q, 4), enc4(*b))):
            ex.oblige(s, g == w, 'encode_chunk: symbol %d is the RFC 4648 symbol' % i)


def decode_post(ex, s, c, r, outb, pad):
    oks, vals = zip(*[code(x) for x in c])
    ispad = [x == 61 for x in c]
    allok = z3.And(*oks)
    d = dec3(*vals)
    if not pad:
        ex.oblige(s, boolv(r) == allok, 'decode_chunk<false>: accepts exactly four alphabet symbols')
        for i in range(3):
            ex.oblige(s, z3.Implies(allok, outb[i] == d[i]), 'decode_chunk<false>: byte %d' % i)
        return
    two = z3.And(oks[0], oks[1], ispad[2], ispad[3])
    one = z3.And(oks[0], oks[1], oks[2], ispad[3])
    want = z3.If(allok, 3, z3.If(one, 2, z3.If(two, 1, 0)))
    want = z3.If(allok, z3.BitVecVal(3, 64), z3.If(one, z3.BitVecVal(2, 64), z3.If(two, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))))
    ex.oblige(s, bv(r, 64) == want, 'decode_chunk<true>: number of decoded bytes')
    ex.oblige(s, z3.Implies(z3.Or(allok, one, two), outb[0] == d[0]), 'decode_chunk<true>: byte 0')
    ex.oblige(s, z3.Implies(z3.Or(allok, one), outb[1] == d[1]), 'decode_chunk<true>: byte 1')
    ex.oblige(s, z3.Implies(allok, outb[2] == d[2]), 'decode_chunk<true>: byte 2')


def c_decode_chunk(pad):
    def f(t):
        ex, st = t.ex, t.state()
        p, c = bytes_in(t, st, 'encoded', 4)
        q = ex.buffer(st, 'decoded', 3)
        for i, x in enumerate(c):
            t.watch('in%d' % i, x)
        fn = ex.find(r'decode_chunk<std::integral_constant<bool, %s>' % ('true' if pad else 'false'))
        for kind, s, r in ex.run(fn, [p, q], st):
            ex.cover(s, 'returns')
            ex.oblige(s, kind == 'ret', 'decode_chunk returns')
            decode_post(ex, s, c, r, out_bytes(s, q, 3), pad)
    return f


def l_roundtrip(t):
    """Lemma over the two contracts: decoding the encoding of any chunk (full or padded) yields the chunk."""
    ex, st = t.ex, t.state()
    b = [fresh('b', 8) for _ in range(3)]
    e = enc4(*b)
    ok, v = zip(*[code(x) for x in e])
    ex.oblige(st, z3.And(*ok), 'lemma: every encoded symbol is in the alphabet')
    for x, y in zip(dec3(*v), b):
        ex.oblige(st, x == y, 'lemma: decode(encode(chunk)) == chunk')
    z = B(0)
    e1 = enc4(b[0], z, z)
    ok, v = zip(*[code(x) for x in e1[:2]])
    ex.oblige(st, z3.And(ok[0], ok[1], dec3(v[0], v[1], z, z)[0] == b[0]), 'lemma: one byte followed by two padding symbols')
    e2 = enc4(b[0], b[1], z)
    ok, v = zip(*[code(x) for x in e2[:3]])
    d = dec3(v[0], v[1], v[2], z)
    ex.oblige(st, z3.And(*ok, d[0] == b[0], d[1] == b[1]), 'lemma: two bytes followed by one padding symbol')
    ex.oblige(st, z3.Not(z3.Or(*[code(B(61))[0]])), 'lemma: the padding symbol is not in the alphabet')
    ex.cover(st, 'lemma')


# ------------------------------------------------------------------------------ whole streams
class Outer(LoopSpec):
    """One iteration per block read; m whole groups (3 bytes <-> 4 symbols) have been processed so far."""

    def __init__(self, ci, co, inv):
        super().__init__()
        self.ci, self.co, self.f = ci, co, inv

    def matches(self, ex, st, f, blk):
        return len(st.cuts) == 0 and 'force'

    def begin(self, ex, st):
        st.ghost['m'] = z3.ZeroExt(16, fresh('m', 48))

    def havoc_ghost(self, ex, st, key, v):
        m = st.ghost['m']
        if v.kind == 'ostream':
            r = v.set(data=ABase('out', 8), n=Lin.of(m).mul(self.co).bv())
        else:
            r = v.set(pos=Lin.of(m).mul(self.ci).bv(), gcount=fresh('gc', 64))
        return r.set(eof=fresh('eof', 1), fail=fresh('fail', 1))

    def inv(self, ex, st, L):
        i, o = st.ghost[('stream', st.ghost['in'])], st.ghost[('stream', st.ghost['out'])]
        # the number of groups, read off the power-of-two side (havoc_ghost instantiates the same statement with m)
        if self.co == 4:
            m = z3.LShR(o.n, 2)
            rel = z3.And(o.n & 3 == 0, i.pos == 3 * m)
        else:
            m = z3.LShR(i.pos, 2)
            rel = z3.And(i.pos & 3 == 0, o.n == 3 * m)
        g = st.ghost.get('m')
        if g is not None and L.head is None and o.n.eq(Lin.of(g).mul(self.co).bv()) and i.pos.eq(Lin.of(g).mul(self.ci).bv()):
            m = g
        return [('whole groups are processed', z3.And(rel, z3.ULE(i.pos, i.n), z3.ULT(m, 1 << 48)))] + self.f(ex, st, i, o, m)


class Inner(LoopSpec):
    """One iteration per group of a block; the loop writes one array of the coder object."""

    def __init__(self, A, inv):
        super().__init__()
        self.f, self.A = inv, A

    def matches(self, ex, st, f, blk):
        return len(st.cuts) == 1 and 'force'

    def split(self, ex, st, L):
        return [Lin.of(self.A).sub(st.ghost['m']).bv()]

    def inv(self, ex, st, L):
        if L.head is None:
            st.ghost['k'] = L.k
        this = st.ghost['this']
        wr = [m for m in L.mods if m[0] == this and m[1] == 'r']
        if not wr and ex.dry:
            return []
        if len(wr) != 1:
            raise Unsupported('group loop writes %r' % (sorted(L.mods, key=str),))
        o = [r for r in st.mem[this].regions if r.start == wr[0][2]][0]
        return [('k is bounded', z3.ULT(L.k, 1 << 56))] + self.f(ex, st, L.k, o.fields[(0, 1)])


def coder(t, st):
    p = t.ex.new(st, 'coder', t.const('vp_sizeof_coder'), 'param')
    st.ghost['this'] = p.obj
    return p


def setup(t):
    ex, st = t.ex, t.state()
    i, o = new_istream(ex, st), new_ostream(ex, st)
    st.ghost['in'], st.ghost['out'] = i.obj, o.obj
    this = coder(t, st)
    g = st.ghost[('stream', i.obj)]
    A = z3.ZeroExt(16, fresh('A', 48))       # an arbitrary group
    st.assume(z3.ULT(g.n, 1 << 48))
    return ex, st, i, o, this, g.n, g.data, A


def c_encode_stream(parts):
    def f(t):
        """encode_internal: for every stream content, the output is its RFC 4648 encoding (length and every symbol)."""
        ex, st, i, o, this, N, data, A = setup(t)
        A3, A4 = Lin.of(A).mul(3), Lin.of(A).mul(4)

        def want(st, b):
            g = lambda k: bv(data.get(st, A3.add(k).val()), 8)
            z = lambda k: z3.If(z3.ULT(A3.add(k).bv(), N), g(k), B(0))
            e = enc4(g(0), z(1), z(2))[b]
            if b == 2:
                e = z3.If(z3.UGE(A3.add(1).bv(), N), B(61), e)
            if b == 3:
                e = z3.If(z3.UGE(A3.add(2).bv(), N), B(61), e)
            return e

        def full(st, b):
            return enc4(*[bv(data.get(st, A3.add(k).val()), 8) for k in range(3)])[b]

        def here(s):
            """Groups written before this block, by this block, and the padded group."""
            if 'm' not in s.ghost or 'k' not in s.ghost:
                return []
            return [z3.ULT(A, s.ghost['m']), z3.ULT(A - s.ghost['m'], s.ghost['k']), A == s.ghost['m'] + s.ghost['k']]

        def outer(ex, st, i, o, m):
            return [('streams are good', z3.And(z3.Not(i.eof), z3.Not(i.fail), z3.Not(o.fail), z3.Not(o.eof)))] + \
                [('output so far is the encoding', Imp(z3.ULT(A, m), lambda s, b=b: bv(o.data.get(s, A4.add(b).val()), 8) == full(s, b),
                                                       here(st))) for b in parts]

        def inner(ex, st, k, buf):
            d = Lin.of(A).sub(st.ghost['m'])
            return [('block so far is encoded', Imp(z3.ULT(d.bv(), k), lambda s, b=b: bv(buf.get(s, d.mul(4).add(b).val()), 8) == full(s, b))) for b in parts]
        ex.loopspecs = [Outer(3, 4, outer), Inner(A, inner)]
        fn = ex.find(r'Base64Coder::encode_internal\(')
        for kind, s, r in ex.run(fn, [this, i, o], st):
            ex.cover(s, 'returns')
            out = s.ghost[('stream', o.obj)]
            ex.oblige(s, kind == 'ret', 'encode_internal returns')
            q = z3.LShR(out.n, 2)
            if 0 in parts:
                ex.oblige(s, boolv(r), 'encode_internal: succeeds on every input')
                ex.oblige(s, z3.And(out.n & 3 == 0, z3.UGE(3 * q, N), z3.ULT(3 * q, N + 3)), 'encode_internal: output length is 4*ceil(n/3)')
            for b in parts:
                ex.oblige(s, Imp(z3.ULT(A3.bv(), N), lambda s, b=b: bv(out.data.get(s, A4.add(b).val()), 8) == want(s, b)),
                          'encode_internal: symbol %d of every group is the RFC 4648 symbol' % b, cases=here(s))
    return f


def here(s):
    """Case split on the group: decoded before this block, or by its loop."""
    A = s.ghost['A']
    if 'm' not in s.ghost or 'k' not in s.ghost:
        return []
    return [z3.ULT(A, s.ghost['m']), z3.ULT(A - s.ghost['m'], s.ghost['k'])]


class DecOuter(LoopSpec):
    """Blocks of symbols.  While the stream is not exhausted, m unpadded groups have been decoded; once it is, everything has."""
    alts = 3

    def __init__(self, cond, final, given):
        super().__init__()
        self.cond, self.final, self.given = cond, final, given
        self.alts = 2 if given else 3

    def matches(self, ex, st, f, blk):
        return len(st.cuts) == 0 and 'force'

    def begin(self, ex, st):
        st.ghost['m'] = z3.ZeroExt(16, fresh('m', 48))

    def havoc_ghost(self, ex, st, key, v):
        m = st.ghost['m']
        T, F = z3.BoolVal(True), z3.BoolVal(False)
        if self.alt == 2:
            if v.kind == 'ostream':
                return v.set(data=ABase('out', 8), n=fresh('n', 64), eof=F, fail=T)
            return v.set(pos=fresh('pos', 64), gcount=fresh('gc', 64), eof=fresh('eof', 1), fail=F)
        if v.kind == 'ostream':
            return v.set(data=ABase('out', 8), n=Lin.of(m).mul(3).bv() if self.alt == 0 else fresh('n', 64), eof=F, fail=F)
        return v.set(pos=Lin.of(m).mul(4).bv() if self.alt == 0 else v.n, gcount=fresh('gc', 64), eof=F if self.alt == 0 else T, fail=F)

    def inv(self, ex, st, L):
        i, o = st.ghost[('stream', st.ghost['in'])], st.ghost[('stream', st.ghost['out'])]
        good = z3.Not(z3.Or(i.fail, o.fail, o.eof))
        if not self.given and z3.is_true(z3.simplify(o.fail)):
            # malformed input was met: the output is failed for good
            return [('input stream is readable', z3.And(z3.Not(i.fail), z3.ULE(i.pos, i.n)))]
        if z3.is_false(z3.simplify(i.eof)):
            m = z3.LShR(i.pos, 2)
            g = st.ghost.get('m')
            if g is not None and L.head is None and i.pos.eq(Lin.of(g).mul(4).bv()) and o.n.eq(Lin.of(g).mul(3).bv()):
                m = g
            return [('streams are good', good),
                    ('whole groups are processed', z3.And(i.pos & 3 == 0, o.n == 3 * z3.LShR(i.pos, 2), z3.ULE(i.pos, i.n),
                                                          z3.Or(z3.ULT(i.pos, i.n), i.n == 0)))] + \
                [('groups so far: ' + n, Imp(z3.ULT(st.ghost['A'], m), c, here(st))) for n, c in self.cond(o.data)]
        if z3.is_true(z3.simplify(i.eof)):
            return [('streams are good', good), ('stream is consumed and was not empty', z3.And(i.pos == i.n, i.n != 0))] + self.final(st, o)
        raise Unsupported('eof state is not settled at the loop head')


def use_decode_chunk(ex):
    """Callers are verified against the contract of decode_chunk (proved by its own tasks)."""
    def contract(pad):
        def f(ex, st, a, fn, ins):
            c = [bv(ex.load(st, a[0].add(i), 1), 8) for i in range(4)]
            oks, vals = zip(*[code(x) for x in c])
            d = dec3(*vals)
            allok = z3.And(*oks)
            one, two = z3.And(*oks[:3], c[3] == 61), z3.And(*oks[:2], c[2] == 61, c[3] == 61)
            n = [z3.Or(allok, one, two), z3.Or(allok, one), allok] if pad else [allok] * 3
            for i in range(3):
                ex.store(st, a[1].add(i), 1, z3.If(n[i], d[i], fresh('any', 8)))
            if not pad:
                return allok
            v = lambda x: z3.BitVecVal(x, 64)
            return z3.If(allok, v(3), z3.If(one, v(2), z3.If(two, v(1), v(0))))
        return f
    for pad in (False, True):
        try:
            ex.contracts[ex.find(r'decode_chunk<std::integral_constant<bool, %s>' % str(pad).lower()).dem] = contract(pad)
        except Unsupported:
            pass        # no such helper any more: whatever replaced it is executed in place


def c_decode_stream(part, given):
    """given=True: on a well-formed stream decoding succeeds; given=False: success implies a well-formed stream, and the content."""
    def f(t):
        ex, st, i, o, this, N, data, A = setup(t)
        A3, A4 = Lin.of(A).mul(3), Lin.of(A).mul(4)
        st.ghost['A'] = A
        ispad = lambda c: c == 61
        if given:
            # hypotheses about the input: a whole number of groups, and every symbol read satisfies the grammar
            st.assume(N & 3 == 0)

            def fact(st, i, v):
                ok = code(v)[0]
                return z3.If(i == N - 1, z3.Or(ok, ispad(v)),
                             z3.If(i == N - 2, z3.Or(ok, z3.And(ispad(v), ispad(z3.Select(data.a, N - 1)))), z3.Implies(z3.ULT(i, N - 2), ok)))
            data.facts = [fact]

        def E(st, k):
            return bv(data.get(st, A4.add(k).val()), 8)

        def group(st):
            e = [E(st, k) for k in range(4)]
            cs = [code(x) for x in e]
            return e, [c[0] for c in cs], dec3(*[c[1] for c in cs])

        def cond(dst, at=A3):
            r = [('symbols are in the alphabet', lambda s: z3.And(*group(s)[1]))] if not given and part == 0 else []
            if not given:
                r.append(('byte %d' % part, lambda s: bv(dst.get(s, at.add(part).val()), 8) == group(s)[2][part]))
            return r

        def last(dst):
            def wf(s):
                e, ok, d = group(s)
                p2, p3 = ispad(e[2]), ispad(e[3])
                return z3.And(ok[0], ok[1], z3.Or(ok[2], z3.And(p2, p3)), z3.Or(ok[3], p3))

            def val(s):
                e, ok, d = group(s)
                has = z3.BoolVal(True) if part == 0 else z3.Not(ispad(e[2])) if part == 1 else z3.Not(ispad(e[3]))
                return z3.Implies(has, bv(dst.get(s, A3.add(part).val()), 8) == d[part])
            return ([('last group is well formed', wf)] if part == 0 else []) + [('last group, byte %d' % part, val)]

        def final(st, o):
            if given:
                return []
            g = z3.LShR(N, 2)
            nz = N != 0

            def outlen(s):
                p3, p2 = [bv(data.get(s, N - k), 8) == 61 for k in (1, 2)]
                pads = z3.If(p2, z3.BitVecVal(2, 64), z3.If(p3, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
                return o.n == 3 * g - pads
            r = [('final: ' + n, Imp(z3.And(nz, z3.ULT(A + 1, g)), c, here(st))) for n, c in cond(o.data)]
            r += [('final: ' + n, Imp(z3.And(nz, A + 1 == g), c)) for n, c in last(o.data)]
            if part == 0:
                r += [('final: whole groups', N & 3 == 0), ('final: output length is 3 per group less the padding', Imp(nz, outlen))]
            return r

        def inner(ex, st, k, buf):
            if z3.is_true(z3.simplify(st.ghost[('stream', st.ghost['out'])].fail)):
                return []       # already failed: nothing is claimed about the output
            d = Lin.of(A).sub(st.ghost['m'])
            return [('block so far: ' + n, Imp(z3.ULT(d.bv(), k), c)) for n, c in cond(buf, d.mul(3))]
        ex.loopspecs = [DecOuter(cond, final, given), Inner(A, inner)]
        use_decode_chunk(ex)
        fn = ex.find(r'Base64Coder::decode_internal\(')
        for kind, s, r in ex.run(fn, [this, i, o], st):
            ex.oblige(s, kind == 'ret', 'decode_internal returns')
            for s1, ok in ex.branch(s, boolv(r)):
                out = s1.ghost[('stream', o.obj)]
                if given:
                    ex.cover(s1, 'accepts')
                    ex.oblige(s1, ok, 'decode_internal: accepts every well-formed stream')
                    continue
                if not ok:
                    ex.cover(s1, 'rejects')
                    continue
                ex.cover(s1, 'accepts')
                for n, c in final(s1, out):
                    ex.oblige(s1, c, 'decode_internal on success: ' + n)
                if part == 0:
                    ex.oblige(s1, z3.Implies(N == 0, out.n == 0), 'decode_internal: nothing decodes to nothing')
    return f


def tasks(tier):
    u = ['base64']
    r = [('encode_chunk', c_encode_chunk, u), ('decode_chunk<no padding>', c_decode_chunk(False), u),
         ('decode_chunk<padding>', c_decode_chunk(True), u), ('lemma: chunk round trip', l_roundtrip, u)]
    r += [('encode_internal [symbol %d]' % b, c_encode_stream([b]), u) for b in range(4)]
    r += [('decode_internal accepts well-formed streams', c_decode_stream(0, True), u)]
    r += [('decode_internal success [byte %d]' % b, c_decode_stream(b, False), u) for b in range(3)]
    return r
