"""P02: bit streams.  The streams are modelled as the bit strings the objects represent:
writer: the bytes already flushed, followed by the upper 64 - m_position bits of m_buffer (the rest of m_buffer is zero);
reader: the lower m_position bits of m_buffer, followed by the bytes not read yet, without the padding of the last byte.
Every operation is verified from every such state, and shown to extend / shorten that bit string as it should."""
import z3
from flyvc.val import *
from flyvc.models import new_istream, new_ostream, new_streambuf, setstream, gstream

BUDGET = 300
DRIVER_S = 25
B = lambda v, w=64: z3.BitVecVal(v, w)
TY = {8: 8, 16: 16, 32: 32, 64: 64}
ASSUMPTIONS = ['std::streambuf: sgetn, sputn, sgetc and pubseekpos have the effect of the standard on a file of bytes (assumed contract)',
               'the position of the stream and the size of the file are below 2^48']


def zx(v, w):
    return z3.ZeroExt(w - v.size(), v) if v.size() < w else v


def mask(n, w):
    """The lowest n (0..w) bits, w > n possible."""
    return z3.If(z3.UGE(n, w), B(-1, w), (B(1, w) << n) - 1)


def writer(t, st):
    ex = t.ex
    s = new_ostream(ex, st)
    cap = fresh('capacity', 64)
    st.assume(z3.ULT(cap, 1 << 48), z3.UGT(cap, 16))
    f = ex.buffer(st, 'file', cap, 1)
    sb = new_streambuf(ex, st, s, f, cap, True)
    return s, f, cap, sb


def wstate(t, st, cap):
    ex = t.ex
    at, b0, p0 = fresh('at', 64), fresh('buffer', 64), fresh('position', 8)
    t.watch('buffer', b0)
    t.watch('position', p0)
    st.assume(z3.UGE(at, 1), z3.ULT(at, cap - 8), z3.ULE(p0, 64))
    p = zx(p0, 64)
    st.assume(b0 & mask(p, 64) == 0)
    pb, pp = ex.buffer(st, 'buf', 1, 8), ex.buffer(st, 'pos', 1, 1)
    ex.store(st, pb, 8, b0)
    ex.store(st, pp, 1, p0)
    return at, b0, p0, p, pb, pp


def contents(ex, st, f):
    """The file as it is now: function of the index."""
    fa = st.mem[f.obj].regions[0].fields.get((0, 1))
    return lambda s, i: bv(fa.get(s, i), 8)


def header_ok(ex, s, f, rem, what):
    ex.oblige(s, bv(ex.load(s, f, 1), 8) == (z3.Concat(B(0x1a, 5), rem)), what)


def frame(ex, s, old, f, lo, hi, what):
    j = fresh('j', 64)
    now = contents(ex, s, f)
    s1 = s.clone()
    s1.assume(z3.UGE(j, 1), z3.Or(z3.ULT(j, lo), z3.UGE(j, hi)))
    ex.oblige(s1, now(s1, j) == old(s1, j), what)


def c_open(t):
    """a new writer has an empty buffer and has written the header"""
    ex, st = t.ex, t.state()
    s, f, cap, sb = writer(t, st)
    old = contents(ex, st, f)
    pb, pp = ex.buffer(st, 'buf', 1, 8), ex.buffer(st, 'pos', 1, 1)
    for kind, e, r in ex.run(ex.find('^vp_w_open$'), [s, pb, pp], st):
        ex.cover(e, 'opened')
        ex.oblige(e, kind == 'ret', 'BitStreamWriter returns')
        header_ok(ex, e, f, B(0, 3), 'BitStreamWriter: the header says no padding')
        ex.oblige(e, z3.And(bv(ex.load(e, pb, 8), 64) == 0, bv(ex.load(e, pp, 1), 8) == 64), 'BitStreamWriter: the buffer is empty')
        ex.oblige(e, bv(e.ghost[('sb', sb.obj)].pos, 64) == 1, 'BitStreamWriter: the data follows the header')


def c_write(fn, w, fixed=None):
    def f_(t):
        """writing appends exactly the low bits of the value, most significant first"""
        ex, st = t.ex, t.state()
        s, f, cap, sb = writer(t, st)
        at, b0, p0, p, pb, pp = wstate(t, st, cap)
        v, n = fresh('bits', w), fresh('size', 8)
        t.watch('bits', v)
        t.watch('size', n)
        st.assume(z3.And(n != 0, z3.ULE(n, w)) if not fixed else n == fixed)
        old = contents(ex, st, f)
        N = zx(n, 128)
        P = zx(p0, 128)
        # the bit string after the flushed bytes: 64 - p bits of the buffer, then n bits, left-justified in 128 bits
        want = (zx(b0, 128) << 64) | ((zx(v, 128) & mask(N, 128)) << (64 + P - N))
        args = [s, at, pb, pp, v] + ([] if fixed else [n])
        for kind, e, r in ex.run(ex.find('^%s$' % fn), args, st):
            ex.oblige(e, kind == 'ret', fn + ' returns')
            b1, p1 = bv(ex.load(e, pb, 8), 64), bv(ex.load(e, pp, 1), 8)
            pos = e.ghost[('sb', sb.obj)].pos
            for e1, flushed in ex.branch(e, bv(pos, 64) != at):
                ex.cover(e1, 'flushed' if flushed else 'kept')
                header_ok(ex, e1, f, B(0, 3), fn + ': the header is kept')
                if flushed:
                    ex.oblige(e1, bv(pos, 64) == at + 8, fn + ': the buffer is flushed as a whole')
                    now = contents(ex, e1, f)
                    for i in range(8):
                        ex.oblige(e1, now(e1, at + i) == z3.Extract(127 - 8 * i, 120 - 8 * i, want), fn + ': flushed byte %d' % i)
                    ex.oblige(e1, b1 == z3.Extract(63, 0, want), fn + ': the buffer holds the rest')
                    ex.oblige(e1, zx(p1, 128) == 64 + P - N, fn + ': free bits')
                    frame(ex, e1, old, f, at, at + 8, fn + ': only the flushed bytes change')
                else:
                    ex.oblige(e1, zx(b1, 128) << 64 == want, fn + ': the buffer holds all bits')
                    ex.oblige(e1, zx(p1, 128) == P - N, fn + ': free bits')
                    frame(ex, e1, old, f, at, at, fn + ': the file is unchanged')
                ex.oblige(e1, z3.And(z3.ULE(p1, 64), b1 & mask(zx(p1, 64), 64) == 0), fn + ': the free bits are zero')
    return f_


def c_finish(t):
    """finish writes the pending bits padded to a byte, and the number of padding bits into the header"""
    ex, st = t.ex, t.state()
    s, f, cap, sb = writer(t, st)
    at, b0, p0, p, pb, pp = wstate(t, st, cap)
    old = contents(ex, st, f)
    for kind, e, r in ex.run(ex.find('^vp_w_finish$'), [s, at, pb, pp], st):
        ex.oblige(e, kind == 'ret', 'finish returns')
        used = 64 - p
        for n in range(0, 9):
            # n: number of bytes that hold the pending bits
            e1 = e.clone()
            e1.assume(z3.LShR(used + 7, 3) == n)
            if not ex.sol.feasible(e1.pc):
                continue
            ex.cover(e1, 'finish: %d bytes' % n)
            now = contents(ex, e1, f)
            for i in range(n):
                ex.oblige(e1, now(e1, at + i) == z3.Extract(63 - 8 * i, 56 - 8 * i, b0), 'finish: pending byte %d' % i)
            pad = z3.Extract(2, 0, B(8 * n) - used)
            header_ok(ex, e1, f, pad, 'finish: the header holds the number of padding bits')
            frame(ex, e1, old, f, at, at + n, 'finish: nothing else changes')
            ex.oblige(e1, z3.And(bv(ex.load(e1, pb, 8), 64) == 0, bv(ex.load(e1, pp, 1), 8) == 64), 'finish: the buffer is empty')
        g = gstream(e, s)
        ex.oblige(e, boolv(r) == z3.Not(z3.Or(g.eof, g.fail)), 'finish: reports the state of the stream')


# ------------------------------------------------------------------ reader
def reader(t, st, opened=True):
    ex = t.ex
    s = new_istream(ex, st)
    n = fresh('filesize', 64)
    st.assume(z3.ULT(n, 1 << 48))
    t.watch('filesize', n)
    f = ex.buffer(st, 'file', n, 1, const=True)
    sb = new_streambuf(ex, st, s, f, n, False)
    o = ex.new(st, 'state', 16, 'param')
    ex.store(st, o, 8, fresh('oldbuffer', 64))
    for i in (8, 9, 10):
        ex.store(st, o.add(i), 1, B(0, 8))
    if not opened:
        return s, f, n, sb, o
    at = fresh('at', 64)
    b0, p0, rem = fresh('buffer', 64), fresh('position', 8), fresh('remainder', 8)
    st.assume(z3.UGE(at, 1), z3.ULE(at, n), z3.UGE(n, 1), z3.ULE(p0, 64), z3.ULE(rem, 7))
    # the header: magic and the number of padding bits
    st.assume(z3.Extract(7, 3, bv(ex.load(st, f, 1), 8)) == 0x1a, zx(z3.Extract(2, 0, bv(ex.load(st, f, 1), 8)), 8) == rem)
    for nm, x in (('buffer', b0), ('position', p0), ('remainder', rem), ('at', at)):
        t.watch(nm, x)
    ex.store(st, o, 8, b0)
    ex.store(st, o.add(8), 1, p0)
    ex.store(st, o.add(9), 1, rem)
    return s, f, n, sb, o, at, b0, p0, rem


def c_ropen(t):
    """a reader takes the padding from the header and refuses any other header"""
    ex, st = t.ex, t.state()
    s, f, n, sb, o = reader(t, st, False)
    for kind, e, r in ex.run(ex.find('^vp_r_open$'), [s, o], st):
        ex.oblige(e, kind == 'ret', 'BitStreamReader returns')
        for e1, any_ in ex.branch(e, n != 0):
            ex.cover(e1, 'header' if any_ else 'empty file')
            fail = gstream(e1, s).fail
            if not any_:
                ex.oblige(e1, fail, 'BitStreamReader: an empty file is refused')
                continue
            h = bv(ex.load(e1, f, 1), 8)
            ex.oblige(e1, fail == (z3.Extract(7, 3, h) != 0x1a), 'BitStreamReader: refuses exactly the headers without the magic')
            ex.oblige(e1, bv(ex.load(e1, o.add(9), 1), 8) == zx(z3.Extract(2, 0, h), 8), 'BitStreamReader: padding bits from the header')
            ex.oblige(e1, bv(ex.load(e1, o.add(10), 1), 8) == h, 'BitStreamReader: header')
            ex.oblige(e1, z3.And(bv(ex.load(e1, o.add(8), 1), 8) == 0, bv(e1.ghost[('sb', sb.obj)].pos, 64) == 1), 'BitStreamReader: nothing is buffered')


def available(ex, e, f, n, at, b, p, rem, size):
    """(bits, count): what is buffered once `size` bits are wanted; bits right-justified in 64, and the bytes taken from the file."""
    res = []
    for e1, refill in ex.branch(e, z3.UGT(size, p)):
        if not refill:
            res.append((e1, b & mask(zx(p, 64), 64), p, 0))
            continue
        k = z3.LShR(64 - p, 3)
        left = n - at
        for r in range(0, 9):
            e2 = e1.clone()
            e2.assume(z3.If(z3.ULT(left, zx(k, 64)), left, zx(k, 64)) == r)
            if not ex.sol.feasible(e2.pc):
                continue
            bits = (b & mask(zx(p, 64), 64)) << (8 * r) if r < 8 else B(0)
            for i in range(r):
                bits = bits | (zx(bv(ex.load(e2, f.add(at + i), 1), 8), 64) << (8 * (r - 1 - i)))
            cnt = p + 8 * r
            for e3, last in ex.branch(e2, at + r == n) if r else [(e2, False)]:
                if last:
                    res.append((e3, z3.LShR(bits, zx(rem, 64)), cnt - rem, r))
                else:
                    res.append((e3, bits, cnt, r))
    return res


def take(bits, cnt, size, w):
    """The first `size` bits of the `cnt` available ones, left-justified in size bits when there are fewer."""
    got = z3.If(z3.ULE(size, cnt), size, cnt)
    v = z3.LShR(bits, zx(cnt - got, 64)) & mask(zx(got, 64), 64)
    v = v << zx(size - got, 64)
    return z3.Extract(w - 1, 0, v) if w < 64 else v, got


def same_low(a, b, cnt):
    return (a ^ b) & mask(zx(cnt, 64), 64) == 0


def c_read(fn, w, consume, fixed=None):
    def f_(t):
        """reading returns the next bits of the stream; peeking keeps them"""
        ex, st = t.ex, t.state()
        s, f, n, sb, o, at, b0, p0, rem = reader(t, st)
        size = fresh('size', 8)
        t.watch('size', size)
        st.assume(z3.ULE(size, w) if not fixed else size == fixed)
        out = ex.buffer(st, 'out', 1, w // 8)
        args = [s, at, o, out] + ([] if fixed else [size])
        for kind, e, r in ex.run(ex.find('^%s$' % fn), args, st):
            ex.oblige(e, kind == 'ret', fn + ' returns')
            for e1, bits, cnt, took in available(ex, e, f, n, at, b0, p0, rem, size):
                ex.cover(e1, 'read %d bytes' % took)
                want, got = take(bits, cnt, size, w)
                if fixed:
                    ex.oblige(e1, boolv(r) == (got == fixed), fn + ': succeeds exactly when there are enough bits')
                else:
                    ex.oblige(e1, bv(r, 8) == got, fn + ': number of bits')
                ex.oblige(e1, bv(ex.load(e1, out, w // 8), w) == want, fn + ': the bits are the next bits of the stream')
                b1, p1 = bv(ex.load(e1, o, 8), 64), bv(ex.load(e1, o.add(8), 1), 8)
                keep = cnt - got if consume else cnt
                ex.oblige(e1, p1 == keep, fn + ': bits left in the buffer')
                ex.oblige(e1, same_low(b1, bits, keep), fn + ': the bits that are left')
                ex.oblige(e1, bv(e1.ghost[('sb', sb.obj)].pos, 64) == at + took, fn + ': bytes taken from the stream')
                ex.oblige(e1, bv(ex.load(e1, o.add(9), 1), 8) == rem, fn + ': padding kept')
    return f_


def c_read64(t):
    """read_bits of up to 64 bits returns the bits of the reads it is made of, in order (callee: peek_bits<32> by its contract)"""
    ex, st = t.ex, t.state()
    s, f, n, sb, o, at, b0, p0, rem = reader(t, st)
    size = fresh('size', 8)
    t.watch('size', size)
    st.assume(z3.ULE(size, 64))
    out = ex.buffer(st, 'out', 1, 8)
    ob, op = t.const('vp_off_buffer'), t.const('vp_off_position')

    def peek(ex, st, a, fn, ins):
        this, dst, k = a
        ex.oblige(st, z3.ULE(bv(k, 8), 32), 'read_bits<64>: reads of at most 32 bits')
        st.ghost['reads'] = st.ghost.get('reads', ())
        p = bv(ex.load(st, this.add(op), 1), 8)
        b = bv(ex.load(st, this.add(ob), 8), 64)
        # contract of peek_bits<32>: v holds the next got bits, left-justified in k; cnt bits are buffered afterwards
        v, got, cnt, nb = fresh('value', 32), fresh('got', 8), fresh('buffered', 8), fresh('buffer', 64)
        kk = bv(k, 8)
        st.assume(z3.ULE(got, kk), z3.ULE(got, cnt), z3.ULE(cnt, 64), z3.Or(got == kk, got == cnt),
                  v & ~mask(zx(kk, 32), 32) == 0, v & mask(zx(kk - got, 32), 32) == 0,
                  z3.Implies(z3.ULE(kk, p), z3.And(cnt == p, nb == b)))
        ex.store(st, this.add(op), 1, cnt)
        ex.store(st, this.add(ob), 8, nb)
        ex.store(st, dst, 4, v)
        st.ghost['reads'] += ((kk, v, got, cnt, nb, p, b),)
        return got

    names = [x.dem for x in ex.find(r'(peek_bits\w*IntegerEj|peek_bits<unsigned int>)', False)]
    for nm in names:
        ex.contracts[nm] = peek
    for kind, e, r in ex.run(ex.find('^vp_r_read64$'), [s, at, o, out, size], st):
        ex.cover(e, 'read_bits<64> returns')
        ex.oblige(e, kind == 'ret', 'read_bits<64> returns')
        reads = e.ghost.get('reads', ())
        total, got, val = B(0, 8), B(0, 8), B(0)
        for k, v, g, cnt, nb, p, b in reads:
            total, got = total + k, got + g
            val = (val << zx(k, 64)) | zx(v, 64)
        ex.oblige(e, total == size, 'read_bits<64>: the reads are of the size asked for')
        ex.oblige(e, bv(r, 8) == got, 'read_bits<64>: number of bits')
        ex.oblige(e, bv(ex.load(e, out, 8), 64) == val, 'read_bits<64>: the bits of the reads in order')
        b1, p1 = bv(ex.load(e, o, 8), 64), bv(ex.load(e, o.add(8), 1), 8)
        if reads:
            k, v, g, cnt, nb, p, b = reads[-1]
            ex.oblige(e, z3.And(p1 == cnt - g, same_low(b1, nb, cnt - g)), 'read_bits<64>: consumes exactly what was read')
            ex.oblige(e, z3.And(reads[0][5] == p0, reads[0][6] == b0), 'read_bits<64>: starts at the next bit')
        for x, y in zip(reads, reads[1:]):
            ex.oblige(e, z3.And(y[5] == x[3] - x[2], same_low(y[6], x[4], x[3] - x[2])), 'read_bits<64>: goes on where the last read ended')


def c_rest(t):
    """discarding drops exactly that many bits; the end is where no bit is buffered and no byte is left"""
    ex = t.ex
    st = t.state()
    s, f, n, sb, o, at, b0, p0, rem = reader(t, st)
    k = fresh('count', 8)
    st.assume(z3.ULE(k, p0))
    for kind, e, r in ex.run(ex.find('^vp_r_discard$'), [s, at, o, k], st):
        ex.cover(e, 'discard')
        ex.oblige(e, kind == 'ret', 'discard_bits returns')
        ex.oblige(e, z3.And(bv(ex.load(e, o.add(8), 1), 8) == p0 - k, bv(ex.load(e, o, 8), 64) == b0, bv(e.ghost[('sb', sb.obj)].pos, 64) == at),
                  'discard_bits: drops exactly the bits asked for')
    st = t.state()
    s, f, n, sb, o, at, b0, p0, rem = reader(t, st)
    for kind, e, r in ex.run(ex.find('^vp_r_consumed$'), [s, at, o], st):
        ex.cover(e, 'fully_consumed')
        ex.oblige(e, kind == 'ret', 'fully_consumed returns')
        ex.oblige(e, boolv(r) == z3.And(p0 == 0, at == n), 'fully_consumed: exactly when nothing is left')


def tasks(tier):
    r = [('writer: construction', c_open, ['bits']), ('writer: finish', c_finish, ['bits'])]
    r += [('writer: write_bits<%d>' % w, c_write('vp_w_bits%d' % w, w), ['bits']) for w in (8, 16, 32, 64)]
    r += [('writer: write_word', c_write('vp_w_word', 16, 16), ['bits']), ('writer: write_byte', c_write('vp_w_byte', 8, 8), ['bits'])]
    r += [('reader: construction', c_ropen, ['bits']), ('reader: discard and end', c_rest, ['bits'])]
    r += [('reader: peek_bits<%d>' % w, c_read('vp_r_peek%d' % w, w, False), ['bits']) for w in (8, 16, 32)]
    r += [('reader: read_bits<%d>' % w, c_read('vp_r_read%d' % w, w, True), ['bits']) for w in (8, 16, 32)]
    r += [('reader: read_word', c_read('vp_r_word', 16, True, 16), ['bits']), ('reader: read_byte', c_read('vp_r_byte', 8, True, 8), ['bits'])]
    r += [('reader: read_bits<64>', c_read64, ['bits'])]
    return r
