"""Linear-integer back end: bit-vector conditions are translated to integers with reductions modulo 2^w delayed until a value is
compared, indexed with or split; everything non-linear is an uninterpreted function of its operands.

The translation only ever loses information (uninterpreted operations, functions instead of bit-level facts), so an "unsat"
answer carries over to the bit-vector conditions.
"""
import z3

K = z3


class Form:
    """Integer linear form: c + sum coef*atom, with an interval; congruent to the bit-vector value modulo 2^w."""
    __slots__ = ('c', 't', 'lo', 'hi')

    def __init__(self, c=0, t=None, lo=None, hi=None):
        self.c, self.t = c, t or {}
        if lo is None:
            lo = hi = c
            for a, k in self.t.items():
                l, h = a.lo, a.hi
                if k >= 0:
                    lo += k * l
                    hi += k * h
                else:
                    lo += k * h
                    hi += k * l
        self.lo, self.hi = lo, hi

    def add(self, o, k=1):
        t = dict(self.t)
        for a, c in o.t.items():
            n = t.get(a, 0) + k * c
            if n:
                t[a] = n
            else:
                t.pop(a, None)
        return Form(self.c + k * o.c, t)

    def mul(self, k):
        if k == 0:
            return Form(0)
        return Form(self.c * k, {a: c * k for a, c in self.t.items()})

    def expr(self):
        r = [a.e if c == 1 else c * a.e for a, c in self.t.items()]
        if self.c or not r:
            r.append(z3.IntVal(self.c))
        return z3.Sum(r) if len(r) > 1 else r[0]

    def key(self):
        return (self.c, tuple(sorted((a.id, c) for a, c in self.t.items())))


class Atom:
    n = 0
    __slots__ = ('e', 'lo', 'hi', 'id', 'defs')

    def __init__(self, e, lo, hi, defs=()):
        self.e, self.lo, self.hi = e, lo, hi
        Atom.n += 1
        self.id = Atom.n
        self.defs = [e >= lo, e <= hi] + list(defs)


class Lia:
    def __init__(self):
        self.memo = {}          # term id -> (Form, deps, term)
        self.bmemo = {}
        self.canon_memo = {}
        self.n = 0
        self.s = z3.Solver()
        self.stack = []
        self.uf = {}

    def fresh(self, lo, hi, defs=()):
        self.n += 1
        return Atom(z3.Int('i!%d' % self.n), lo, hi, defs)

    # deps: frozenset of Atom whose definitions matter; an atom's own definitions may mention other atoms (adeps)
    def form(self, t):
        i = t.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self._form(t)
            self.memo[i] = (r, t)
            return r
        return r[0]

    def norm(self, f, w):
        """Keep coefficients small (the value only matters modulo 2^w)."""
        m = 1 << w
        if all(abs(c) < m >> 1 for c in f.t.values()) and abs(f.c) < m:
            return f
        def red(c):
            c %= m
            return c - m if c >= m >> 1 else c
        return Form(red(f.c), {a: red(c) for a, c in f.t.items() if red(c)})

    def canon(self, f, w, signed=False):
        f = self.norm(f, w)
        m = 1 << w
        off = m >> 1 if signed else 0
        a, b = (f.lo + off) // m, (f.hi + off) // m
        if a == b:
            if a == 0:
                return f
            return Form(f.c - a * m, f.t)
        k = (f.key(), w, signed)
        r = self.canon_memo.get(k)
        if r is None:
            t = self.fresh(a, b)
            e = f.add(Form(0, {t: -m}))
            v = self.fresh(-off, m - 1 - off)
            v.defs += [v.e == e.expr()] + [d for x in e.t for d in x.defs]
            r = Form(0, {v: 1})
            self.canon_memo[k] = r
        return r

    def opaque(self, name, args, w):
        es = [self.canon(self.form(x), x.size()).expr() if isinstance(x, z3.BitVecRef) else self.bool(x)[0] for x in args]
        df = []
        for x in args:
            if isinstance(x, z3.BitVecRef):
                for a in self.canon(self.form(x), x.size()).t:
                    df += a.defs
            else:
                df += self.bool(x)[1]
        key = (name, w, tuple(e.sort().name() for e in es))
        f = self.uf.get(key)
        if f is None:
            f = z3.Function('uf!%d' % len(self.uf), *([e.sort() for e in es] + [z3.IntSort()]))
            self.uf[key] = f
        v = self.fresh(0, (1 << w) - 1)
        v.defs += [v.e == f(*es)] + df
        return Form(0, {v: 1})

    def _form(self, t):
        w = t.size()
        m = 1 << w
        if z3.is_bv_value(t):
            return Form(t.as_long())
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_UNINTERPRETED and not ch:
            return Form(0, {self.fresh(0, m - 1): 1})
        if k == z3.Z3_OP_BADD:
            r = Form(0)
            for c in ch:
                r = r.add(self.form(c))
            return self.norm(r, w)
        if k == z3.Z3_OP_BSUB:
            r = self.form(ch[0])
            for c in ch[1:]:
                r = r.add(self.form(c), -1)
            return self.norm(r, w)
        if k == z3.Z3_OP_BNEG:
            return self.form(ch[0]).mul(-1)
        if k == z3.Z3_OP_BNOT:
            return Form(-1).add(self.form(ch[0]), -1)
        if k == z3.Z3_OP_BMUL:
            c, rest = 1, []
            for x in ch:
                if z3.is_bv_value(x):
                    c *= x.as_long()
                else:
                    rest.append(x)
            c %= m
            if c >= m >> 1:
                c -= m
            if not rest:
                return Form(c % m)
            if len(rest) == 1:
                return self.norm(self.form(rest[0]).mul(c), w)
            return self.norm(self.opaque('mul', sorted(rest, key=lambda x: x.get_id()), w).mul(c), w)
        if k == z3.Z3_OP_ZERO_EXT:
            return self.canon(self.form(ch[0]), ch[0].size())
        if k == z3.Z3_OP_SIGN_EXT:
            return self.canon(self.form(ch[0]), ch[0].size(), True)
        if k == z3.Z3_OP_CONCAT:
            r = Form(0)
            for c in ch:
                r = r.mul(1 << c.size()).add(self.canon(self.form(c), c.size()))
            return r
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            x = ch[0]
            if lo == 0:
                return self.norm(self.form(x), w)
            f = self.canon(self.form(x), x.size())
            q = self.div(f, 1 << lo)[0]
            return q
        if k in (z3.Z3_OP_BLSHR, z3.Z3_OP_BSHL) and z3.is_bv_value(ch[1]):
            n = ch[1].as_long()
            if n >= w:
                return Form(0)
            if k == z3.Z3_OP_BSHL:
                return self.norm(self.form(ch[0]).mul(1 << n), w)
            return self.div(self.canon(self.form(ch[0]), w), 1 << n)[0]
        if k == z3.Z3_OP_BASHR and z3.is_bv_value(ch[1]):
            n = min(ch[1].as_long(), w - 1)
            return self.div(self.canon(self.form(ch[0]), w, True), 1 << n)[0]
        if k == z3.Z3_OP_BAND and len(ch) == 2:
            for a, b in (ch, ch[::-1]):
                if z3.is_bv_value(b):
                    v = b.as_long()
                    if v & (v + 1) == 0:
                        return self.div(self.canon(self.form(a), w), v + 1)[1]
                    inv = ~v & (m - 1)
                    if inv & (inv + 1) == 0:
                        f = self.canon(self.form(a), w)
                        return f.add(self.div(f, inv + 1)[1], -1)
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I) and z3.is_bv_value(ch[1]) and ch[1].as_long():
            q, r = self.div(self.canon(self.form(ch[0]), w), ch[1].as_long())
            return q if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else r
        if k == z3.Z3_OP_ITE:
            c, cd = self.bool(ch[0])
            a, b = self.canon(self.form(ch[1]), w), self.canon(self.form(ch[2]), w)
            v = self.fresh(min(a.lo, b.lo), max(a.hi, b.hi))
            v.defs += [v.e == z3.If(c, a.expr(), b.expr())] + cd + [d for x in list(a.t) + list(b.t) for d in x.defs]
            return Form(0, {v: 1})
        if k == z3.Z3_OP_SELECT and ch[0].decl().kind() == z3.Z3_OP_UNINTERPRETED and not ch[0].children():
            return self.opaque(('sel', ch[0].get_id(), ch[0].decl().name()), [ch[1]], w)
        if all(isinstance(c, (z3.BitVecRef, z3.BoolRef)) for c in ch) and k != z3.Z3_OP_UNINTERPRETED:
            return self.opaque(('op', k, str(t.params())), ch, w)
        return Form(0, {self.fresh(0, m - 1): 1})

    def div(self, f, c):
        """floor quotient and remainder of an exact (canonical) form."""
        key = ('div', f.key(), c)
        r = self.canon_memo.get(key)
        if r is None:
            q = self.fresh(f.lo // c, f.hi // c)
            e = f.add(Form(0, {q: -c}))
            rm = self.fresh(0, c - 1)
            dd = [d for x in f.t for d in x.defs]
            eq = [rm.e == e.expr()]
            qd, rd = list(q.defs), list(rm.defs)
            q.defs += rd + eq + dd
            rm.defs += qd + eq + dd
            r = (Form(0, {q: 1}), Form(0, {rm: 1}))
            self.canon_memo[key] = r
        return r

    def bool(self, t):
        """(z3 Bool over integers, list of definitions)"""
        i = t.get_id()
        r = self.bmemo.get(i)
        if r is None:
            r = self._bool(t)
            self.bmemo[i] = (r, t)
            return r
        return r[0]

    def _bool(self, t):
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_TRUE or k == z3.Z3_OP_FALSE:
            return t, []
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR) or \
                (k in (z3.Z3_OP_EQ, z3.Z3_OP_ITE) and all(isinstance(c, z3.BoolRef) for c in ch)):
            rs = [self.bool(c) for c in ch]
            es = [r[0] for r in rs]
            d = [x for r in rs for x in r[1]]
            if k == z3.Z3_OP_AND:
                return z3.And(*es), d
            if k == z3.Z3_OP_OR:
                return z3.Or(*es), d
            if k == z3.Z3_OP_NOT:
                return z3.Not(es[0]), d
            if k == z3.Z3_OP_IMPLIES:
                return z3.Implies(*es), d
            if k == z3.Z3_OP_XOR:
                return z3.Xor(*es), d
            if k == z3.Z3_OP_EQ:
                return es[0] == es[1], d
            return z3.If(*es), d
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(ch) == 2 and isinstance(ch[0], z3.BitVecRef):
            w = ch[0].size()
            f = self.norm(self.form(ch[0]).add(self.form(ch[1]), -1), w)
            m = 1 << w
            a, b = -((-f.lo) // m), f.hi // m     # multiples of m the difference can take
            if b < a:
                e, d = z3.BoolVal(False), []
            elif a == b:
                e = f.expr() == a * m
                d = [x for at in f.t for x in at.defs]
            elif b - a <= 4:
                fe = f.expr()
                e = z3.Or(*[fe == q * m for q in range(a, b + 1)])
                d = [x for at in f.t for x in at.defs]
            else:
                c = self.canon(f, w)
                e = c.expr() == 0
                d = [x for at in c.t for x in at.defs]
            return (e if k == z3.Z3_OP_EQ else z3.Not(e)), d
        sg = {z3.Z3_OP_ULEQ: (0, 0), z3.Z3_OP_ULT: (0, 1), z3.Z3_OP_UGEQ: (0, 2), z3.Z3_OP_UGT: (0, 3),
              z3.Z3_OP_SLEQ: (1, 0), z3.Z3_OP_SLT: (1, 1), z3.Z3_OP_SGEQ: (1, 2), z3.Z3_OP_SGT: (1, 3)}.get(k)
        if sg is not None:
            w = ch[0].size()
            a, b = self.canon(self.form(ch[0]), w, bool(sg[0])), self.canon(self.form(ch[1]), w, bool(sg[0]))
            f = b.add(a, -1)
            if sg[1] >= 2:
                f = f.mul(-1)
            e = f.expr() >= (sg[1] & 1)
            return e, [x for at in list(a.t) + list(b.t) for x in at.defs]
        return z3.Bool('b!%d' % t.get_id()), []

    # ------------------------------------------------------------------ incremental use
    def trans(self, c):
        i = ('c', c.get_id())
        r = self.bmemo.get(i)
        if r is None:
            e, d = self.bool(c)
            seen = set()
            dd = []
            for x in d:
                if x.get_id() not in seen:
                    seen.add(x.get_id())
                    dd.append(x)
            r = ((dd, e), c)
            self.bmemo[i] = r
        return r[0]

    def unsat(self, pc, extra, ms=300):
        st = self.stack
        n = 0
        while n < len(st) and n < len(pc) and st[n] is pc[n]:
            n += 1
        if len(st) - n:
            self.s.pop(len(st) - n)
            del st[n:]
        for c in pc[n:]:
            self.s.push()
            d, e = self.trans(c)
            self.s.add(*d)
            self.s.add(e)
            st.append(c)
        self.s.push()
        for c in extra:
            d, e = self.trans(c)
            self.s.add(*d)
            self.s.add(e)
        self.s.set('timeout', ms)
        r = self.s.check()
        self.s.pop()
        return r == z3.unsat
