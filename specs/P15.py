"""P15: JSON strings: reading of escapes, validation, conversion and writing."""
import re
import z3
from flyvc.val import *
from flyvc.execu import LoopSpec, Outcomes, Throw, AFnS
from flyvc.models import getstr, putstr, content, append, appended, mk
from specs.P05 import strobj
from specs import unispec as U
from specs import P06

BUDGET = 300
DRIVER_S = 35
B = lambda v, w=64: z3.BitVecVal(v, w)
ASSUMPTIONS = ['std::string begin, end, erase and replace have their documented effect (assumed contracts of the standard library)',
               'escape_codepoint, unescape_codepoint, validate and convert satisfy their contracts, which P05 and P06 prove', 'strings are shorter than 2^40 characters']
STANDIN = 'strings through every constructor, through the parser and through serialize: native driver against an independent reader (bounded)'
SHORT = {'"': '"', '\\': '\\', '/': '/', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}


def chain(sel, default):
    r = default
    for c, v in reversed(sel):
        r = z3.If(c, v, r)
    return r


def escape(get, n):
    """The escape a text begins with: (valid, its length, units it denotes, [unit 0..3])."""
    has2 = z3.And(z3.UGE(n, 2), get(0) == 0x5c)
    short = [(get(1) == ord(k), B(ord(v), 8)) for k, v in SHORT.items()]
    isshort = z3.Or(*[c for c, _ in short])
    uok, uln, cp = P06.unescape(get, n)
    isu = get(1) == ord('u')
    ok = z3.And(has2, z3.Or(isshort, z3.And(isu, uok)))
    dl = z3.If(isu, U.enc_len(1, cp), B(1))
    units = [z3.If(isu, U.enc_unit(1, cp, j), chain(short, B(0, 8))) for j in range(4)]
    return ok, z3.If(isu, uln, B(2)), dl, units


def token(get, n):
    """The next character of a JSON string: (valid, its length, units it denotes, units)."""
    ok, ln, dl, units = escape(get, n)
    c = get(0)
    esc = c == 0x5c
    plain = z3.And(z3.UGE(n, 1), z3.UGE(c, 0x20), c != 0x22, z3.Not(esc))
    return (z3.If(esc, ok, plain), z3.If(esc, ln, B(1)), z3.If(esc, dl, B(1)), [z3.If(esc, units[0], c)] + units[1:])


class Val:
    """The string that is rewritten in place: object V holds its characters, ghost 'len' is its length."""
    def __init__(self, t):
        self.t, self.ex = t, t.ex
        ex, st = t.ex, t.state()
        self.n = fresh('length', 64)
        st.assume(z3.ULT(self.n, 1 << 40))
        self.text = ABase('text', 8)
        self.v = ex.new(st, 'string', 32, 'param')
        self.V = ex.buffer(st, 'characters', B(1 << 41), 1, farr=self.text)
        st.ghost['len'] = self.n
        self.st = st
        for fn in [x for mo in ex.mods for x in mo.funcs.values()]:
            d = fn.dem
            c = None
            if re.match(r'bstr<char>::c?begin\(\)( const)?$', d):
                c = lambda ex, st, a, fn, ins: Ptr(self.V.obj, Lin.of(0))
            elif re.match(r'bstr<char>::c?end\(\)( const)?$', d):
                c = lambda ex, st, a, fn, ins: self.V.add(0) if False else Ptr(self.V.obj, Lin.of(st.ghost['len']))
            elif re.match(r'bstr<char>::(size|length)\(\) const$', d):
                c = lambda ex, st, a, fn, ins: Outcomes([(st, st.ghost['len'])])
            elif re.match(r'bstr<char>::empty\(\) const$', d):
                c = lambda ex, st, a, fn, ins: Outcomes([(st, st.ghost['len'] == 0)])
            elif re.match(r'bstr<char>::operator\[\]\(unsigned long\)', d):
                c = lambda ex, st, a, fn, ins: Ptr(self.V.obj, Lin.of(a[1]))
            elif re.match(r'bstr<char>::erase\(__gnu_cxx::__normal_iterator<char const\*, bstr<char> >\)$', d):
                c = self.erase
            elif re.match(r'bstr<char>::replace\(__gnu_cxx::__normal_iterator<char const\*, bstr<char> >, __gnu_cxx::__normal_iterator<char const\*, bstr<char> >, bstr<char> const&\)$', d):
                c = self.replace
            elif re.match(r'bstr<char>::(erase|replace|insert|append|push_back|operator\+=|assign|resize|clear)\b', d):
                c = self.unknown
            if c:
                ex.contracts[d] = self.guard(c)
        common(ex, self)

    def guard(self, c):
        def g(ex, st, a, fn, ins):
            if isinstance(a[0], Ptr) and a[0].obj == self.v.obj:
                return c(ex, st, a, fn, ins)
            return NotImplemented
        return g

    def unknown(self, ex, st, a, fn, ins):
        raise Unsupported('%s on the string that is read' % fn.dem)

    def cur(self, st):
        return st.mem[self.V.obj].regions[0].fields[(0, 1)]

    def at(self, st, i):
        return bv(self.cur(st).get(st, i), 8)

    def put(self, st, fa, ln):
        st.wobj(self.V.obj).regions[0].fields[(0, 1)] = fa
        st.ghost['len'] = z3.simplify(ln)

    def pos(self, p):
        if not (isinstance(p, Ptr) and p.obj == self.V.obj):
            raise Unsupported('an iterator of another string')
        return bv(p.off.val(), 64)

    def erase(self, ex, st, a, fn, ins):
        st = st.clone()
        i, n, old = self.pos(a[1]), st.ghost['len'], self.cur(st)
        ex.oblige(st, z3.ULT(i, n), 'only a character of the string is erased')
        self.put(st, AFnS(8, lambda st, j: z3.If(z3.ULT(bv(j, 64), i), bv(old.get(st, j), 8), bv(old.get(st, bv(j, 64) + 1), 8))), n - 1)
        return Outcomes([(st, Ptr(self.V.obj, Lin.of(i)))])

    def replace(self, ex, st, a, fn, ins):
        st = st.clone()
        i, e, n, old = self.pos(a[1]), self.pos(a[2]), st.ghost['len'], self.cur(st)
        g = getstr(ex, st, a[3])
        new, m = content(ex, st, g), bv(g.len, 64)
        ex.oblige(st, z3.And(z3.ULE(i, e), z3.ULE(e, n)), 'only characters of the string are replaced')
        self.put(st, AFnS(8, lambda st, j: z3.If(z3.ULT(bv(j, 64), i), bv(old.get(st, j), 8), z3.If(z3.ULT(bv(j, 64), i + m), bv(new.get(st, bv(j, 64) - i), 8), bv(old.get(st, bv(j, 64) - m - i + e), 8)))),
                 n - (e - i) + m)
        return Outcomes([(st, a[0])])


def common(ex, W):
    for fn in [x for mo in ex.mods for x in mo.funcs.values()]:
        d = fn.dem
        if 'fly::string::format<' in d and d.startswith('bstr<char> fly::string::format<'):
            def fmt(ex, st, a, fn, ins):
                o = a[0]
                ex.store(st, o, 32, ex.mkstr(st, 0, ATable([0], 8), 1))
                return None
            ex.contracts[d] = fmt
        elif re.match(r'fly::\w*JsonException::\w*JsonException\(', d):
            ex.contracts[d] = lambda ex, st, a, fn, ins: None
        elif 'fly::BasicString<char>::unescape_codepoint<' in d:
            ex.contracts[d] = W.c_unescape


def c_unescape(W):
    def f(ex, st, a, fn, ins):
        """contract of unescape_codepoint (P06)"""
        it = ex.load(st, a[1], 8)
        i, e = W.pos(it), W.pos(ex.load(st, a[2], 8))
        ex.oblige(st, z3.And(z3.ULE(i, e), z3.ULE(e, st.ghost['len'])), 'the escape is looked for in the string')
        get = lambda k: W.at(st, i + k)
        ok, ln, cp = P06.unescape(get, e - i)
        r = []
        for s, y in ex.branch(st, ok):
            s = s.clone()
            if y:
                units = [U.enc_unit(1, cp, j) for j in range(4)]
                ex.store(s, a[0], 32, ex.mkstr(s, U.enc_len(1, cp), AFnS(8, lambda s2, j: chain([(bv(j, 64) == k, u) for k, u in enumerate(units)], B(0, 8))), 1))
                ex.store(s, a[1], 8, Ptr(W.V.obj, Lin.of(i + ln)))
            else:
                ex.store(s, a[1], 8, Ptr(W.V.obj, Lin.of(fresh('anywhere', 64))))
            ex.store(s, a[0].add(32), 1, B(1 if y else 0, 8))
            r.append((s, None))
        return Outcomes(r)
    return f


class Reading(Val):
    def __init__(self, t):
        self.c_unescape = c_unescape(self)
        Val.__init__(self, t)


def t_read(t):
    """one escape is replaced by what it denotes"""
    W = Reading(t)
    ex, st = W.ex, W.st
    q = fresh('position', 64)
    J = fresh('J', 64)
    st.assume(z3.ULT(q, W.n))
    st.assume(bv(W.text.get(st, q), 8) == 0x5c)
    it = ex.new(st, 'it', 8, 'param')
    ex.store(st, it, 8, Ptr(W.V.obj, Lin.of(q)))
    get = lambda k: bv(W.text.get(st, q + k), 8)
    ok, ln, dl, units = escape(get, W.n - q)
    t.watch('length', W.n), t.watch('position', q)
    for i in range(12):
        t.watch('unit %d' % i, get(i))
    for k, s, r in ex.run(ex.find(r'fly::Json::read_escaped_character\('), [W.v, it], st):
        if k != 'ret':
            ex.cover(s, 'refused')
            ex.oblige(s, z3.Not(ok), 'no valid escape is refused')
            continue
        ex.cover(s, 'read')
        ex.oblige(s, ok, 'no invalid escape is accepted')
        ex.oblige(s, s.ghost['len'] == W.n - ln + dl, 'the escape, and nothing else, is replaced')
        p = W.pos(ex.load(s, it, 8))
        ex.oblige(s, p == q + dl - 1, 'the position is the last character that was read')
        for j in range(4):
            ex.oblige(s, z3.Implies(z3.UGT(dl, j), W.at(s, q + j) == units[j]), 'character %d is what the escape denotes' % j)
        ex.oblige(s, z3.Implies(z3.ULT(J, q), W.at(s, J) == bv(W.text.get(s, J), 8)), 'what is before the escape stays')
        ex.oblige(s, z3.Implies(z3.UGE(J, q + dl), W.at(s, J) == bv(W.text.get(s, J - dl + ln), 8)), 'what is behind the escape stays')


class Check(LoopSpec):
    """The first q characters are what the text before p denotes; behind them the text from p on stands unchanged."""
    def __init__(self, W):
        LoopSpec.__init__(self)
        self.W = W

    def matches(self, ex, st, f, blk):
        return len(st.cuts) == 0 and 'force'

    def begin(self, ex, st):
        self.new = {x: fresh(x, 64) for x in ('p', 'q')}

    def havoc_ghost(self, ex, st, key, v):
        if key in self.new:
            return self.new[key]
        if key == 'len':
            return self.new['q'] + (self.W.n - self.new['p'])
        return LoopSpec.havoc_ghost(self, ex, st, key, v)

    def havocked(self, ex, st):
        W, g = self.W, st.ghost
        g.update(self.new)
        p, q = g['p'], g['q']
        g['len'] = q + (W.n - p)
        g.pop('cur', None)
        out = ABase('decoded', 8)
        st.wobj(W.V.obj).regions[0].fields[(0, 1)] = AFnS(8, lambda s, j: z3.If(z3.ULT(bv(j, 64), q), bv(out.get(s, j), 8), bv(W.text.get(s, bv(j, 64) - q + p), 8)))

    def inv(self, ex, st, L):
        W, g = self.W, st.ghost
        p, q, k = g['p'], g['q'], bv(L.k, 64)
        if L.head is None:
            W.unfold(st, p, k)
        its = [v for key, v in L.vars(st).items() if isinstance(v, Ptr) and v.obj == W.V.obj]
        if not its:
            return []
        # an iteration leaves the iterator behind the characters of its token
        return [('the position is in the text', z3.And(z3.ULE(p, W.n), z3.ULE(q, p), z3.ULE(k, p))),
                ('the iterator is behind what was read', W.pos(its[0]) == q),
                ('the length is that of what was read and what is left', g['len'] == q + (W.n - p)),
                ('what is left is unchanged', z3.Implies(z3.And(z3.UGE(W.J, q), z3.ULT(W.J, g['len'])), W.at(st, W.J) == bv(W.text.get(st, W.J - q + p), 8))),
                ('the whole is valid iff the rest is', W.valid(B(0)) == W.valid(p)),
                ('k characters were read', z3.And(W.start(k) == p, W.opos(k) == q))] + \
            [('earlier characters are read', z3.Implies(z3.ULT(W.K, k), z3.And(z3.ULT(W.opos(W.K), q), z3.ULE(W.opos(W.K) + W.tok(st, W.start(W.K))[2], q), z3.ULE(W.tok(st, W.start(W.K))[2], 4), z3.UGE(W.tok(st, W.start(W.K))[2], 1))))] + \
            [('unit %d of earlier characters' % j, z3.Implies(z3.And(z3.ULT(W.K, k), z3.UGT(W.tok(st, W.start(W.K))[2], j)), W.at(st, W.opos(W.K) + j) == W.tok(st, W.start(W.K))[3][j])) for j in range(4)]

    def variant(self, ex, st, L):
        return self.W.n - st.ghost['p']


class Validating(Val):
    def __init__(self, t):
        self.c_unescape = None
        u = fresh_id()
        S64 = z3.BitVecSort(64)
        self.valid = z3.Function('valid%d' % u, S64, z3.BoolSort())
        self.start = z3.Function('start%d' % u, S64, S64)
        self.opos = z3.Function('opos%d' % u, S64, S64)
        self.T = {x: z3.Function('character_%s%d' % (x, u), S64, r) for x, r in [('ok', z3.BoolSort()), ('ln', S64), ('dl', S64)] + [(i, z3.BitVecSort(8)) for i in range(4)]}
        Val.__init__(self, t)
        st = self.st
        self.J, self.K = fresh('J', 64), fresh('K', 64)
        st.ghost.update({'p': B(0), 'q': B(0)})
        st.assume(z3.And(self.start(B(0)) == 0, self.opos(B(0)) == 0))
        self.c = {}
        for fn in [x for mo in self.ex.mods for x in mo.funcs.values()]:
            if fn.dem.startswith('fly::Json::read_escaped_character('):
                self.ex.contracts[fn.dem] = self.c_read

    def tok(self, st, p):
        """(valid, length, units denoted, units) of the character at p, as functions whose definition is unfolded where it is used"""
        return self.T['ok'](p), self.T['ln'](p), self.T['dl'](p), [self.T[i](p) for i in range(4)]

    def unfold_valid(self, st, p):
        ok, ln, dl, units = self.tok(st, p)
        c = bv(self.text.get(st, p), 8)
        # plain characters by definition; the bounds are those of the lemma 'forms of characters'
        st.assume(z3.Implies(c != 0x5c, z3.And(ok == z3.And(z3.ULT(p, self.n), z3.UGE(c, 0x20), c != 0x22), ln == 1, dl == 1, units[0] == c)))
        st.assume(z3.Implies(z3.And(ok, z3.ULE(p, self.n)), z3.And(z3.UGE(ln, 1), z3.ULE(ln, 12), z3.UGE(dl, 1), z3.ULE(dl, 4), z3.ULE(dl, ln), z3.ULE(ln, self.n - p))))
        st.assume(self.valid(p) == z3.If(p == self.n, z3.BoolVal(True), z3.And(ok, self.valid(p + ln))))

    def unfold(self, st, p, k):
        """the recursive definitions, at position p, the k-th character of the text"""
        ok, ln, dl, units = self.tok(st, p)
        self.unfold_valid(st, p)
        st.assume(z3.Implies(self.start(k) == p, z3.And(self.start(k + 1) == p + ln, self.opos(k + 1) == self.opos(k) + dl)))
        st.ghost['cur'] = (p, st.ghost['q'])

    def c_read(self, ex, st, a, fn, ins):
        """contract of read_escaped_character, proved in 'escapes'"""
        if a[0].obj != self.v.obj:
            raise Unsupported('another string')
        q, n, old = self.pos(ex.load(st, a[1], 8)), st.ghost['len'], self.cur(st)
        if 'cur' not in st.ghost:
            raise Unsupported('an escape is read outside the loop')
        p = st.ghost['cur'][0]
        ex.oblige(st, z3.And(z3.ULT(q, n), self.at(st, q) == 0x5c), 'escapes are read at a reverse solidus')
        ex.oblige(st, z3.And(n - q == self.n - p, z3.Implies(z3.ULT(self.J, n - q), self.at(st, q + self.J) == bv(self.text.get(st, p + self.J), 8))), 'what is left of the text is read')
        # the definition of the character at p is the escape that stands there
        ok, ln, dl, units = self.tok(st, p)
        r = []
        for s, y in ex.branch(st, ok):
            s = s.clone()
            if not y:
                r.append(Throw(s, 'fly::JsonException'))
                continue
            self.put(s, AFnS(8, lambda s2, j: z3.If(z3.ULT(bv(j, 64), q), bv(old.get(s2, j), 8),
                                                   z3.If(z3.ULT(bv(j, 64), q + dl), chain([(bv(j, 64) == q + k, u) for k, u in enumerate(units)], B(0, 8)), bv(old.get(s2, bv(j, 64) - dl + ln), 8)))), n - ln + dl)
            ex.store(s, a[1], 8, Ptr(self.V.obj, Lin.of(q + dl - 1)))
            r.append((s, None))
        return Outcomes(r)


class CheckLoop(Check):
    def inv(self, ex, st, L):
        g, W = st.ghost, self.W
        if L.head is not None and not ex.dry and 'cur' in g and not g.get('moved'):
            # the iteration is over: it read one character of the text
            p, q = g['cur']
            ok, ln, dl, units = W.tok(st, p)
            g['p'], g['q'] = z3.simplify(p + ln), z3.simplify(q + dl)
            for x in (p, p + ln):
                W.unfold_valid(st, x)
        return Check.inv(self, ex, st, L)


def t_validate(t):
    """strings are read character by character, and refused at the first invalid one"""
    W = Validating(t)
    ex, st = W.ex, W.st
    ex.loopspecs = [CheckLoop(W)]
    moved = []
    for fn in [x for mo in ex.mods for x in mo.funcs.values()]:
        if re.match(r'bstr<char>::(basic_string|bstr)\(bstr<char>&&\)$', fn.dem) or re.match(r'bstr<char>::bstr\(bstr<char>&&\)', fn.dem):
            def mv(ex, st, a, fn, ins):
                if a[1].obj == W.v.obj:
                    st = st.clone()
                    st.ghost['result'] = a[0]
                    return Outcomes([(st, None)])
                return NotImplemented
            ex.contracts[fn.dem] = mv
    res = ex.new(st, 'result', 32, 'param')
    st.ghost['result'] = None
    t.watch('length', W.n)
    for k, s, r in ex.run(ex.find(r'fly::Json::validate_string\('), [res, W.v], st):
        g = s.ghost
        if 'cur' in g:
            W.unfold_valid(s, g['p'])
        if k != 'ret':
            ex.cover(s, 'refused')
            ex.oblige(s, z3.Not(W.valid(B(0))), 'only invalid strings are refused')
            continue
        ex.cover(s, 'accepted')
        ex.oblige(s, W.valid(B(0)), 'only valid strings are accepted')
        ex.oblige(s, isinstance(g['result'], Ptr) and g['result'].obj == res.obj, 'the result is the string that was read')
        ex.oblige(s, z3.And(g['p'] == W.n, g['len'] == g['q']), 'the whole text was read')


SPECIAL = {'"': '\\"', '\\': '\\\\', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t'}


def written(get, n):
    """How the codepoint a text begins with is written: (valid, its length, length of what is written, its 12 units)."""
    ok, ln, cp = U.decode(1, get, n)
    sp = z3.Or(*[get(0) == ord(k) for k in SPECIAL])
    forms = P06.escaped(cp, 'u', 8)
    wl = z3.If(sp, B(2), chain([(c, B(len(u))) for c, u in forms], B(0)))
    units = []
    for j in range(12):
        x = chain([(c, u[j]) for c, u in forms if len(u) > j], B(0, 8))
        if j < 2:
            x = chain([(get(0) == ord(k), B(ord(v[j]), 8)) for k, v in SPECIAL.items()], x)
        units.append(x)
    return ok, ln, wl, units


class Writing:
    def __init__(self, t, out=True):
        self.t, self.ex = t, t.ex
        ex, st = t.ex, t.state()
        self.n = fresh('length', 64)
        st.assume(z3.ULT(self.n, 1 << 40))
        self.text = ABase('text', 8)
        self.V = ex.buffer(st, 'characters', self.n, 1, farr=self.text, const=True)
        self.m = fresh('written', 64)
        st.assume(z3.ULT(self.m, 1 << 50))
        self.fo = ABase('output', 8)
        self.out, _ = strobj(ex, st, 'out', 1, self.m, AStore(self.fo, self.m, 0))
        self.st = st

    pos = Val.pos

    def c_escape(self, ex, st, a, fn, ins):
        """contract of escape_codepoint<'u'> (P06)"""
        i, e = self.pos(ex.load(st, a[1], 8)), self.pos(ex.load(st, a[2], 8))
        ex.oblige(st, z3.And(z3.ULE(i, e), z3.ULE(e, self.n)), 'a codepoint of the text is escaped')
        ok, ln, cp = U.decode(1, lambda k: bv(self.text.get(st, i + k), 8), e - i)
        r = []
        for s, y in ex.branch(st, ok):
            s = s.clone()
            if not y:
                ex.store(s, a[1], 8, Ptr(self.V.obj, Lin.of(fresh('anywhere', 64))))
                ex.store(s, a[0].add(32), 1, B(0, 8))
                r.append((s, None))
                continue
            ex.store(s, a[1], 8, Ptr(self.V.obj, Lin.of(i + ln)))
            ex.store(s, a[0].add(32), 1, B(1, 8))
            for c, u in P06.escaped(cp, 'u', 8):
                for s1, z in ex.branch(s, c):
                    if z:
                        s1 = s1.clone()
                        ex.store(s1, a[0], 32, ex.mkstr(s1, len(u), ATable(u, 8), 1))
                        r.append((s1, None))
        return Outcomes(r)


def t_write(t):
    """one codepoint is written in its escaped form"""
    W = Writing(t)
    ex, st = W.ex, W.st
    for fn in [x for mo in ex.mods for x in mo.funcs.values()]:
        if re.match(r'_ZN3fly11BasicStringIcE16escape_codepointILc117E', fn.dem) or re.search(r"fly::BasicString<char>::escape_codepoint<", fn.dem):
            ex.contracts[fn.dem] = W.c_escape
    p, J = fresh('position', 64), fresh('J', 64)
    get = lambda k: bv(W.text.get(st, p + k), 8)
    st.assume(z3.ULT(p, W.n))
    ok, ln, wl, units = written(get, W.n - p)
    st.assume(ok)                                    # JSON strings are valid UTF-8: convert_to_string
    it, end = ex.new(st, 'it', 8, 'param'), ex.new(st, 'end', 8, 'param')
    ex.store(st, it, 8, Ptr(W.V.obj, Lin.of(p)))
    ex.store(st, end, 8, Ptr(W.V.obj, Lin.of(W.n)))
    t.watch('length', W.n), t.watch('position', p)
    for i in range(4):
        t.watch('unit %d' % i, get(i))
    for k, s, r in ex.run(ex.find(r'fly::Json::write_escaped_character\('), [W.out, it, end], st):
        ex.oblige(s, k == 'ret', 'writing returns')
        ex.cover(s, 'written')
        g = getstr(ex, s, W.out)
        fa = content(ex, s, g)
        ex.oblige(s, W.pos(ex.load(s, it, 8)) == p + ln, 'exactly one codepoint is consumed')
        ex.oblige(s, bv(g.len, 64) == W.m + wl, 'nothing else is written')
        for j in range(12):
            ex.oblige(s, z3.Implies(z3.UGT(wl, j), bv(fa.get(s, W.m + j), 8) == units[j]), 'character %d of what is written' % j)
        ex.oblige(s, z3.Implies(z3.ULT(J, W.m), bv(fa.get(s, J), 8) == bv(W.fo.get(s, J), 8)), 'what was written before stays')


def t_string(t):
    """a string is written as a quote, its codepoints in order, and a quote"""
    W = Writing(t)
    ex, st = W.ex, W.st
    u = fresh_id()
    S64 = z3.BitVecSort(64)
    T = {x: z3.Function('codepoint_%s%d' % (x, u), S64, r) for x, r in [('ln', S64), ('wl', S64)] + [(i, z3.BitVecSort(8)) for i in range(12)]}
    start, opos = z3.Function('start%d' % u, S64, S64), z3.Function('opos%d' % u, S64, S64)
    K, J = fresh('K', 64), fresh('J', 64)
    src = ex.new(st, 'value', 32, 'param')
    clo = ex.new(st, 'closure', 8, 'param')
    ex.store(st, clo, 8, W.out)
    st.assume(z3.And(start(B(0)) == 0, opos(B(0)) == W.m + 1))

    def unfold(s, p, k):
        # valid text (P05): at every position before the end there is a codepoint, which ends in the text; bounds of the lemma
        s.assume(z3.Implies(z3.ULT(p, W.n), z3.And(z3.UGE(T['ln'](p), 1), z3.ULE(T['ln'](p), W.n - p), z3.UGE(T['wl'](p), 1), z3.ULE(T['wl'](p), 12))))
        s.assume(z3.Implies(start(k) == p, z3.And(start(k + 1) == p + T['ln'](p), opos(k + 1) == opos(k) + T['wl'](p))))

    def c_write(ex, st, a, fn, ins):
        """contract of write_escaped_character, proved in 'writing'"""
        st = st.clone()
        p, e = W.pos(ex.load(st, a[1], 8)), W.pos(ex.load(st, a[2], 8))
        ex.oblige(st, z3.And(z3.ULT(p, W.n), e == W.n), 'a codepoint of the text is written')
        if a[0].obj != W.out.obj:
            raise Unsupported('another output')
        g = getstr(ex, st, a[0])
        fn_ = AFnS(8, lambda s2, j: chain([(bv(j, 64) == i, T[i](p)) for i in range(12)], B(0, 8)))
        putstr(ex, st, a[0], append(ex, st, g, fn_, 0, T['wl'](p)))
        ex.store(st, a[1], 8, Ptr(W.V.obj, Lin.of(p + T['ln'](p))))
        return Outcomes([(st, None)])
    for fn in [x for mo in ex.mods for x in mo.funcs.values()]:
        d = fn.dem
        if d.startswith('fly::Json::write_escaped_character('):
            ex.contracts[d] = c_write
        elif re.match(r'bstr<char>::c?(begin|end)\(\)( const)?$', d):
            def f(ex, st, a, fn, ins, e=('end' in d)):
                if a[0].obj != src.obj:
                    return NotImplemented
                return Ptr(W.V.obj, Lin.of(W.n if e else 0))
            ex.contracts[d] = f

    def its(st, L):
        r = [v for key, v in L.vars(st).items() if isinstance(v, Ptr) and v.obj == W.V.obj]
        return W.pos(r[0]) if r else None

    def inv(ex, st, L):
        p, k = its(st, L), bv(L.k, 64)
        if p is None:
            return []
        if L.head is None:
            unfold(st, p, k)
            st.ghost['k'] = k
        g = getstr(ex, st, W.out)
        fa = content(ex, st, g)
        return [('the position is in the text', z3.And(z3.ULE(p, W.n), z3.ULE(k, p))), ('k codepoints are written', z3.And(start(k) == p, opos(k) == bv(g.len, 64))),
                ('the length of what is written', z3.And(z3.ULE(W.m + 1, bv(g.len, 64)), z3.ULE(bv(g.len, 64), W.m + 1 + 12 * p))),
                ('what was written before stays', z3.Implies(z3.ULT(J, W.m), bv(fa.get(st, J), 8) == bv(W.fo.get(st, J), 8))),
                ('the quote stays', bv(fa.get(st, W.m), 8) == 0x22),
                ('earlier codepoints', z3.Implies(z3.ULT(K, k), z3.And(z3.UGT(opos(K), W.m), z3.ULT(opos(K), bv(g.len, 64)), z3.ULE(opos(K) + T['wl'](start(K)), bv(g.len, 64)), z3.ULE(T['wl'](start(K)), 12))))] + \
            [('character %d of earlier codepoints' % j, z3.Implies(z3.And(z3.ULT(K, k), z3.UGT(T['wl'](start(K)), j)), bv(fa.get(st, opos(K) + j), 8) == T[j](start(K)))) for j in range(12)]

    ex.loopspecs = [LoopSpec(inv, variant=lambda ex, s, L: W.n - its(s, L), match=lambda ex, s, f, b: len(s.cuts) == 0 and 'force')]
    fn = ex.find(r'fly::Json::serialize\(\) const::\$_\d+::operator\(\)\(bstr<char> const&\) const$')
    for k, s, r in ex.run(fn, [clo, src], st):
        ex.oblige(s, k == 'ret', 'writing returns')
        ex.cover(s, 'written')
        g = getstr(ex, s, W.out)
        fa = content(ex, s, g)
        c = s.ghost['k']
        ex.oblige(s, start(c) == W.n, 'all codepoints are written')
        ex.oblige(s, bv(g.len, 64) == opos(c) + 1, 'nothing else is written')
        ex.oblige(s, z3.And(bv(fa.get(s, W.m), 8) == 0x22, bv(fa.get(s, opos(c)), 8) == 0x22), 'the text is between quotes')
        ex.oblige(s, z3.Implies(z3.ULT(J, W.m), bv(fa.get(s, J), 8) == bv(W.fo.get(s, J), 8)), 'what was written before stays')
        for j in range(12):
            ex.oblige(s, z3.Implies(z3.And(z3.ULT(K, c), z3.UGT(T['wl'](start(K)), j)), bv(fa.get(s, opos(K) + j), 8) == T[j](start(K))), 'character %d of every codepoint is at its place' % j)


def l_back(k):
    return lambda t: back(t, k)


def back(t, k0):
    """what is written for a codepoint is read back as that codepoint, and does not end the string"""
    ex, st = t.ex, t.state()
    us = [fresh('unit%d' % i, 8) for i in range(4)]
    rest = [fresh('any%d' % i, 8) for i in range(12)]
    n, m = fresh('left', 64), fresh('left in the output', 64)
    ok, ln, wl, units = written(lambda i: us[i], n)
    st.assume(ok)
    forms = [(z3.And(wl == k), k) for k in (1, 2, 6, 12)]
    ex.oblige(st, z3.Or(*[c for c, _ in forms]), 'lemma: the lengths of what is written')
    ex.oblige(st, z3.And(z3.UGE(ln, 1), z3.ULE(ln, 4), z3.ULE(ln, n)), 'lemma: the lengths of codepoints')
    for c, k in forms:
        if k != k0:
            continue
        s = st.clone()
        s.assume(z3.And(c, z3.UGE(m, k)))
        ex.cover(s, 'form of %d' % k)
        out = units[:k] + rest
        ok2, ln2, dl2, back = token(lambda i: out[i], m)
        ex.oblige(s, z3.And(ok2, ln2 == k), 'lemma: what is written is one valid character of %d' % k)
        ex.oblige(s, z3.And(dl2 == ln, *[z3.Implies(z3.UGT(ln, j), back[j] == us[j]) for j in range(4)]), 'lemma: it is read as the codepoint (form of %d)' % k)
        # in terms of the string reader of the parser: no unescaped quote, and the next symbol is not escaped
        e = z3.BoolVal(False)
        for j in range(k):
            ex.oblige(s, z3.Not(z3.And(out[j] == 0x22, z3.Not(e))), 'lemma: no quote ends the string (form of %d, character %d)' % (k, j))
            e = z3.And(z3.Not(e), out[j] == 0x5c)
        ex.oblige(s, z3.Not(e), 'lemma: what follows is not escaped (form of %d)' % k)


def c_convert(ty):
    def f(t):
        """strings of every type are converted to valid UTF-8 and read, or refused"""
        ex, st = t.ex, t.state()
        w = U.WIDTH[ty]
        n = fresh('length', 64)
        st.assume(z3.ULT(n, 1 << 40))
        v, g0 = strobj(ex, st, 'value', w, n, ABase('text', 8 * w))
        res = ex.new(st, 'result', 32, 'param')
        ok = fresh('well formed', 1)
        read = fresh('valid escapes', 1)
        cn = {'char': 'char', 'wchar': 'wchar_t', 'char8': 'char8_t', 'char16': 'char16_t', 'char32': 'char32_t'}[ty]
        conv = ABase('converted', 8)
        cl = fresh('converted length', 64)
        st.assume(z3.ULT(cl, 1 << 42))
        st.ghost['read'] = None
        J = fresh('J', 64)

        def same(st, p, ln):
            return z3.And(isinstance(p, Ptr) and p.obj == g0.data and p.off.conc() == 0, bv(ln, 64) == n)

        def c_validate(ex, st, a, fn, ins):
            p = a[0]
            ex.oblige(st, same(st, a[1], a[0]), 'the whole string is checked')
            return ok

        def c_conv(ex, st, a, fn, ins):
            ex.oblige(st, isinstance(a[1], Ptr) and a[1].obj == v.obj, 'the string itself is converted')
            r = []
            for s, y in ex.branch(st, ok):
                s = s.clone()
                if y:
                    ex.store(s, a[0], 32, ex.mkstr(s, cl, AStore(conv, cl, 0), 1))
                ex.store(s, a[0].add(32), 1, B(1 if y else 0, 8))
                r.append((s, None))
            return Outcomes(r)

        def c_read(ex, st, a, fn, ins):
            g = getstr(ex, st, a[1])
            fa = content(ex, st, g)
            want, wl = (conv, cl) if w != 1 or ty == 'char8' else (ABase('text', 8), n)
            src = st.mem[g0.data].regions[0].fields[(0, 1)] if ty == 'char' else conv
            ex.oblige(st, z3.And(bv(g.len, 64) == (n if ty == 'char' else cl), z3.Implies(z3.ULT(J, bv(g.len, 64)), bv(fa.get(st, J), 8) == bv(src.get(st, J), 8))), 'the converted string is read')
            ex.oblige(st, ok, 'only well formed strings are read')
            r = []
            for s, y in ex.branch(st, read):
                s = s.clone()
                if y:
                    s.ghost['read'] = a[0]
                    ex.store(s, a[0], 32, ex.mkstr(s, fresh('read', 64), ABase('read', 8), 1))
                    r.append((s, None))
                else:
                    r.append(Throw(s, 'fly::JsonException'))
            return Outcomes(r)
        for fn in [x for mo in ex.mods for x in mo.funcs.values()]:
            d = fn.dem
            if d.startswith('fly::Json::validate_string('):
                ex.contracts[d] = c_read
            elif re.match(r'fly::BasicString<%s>::validate\(' % cn, d):
                ex.contracts[d] = c_validate
            elif 'fly::BasicString<%s>::convert<bstr<char> >' % cn in d:
                ex.contracts[d] = c_conv
            elif re.match(r'fly::\w*JsonException::\w*JsonException\(', d):
                ex.contracts[d] = lambda ex, st, a, fn, ins: None
        letter = {'char': 'c', 'wchar': 'w', 'char8': 'Du', 'char16': 'Ds', 'char32': 'Di'}[ty]
        fn = ex.find(r'^_ZN3fly4Json17convert_to_stringITkNS_14JsonStringLikeENSt7__cxx1112basic_stringI%sSt' % letter)
        for k, s, r in ex.run(fn, [res, v], st):
            if k != 'ret':
                ex.cover(s, 'refused')
                ex.oblige(s, z3.Not(z3.And(ok, read)), 'no valid string is refused')
                continue
            ex.cover(s, 'converted')
            ex.oblige(s, z3.And(ok, read), 'only valid strings are accepted')
            ex.oblige(s, isinstance(s.ghost['read'], Ptr) and s.ghost['read'].obj == res.obj, 'the result is the string that was read')
    return f


def l_forms(t):
    """bounds of the forms of characters, and of plain ones"""
    ex, st = t.ex, t.state()
    n = fresh('left', 64)
    st.assume(z3.ULT(n, 1 << 40))
    us = [fresh('unit%d' % i, 8) for i in range(12)]
    ok, ln, dl, units = token(lambda i: us[i], n)
    ex.cover(st, 'any')
    ex.oblige(st, z3.Implies(ok, z3.And(z3.UGE(ln, 1), z3.ULE(ln, 12), z3.UGE(dl, 1), z3.ULE(dl, 4), z3.ULE(dl, ln), z3.ULE(ln, n))), 'lemma: bounds of the forms of characters')
    ex.oblige(st, z3.Implies(us[0] != 0x5c, z3.And(ok == z3.And(z3.UGE(n, 1), z3.UGE(us[0], 0x20), us[0] != 0x22), ln == 1, dl == 1, units[0] == us[0])), 'lemma: plain characters')
    e = escape(lambda i: us[i], n)
    ex.oblige(st, z3.Implies(us[0] == 0x5c, z3.And(ok == e[0], ln == e[1], dl == e[2], *[a == b for a, b in zip(units, e[3])])), 'lemma: escapes')


def tasks(tier):
    u = ['jsonstring']
    return [('escapes', t_read, u), ('validation', t_validate, u), ('lemma: forms of characters', l_forms, u), ('writing', t_write, u), ('writing strings', t_string, u),
           ] + [('lemma: what is written is read (%d)' % k, l_back(k), u) for k in (1, 2, 6, 12)] + [('conversion<%s>' % ty, c_convert(ty), u) for ty in U.WIDTH]
