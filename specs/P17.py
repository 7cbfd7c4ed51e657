"""P17: the JSON parser, function by function, over any text."""
import re
import z3
from flyvc.val import *
from flyvc.execu import LoopSpec, Outcomes
from flyvc.models import getstr, content, putstr

BUDGET = 300
DRIVER_S = 40
B = lambda v, w=64: z3.BitVecVal(v, w)
INVALID, STOP, KEEP = 0, 1, 2
EOF = (1 << 32) - 1
WS = (9, 10, 13, 32)
ASSUMPTIONS = ['std::streambuf: sgetc returns the symbol at the position, or end of file, and sbumpc also advances (assumed contracts of the standard library)',
               'texts are shorter than 2^40 symbols', 'logging has no effect on parsing']
STANDIN = ('the whole parser, strings, numbers and files: native driver against an independent reader of RFC 8259, all token sequences up to a length, '
           'generated and mutated documents, every feature combination (bounded)')


def oneof(c, *vs):
    return z3.Or(*[c == v for v in vs])


class Stream:
    def __init__(self, t):
        self.t, self.ex = t, t.ex
        ex, st = t.ex, t.state()
        self.n = fresh('size', 64)
        st.assume(z3.ULT(self.n, 1 << 40))
        self.fa = ABase('text', 8)
        self.p0 = fresh('position', 64)
        st.assume(z3.ULE(self.p0, self.n))
        self.J = fresh('J', 64)
        self.buf = ex.new(st, 'stream buffer', 64, 'param')
        self.me = ex.new(st, 'parser', 32, 'param')
        ex.store(st, self.me.add(8), 8, self.buf)
        ex.store(st, self.me.add(16), 4, fresh('line', 32))
        ex.store(st, self.me.add(20), 4, fresh('column', 32))
        self.flags = []
        for i, nm in enumerate(('comments', 'trailing comma', 'any type')):
            b = fresh(nm, 1)
            self.flags.append(b)
            ex.store(st, self.me.add(24 + i), 1, z3.If(b, B(1, 8), B(0, 8)))
        st.ghost.update({'p': self.p0})
        t.watch('size', self.n), t.watch('position', self.p0)
        self.st = st
        c = ex.contracts
        for fn in [x for mo in ex.mods for x in mo.funcs.values()]:
            d = fn.dem
            if d.startswith('std::basic_streambuf<char') and d.endswith('::sgetc()'):
                c[d] = self.sgetc
            elif d.startswith('std::basic_streambuf<char') and d.endswith('::sbumpc()'):
                c[d] = self.sbumpc
            elif 'fly::logger::Logger::warn<' in d and d.startswith('void fly::logger::Logger::warn<'):
                c[d] = lambda ex, st, a, fn, ins: None
            elif d == 'fly::logger::Logger::get_default_logger()':
                c[d] = self.logger
            elif d in ('fly::parser::Parser::line() const', 'fly::parser::Parser::column() const'):
                c[d] = lambda ex, st, a, fn, ins: fresh('where', 32)
        self.log = ex.new(st, 'logger', 64, 'param')

    def logger(self, ex, st, a, fn, ins):
        return self.log

    def sym(self, st, i):
        return z3.If(z3.ULT(i, self.n), z3.ZeroExt(24, bv(self.fa.get(st, i), 8)), B(EOF, 32))

    def mine(self, p):
        if not (isinstance(p, Ptr) and p.obj == self.buf.obj):
            raise Unsupported('another stream buffer')

    def sgetc(self, ex, st, a, fn, ins):
        self.mine(a[0])
        return self.sym(st, st.ghost['p'])

    def sbumpc(self, ex, st, a, fn, ins):
        self.mine(a[0])
        st = st.clone()
        p = st.ghost['p']
        st.ghost['p'] = z3.If(z3.ULT(p, self.n), p + 1, p)
        return Outcomes([(st, self.sym(st, p))])

    def ws(self, st, i):
        return oneof(self.sym(st, i), *WS)

    # contracts of callees
    def c_whitespace(self, ex, st, a, fn, ins):
        """all whitespace, and nothing else, is passed"""
        st = st.clone()
        p, q = st.ghost['p'], fresh('behind whitespace', 64)
        st.assume(z3.And(z3.ULE(p, q), z3.ULE(q, self.n), z3.Not(self.ws(st, q))))
        for j in st.ghost.get('J', (self.J,)):
            st.assume(z3.Implies(z3.And(z3.ULE(p, j), z3.ULT(j, q)), self.ws(st, j)))
        st.ghost['p'] = q
        return Outcomes([(st, None)])


class Scan(LoopSpec):
    """A loop that passes symbols; W.inv(st, L) says what was passed."""
    def __init__(self, S, where, inv, vals=(), strings=()):
        LoopSpec.__init__(self)
        self.S, self.where, self.fn = S, where, inv

    def matches(self, ex, st, f, blk):
        return bool(re.search(self.where, f.fn.dem if hasattr(f, 'fn') else str(f))) and len(st.cuts) == 0 and 'force'

    def begin(self, ex, st):
        self.new = {'p': fresh('p', 64)}

    def havoc_ghost(self, ex, st, key, v):
        if key in self.new:
            return self.new[key]
        if hasattr(v, 'sort'):
            return z3.FreshConst(v.sort(), key)
        return LoopSpec.havoc_ghost(self, ex, st, key, v)

    def inv(self, ex, st, L):
        p = st.ghost['p']
        return [('the position is in the text', z3.And(z3.ULE(self.S.p0, p), z3.ULE(p, self.S.n)))] + self.fn(st, L)

    def variant(self, ex, st, L):
        return self.S.n - st.ghost['p']


def states(S, name, args, extra=None):
    ex = S.ex
    for k, s, r in ex.run(ex.find(name), [S.me] + list(args), S.st):
        ex.oblige(s, k == 'ret', 'the function returns')
        ex.cover(s, 'returned')
        yield s, r


def t_classes(t):
    """which symbols are whitespace"""
    S = Stream(t)
    ex = S.ex
    c = fresh('symbol', 32)
    for s, r in states(S, r'JsonParser::is_whitespace\(', [c]):
        ex.oblige(s, boolv(r) == oneof(c, *WS), 'whitespace is space, tab, line feed and carriage return')


def t_get(t):
    """reading symbols"""
    for name, adv in (('peek<fly::parser::JsonParser::Token>', 0), ('get<fly::parser::JsonParser::Token>', 1), ('peek<int>', 0)):
        S = Stream(t)
        ex = S.ex
        for s, r in states(S, r' fly::parser::Parser::%s\(' % name, []):
            ex.oblige(s, bv(r, 32) == S.sym(s, S.p0), 'the next symbol is returned')
            ex.oblige(s, s.ghost['p'] == (z3.If(z3.ULT(S.p0, S.n), S.p0 + 1, S.p0) if adv else S.p0), 'the position advances by one symbol' if adv else 'the position stays')


def t_whitespace(t):
    """passing whitespace"""
    S = Stream(t)
    ex, J = S.ex, S.J
    inv = lambda st, L: [('only whitespace was passed', z3.Implies(z3.And(z3.ULE(S.p0, J), z3.ULT(J, st.ghost['p'])), S.ws(st, J)))]
    ex.loopspecs = [Scan(S, 'consume_whitespace', inv)]
    for s, r in states(S, r'JsonParser::consume_whitespace\(\)', []):
        q = s.ghost['p']
        ex.oblige(s, z3.Implies(z3.And(z3.ULE(S.p0, J), z3.ULT(J, q)), S.ws(s, J)), 'only whitespace is passed')
        ex.oblige(s, z3.Not(S.ws(s, q)), 'all whitespace is passed')


def t_comment(t):
    """passing a comment"""
    S = Stream(t)
    ex, J, p0 = S.ex, S.J, S.p0
    S.st.assume(S.sym(S.st, p0) == 0x2f)
    two = lambda s, i: z3.And(S.sym(s, i) == 0x2a, S.sym(s, i + 1) == 0x2f)

    def inv(st, L):
        p = st.ghost['p']
        k = S.sym(st, p0 + 1)
        return [('the comment has begun', z3.And(z3.UGE(p, p0 + 2), oneof(k, 0x2f, 0x2a))),
                ('the comment has not ended', z3.Implies(z3.And(z3.ULE(p0 + 2, J), z3.ULT(J, p)), z3.And(z3.Implies(k == 0x2f, S.sym(st, J) != 10), z3.Implies(k == 0x2a, z3.Not(two(st, J))))))]
    ex.loopspecs = [Scan(S, 'consume_comment', inv)]
    for s, r in states(S, r'JsonParser::consume_comment\(\)', []):
        q, k = s.ghost['p'], S.sym(s, p0 + 1)
        r = bv(r, 8)
        ex.oblige(s, oneof(r, INVALID, KEEP), 'comments: passed or invalid')
        ex.oblige(s, z3.Implies(z3.Not(S.flags[0]), r == INVALID), 'comments are refused unless they are allowed')
        ex.oblige(s, z3.Implies(z3.Not(oneof(k, 0x2f, 0x2a)), r == INVALID), 'comments begin with // or /*')
        inside = z3.And(z3.ULE(p0 + 2, J), z3.ULT(J, q))
        line = z3.And(S.flags[0], k == 0x2f)
        ex.oblige(s, z3.Implies(line, r == KEEP), 'a line comment is passed')
        ex.oblige(s, z3.Implies(line, z3.And(z3.Implies(z3.And(inside, S.sym(s, J) == 10), J == q - 1), z3.Or(q == S.n, S.sym(s, q - 1) == 10))), 'a line comment ends behind the first line feed')
        block = z3.And(S.flags[0], k == 0x2a)
        e = q - 2
        ex.oblige(s, z3.Implies(z3.And(block, r == KEEP), z3.And(z3.UGE(e, p0 + 2), two(s, e), z3.Implies(z3.And(z3.ULE(p0 + 2, J), z3.ULT(J, e)), z3.Not(two(s, J))))), 'a block comment ends behind the first */')
        ex.oblige(s, z3.Implies(z3.And(block, r == INVALID), z3.Implies(z3.UGE(J, p0 + 2), z3.Not(two(s, J)))), 'only a block comment that does not end is invalid')


def t_blank(t):
    """passing whitespace and comments"""
    S = Stream(t)
    ex = S.ex
    S.st.ghost.update({'bad': B(0, 8)})
    for fn in [x for mo in ex.mods for x in mo.funcs.values()]:
        if fn.dem == 'fly::parser::JsonParser::consume_whitespace()':
            ex.contracts[fn.dem] = S.c_whitespace
        elif fn.dem == 'fly::parser::JsonParser::consume_comment()':
            def comment(ex, st, a, fn, ins):
                ex.oblige(st, S.sym(st, st.ghost['p']) == 0x2f, 'a comment begins with a solidus')
                st = st.clone()
                q, r = fresh('behind the comment', 64), fresh('result', 8)
                st.assume(z3.And(z3.ULT(st.ghost['p'], q), z3.ULE(q, S.n), oneof(r, INVALID, KEEP)))
                st.ghost['bad'] = r
                st.ghost['p'] = q
                return Outcomes([(st, r)])
            ex.contracts[fn.dem] = comment
    ok = lambda st: z3.Or(st.ghost['bad'] == KEEP, st.ghost['bad'] == 0)
    S.st.ghost['bad'] = B(KEEP, 8)
    ex.loopspecs = [Scan(S, 'consume_whitespace_and_comments', lambda st, L: [('no comment was malformed', st.ghost['bad'] == KEEP), ('whitespace was passed', z3.Not(S.ws(st, st.ghost['p'])))])]
    for s, r in states(S, r'JsonParser::consume_whitespace_and_comments\(\)', []):
        r, x = bv(r, 8), S.sym(s, s.ghost['p'])
        ex.oblige(s, oneof(r, INVALID, KEEP), 'blanks: passed or invalid')
        ex.oblige(s, (r == INVALID) == (s.ghost['bad'] == INVALID), 'a malformed comment, and nothing else, is invalid')
        ex.oblige(s, z3.Implies(r == KEEP, z3.Not(oneof(x, *(WS + (0x2f,))))), 'all whitespace and comments are passed')


def callees(S, ws=True, blank=True, token=False, state=False):
    """contracts proved above, used by the callers"""
    ex = S.ex

    def c_blank(ex, st, a, fn, ins):
        st = st.clone()
        q, r = fresh('behind blanks', 64), fresh('result', 8)
        st.assume(z3.And(z3.ULE(st.ghost['p'], q), z3.ULE(q, S.n), oneof(r, INVALID, KEEP), z3.Implies(r == KEEP, z3.Not(oneof(S.sym(st, q), *(WS + (0x2f,)))))))
        st.ghost['p'] = q
        st.ghost['blank'] = st.ghost.get('blank', ()) + ((q, r),)
        return Outcomes([(st, r)])

    def c_token(ex, st, a, fn, ins):
        st = st.clone()
        q, r = fresh('behind whitespace', 64), fresh('result', 8)
        st.assume(z3.And(z3.ULE(st.ghost['p'], q), z3.ULE(q, S.n), z3.Not(S.ws(st, q))))
        st.assume(r == z3.If(S.sym(st, q) == bv(a[1], 32), B(KEEP, 8), B(INVALID, 8)))
        st.ghost['p'] = z3.If(z3.ULT(q, S.n), q + 1, q)
        st.ghost['tokens'] = st.ghost.get('tokens', ()) + ((q, a[1], r),)
        return Outcomes([(st, r)])

    def c_state(ex, st, a, fn, ins):
        st = st.clone()
        q, i = fresh('behind blanks', 64), fresh('invalid blanks', 1)
        st.assume(z3.And(z3.ULE(st.ghost['p'], q), z3.ULE(q, S.n), z3.Implies(z3.Not(i), z3.Not(oneof(S.sym(st, q), *(WS + (0x2f,)))))))
        x = S.sym(st, q)
        r = z3.If(i, B(INVALID, 8), z3.If(x == bv(a[1], 32), B(STOP, 8), z3.If(x == EOF, B(INVALID, 8), B(KEEP, 8))))
        st.ghost['p'] = z3.If(z3.And(z3.Not(i), x == bv(a[1], 32)), q + 1, q)
        st.ghost['states'] = st.ghost.get('states', ()) + ((q, a[1], r),)
        return Outcomes([(st, r)])
    for fn in [x for mo in ex.mods for x in mo.funcs.values()]:
        d = fn.dem
        if ws and d == 'fly::parser::JsonParser::consume_whitespace()':
            ex.contracts[d] = S.c_whitespace
        if blank and d == 'fly::parser::JsonParser::consume_whitespace_and_comments()':
            ex.contracts[d] = c_blank
        if token and d.startswith('fly::parser::JsonParser::consume_token('):
            ex.contracts[d] = c_token
        if state and d.startswith('fly::parser::JsonParser::state_for_object_or_array('):
            ex.contracts[d] = c_state


def t_token(t):
    """one expected symbol"""
    S = Stream(t)
    ex = S.ex
    callees(S)
    x = fresh('expected', 32)
    J = S.J
    for s, r in states(S, r'JsonParser::consume_token\(', [x]):
        q = s.ghost['p']
        r = bv(r, 8)
        ok = z3.And(z3.ULT(S.p0, q), z3.Not(S.ws(s, q - 1)), S.sym(s, q - 1) == x)
        ex.oblige(s, z3.Implies(z3.And(r == KEEP, x != EOF), ok), 'the expected symbol was read')
        ex.oblige(s, z3.Implies(z3.And(z3.ULE(S.p0, J), z3.ULT(J, S.n), z3.ULT(J + 1, q)), S.ws(s, J)), 'only whitespace is before the expected symbol')
        ex.oblige(s, z3.Implies(z3.And(r != KEEP, x != EOF), z3.And(r == INVALID, z3.Or(q == S.n, S.sym(s, q - 1) != x))), 'another symbol is invalid')


def t_state(t):
    """the end of an object or array"""
    S = Stream(t)
    ex = S.ex
    callees(S)
    end = fresh('end', 32)
    S.st.assume(oneof(end, 0x5d, 0x7d))
    for s, r in states(S, r'JsonParser::state_for_object_or_array\(', [end]):
        r = bv(r, 8)
        bl = s.ghost.get('blank', ())
        if len(bl) != 1:
            ex.oblige(s, False, 'blanks before the next element are passed once')
            continue
        q, b = bl[0]
        x = S.sym(s, q)
        ex.oblige(s, r == z3.If(b == INVALID, B(INVALID, 8), z3.If(x == end, B(STOP, 8), z3.If(x == EOF, B(INVALID, 8), B(KEEP, 8)))), 'the end token ends, the end of the text is invalid, all else goes on')
        ex.oblige(s, s.ghost['p'] == z3.If(r == STOP, q + 1, q), 'exactly the end token is passed')


def t_comma(t):
    """a comma, and what follows it"""
    S = Stream(t)
    ex = S.ex
    callees(S, token=True, state=True)
    end = fresh('end', 32)
    S.st.assume(oneof(end, 0x5d, 0x7d))
    for s, r in states(S, r'JsonParser::consume_comma\(', [end]):
        r = bv(r, 8)
        tk, stt = s.ghost.get('tokens', ()), s.ghost.get('states', ())
        ex.oblige(s, z3.And(len(tk) == 1, bv(tk[0][1], 32) == 0x2c) if tk else False, 'a comma is expected')
        if not tk:
            continue
        ok = tk[0][2] == KEEP
        if not stt:
            ex.oblige(s, z3.And(z3.Not(ok), r == INVALID), 'without a comma it is invalid')
            continue
        ex.oblige(s, z3.And(len(stt) == 1, ok, bv(stt[0][1], 32) == end), 'what follows the comma is looked at once')
        f = stt[0][2]
        ex.oblige(s, r == z3.If(f == STOP, z3.If(S.flags[1], B(STOP, 8), B(INVALID, 8)), f), 'a trailing comma is accepted exactly if it is allowed')


def only_string(ex, st):
    r = [(o, c) for o, x in st.mem.items() for c, v in x.cells.items() if isinstance(v[1], GStr)]
    if len(r) != 1:
        raise Unsupported('%d strings' % len(r))
    return Ptr(r[0][0], Lin.of(r[0][1]), None)


def t_value(t):
    """the symbols of a number or a word"""
    S = Stream(t)
    ex, J, p0 = S.ex, S.J, S.p0
    stop = lambda s, i: oneof(S.sym(s, i), 0x2c, 0x2f, 0x5d, 0x7d, EOF, *WS)
    res = ex.new(S.st, 'result', 32, 'param')

    def text(s, q):
        g = getstr(ex, s, only_string(ex, s))
        return z3.And(bv(g.len, 64) == q - p0, z3.Implies(z3.ULT(J, q - p0), bv(content(ex, s, g).get(s, J), 8) == bv(S.fa.get(s, p0 + J), 8)))
    inv = lambda st, L: [('the symbols are kept', text(st, st.ghost['p'])), ('no symbol ends the value', z3.Implies(z3.And(z3.ULE(p0, J), z3.ULT(J, st.ghost['p'])), z3.Not(stop(st, J))))]
    ex.loopspecs = [Scan(S, 'consume_value', inv)]
    fn = ex.find(r'JsonParser::consume_value\(\)$')
    for k, s, r in ex.run(fn, [res, S.me], S.st):
        ex.oblige(s, k == 'ret', 'consume_value returns')
        q = s.ghost['p']
        ex.cover(s, 'value')
        ex.oblige(s, z3.Implies(z3.And(z3.ULE(p0, J), z3.ULT(J, q)), z3.Not(stop(s, J))), 'no symbol of the value ends it')
        ex.oblige(s, stop(s, q), 'the value goes on to a symbol that ends it')
        ex.oblige(s, text(s, q), 'the value is the text that was read')


def t_quoted(t):
    """the inside of a string, up to the quote that ends it"""
    S = Stream(t)
    ex, J = S.ex, S.J
    callees(S, token=True)
    esc = z3.Function('escaped%d' % fresh_id(), z3.BitVecSort(64), z3.BoolSort())      # the symbol is preceded by an odd number of reverse solidi
    S.st.ghost['tokens'] = ()
    res = ex.new(S.st, 'result', 40, 'param')

    def start(s):
        tk = s.ghost['tokens']
        if len(tk) != 1:
            raise Unsupported('%d tokens' % len(tk))
        return tk[0][0] + 1

    def step(s, i, b):
        """escapes by definition: the first symbol is not escaped; the next one is, if this one is an unescaped reverse solidus"""
        s.assume(z3.Not(esc(b)))
        s.assume(esc(i + 1) == z3.And(z3.Not(esc(i)), S.sym(s, i) == 0x5c))

    def text(s, b, q):
        g = getstr(ex, s, only_string(ex, s))
        return z3.And(bv(g.len, 64) == q - b, z3.Implies(z3.ULT(J, q - b), bv(content(ex, s, g).get(s, J), 8) == bv(S.fa.get(s, b + J), 8)))

    def inv(st, L):
        p, b = st.ghost['p'], start(st)
        if L.head is None:
            st.ghost['from'] = p
            step(st, p, b)
            step(st, p + 1, b)
        elif 'from' in st.ghost:
            step(st, st.ghost['from'], b)
            step(st, st.ghost['from'] + 1, b)
        step(st, b, b)
        x = b + J
        return [('the string has begun', z3.And(z3.ULE(b, p), z3.ULE(p, S.n))), ('the symbols are kept', z3.Or(p == S.n, text(st, b, p))), ('the next symbol is not escaped', z3.Or(p == S.n, z3.Not(esc(p)))),
                ('no quote ended the string', z3.Implies(z3.ULT(J, p - b), z3.Not(z3.And(S.sym(st, x) == 0x22, z3.Not(esc(x))))))]

    class Q(Scan):
        def variant(self, ex, st, L):
            return S.n - st.ghost['p']
    ex.loopspecs = [Q(S, 'parse_quoted_string', inv)]
    fn = ex.find(r'JsonParser::parse_quoted_string\(\)$')
    for k, s, r in ex.run(fn, [res, S.me], S.st):
        ex.oblige(s, k == 'ret', 'parse_quoted_string returns')
        has = bv(ex.load(s, res.add(32), 1), 8)
        q, tk = s.ghost['p'], s.ghost['tokens']
        ex.oblige(s, z3.And(len(tk) == 1, bv(tk[0][1], 32) == 0x22), 'a quote is expected')
        opened = tk[0][2] == KEEP
        b = start(s)
        for s1, y in ex.branch(s, has != 0):
            ex.cover(s1, 'string' if y else 'none')
            if y:
                g = getstr(ex, s1, res)
                e = q - 1
                x = b + J
                ex.oblige(s1, opened, 'a string begins with a quote')
                ex.oblige(s1, z3.And(z3.ULE(b, e), z3.ULT(e, S.n), S.sym(s1, e) == 0x22, z3.Not(esc(e))), 'a string ends with an unescaped quote')
                ex.oblige(s1, z3.Implies(z3.ULT(J, e - b), z3.Not(z3.And(S.sym(s1, x) == 0x22, z3.Not(esc(x))))), 'a string ends with the first unescaped quote')
                ex.oblige(s1, z3.And(bv(g.len, 64) == e - b, z3.Implies(z3.ULT(J, e - b), bv(content(ex, s1, g).get(s1, J), 8) == bv(S.fa.get(s1, x), 8))), 'the string is the text between the quotes')
            else:
                x = b + J
                ex.oblige(s1, z3.Or(z3.Not(opened), q == S.n), 'only a string that does not begin or end is refused')
                ex.oblige(s1, z3.Or(z3.Not(opened), z3.Implies(z3.And(z3.ULE(b, x), z3.ULT(x, S.n), z3.ULT(J, S.n)), z3.Not(z3.And(S.sym(s1, x) == 0x22, z3.Not(esc(x)))))), 'a refused string has no end')


NUM = {1: 'signed', 2: 'unsigned', 3: 'floating point', 0: 'invalid'}


def t_number(t):
    """the kinds of numbers"""
    ex, st = t.ex, t.state()
    n = fresh('length', 64)
    st.assume(z3.ULT(n, 1 << 40))
    from specs.P05 import strobj
    fa = ABase('number', 8)
    p, g = strobj(ex, st, 'value', 1, n, fa)
    me = ex.new(st, 'parser', 32, 'param')
    t.watch('length', n)
    ch = lambda s, i: bv(fa.get(s, i), 8)
    st.ghost['finds'] = ()
    J = fresh('J', 64)

    def find(ex, st, a, fn, ins):
        d, m = ex.load(st, a[0].add(8), 8), bv(ex.load(st, a[0], 8), 64)
        if not isinstance(d, Ptr):
            raise Unsupported('view')
        off = n - m
        ex.oblige(st, z3.And(d.off.bv() == off, z3.ULE(m, n), bv(a[2], 64) == 0), 'a suffix of the value is searched')
        st = st.clone()
        r, c = fresh('found', 64), bv(a[1], 8)
        st.assume(z3.Or(r == B((1 << 64) - 1), z3.And(z3.ULT(r, m), ch(st, off + r) == c)))
        st.ghost['finds'] = st.ghost['finds'] + ((c, r, off, m),)
        st.assume(z3.Implies(z3.And(z3.ULT(J, m), z3.ULT(J, r)), ch(st, off + J) != c))
        return Outcomes([(st, r)])
    for fn in [x for mo in ex.mods for x in mo.funcs.values()]:
        if fn.dem == 'sview<char>::find(char, unsigned long) const':
            ex.contracts[fn.dem] = find
    digit = lambda c: z3.And(z3.UGE(c, 0x30), z3.ULE(c, 0x39))
    for k, s, r in ex.run(ex.find(r'JsonParser::validate_number\('), [me, p], st):
        ex.oblige(s, k == 'ret', 'validate_number returns')
        ex.cover(s, 'checked')
        r = bv(r, 8)
        neg = z3.And(n != 0, ch(s, B(0)) == 0x2d)
        o = z3.If(neg, B(1), B(0))
        m = n - o
        first = ch(s, o)
        lead = z3.And(z3.UGT(m, 1), first == 0x30, digit(ch(s, o + 1)))
        begin = z3.And(m != 0, digit(first), z3.Not(lead))
        f = {}
        for c, pos, off, mm in s.ghost['finds']:
            c = z3.simplify(c)
            if not z3.is_bv_value(c):
                raise Unsupported('search for an unknown character')
            f[c.as_long()] = pos
        NP = B((1 << 64) - 1)
        if set(f) >= {0x2e, 0x65, 0x45}:
            d, e1, e2 = f[0x2e], f[0x65], f[0x45]
            e = z3.If(z3.ULT(e1, e2), e1, e2)
            end = z3.If(e == NP, m, e)
            frac = z3.Or(d == NP, z3.ULT(d + 1, end))
            real = z3.Or(d != NP, e != NP)
            ex.oblige(s, r == z3.If(z3.Not(z3.And(begin, frac)), B(0, 8), z3.If(real, B(3, 8), z3.If(neg, B(1, 8), B(2, 8)))), 'the kind of the number')
        else:
            ex.oblige(s, z3.And(z3.Not(begin), r == 0), 'a number begins with a digit, and with zero only alone')
        # what the searches say about one arbitrary symbol
        at = ch(s, o + J)
        inside = z3.ULT(J, m)
        ex.oblige(s, z3.Implies(z3.And(oneof(r, 1, 2), inside), z3.Not(oneof(at, 0x2e, 0x65, 0x45))), 'integers have no fraction and no exponent')


def tasks(tier):
    u = ['jsonparser']
    return [('symbols: classes', t_classes, u), ('symbols: reading', t_get, u), ('whitespace', t_whitespace, u), ('comments', t_comment, u), ('whitespace and comments', t_blank, u),
            ('expected symbols', t_token, u), ('ends', t_state, u), ('commas', t_comma, u), ('values', t_value, u), ('strings', t_quoted, u), ('numbers', t_number, u)]
