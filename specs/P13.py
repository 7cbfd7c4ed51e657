"""P13: string utilities over any strings: replacing, removing, trimming and splitting."""
import re
import z3
from flyvc.val import *
from flyvc.execu import LoopSpec, Outcomes, AFnS
from flyvc.models import getstr, putstr, content, data_ptr
from specs.P05 import strobj

BUDGET = 300
DRIVER_S = 35
B = lambda v, w=64: z3.BitVecVal(v, w)
CH = {'c': ('char', 1), 'u16': ('char16_t', 2), 'u32': ('char32_t', 4)}
NPOS = B((1 << 64) - 1)
ASSUMPTIONS = ['std::string find yields the first occurrence at or behind its position, replace and erase have their documented effect, std::find_if yields the first element '
               'that satisfies its predicate, std::vector push_back, back and size are those of a sequence (assumed contracts of the standard library)',
               'strings are shorter than 2^40 characters, and replaced texts shorter than 2^61']
STANDIN = 'wildcard matching and joining: native driver against an independent matcher (bounded)'


class ReplaceLoop(LoopSpec):
    """What is left of the text from p on stands unchanged behind the q characters of the result."""
    def __init__(self, W):
        LoopSpec.__init__(self)
        self.W = W

    def matches(self, ex, st, f, blk):
        return len(st.cuts) == 0 and 'force'

    def begin(self, ex, st):
        self.new = {x: fresh(x, 64) for x in ('p', 'q', 'd')}
        self.new['found'] = fresh('found', 1)
        self.new['log'] = ()

    def havoc_ghost(self, ex, st, key, v):
        if key in self.new:
            return self.new[key]
        return LoopSpec.havoc_ghost(self, ex, st, key, v)

    def inv(self, ex, st, L):
        g, W = st.ghost, self.W
        vs = [v for k, v in L.vars(st).items() if isinstance(v, (int, z3.BitVecRef)) and (isinstance(v, int) or v.size() == 64)]
        if len(vs) != 1:
            if ex.dry:
                return []
            raise Unsupported('the loop has %d counters' % len(vs))
        return [('the position is the next occurrence', bv(vs[0], 64) == z3.If(g['found'], g['q'] + g['d'], NPOS)),
                ('the occurrence is in the text', z3.And(z3.ULE(g['p'], W.n), z3.ULE(g['q'], B(1 << 61)), z3.Implies(g['found'], z3.And(z3.ULE(g['d'], W.n), z3.ULE(g['p'] + g['d'] + W.m, W.n))))),
                ('nothing is replaced without a search', z3.Implies(W.m == 0, z3.And(g['p'] == 0, g['q'] == 0)))]


class Replace:
    """The text from p on stands unchanged behind the q characters that replaced the text before p."""
    def __init__(self, t, ty, how):
        self.ex, self.how = t.ex, how
        ex, st = t.ex, t.state()
        self.cn, self.w = CH[ty]
        self.target = ex.new(st, 'target', 32, 'param')
        self.n, self.m, self.k = fresh('text', 64), fresh('search', 64), fresh('replacement', 64)
        for x in (self.n, self.m, self.k):
            st.assume(z3.ULT(x, 1 << 40))
        self.search = ex.buffer(st, 'search', self.m, self.w, const=True)
        self.repl = ex.buffer(st, 'replacement', self.k, self.w, const=True)
        self.chr = fresh('character', 8 * self.w)
        st.ghost.update({'p': B(0), 'q': B(0), 'd': B(0), 'found': None, 'log': ()})
        self.st = st
        s = re.escape('bstr<%s>::' % self.cn)
        for fn in [x for mo in ex.mods for x in mo.funcs.values()]:
            d = fn.dem
            c = None
            if re.match(s + r'find\(%s const\*, unsigned long, unsigned long\) const$' % self.cn, d):
                c = self.find
            elif re.match(s + r'replace\(unsigned long, unsigned long, %s const\*, unsigned long\)$' % self.cn, d):
                c = self.rep_str
            elif re.match(s + r'replace\(unsigned long, unsigned long, unsigned long, %s\)$' % self.cn, d):
                c = self.rep_chr
            elif re.search(r' ' + s + r'find<sview<.*>\(sview<%s> const&, unsigned long\) const$' % self.cn, d):
                c = self.find_view
            elif re.search(r' ' + s + r'replace<sview<.*>\(unsigned long, unsigned long, sview<%s> const&\)$' % self.cn, d):
                c = self.rep_view
            elif re.match(s + r'(size|length)\(\) const$', d):
                c = self.size
            if c:
                ex.contracts[d] = c

    def me(self, p):
        if not (isinstance(p, Ptr) and p.obj == self.target.obj):
            raise Unsupported('another string')

    def size(self, ex, st, a, fn, ins):
        self.me(a[0])
        return Outcomes([(st, st.ghost['q'] + (self.n - st.ghost['p']))])

    def is_search(self, ex, st, p, n):
        return z3.And(bv(n, 64) == self.m, z3.Or(self.m == 0, isinstance(p, Ptr) and p.obj == self.search.obj and p.off.conc() == 0))

    def find(self, ex, st, a, fn, ins):
        self.me(a[0])
        g = st.ghost
        ex.oblige(st, self.is_search(ex, st, a[1], a[3]), 'the text to replace is searched')
        ex.oblige(st, bv(a[2], 64) == g['q'], 'the search goes on right behind what was replaced')
        r = []
        f = fresh('found', 1)
        for s, y in ex.branch(st, f):
            s = s.clone()
            s.ghost['found'] = z3.BoolVal(y)
            d = fresh('distance', 64)
            if y:
                s.assume(z3.And(z3.ULE(d, self.n), z3.ULE(g['p'] + d + self.m, self.n)))
                s.ghost['d'] = d
            r.append((s, g['q'] + d if y else NPOS))
        return Outcomes(r)

    def view(self, st, p):
        return self.ex.load(st, p.add(8), 8), self.ex.load(st, p, 8)

    def find_view(self, ex, st, a, fn, ins):
        p, n = self.view(st, a[1])
        return self.find(ex, st, [a[0], p, a[2], n], fn, ins)

    def rep_view(self, ex, st, a, fn, ins):
        p, n = self.view(st, a[3])
        return self.rep_str(ex, st, [a[0], a[1], a[2], p, n], fn, ins)

    def replace(self, ex, st, a, k):
        self.me(a[0])
        g = st.ghost
        ex.oblige(st, boolv(g['found']) if g['found'] is not None else False, 'only an occurrence is replaced')
        ex.oblige(st, z3.And(bv(a[1], 64) == g['q'] + g['d'], bv(a[2], 64) == self.m), 'exactly the occurrence is replaced')
        ex.oblige(st, self.m != 0, 'an empty search replaces nothing')
        ex.cover(st, 'replaced')
        st = st.clone()
        q = g['q'] + g['d'] + k
        p = g['p'] + g['d'] + self.m
        st.assume(z3.ULE(q + (self.n - p), B(1 << 60)))              # otherwise std::length_error
        st.assume(z3.ULE(q, B(1 << 60)))
        st.ghost.update({'p': z3.simplify(p), 'q': z3.simplify(q), 'd': B(0), 'found': None})
        return Outcomes([(st, a[0])])

    def rep_str(self, ex, st, a, fn, ins):
        want = self.k if self.how == 'str' else B(0)
        ex.oblige(st, bv(a[4], 64) == want, 'the whole replacement is inserted')
        if self.how == 'str':
            ex.oblige(st, z3.Or(self.k == 0, isinstance(a[3], Ptr) and a[3].obj == self.repl.obj and a[3].off.conc() == 0), 'the replacement itself is inserted')
        return self.replace(ex, st, a, want)

    def rep_chr(self, ex, st, a, fn, ins):
        ex.oblige(st, z3.And(bv(a[3], 64) == 1, bv(a[4], 8 * self.w) == self.chr) if self.how == 'chr' else False, 'one replacement character is inserted')
        return self.replace(ex, st, a, B(1))


def c_replace(ty, how):
    def f(t):
        """every occurrence is replaced, from left to right, and nothing else"""
        W = Replace(t, ty, how)
        ex = W.ex
        ex.loopspecs = [ReplaceLoop(W)]
        args = {'chr': [W.target, W.search, W.m, W.chr], 'str': [W.target, W.search, W.m, W.repl, W.k], 'remove': [W.target, W.search, W.m]}[how]
        name = {'chr': 'vp_replace_chr_', 'str': 'vp_replace_str_', 'remove': 'vp_remove_'}[how] + ty
        for k, s, r in ex.run(ex.find('^%s$' % name), args, W.st):
            g = s.ghost
            ex.oblige(s, k == 'ret', 'replacing returns')
            ex.cover(s, 'returned')
            done = z3.Not(g['found']) if g['found'] is not None else z3.BoolVal(False)
            ex.oblige(s, z3.Or(done, z3.And(W.m == 0, g['p'] == 0, g['q'] == 0)), 'replacing ends when no occurrence is left')
    return f


def space(c):
    c = z3.ZeroExt(32 - c.size(), c) if c.size() < 32 else c
    return z3.Or(c == 32, z3.And(z3.UGE(c, 9), z3.ULE(c, 13)))


def c_trim(ty):
    def f(t):
        """exactly the leading and trailing whitespace is removed"""
        ex, st = t.ex, t.state()
        cn, w = CH[ty]
        n = fresh('length', 64)
        st.assume(z3.ULT(n, 1 << 40))
        fa = ABase('text', 8 * w)
        p, g0 = strobj(ex, st, 'target', w, n, fa)
        st.ghost['finds'] = ()
        t.watch('length', n)
        lam = ex.find(r'fly::BasicString<%s>::trim\(.*\{lambda.*\}::operator\(\)<%s>' % (cn, cn))
        c = fresh('c', 8 * w)
        o = ex.new(st, 'closure', 8, 'param')
        for k, s, r in ex.run(lam, [o, c], st):
            ex.oblige(s, k == 'ret', 'the test returns')
            ex.oblige(s, boolv(r) == z3.Not(space(c)), 'the test is for whitespace')

        def cur(st):
            g = getstr(ex, st, p)
            return g, content(ex, st, g)

        def found(st, lo, hi, back):
            """index of the first (last) non-space in [lo, hi), and the state"""
            g, a = cur(st)
            st = st.clone()
            r = fresh('found', 64)
            st.assume(z3.And(z3.ULE(lo, r), z3.ULE(r, hi)))
            at = z3.simplify(r - 1) if back else r
            st.assume(z3.Implies(r != (lo if back else hi), z3.Not(space(bv(a.get(st, at), 8 * w)))))
            st.ghost['finds'] = st.ghost['finds'] + ((back, a, lo, hi, r),)
            return st, r

        def idx(st, q):
            g, a = cur(st)
            if not isinstance(q, Ptr) or q.obj != g.data:
                raise Unsupported('iterator of another string')
            return q.off.div(w).bv() if w > 1 else q.off.bv()

        def fwd(ex, st, a, fn, ins):
            lo, hi = idx(st, a[0]), idx(st, a[1])
            st, r = found(st, lo, hi, False)
            return Outcomes([(st, data_ptr(ex, st, cur(st)[0], r))])

        def rev(ex, st, a, fn, ins):
            hi, lo = idx(st, ex.load(st, a[1], 8)), idx(st, ex.load(st, a[2], 8))
            st, r = found(st, lo, hi, True)
            ex.store(st, a[0], 8, data_ptr(ex, st, cur(st)[0], r))
            return Outcomes([(st, None)])
        def rends(first):
            def f(ex, st, a, fn, ins):
                g = cur(st)[0]
                st = st.clone()
                ex.store(st, a[0], 8, data_ptr(ex, st, g, g.len if first else 0))
                return Outcomes([(st, None)])
            return f
        for fn in [x for mo in ex.mods for x in mo.funcs.values()]:
            d = fn.dem
            if d in ('bstr<%s>::rbegin()' % cn, 'bstr<%s>::rend()' % cn):
                ex.contracts[d] = rends('rbegin' in d)
            if 'std::find_if<' in d and 'BasicString<%s>::trim' % cn in d:
                ex.contracts[d] = rev if d.startswith('std::reverse_iterator') else fwd
        for k, s, r in ex.run(ex.find('^vp_trim_%s$' % ty), [p], st):
            ex.oblige(s, k == 'ret', 'trim returns')
            ex.cover(s, 'trimmed')
            g = getstr(ex, s, p)
            out = content(ex, s, g)
            fs = s.ghost['finds']
            if len(fs) != 2 or fs[0][0] == fs[1][0]:
                raise Unsupported('other searches')
            j, m = fresh('j', 64), bv(g.len, 64)
            front = [x for x in fs if not x[0]][0]
            f0 = front[4]
            # the leading whitespace: everything before f0 is whitespace and, unless nothing is left, f0 is not
            for back, a, lo, hi, r_ in fs:
                for i in (j, f0 + j, f0 + m + j, f0, f0 + m):
                    for i in (i, z3.simplify(i - f0)):
                        s.assume(z3.Implies(z3.And(z3.ULE(r_ if back else lo, i), z3.ULT(i, hi if back else r_)), space(bv(a.get(s, i), 8 * w))))
            T_ = lambda i: bv(fa.get(s, i), 8 * w)
            ex.oblige(s, z3.And(z3.ULE(f0, n), z3.ULE(m, n - f0)), 'trim: a part of the text is left')
            ex.oblige(s, z3.Implies(z3.ULT(j, m), bv(out.get(s, j), 8 * w) == T_(f0 + j)), 'trim: the rest is unchanged')
            ex.oblige(s, z3.Implies(z3.ULT(j, f0), space(T_(j))), 'trim: only whitespace is removed in front')
            ex.oblige(s, z3.Implies(z3.ULT(j, n - f0 - m), space(T_(f0 + m + j))), 'trim: only whitespace is removed at the end')
            ex.oblige(s, z3.Implies(m != 0, z3.And(z3.Not(space(T_(f0))), z3.Not(space(T_(f0 + m - 1))))), 'trim: no whitespace is left at the ends')
    return f


class SplitLoop(LoopSpec):
    """Every piece between delimiters has been added, in order."""
    def __init__(self, W):
        LoopSpec.__init__(self)
        self.W, self.key = W, None

    def matches(self, ex, st, f, blk):
        return len(st.cuts) == 0 and 'force'

    def begin(self, ex, st):
        self.new = {'from': fresh('from', 64), 'at': fresh('at', 64), 'cnt': fresh('elements', 64), 'log': ()}

    def havoc_ghost(self, ex, st, key, v):
        if key in self.new:
            return self.new[key]
        return LoopSpec.havoc_ghost(self, ex, st, key, v)

    def inv(self, ex, st, L):
        g, W = st.ghost, self.W
        vs = {k: v for k, v in L.vars(st).items() if isinstance(v, (int, z3.BitVecRef)) and (isinstance(v, int) or v.size() == 64)}
        if self.key is None:
            if ex.dry:
                return []
            z = [k for k, v in vs.items() if isinstance(v, int) and v == 0]
            o = [k for k in vs if k not in z]
            if len(z) != 1 or len(o) != 1:
                raise Unsupported('the loop has %d counters' % len(vs))
            self.key = z[0], o[0]
        start, end = [vs[k] for k in self.key]
        r = [('the piece is the next one', z3.And(bv(start, 64) == g['from'], bv(end, 64) == g['at'])), ('the piece ends at the next delimiter', W.piece(st)),
             ('there are not more elements than asked for', z3.And(z3.ULE(g['cnt'], W.n + 1), z3.Implies(W.count != 0, z3.ULE(g['cnt'], W.count))))]
        if L.head is None:
            st.ghost['head'] = (g['from'], g['at'], g['cnt'])
        elif st.ghost.get('head'):
            f, a, c = st.ghost['head']
            r.append(('the piece is added', W.added(st, f, a, c)))
            r.append(('the next piece begins behind the delimiter', g['from'] == a + 1))
        return r


class Split:
    def __init__(self, t, ty, limited):
        self.ex, st = t.ex, t.state()
        ex = self.ex
        self.cn, self.w = CH[ty]
        self.n, self.count = fresh('length', 64), fresh('count', 64) if limited else B(0)
        st.assume(z3.ULT(self.n, 1 << 40))
        self.text = ex.buffer(st, 'input', self.n, self.w, const=True)
        self.fa = st.mem[self.text.obj].regions[0].fields[(0, self.w)]
        self.d = fresh('delimiter', 8 * self.w)
        self.J = fresh('J', 64)
        self.last = ex.new(st, 'last element', 32, 'param')
        st.ghost.update({'from': B(0), 'at': None, 'cnt': B(0), 'log': ()})
        t.watch('length', self.n)
        self.st = st
        vec = re.escape('std::vector<bstr<%s>, std::allocator<bstr<%s> > >::' % (self.cn, self.cn))
        for fn in [x for mo in ex.mods for x in mo.funcs.values()]:
            d = fn.dem
            c = None
            m = re.search(vec + r'(~?\w+)(<.*>)?\(', d)
            if m and d.startswith(('std::vector', 'bstr<')) and m.start() <= len('bstr<char32_t>& '):
                c = {'vector': self.nothing, '~vector': self.nothing, 'size': self.size, 'empty': self.empty, 'back': self.back, 'push_back': self.push, 'emplace_back': self.push}.get(m.group(1))
            elif d == 'sview<%s>::find(%s, unsigned long) const' % (self.cn, self.cn):
                c = self.find
            elif d.startswith('bstr<%s>::operator+=(' % self.cn) or re.search(r' bstr<%s>::operator\+=<' % self.cn, d) or re.search(r'bstr<%s>&? ?bstr<%s>::append' % (self.cn, self.cn), d):
                c = self.append
            if c:
                ex.contracts[d] = c

    def t_(self, st, i):
        return bv(self.fa.get(st, i), 8 * self.w)

    def piece(self, st):
        g = st.ghost
        f, a, J = g['from'], g['at'], self.J
        end = z3.If(a == NPOS, self.n, a)
        return z3.And(z3.ULE(f, self.n), z3.Or(a == NPOS, z3.And(z3.ULE(f, a), z3.ULT(a, self.n), self.t_(st, a) == self.d)),
                      z3.Implies(z3.And(z3.ULE(f, J), z3.ULT(J, end)), self.t_(st, J) != self.d))

    def nothing(self, ex, st, a, fn, ins):
        return Outcomes([(st, None)])

    def size(self, ex, st, a, fn, ins):
        return Outcomes([(st, st.ghost['cnt'])])

    def empty(self, ex, st, a, fn, ins):
        return Outcomes([(st, st.ghost['cnt'] == 0)])

    def back(self, ex, st, a, fn, ins):
        ex.oblige(st, st.ghost['cnt'] != 0, 'there is a last element')
        return Outcomes([(st, self.last)])

    def push(self, ex, st, a, fn, ins):
        g = getstr(ex, st, a[1])
        st = st.clone()
        st.ghost['log'] = st.ghost['log'] + (('push', bv(g.len, 64), content(ex, st, g)),)
        st.ghost['cnt'] = z3.simplify(st.ghost['cnt'] + 1)
        return Outcomes([(st, self.last if 'emplace' in fn.dem else None)])

    def append(self, ex, st, a, fn, ins):
        if not (isinstance(a[0], Ptr) and a[0].obj == self.last.obj):
            return NotImplemented
        st = st.clone()
        if re.search(r'operator\+=\(%s\)' % self.cn, fn.dem):
            st.ghost['log'] = st.ghost['log'] + (('chr', bv(a[1], 8 * self.w)),)
            return Outcomes([(st, a[0])])
        if 'sview<%s> const&)' % self.cn in fn.dem:
            p, n = ex.load(st, a[1].add(8), 8), bv(ex.load(st, a[1], 8), 64)
            q = st.mem[p.obj].regions[0] if isinstance(p, Ptr) else None
            fa = AFnS(8 * self.w, lambda s, j: ex.load(s, p.add(Lin.of(j).mul(self.w)), self.w))
            from flyvc.models import rd_range
            ra, off = rd_range(ex, st, p, n, self.w)
            st.ghost['log'] = st.ghost['log'] + (('str', n, AFnS(8 * self.w, lambda s, j: ra.get(s, Lin.of(j).add(Lin.of(off)).val()))),)
            return Outcomes([(st, a[0])])
        if 'bstr<%s> const&)' % self.cn in fn.dem:
            g = getstr(ex, st, a[1])
            st.ghost['log'] = st.ghost['log'] + (('str', bv(g.len, 64), content(ex, st, g)),)
            return Outcomes([(st, a[0])])
        raise Unsupported(fn.dem)

    def find(self, ex, st, a, fn, ins):
        # (view object, character, position)
        p, n = ex.load(st, a[0].add(8), 8), bv(ex.load(st, a[0], 8), 64)
        if not (isinstance(p, Ptr) and p.obj == self.text.obj and p.off.conc() == 0):
            raise Unsupported('another text is searched')
        ex.oblige(st, z3.And(n == self.n, bv(a[1], 8 * self.w) == self.d), 'the whole input is searched for the delimiter')
        st = st.clone()
        r = fresh('at', 64)
        st.ghost.update({'from': bv(a[2], 64), 'at': r})
        ex.oblige(st, z3.ULE(st.ghost['from'], self.n), 'the search stays in the input')
        st.assume(self.piece(st))
        return Outcomes([(st, r)])

    def added(self, st, f, a, cnt):
        """the piece [f, a) was added to what had cnt elements"""
        log = st.ghost['log']
        end = z3.If(a == NPOS, self.n, a)
        ln = end - f
        k = fresh('k', 64)
        same = lambda e: z3.And(e[1] == ln, z3.Implies(z3.ULT(k, ln), bv(e[2].get(st, k), 8 * self.w) == self.t_(st, f + k)))
        full = z3.And(self.count != 0, cnt == self.count)
        kinds = tuple(x[0] for x in log)
        if kinds == ():
            return ln == 0
        if kinds == ('push',):
            return z3.And(ln != 0, z3.Not(full), same(log[0]))
        if kinds == ('chr', 'str'):
            return z3.And(ln != 0, full, log[0][1] == self.d, same(log[1]))
        return z3.BoolVal(False)


def c_split(ty, limited):
    def f(t):
        """the pieces between delimiters, without the empty ones, at most count of them"""
        W = Split(t, ty, limited)
        ex = W.ex
        ex.loopspecs = [SplitLoop(W)]
        args = [W.text, W.n, W.d] + ([W.count] if limited else [])
        for k, s, r in ex.run(ex.find('^vp_split_%s%s$' % ('' if limited else 'all_', ty)), args, W.st):
            ex.oblige(s, k == 'ret', 'split returns')
            ex.cover(s, 'split')
            g = s.ghost
            h = g.get('head')
            if h is None:
                raise Unsupported('no loop')
            ex.oblige(s, g['at'] == NPOS, 'split: goes on to the last delimiter')
            ex.oblige(s, W.added(s, g['from'], g['at'], h[2]), 'split: the last piece is added')
    return f


def tasks(tier):
    u = ['strutil']
    r = []
    for ty in CH:
        for how in ('chr', 'str', 'remove'):
            r.append(('replace %s %s' % (how, ty), c_replace(ty, how), u))
        r.append(('trim %s' % ty, c_trim(ty), u))
        r.append(('split %s' % ty, c_split(ty, False), u))
        r.append(('split with a limit %s' % ty, c_split(ty, True), u))
    return r
