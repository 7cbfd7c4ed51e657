"""P16: comparison of JSON values."""
import z3
from flyvc.val import *

BUDGET = 300
DRIVER_S = 25
B = lambda v, w=64: z3.BitVecVal(v, w)
RANK = {'n': 0, 's': 1, 'o': 2, 'a': 3, 'b': 4, 'i': 5, 'u': 5}


def args_of(t, st, k, name):
    if k == 'n':
        return [], None
    if k == 'b':
        v = fresh(name, 1)
        t.watch(name, v)
        return [v], z3.If(v, B(1, 66), B(0, 66))
    v = fresh(name, 64)
    t.watch(name, v)
    return [v], (z3.SignExt(2, v) if k == 'i' else z3.ZeroExt(2, v))


def c_pair(x, y):
    def f(t):
        """the six comparison operators agree with the order of the values"""
        ex, st = t.ex, t.state()
        a, va = args_of(t, st, x, 'a')
        b, vb = args_of(t, st, y, 'b')
        if RANK[x] != RANK[y]:
            eq, lt = z3.BoolVal(False), z3.BoolVal(RANK[x] < RANK[y])
        elif x == 'n':
            eq, lt = z3.BoolVal(True), z3.BoolVal(False)
        else:
            eq, lt = va == vb, va < vb
        for kind, s, r in ex.run(ex.find('^vp_%s%s$' % (x, y)), a + b, st):
            ex.cover(s, 'compared')
            ex.oblige(s, kind == 'ret', 'the operators return')
            r = bv(r, 32)
            bit = lambda i: z3.Extract(i, i, r) == 1
            for i, nm, want in ((0, '==', eq), (1, '!=', z3.Not(eq)), (2, '<', lt), (3, '<=', z3.Or(lt, eq)), (4, '>', z3.Not(z3.Or(lt, eq))),
                                (5, '>=', z3.Not(lt))):
                ex.oblige(s, bit(i) == want, 'operator%s (%s,%s)' % (nm, x, y))
    return f


def c_all(x, y):
    def f(t):
        """values of any two kinds; the elements of strings, arrays and objects are compared by the (assumed) order of their std type"""
        ex, st = t.ex, t.state()
        size = t.const('vp_json_size')
        js, vals = [], []
        for k, nm in ((x, 'a'), (y, 'b')):
            j = ex.new(st, 'json_' + nm, size, 'param')
            av, v = args_of(t, st, k, nm) if k not in 'soa' else ([], None)
            r = [(kd, s) for kd, s, _ in ex.run(ex.find('^vp_make_%s$' % k), [j] + av, st)]
            ex.oblige(r[0][1], len(r) == 1 and r[0][0] == 'ret', 'construction returns')
            st = r[0][1]
            js.append(j)
            vals.append(v)
        # three-way order of the two values, when they are of the same container type
        o = z3.BitVec('order_ab', 8)
        st.assume(z3.Or(o == 0, o == 1, o == 0xff))
        side = lambda p: 0 if p.obj == js[0].obj else 1 if p.obj == js[1].obj else None

        def eqc(ex, st, a, fn, ins):
            l, r = side(a[0]), side(a[1])
            if None in (l, r):
                raise Unsupported('comparison of other objects')
            return z3.BoolVal(True) if l == r else o == 0

        def cmpc(ex, st, a, fn, ins):
            l, r = side(a[0]), side(a[1])
            if None in (l, r):
                raise Unsupported('comparison of other objects')
            return z3.BitVecVal(0, 8) if l == r else (o if l == 0 else -o)
        for g in ex.find(r'std::operator(==|<=>)<(fly::Json, std::alloc|bstr<char>, fly::Json|char, std::char_traits<char>, std::allocator<char> ?>\(bstr<char> const&, bstr<char> const&)', False):
            ex.contracts[g.dem] = eqc if 'operator==' in g.dem else cmpc
        if RANK[x] != RANK[y]:
            eq, lt = z3.BoolVal(False), z3.BoolVal(RANK[x] < RANK[y])
        elif x == 'n':
            eq, lt = z3.BoolVal(True), z3.BoolVal(False)
        elif x in 'soa':
            eq, lt = o == 0, o == 0xff
        else:
            eq, lt = vals[0] == vals[1], vals[0] < vals[1]
        for kind, s, r in ex.run(ex.find('^vp_cmp$'), js, st):
            ex.cover(s, 'compared')
            ex.oblige(s, kind == 'ret', 'the operators return')
            r = bv(r, 32)
            bit = lambda i: z3.Extract(i, i, r) == 1
            for i, nm, want in ((0, '==', eq), (1, '!=', z3.Not(eq)), (2, '<', lt), (3, '<=', z3.Or(lt, eq)), (4, '>', z3.Not(z3.Or(lt, eq))),
                                (5, '>=', z3.Not(lt))):
                ex.oblige(s, bit(i) == want, 'operator%s (%s,%s)' % (nm, x, y))
    return f


ASSUMPTIONS = ['std::string, std::vector and std::map compare equal elementwise and order lexicographically by their elements (assumed contract of the '
               'standard library; the induction over the depth of a value is on paper: a lexicographic order of ordered elements is an order)']


def tasks(tier):
    r = [('comparison of %s and %s' % (x, y), c_pair(x, y), ['jsoncmp']) for x, y in ('ii', 'iu', 'ui', 'uu', 'bb', 'bi', 'ib', 'bu', 'ub', 'nn', 'ni', 'in')]
    return r + [('values of kind %s and %s' % (x, y), c_all(x, y), ['jsoncmp']) for x in 'nsoabiu' for y in 'nsoabiu']
