"""P18: JSON documents."""
import re
import z3
from flyvc.val import *
from flyvc.execu import LoopSpec, Outcomes, Throw
from flyvc.models import getstr, content, putstr, mk

BUDGET = 300
DRIVER_S = 40
B = lambda v, w=64: z3.BitVecVal(v, w)
KINDS = 'nsoabiu'
INDEX = {'n': 0, 's': 1, 'o': 2, 'a': 3, 'b': 4, 'i': 5, 'u': 6}
NULLID = B(0)       # the value every new element has
MAP = 'std::map<bstr<char>, fly::Json, std::less<bstr<char> >, std::allocator<std::pair<bstr<char> const, fly::Json> > >'
VEC = 'std::vector<fly::Json, std::allocator<fly::Json> >'
LIMIT = 1 << 40
ASSUMPTIONS = [
    'std::vector<Json> and std::map<string, Json> act as a sequence and a map (assumed contracts of the standard library); iterators into the sequence '
    'are positions, and those of the map point to the member of the key or to the end',
    'arrays have fewer than 2^40 elements; requested sizes and indices below 2^40 succeed in allocating memory',
    'building the text of an error has no effect on the value',
    'copying and moving a JSON value carries its content over (operations on values nested in the one under test are opaque here; the native driver '
    'covers them)']
STANDIN = ('conversions, map merging, iteration over objects, initializer lists: native driver, random histories of operations against a plain tree (bounded)')


class Seq:
    """A sequence: its length, the value at each index, and the object its elements lie in."""
    def __init__(self, n, f, base):
        self.n, self.f, self.base = n, f, base


class Doc:
    def __init__(self, t):
        self.t, self.ex = t, t.ex
        ex = t.ex
        self.size = t.const('vp_json_size')
        self.itsize = t.const('vp_it_size')
        self.K = fresh('any_index', 64)
        self.st = t.state()
        self.st.ghost.update({'seq': {}, 'id': {}, 'map': {}, 'key': None})
        self.valid = None
        for fn in [x for mo in ex.mods for x in mo.funcs.values()]:
            d = fn.dem
            m = None
            if d.startswith(('fly::JsonException::JsonException(', 'fly::NullJsonException::NullJsonException(', 'fly::BadJsonComparisonException::Bad',
                             'fly::OutOfRangeJsonException::OutOfRangeJsonException(', 'fly::JsonIteratorException::JsonIteratorException(')):
                m = self.nothing
            elif d.startswith('bstr<char> fly::string::format<'):
                m = self.text
            elif 'convert_to_string' in fn.name:
                m = self.convert
            elif d in ('fly::Json::Json(fly::Json const&)', 'fly::Json::Json(fly::Json&&)'):
                m = self.copy
            elif d == 'fly::Json::~Json()':
                m = self.destroy
            elif d == 'fly::Json::swap(fly::Json&)':
                m = self.swapped
            elif VEC + '::' in d:
                h = d[d.index(VEC + '::') + len(VEC) + 2:]
                m = self.vector(d, h)
            elif MAP + '::' in d:
                h = d[d.index(MAP + '::') + len(MAP) + 2:]
                m = self.mapping(d, h)
            if m:
                ex.contracts[d] = m

    # errors and texts
    def nothing(self, ex, st, a, fn, ins):
        return None

    def text(self, ex, st, a, fn, ins):
        n = fresh('message', 64)
        st.assume(z3.ULT(n, 1 << 20))
        putstr(ex, st, a[0], mk(ex, st, ABase('message', 8), n, 1))

    def convert(self, ex, st, a, fn, ins):
        """A key: its string, or an error when it is not a valid one."""
        if self.valid is None:      # the string a value is made from
            putstr(ex, st, a[0], mk(ex, st, ABase('string', 8), 0, 1))
            return None
        ok = st.clone()
        n = fresh('key_length', 64)
        ok.assume(z3.ULT(n, 1 << 40))
        g = mk(ex, ok, ABase('key', 8), n, 1)
        ok.ghost['key'] = g
        putstr(ex, ok, a[0], g)
        ok.assume(self.valid)
        st.assume(z3.Not(self.valid))
        return Outcomes([(ok, None), Throw(st, 'fly::JsonException')])

    # values whose content is opaque
    def at(self, p):
        c = p.off.conc()
        return (p.obj, c) if c is not None else None

    def elem(self, st, p):
        """The sequence and index a pointer into its elements denotes."""
        for k, s in st.ghost['seq'].items():
            if s.base.obj == p.obj:
                d = p.off.sub(s.base.off)
                if not d.divides(self.size):
                    raise Unsupported('pointer into the middle of an element')
                return k, s, bv(d.div(self.size).val(), 64)
        return None

    def valueof(self, st, p):
        k = self.at(p)
        if k in st.ghost['id']:
            return st.ghost['id'][k]
        e = self.elem(st, p)
        if e:
            return e[1].f(e[2])
        return None

    def setvalue(self, st, p, v):
        e = self.elem(st, p)
        if e:
            k, s, i = e
            old = s.f
            self.setseq(st, k, Seq(s.n, lambda j: z3.If(j == i, v, old(j)), s.base))
        else:
            d = dict(st.ghost['id'])
            d[self.at(p)] = v
            st.ghost['id'] = d

    def setseq(self, st, k, s):
        d = dict(st.ghost['seq'])
        d[k] = s
        st.ghost['seq'] = d

    def copy(self, ex, st, a, fn, ins):
        v = self.valueof(st, a[1])
        if v is None:
            return NotImplemented
        self.setvalue(st, a[0], v)
        if fn.dem.endswith('&&)'):
            self.setvalue(st, a[1], NULLID)

    def destroy(self, ex, st, a, fn, ins):
        if self.valueof(st, a[0]) is None:
            return NotImplemented
        d = dict(st.ghost['id'])
        d.pop(self.at(a[0]), None)
        st.ghost['id'] = d

    def swapped(self, ex, st, a, fn, ins):
        x, y = self.valueof(st, a[0]), self.valueof(st, a[1])
        if x is None or y is None:
            return NotImplemented
        self.setvalue(st, a[0], y)
        self.setvalue(st, a[1], x)

    # sequences
    def seq(self, st, p):
        s = st.ghost['seq'].get(self.at(p))
        if s is None:
            raise Unsupported('a vector that was not constructed')
        return s

    def renew(self, st, p, n, f):
        self.setseq(st, self.at(p), Seq(n, f, self.ex.new(st, 'elements', LIMIT * self.size, 'param')))

    def ptr(self, s, i):
        return s.base.add(Lin.of(i).mul(self.size))

    def pos(self, ex, st, s, p, what):
        """The index of an iterator; iterators of another sequence must not get here."""
        ex.oblige(st, p.obj == s.base.obj, what + ' belongs to the sequence')
        if p.obj != s.base.obj:
            raise Unsupported('iterator of another sequence')
        d = p.off.sub(s.base.off)
        if not d.divides(self.size):
            raise Unsupported('iterator into the middle of an element')
        i = bv(d.div(self.size).val(), 64)
        ex.oblige(st, z3.ULE(i, s.n), what + ' lies in the sequence')
        return i

    def vector(self, d, h):
        key = self.at

        def ctor(ex, st, a, fn, ins):
            self.renew(st, a[0], B(0), lambda j: NULLID)

        def copied(ex, st, a, fn, ins):
            s = self.seq(st, a[1])
            self.renew(st, a[0], s.n, s.f)

        def moved(ex, st, a, fn, ins):
            s = self.seq(st, a[1])
            if key(a[0]) == key(a[1]):
                return a[0]
            self.setseq(st, key(a[0]), s)
            self.renew(st, a[1], B(0), lambda j: NULLID)
            return a[0]

        def dtor(ex, st, a, fn, ins):
            d = dict(st.ghost['seq'])
            d.pop(key(a[0]), None)
            st.ghost['seq'] = d

        def swap(ex, st, a, fn, ins):
            x, y = self.seq(st, a[0]), self.seq(st, a[1])
            self.setseq(st, key(a[0]), y)
            self.setseq(st, key(a[1]), x)

        def push(ex, st, a, fn, ins):
            s, v = self.seq(st, a[0]), self.valueof(st, a[1]) if len(a) > 1 else NULLID
            if v is None:
                raise Unsupported('the value that is appended')
            old = s.f
            n = s.n
            if h.startswith('push_back(fly::Json&&)') or h.startswith('emplace_back<fly::Json>'):
                self.setvalue(st, a[1], NULLID)
                old = self.seq(st, a[0]).f
            self.renew(st, a[0], n + 1, lambda j: z3.If(j == n, v, old(j)))
            if h.startswith('emplace_back'):
                return self.ptr(self.seq(st, a[0]), n)

        def pop(ex, st, a, fn, ins):
            s = self.seq(st, a[0])
            ex.oblige(st, s.n != 0, 'pop_back of a sequence with elements')
            self.setseq(st, key(a[0]), Seq(s.n - 1, s.f, s.base))

        def resize(ex, st, a, fn, ins):
            s, m = self.seq(st, a[0]), bv(a[1], 64)
            v = NULLID
            self.renew(st, a[0], m, lambda j: z3.If(z3.ULT(j, s.n), s.f(j), v))

        def clear(ex, st, a, fn, ins):
            s = self.seq(st, a[0])
            self.setseq(st, key(a[0]), Seq(B(0), s.f, s.base))

        def reserve(ex, st, a, fn, ins):
            s = self.seq(st, a[0])
            self.renew(st, a[0], s.n, s.f)

        def size(ex, st, a, fn, ins):
            return self.seq(st, a[0]).n

        def empty(ex, st, a, fn, ins):
            return self.seq(st, a[0]).n == 0

        def capacity(ex, st, a, fn, ins):
            c = fresh('capacity', 64)
            st.assume(z3.UGE(c, self.seq(st, a[0]).n))
            return c

        def begin(ex, st, a, fn, ins):
            return self.seq(st, a[0]).base

        def end(ex, st, a, fn, ins):
            s = self.seq(st, a[0])
            return self.ptr(s, s.n)

        def index(ex, st, a, fn, ins):
            s = self.seq(st, a[0])
            ex.oblige(st, z3.ULT(bv(a[1], 64), s.n), 'operator[] of an element that exists')
            return self.ptr(s, a[1])

        def at(ex, st, a, fn, ins):
            s = self.seq(st, a[0])
            out = []
            for s2, c in ex.branch(st, z3.ULT(bv(a[1], 64), s.n)):
                out.append((s2, self.ptr(s, a[1])) if c else Throw(s2, 'std::out_of_range'))
            return Outcomes(out)

        def back(ex, st, a, fn, ins):
            s = self.seq(st, a[0])
            ex.oblige(st, s.n != 0, 'back of a sequence with elements')
            return self.ptr(s, s.n - 1)

        def erase(ex, st, a, fn, ins):
            s = self.seq(st, a[0])
            i = self.pos(ex, st, s, a[1], 'the iterator to erase at')
            if len(a) > 2:
                k = self.pos(ex, st, s, a[2], 'the end of the range to erase')
                ex.oblige(st, z3.ULE(i, k), 'the range to erase is one')
            else:
                ex.oblige(st, z3.ULT(i, s.n), 'an element to erase')
                k = i + 1
            self.setseq(st, key(a[0]), Seq(s.n - (k - i), lambda j: z3.If(z3.ULT(j, i), s.f(j), s.f(j + (k - i))), s.base))
            return self.ptr(s, i)

        def insert(ex, st, a, fn, ins):
            s = self.seq(st, a[0])
            i = self.pos(ex, st, s, a[1], 'the iterator to insert at')
            if len(a) == 3:
                v = self.valueof(st, a[2])
                if v is None:
                    raise Unsupported('the value that is inserted')
                if '&&' in h:
                    self.setvalue(st, a[2], NULLID)
                c, g = B(1), lambda j: v
            elif 'unsigned long' in h:
                v = self.valueof(st, a[3])
                if v is None:
                    raise Unsupported('the value that is inserted')
                c, g = bv(a[2], 64), lambda j: v
            else:
                k, s2, x = self.elem(st, a[2])
                ex.oblige(st, k != key(a[0]), 'the inserted range is not of the sequence itself')
                y = self.pos(ex, st, s2, a[3], 'the end of the inserted range')
                ex.oblige(st, z3.ULE(x, y), 'the inserted range is one')
                c, g = y - x, lambda j: s2.f(x + j)
            f = self.seq(st, a[0]).f
            self.renew(st, a[0], s.n + c, lambda j: z3.If(z3.ULT(j, i), f(j), z3.If(z3.ULT(j - i, c), g(j - i), f(j - c))))
            return self.ptr(self.seq(st, a[0]), i)
        m = re.match(r'operator\S+?(?=\()|~?\w+', h)
        nm = m.group(0) if m else ''
        arg = h[len(nm):]
        if nm == 'vector':
            return ctor if arg in ('()', '(std::allocator<fly::Json> const&)') else moved if arg == '(%s&&)' % VEC else copied if arg == '(%s const&)' % VEC else None
        return {'~vector': dtor, 'operator=': moved if '&&' in arg else None, 'swap': swap, 'push_back': push, 'emplace_back': push, 'pop_back': pop,
                'resize': resize if arg == '(unsigned long)' else None, 'clear': clear, 'reserve': reserve, 'size': size, 'empty': empty, 'capacity': capacity, 'begin': begin,
                'cbegin': begin, 'end': end, 'cend': end, 'operator[]': index, 'at': at, 'back': back, 'front': None, 'erase': erase, 'insert': insert}.get(nm)

    # maps: what they hold under the key of the operation, and a token for the rest
    def mp(self, st, p):
        s = st.ghost['map'].get(self.at(p))
        if s is None:
            raise Unsupported('a map that was not constructed')
        return s

    def setmap(self, st, k, v):
        d = dict(st.ghost['map'])
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
        st.ghost['map'] = d

    def node(self, st, have=B(0)):
        n = self.ex.new(st, 'member', 64 + self.size, 'param')
        d = dict(st.ghost['id'])
        d[(n.obj, 64)] = have
        st.ghost['id'] = d
        return n

    def iskey(self, ex, st, p):
        g = getstr(ex, st, p)
        k = st.ghost['key']
        if k is None:
            raise Unsupported('a key that was not converted')
        n, i = bv(k.len, 64), self.K
        ex.oblige(st, bv(g.len, 64) == n, 'the map is asked for the string the key denotes (length)')
        if g.data != k.data:
            ex.oblige(st, z3.Implies(z3.ULT(i, n), bv(content(ex, st, g).get(st, i), 8) == bv(content(ex, st, k).get(st, i), 8)),
                      'the map is asked for the string the key denotes')

    def mapping(self, d, h):
        key = self.at
        new = lambda st: {'have': z3.BoolVal(False), 'node': None, 'rest': 'empty', 'n': B(0)}

        def hdr(p):
            return p.add(8)

        def ctor(ex, st, a, fn, ins):
            self.setmap(st, key(a[0]), new(st))

        def copied(ex, st, a, fn, ins):
            self.setmap(st, key(a[0]), dict(self.mp(st, a[1])))

        def moved(ex, st, a, fn, ins):
            if key(a[0]) != key(a[1]):
                self.setmap(st, key(a[0]), self.mp(st, a[1]))
                self.setmap(st, key(a[1]), new(st))
            return a[0]

        def dtor(ex, st, a, fn, ins):
            self.setmap(st, key(a[0]), None)

        def swap(ex, st, a, fn, ins):
            x, y = self.mp(st, a[0]), self.mp(st, a[1])
            self.setmap(st, key(a[0]), y)
            self.setmap(st, key(a[1]), x)

        def look(ex, st, p):
            """States in which the key is there, with its node, and in which it is not."""
            m = self.mp(st, p)
            return [(s, c, m) for s, c in ex.branch(st, m['have'])]

        def find(ex, st, a, fn, ins):
            self.iskey(ex, st, a[1])
            return Outcomes([(s, m['node'] if c else hdr(a[0])) for s, c, m in look(ex, st, a[0])])

        def add(ex, st, p, v):
            """Insert under the key unless it is there: (state, node, inserted)."""
            out = []
            for s, c, m in look(ex, st, p):
                if c:
                    out.append((s, m['node'], False))
                else:
                    n = self.node(s, v)
                    m = dict(m)
                    m.update(have=z3.BoolVal(True), node=n, n=m['n'] + 1)
                    self.setmap(s, key(p), m)
                    out.append((s, n, True))
            return out

        def index(ex, st, a, fn, ins):
            self.iskey(ex, st, a[1])
            return Outcomes([(s, n.add(64)) for s, n, _ in add(ex, st, a[0], NULLID)])

        def emplace(ex, st, a, fn, ins):
            self.iskey(ex, st, a[1])
            v = self.valueof(st, a[2])
            if v is None:
                raise Unsupported('the value that is emplaced')
            out = []
            for s, n, fresh_one in add(ex, st, a[0], v):
                if fresh_one and 'const&' not in h:
                    self.setvalue(s, a[2], NULLID)
                out.append((s, Agg([n, int(fresh_one)])))
            return Outcomes(out)

        def insert(ex, st, a, fn, ins):
            if 'pair<bstr<char>, fly::Json>' not in h:
                return NotImplemented
            self.iskey(ex, st, a[1])
            v = self.valueof(st, a[1].add(32 if self.size % 16 else 32))
            if v is None:
                raise Unsupported('the value that is inserted')
            return Outcomes([(s, Agg([n, int(f)])) for s, n, f in add(ex, st, a[0], v)])

        def insert_range(ex, st, a, fn, ins):
            m = dict(self.mp(st, a[0]))
            m['rest'] = ('insert', m['rest'], a[1].obj, str(a[1].off), a[2].obj, str(a[2].off))
            self.setmap(st, key(a[0]), m)

        def erase(ex, st, a, fn, ins):
            if 'bstr<char> const&)' not in h:
                return NotImplemented
            self.iskey(ex, st, a[1])
            out = []
            for s, c, m in look(ex, st, a[0]):
                if c:
                    m = dict(m)
                    m.update(have=z3.BoolVal(False), n=m['n'] - 1)
                    self.setmap(s, key(a[0]), m)
                out.append((s, int(c)))
            return Outcomes(out)

        def erase_at(ex, st, a, fn, ins):
            m = dict(self.mp(st, a[0]))
            m['rest'] = ('erase', m['rest']) + tuple((p.obj, str(p.off)) for p in a[1:])
            self.setmap(st, key(a[0]), m)
            return self.after

        def count(ex, st, a, fn, ins):
            self.iskey(ex, st, a[1])
            m = self.mp(st, a[0])
            return z3.If(m['have'], B(1), B(0)) if nm == 'count' else m['have']

        def merge(ex, st, a, fn, ins):
            x, y = dict(self.mp(st, a[0])), dict(self.mp(st, a[1]))
            x['rest'], y['rest'] = ('merged', x['rest'], y['rest']), ('left', x['rest'], y['rest'])
            x['n'], y['n'] = fresh('merged_size', 64), fresh('left_size', 64)
            self.setmap(st, key(a[0]), x)
            self.setmap(st, key(a[1]), y)

        def size(ex, st, a, fn, ins):
            return self.mp(st, a[0])['n']

        def empty(ex, st, a, fn, ins):
            return self.mp(st, a[0])['n'] == 0

        def clear(ex, st, a, fn, ins):
            self.setmap(st, key(a[0]), new(st))

        def begin(ex, st, a, fn, ins):
            m = self.mp(st, a[0])
            f = m.get('first')
            if f is None:
                f = m['first'] = self.ex.new(st, 'first member', 64 + self.size, 'param')
            return Outcomes([(s, hdr(a[0]) if c else f) for s, c in ex.branch(st, m['n'] == 0)])

        def end(ex, st, a, fn, ins):
            return hdr(a[0])
        m = re.match(r'operator\S+?(?=\()|~?\w+', h)
        nm = m.group(0) if m else ''
        arg = h[len(nm):]
        if nm == 'map':
            return ctor if arg == '()' else moved if arg == '(%s&&)' % MAP else copied if arg == '(%s const&)' % MAP else None
        return {'~map': dtor, 'operator=': moved if '&&' in arg else None, 'swap': swap, 'find': find, 'operator[]': index, 'emplace': emplace,
                'insert': insert_range if 'Rb_tree_const_iterator' in arg else insert, 'erase': erase_at if 'Rb_tree' in arg else erase, 'count': count, 'contains': count, 'merge': merge,
                'size': size, 'empty': empty, 'clear': clear, 'begin': begin, 'cbegin': begin, 'end': end, 'cend': end}.get(nm)

    # the value under test
    def one(self, fn, args, st):
        r = self.ex.run(self.ex.find(fn), args, st)
        if len(r) != 1 or r[0][0] != 'ret':
            raise Unsupported('%s gave %d outcomes' % (fn, len(r)))
        return r[0][1], r[0][2]

    def make(self, st, kind, name):
        """A JSON value of a kind with arbitrary content."""
        ex = self.ex
        j = ex.new(st, name, self.size, 'param')
        args = []
        if kind in 'iub':
            v = fresh(name, 1 if kind == 'b' else 64)
            args.append(v)
        st, _ = self.one('^vp_make_%s$' % kind, [j] + args, st)
        if kind == 'a':
            st, p = self.one(r'^vp_arr$', [j], st)
            n = fresh(name + '_size', 64)
            self.t.watch(name + '_size', n)
            st.assume(z3.ULT(n, LIMIT))
            F = z3.Function(name + '_elements%d' % fresh_id(), z3.BitVecSort(64), z3.BitVecSort(64))
            self.renew(st, p, n, lambda i: F(i))
        elif kind == 'o':
            st, p = self.one(r'^vp_obj$', [j], st)
            have, n = fresh(name + '_has_the_key', 1), fresh(name + '_size', 64)
            self.t.watch(name + '_has_the_key', have)
            st.assume(z3.ULT(n, LIMIT), z3.Implies(have, n != 0))
            self.setmap(st, self.at(p), {'have': have, 'node': self.node(st, fresh(name + '_member', 64)), 'rest': name, 'n': n})
        elif kind == 's':
            st, p = self.one(r'^vp_str$', [j], st)
            n = fresh(name + '_length', 64)
            st.assume(z3.ULT(n, LIMIT))
            putstr(ex, st, p, mk(ex, st, ABase(name + '_text', 8), n, 1))
        return st, j

    def make_again(self, st, kind, name):
        v, self.valid = self.valid, None
        try:
            return self.make(st, kind, name)
        finally:
            self.valid = v

    def value(self, st, name):
        """An opaque JSON value."""
        v = self.ex.new(st, name, self.size, 'param')
        i = fresh(name, 64)
        self.setvalue(st, v, i)
        return v, i

    def snap(self, st, j, kind):
        """What is to be compared of a value."""
        s = st.clone()
        s, k = self.one('^vp_kind$', [j], s)
        if not isinstance(k, int):
            raise Unsupported('kind of the value')
        out = {'kind': k}
        if k == INDEX['a']:
            s, p = self.one(r'^vp_arr$', [j], s)
            out['seq'] = self.seq(s, p)
        elif k == INDEX['o']:
            s, p = self.one(r'^vp_obj$', [j], s)
            out['map'] = self.mp(s, p)
            nd = out['map']['node']
            out['member'] = s.ghost['id'][(nd.obj, 64)] if nd is not None else NULLID
        elif k == INDEX['s']:
            s, p = self.one(r'^vp_str$', [j], s)
            out['str'] = getstr(self.ex, s, p)
        elif k:
            out['raw'] = bv(self.ex.load(s, j, 1 if k == INDEX['b'] else 8), 8 if k == INDEX['b'] else 64)
        return out

    def equal(self, st, x, y, what):
        """Obliges that two snapshots are the same."""
        ex = self.ex
        ex.oblige(st, x['kind'] == y['kind'], what + ' (kind)')
        if x['kind'] != y['kind']:
            return
        if 'seq' in x:
            self.sameseq(st, x['seq'], y['seq'].n, y['seq'].f, what)
        elif 'map' in x:
            self.samemap(st, x, y['map']['have'], y['member'], y['map']['n'], y['map']['rest'], what)
        elif 'str' in x:
            ex.oblige(st, bv(x['str'].len, 64) == bv(y['str'].len, 64), what + ' (length)')
            i = self.K
            ex.oblige(st, Imp2(z3.ULT(i, bv(x['str'].len, 64)), bv(content(ex, st, x['str']).get(st, i), 8) == bv(content(ex, st, y['str']).get(st, i), 8)), what + ' (text)')
        elif 'raw' in x:
            ex.oblige(st, x['raw'] == y['raw'], what)

    def sameseq(self, st, s, n, f, what):
        self.ex.oblige(st, s.n == n, what + ' (size)')
        self.ex.oblige(st, z3.Implies(z3.ULT(self.K, n), s.f(self.K) == f(self.K)), what + ' (elements)')

    def samemap(self, st, x, have, member, n, rest, what):
        self.ex.oblige(st, x['map']['have'] == have, what + ' (presence of the key)')
        self.ex.oblige(st, z3.Implies(have, x['member'] == member), what + ' (member)')
        self.ex.oblige(st, x['map']['n'] == n, what + ' (size)')
        self.ex.oblige(st, x['map']['rest'] == rest, what + ' (other members)')


def Imp2(a, b):
    return z3.Implies(a, b)


class Case:
    """One operation on one kind of value."""
    def __init__(self, t, kind):
        self.d = d = Doc(t)
        self.t, self.ex, self.kind = t, t.ex, kind
        self.st, self.j = d.make(d.st, kind, 'value')
        self.key = None

    def go(self, fn, args, allowed, what):
        """Runs the operation: refused, leaving the value as it was, exactly unless allowed; gives the outcomes that return."""
        ex, d = self.ex, self.d
        before = d.snap(self.st, self.j, self.kind)
        self.before = before
        out = []
        for kind, s, r in ex.run(ex.find(fn), [self.j] + args, self.st):
            ex.cover(s, '%s: %s' % (what, kind))
            if kind == 'ret':
                ex.oblige(s, allowed, what + ': an invalid access is refused')
                if ex.sol.feasible(s.pc, z3.BoolVal(True)):
                    out.append((s, r, d.snap(s, self.j, self.kind)))
            else:
                ex.oblige(s, kind == 'throw', what + ': ends')
                ex.oblige(s, z3.Not(allowed), what + ': a valid access is not refused')
                d.equal(s, d.snap(s, self.j, self.kind), before, what + ': a refused access leaves the value unchanged')
        return out

    def index(self):
        i = fresh('index', 64)
        self.t.watch('index', i)
        return i

    def keyarg(self):
        d = self.d
        d.valid = fresh('the_key_is_valid', 1)
        self.t.watch('the_key_is_valid', d.valid)
        k = self.ex.new(self.st, 'key', 32, 'param')
        n = fresh('text_length', 64)
        self.st.assume(z3.ULT(n, LIMIT))
        putstr(self.ex, self.st, k, mk(self.ex, self.st, ABase('text of the key', 8), n, 1))
        return k


def elem_is(c, s, r, after, i, what):
    """The reference denotes element i of the value."""
    sq = after.get('seq')
    ok = sq is not None and isinstance(r, Ptr) and r.obj == sq.base.obj
    c.ex.oblige(s, ok, what + ': the reference is to an element')
    if ok:
        c.ex.oblige(s, bv(r.off.sub(sq.base.off).val(), 64) == i * c.d.size, what + ': the reference is to the element of the index')


def c_at(fn, kind, const):
    def f(t):
        """access by index"""
        c = Case(t, kind)
        i = c.index()
        allowed = z3.ULT(i, c.d.snap(c.st, c.j, kind)['seq'].n) if kind == 'a' else z3.BoolVal(False)
        for s, r, a in c.go('^%s$' % fn, [i], allowed, fn[3:]):
            c.d.equal(s, a, c.before, 'access leaves the value unchanged')
            elem_is(c, s, r, a, i, fn[3:])
    return f


def c_idx(kind):
    def f(t):
        """operator[](index)"""
        c = Case(t, kind)
        i = c.index()
        c.st.assume(z3.ULT(i, LIMIT - 1))
        for s, r, a in c.go('^vp_idx$', [i], z3.BoolVal(kind in 'an'), 'operator[index]'):
            n = c.before['seq'].n if kind == 'a' else B(0)
            old = c.before['seq'].f if kind == 'a' else lambda j: NULLID
            c.ex.oblige(s, a['kind'] == INDEX['a'], 'operator[index]: the value is an array')
            if 'seq' in a:
                c.d.sameseq(s, a['seq'], z3.If(z3.ULT(i, n), n, i + 1), lambda j: z3.If(z3.ULT(j, n), old(j), NULLID), 'operator[index]: the array grows by null values')
                elem_is(c, s, r, a, i, 'operator[index]')
    return f


def seqop(fn, ok, mk_args, want, size=lambda n: z3.BoolVal(True)):
    """An operation of arrays: allowed for the kinds in ok (and sizes), with the effect want(n, f, args) -> (n', f')."""
    def g(kind):
        def f(t):
            """an operation of arrays"""
            c = Case(t, kind)
            args, info = mk_args(c)
            n = c.d.snap(c.st, c.j, kind)['seq'].n if kind == 'a' else B(0)
            allowed = z3.And(z3.BoolVal(kind in ok), size(n, *info))
            for s, r, a in c.go('^%s$' % fn, args, allowed, fn[3:]):
                old = c.before['seq'].f if kind == 'a' else lambda j: NULLID
                c.ex.oblige(s, a['kind'] == INDEX['a'], fn[3:] + ': the value is an array')
                if 'seq' in a:
                    n2, f2 = want(n, old, *info)
                    c.d.sameseq(s, a['seq'], n2, f2, fn[3:])
        return f
    return g


def a_index(c):
    i = c.index()
    return [i], (i,)


def a_small(c):
    i = c.index()
    c.st.assume(z3.ULT(i, LIMIT))
    return [i], (i,)


def a_value(c):
    p, v = c.d.value(c.st, 'other')
    return [p], (v,)


OPS = {
    'vp_erase_i': seqop('vp_erase_i', 'a', a_index, lambda n, f, i: (n - 1, lambda j: z3.If(z3.ULT(j, i), f(j), f(j + 1))), lambda n, i: z3.ULT(i, n)),
    'vp_pop': seqop('vp_pop', 'a', lambda c: ([], ()), lambda n, f: (n - 1, f), lambda n: n != 0),
    'vp_push': seqop('vp_push', 'an', a_value, lambda n, f, v: (n + 1, lambda j: z3.If(j == n, v, f(j))), lambda n, v: z3.BoolVal(True)),
    'vp_pushm': seqop('vp_pushm', 'an', a_value, lambda n, f, v: (n + 1, lambda j: z3.If(j == n, v, f(j))), lambda n, v: z3.BoolVal(True)),
    'vp_resize': seqop('vp_resize', 'a', a_small, lambda n, f, m: (m, lambda j: z3.If(z3.ULT(j, n), f(j), NULLID)), lambda n, m: z3.BoolVal(True)),
    'vp_reserve': seqop('vp_reserve', 'a', a_small, lambda n, f, m: (n, f), lambda n, m: z3.BoolVal(True)),
}


def c_size(kind):
    def f(t):
        """size and empty"""
        c = Case(t, kind)
        b = c.d.snap(c.st, c.j, kind)
        want = B(0) if kind == 'n' else b['seq'].n if kind == 'a' else b['map']['n'] if kind == 'o' else bv(b['str'].len, 64) if kind == 's' else B(1)
        st = c.st
        c.st = st.clone()
        for s, r, a in c.go('^vp_size$', [], z3.BoolVal(True), 'size'):
            c.ex.oblige(s, bv(r, 64) == want, 'size counts the elements')
            c.d.equal(s, a, c.before, 'size leaves the value unchanged')
        c.st = st
        for s, r, a in c.go('^vp_empty$', [], z3.BoolVal(True), 'empty'):
            c.ex.oblige(s, boolv(r) == (want == 0), 'empty tells whether there are elements')
            c.d.equal(s, a, c.before, 'empty leaves the value unchanged')
    return f


def c_clear(kind):
    def f(t):
        """clear"""
        c = Case(t, kind)
        for s, r, a in c.go('^vp_clear$', [], z3.BoolVal(True), 'clear'):
            c.ex.oblige(s, a['kind'] == INDEX[kind], 'clear keeps the kind')
            if 'seq' in a:
                c.ex.oblige(s, a['seq'].n == 0, 'clear removes the elements')
            elif 'map' in a:
                c.ex.oblige(s, z3.And(a['map']['n'] == 0, z3.Not(a['map']['have'])), 'clear removes the members')
                c.ex.oblige(s, a['map']['rest'] == 'empty', 'clear removes every member')
            elif 'str' in a:
                c.ex.oblige(s, bv(a['str'].len, 64) == 0, 'clear empties the string')
            elif 'raw' in a:
                c.ex.oblige(s, a['raw'] == 0, 'clear zeroes the number')
    return f


def c_key(fn, kind, promote, need):
    """An operation by key: what it gives and does."""
    def f(t):
        """access by key"""
        c = Case(t, kind)
        d, ex = c.d, c.ex
        k = c.keyarg()
        args = [k]
        v = None
        if fn in ('vp_kinsert', 'vp_kinsertm', 'vp_kassign', 'vp_kemplace'):
            p, v = d.value(c.st, 'other')
            args.append(p)
        it = None
        if fn in ('vp_kinsert', 'vp_kinsertm', 'vp_kassign', 'vp_kemplace', 'vp_kfind', 'vp_kcfind'):
            it = ex.new(c.st, 'iterator', d.itsize, 'param')
            args.append(it)
        b = d.snap(c.st, c.j, kind)
        have = b['map']['have'] if kind == 'o' else z3.BoolVal(False)
        n = b['map']['n'] if kind == 'o' else B(0)
        member = b['member'] if kind == 'o' else NULLID
        rest = b['map']['rest'] if kind == 'o' else 'empty'
        allowed = z3.And(z3.BoolVal(kind == 'o' or (promote and kind == 'n')), d.valid)
        if need:
            allowed = z3.And(allowed, have)
        what = {'vp_kat': 'at(key)', 'vp_kcat': 'constant at(key)', 'vp_kidx': 'operator[key]', 'vp_kcidx': 'constant operator[key]', 'vp_kerase': 'erase(key)',
                'vp_kcount': 'count', 'vp_kcontains': 'contains', 'vp_kfind': 'find', 'vp_kcfind': 'constant find', 'vp_kinsert': 'insert', 'vp_kinsertm': 'insert of a moved value',
                'vp_kassign': 'insert_or_assign', 'vp_kemplace': 'emplace'}[fn]
        for s, r, a in c.go('^%s$' % fn, args, allowed, what):
            ex.oblige(s, a['kind'] == INDEX['o'], what + ': the value is an object')
            if 'map' not in a:
                continue
            h2, m2, n2 = have, member, n
            if fn == 'vp_kidx':
                h2, m2, n2 = z3.BoolVal(True), z3.If(have, member, NULLID), z3.If(have, n, n + 1)
            elif fn == 'vp_kerase':
                h2, n2 = z3.BoolVal(False), z3.If(have, n - 1, n)
            elif fn in ('vp_kinsert', 'vp_kinsertm', 'vp_kemplace'):
                h2, m2, n2 = z3.BoolVal(True), z3.If(have, member, v), z3.If(have, n, n + 1)
            elif fn == 'vp_kassign':
                h2, m2, n2 = z3.BoolVal(True), v, z3.If(have, n, n + 1)
            d.samemap(s, a, h2, m2, n2, rest, what)
            nd = a['map']['node']
            if fn in ('vp_kat', 'vp_kcat', 'vp_kidx', 'vp_kcidx'):
                ex.oblige(s, isinstance(r, Ptr) and nd is not None and r.obj == nd.obj and r.off.conc() == 64, what + ': the reference is to the member of the key')
            elif fn == 'vp_kerase':
                ex.oblige(s, bv(r, 64) == z3.If(have, B(1), B(0)), what + ': the number of erased members')
            elif fn == 'vp_kcount':
                ex.oblige(s, bv(r, 64) == z3.If(have, B(1), B(0)), what + ': the number of members')
            elif fn == 'vp_kcontains':
                ex.oblige(s, boolv(r) == have, what + ': whether there is a member')
            else:
                if fn not in ('vp_kfind', 'vp_kcfind'):
                    ex.oblige(s, boolv(r) == z3.Not(have), what + ': whether a member was added')
                own = ex.load(s, it, 8)
                ex.oblige(s, isinstance(own, Ptr) and own.obj == c.j.obj and own.off.conc() == 0, what + ': the iterator is of this value')
                at = ex.load(s, it.add(8), 8)
                s2, mp = d.one('^vp_obj$', [c.j], s.clone())
                ishere = isinstance(at, Ptr) and nd is not None and at.obj == nd.obj and at.off.conc() == 0
                isend = isinstance(at, Ptr) and at.obj == mp.obj and at.off.sub(mp.off).conc() == 8
                ex.oblige(s, z3.If(h2, z3.BoolVal(ishere), z3.BoolVal(isend)), what + ': the iterator is at the member, or at the end')
    return f



def place(c, st, j, kind, name, node=None):
    """An iterator of value j at an arbitrary position (arrays), or at the member of the key or the end (objects)."""
    ex, d = c.ex, c.d
    it = ex.new(st, name, d.itsize, 'param')
    st, _ = d.one('^vp_begin$' if kind == 'a' else '^vp_end$', [j, it], st)
    if kind == 'a':
        at = ex.load(st, it.add(8), 8)
        p = fresh(name, 64)
        c.t.watch(name, p)
        s = [q for q in st.ghost['seq'].values() if q.base.obj == at.obj][0]
        st.assume(z3.ULE(p, s.n))
        ex.store(st, it.add(8), 8, d.ptr(s, p))
        return st, it, p
    if node is not None:
        ex.store(st, it.add(8), 8, node)
    return st, it, None


def where(c, s, it, j):
    """(is of value j, position pointer) of an iterator."""
    ex = c.ex
    own, at = ex.load(s, it, 8), ex.load(s, it.add(8), 8)
    return isinstance(own, Ptr) and own.obj == j.obj and own.off.conc() == 0, at


def at_index(c, s, it, sq, i, what):
    mine, at = where(c, s, it, c.j)
    c.ex.oblige(s, mine, what + ': the iterator is of this value')
    ok = isinstance(at, Ptr) and at.obj == sq.base.obj
    c.ex.oblige(s, ok, what + ': the iterator is into the elements')
    if ok:
        c.ex.oblige(s, bv(at.off.sub(sq.base.off).val(), 64) == i * c.d.size, what + ': the iterator is at the position')


def outcomes(c, fn, args, st, allowed, what, its=()):
    """The outcomes of an iterator operation that returns; the others happen exactly when not allowed and change nothing."""
    ex, d = c.ex, c.d
    before = d.snap(st, c.j, c.kind)
    old = [where(c, st, i, c.j)[1] for i in its]
    out = []
    for kind, s, r in ex.run(ex.find(fn), args, st):
        ex.cover(s, '%s: %s' % (what, kind))
        d.equal(s, d.snap(s, c.j, c.kind), before, what + ': the value is unchanged')
        if kind == 'ret':
            ex.oblige(s, allowed, what + ': an invalid use is refused')
            if ex.sol.feasible(s.pc, z3.BoolVal(True)):
                out.append((s, r))
        else:
            ex.oblige(s, kind == 'throw', what + ': ends')
            ex.oblige(s, z3.Not(allowed), what + ': a valid use is not refused')
            for i, o in zip(its, old):
                now = where(c, s, i, c.j)[1]
                same = isinstance(now, Ptr) and isinstance(o, Ptr) and now.obj == o.obj
                ex.oblige(s, same, what + ': a refused use leaves the iterator in its value')
                if same:
                    ex.oblige(s, bv(now.off.val(), 64) == bv(o.off.val(), 64), what + ': a refused use leaves the iterator where it was')
    return out


def c_bounds(kind):
    """begin and end"""
    def f(t):
        for fn in ('vp_begin', 'vp_end', 'vp_cbegin', 'vp_cend'):
            c = Case(t, kind)
            it = c.ex.new(c.st, 'iterator', c.d.itsize, 'param')
            for s, r, a in c.go('^%s$' % fn, [it], z3.BoolVal(kind in 'ao'), fn[3:]):
                c.d.equal(s, a, c.before, fn[3:] + ' leaves the value unchanged')
                if kind == 'a':
                    at_index(c, s, it, a['seq'], B(0) if 'begin' in fn else a['seq'].n, fn[3:])
                elif kind == 'o':
                    mine, at = where(c, s, it, c.j)
                    c.ex.oblige(s, mine, fn[3:] + ': the iterator is of this value')
                    s2, mp = c.d.one('^vp_obj$', [c.j], s.clone())
                    end = isinstance(at, Ptr) and at.obj == mp.obj and at.off.sub(mp.off).conc() == 8
                    first = isinstance(at, Ptr) and a['map'].get('first') is not None and at.obj == a['map']['first'].obj
                    c.ex.oblige(s, z3.BoolVal(end) if 'end' in fn else z3.If(a['map']['n'] == 0, z3.BoolVal(end), z3.BoolVal(first)), fn[3:] + ': the first member, or the end')
    return f


def c_array_iter(t):
    """an iterator at any position of an array, moved, dereferenced and compared"""
    signed = lambda e: z3.SignExt(2, e)
    for fn in ('vp_deref', 'vp_off', 'vp_inc', 'vp_dec', 'vp_add', 'vp_sub', 'vp_key'):
        c = Case(t, 'a')
        st, it, p = place(c, c.st, c.j, 'a', 'position')
        n = c.d.snap(st, c.j, 'a')['seq'].n
        args, delta = [it], None
        if fn in ('vp_off', 'vp_add', 'vp_sub'):
            delta = fresh('offset', 64)
            t.watch('offset', delta)
            if fn == 'vp_sub':
                st.assume(delta != 1 << 63)     # its negation is no offset
            args.append(delta)
        e = B(1) if fn == 'vp_inc' else B((1 << 64) - 1) if fn == 'vp_dec' else B(0) if fn in ('vp_deref', 'vp_key') else -delta if fn == 'vp_sub' else delta
        to = signed(p) + signed(e)
        inside = z3.And(to >= 0, to <= signed(n))
        allowed = z3.BoolVal(False) if fn == 'vp_key' else z3.And(inside, to != signed(n)) if fn in ('vp_deref', 'vp_off') else inside
        what = {'vp_deref': 'operator*', 'vp_off': 'operator[] of an iterator', 'vp_inc': 'operator++', 'vp_dec': 'operator--', 'vp_add': 'operator+=', 'vp_sub': 'operator-=', 'vp_key': 'key of an array element'}[fn]
        for s, r in outcomes(c, '^%s$' % fn, args, st, allowed, what, [it]):
            sq = c.d.snap(s, c.j, 'a')['seq']
            if fn in ('vp_deref', 'vp_off'):
                elem_is(c, s, r, {'seq': sq}, p + e, what)
            elif fn != 'vp_key':
                at_index(c, s, it, sq, p + e, what)


def c_array_pair(t):
    """two iterators of an array, or of two arrays"""
    for other in (False, True):
        for fn in ('vp_diff', 'vp_eq', 'vp_ne', 'vp_lt', 'vp_le', 'vp_gt', 'vp_ge'):
            c = Case(t, 'a')
            st, it, p = place(c, c.st, c.j, 'a', 'position')
            j2 = c.j
            if other:
                st, j2 = c.d.make_again(st, 'a', 'other array')
            st, it2, q = place(c, st, j2, 'a', 'other position')
            what = '%s of iterators%s' % (fn[3:], ' of different values' if other else '')
            for s, r in outcomes(c, '^%s$' % fn, [it, it2], st, z3.BoolVal(not other), what, [it, it2]):
                if fn == 'vp_diff':
                    c.ex.oblige(s, bv(r, 64) == p - q, what)
                else:
                    c.ex.oblige(s, boolv(r) == {'eq': p == q, 'ne': p != q, 'lt': z3.ULT(p, q), 'le': z3.ULE(p, q), 'gt': z3.UGT(p, q), 'ge': z3.UGE(p, q)}[fn[3:]], what)


def c_object_iter(t):
    """an iterator at a member or at the end of an object"""
    for end in (False, True):
        for fn in ('vp_deref', 'vp_key', 'vp_off', 'vp_add', 'vp_sub', 'vp_diff', 'vp_lt', 'vp_ge', 'vp_eq', 'vp_ne'):
            c = Case(t, 'o')
            b = c.d.snap(c.st, c.j, 'o')
            if not end:
                c.st.assume(b['map']['have'])
            st, it, _ = place(c, c.st, c.j, 'o', 'position', None if end else b['map']['node'])
            args = [it]
            if fn in ('vp_diff', 'vp_lt', 'vp_ge', 'vp_eq', 'vp_ne'):
                st, it2, _ = place(c, st, c.j, 'o', 'end')
                args.append(it2)
            elif fn in ('vp_off', 'vp_add', 'vp_sub'):
                args.append(fresh('offset', 64))
                if fn == 'vp_sub':
                    st.assume(args[1] != 1 << 63)
            allowed = z3.BoolVal(fn in ('vp_eq', 'vp_ne') or (fn in ('vp_deref', 'vp_key') and not end))
            what = '%s of an iterator of an object%s' % (fn[3:], ' at the end' if end else '')
            for s, r in outcomes(c, '^%s$' % fn, args, st, allowed, what, [it]):
                if fn in ('vp_deref', 'vp_key'):
                    nd = b['map']['node']
                    c.ex.oblige(s, isinstance(r, Ptr) and nd is not None and r.obj == nd.obj and r.off.conc() == (64 if fn == 'vp_deref' else 32), what + ': the member')
                else:
                    c.ex.oblige(s, boolv(r) == z3.BoolVal(end == (fn == 'vp_eq')), what)


def c_none_iter(t):
    """an iterator of nothing"""
    for fn in ('vp_deref', 'vp_key', 'vp_off', 'vp_add', 'vp_inc', 'vp_dec', 'vp_diff', 'vp_lt', 'vp_eq'):
        c = Case(t, 'a')
        st, it, _ = place(c, c.st, c.j, 'a', 'position')
        nothing = c.ex.new(st, 'iterator of nothing', c.d.itsize, 'param')
        st, _ = c.d.one('^vp_none$', [nothing], st)
        args = [nothing] + ([fresh('offset', 64)] if fn in ('vp_off', 'vp_add') else [it] if fn in ('vp_diff', 'vp_lt', 'vp_eq') else [])
        outcomes(c, '^%s$' % fn, args, st, z3.BoolVal(False), fn[3:] + ' of an iterator of nothing')
        if len(args) == 2 and args[1] is it:
            outcomes(c, '^%s$' % fn, args[::-1], st, z3.BoolVal(False), fn[3:] + ' with an iterator of nothing')


def c_erase_at(kind, foreign):
    def f(t):
        """erase by iterator"""
        for two in (False, True):
            c = Case(t, kind)
            d, ex = c.d, c.ex
            st, j2 = (d.make_again(c.st, kind if kind in 'ao' else 'a', 'other value') if foreign or kind not in 'ao' else (c.st, c.j))
            k2 = kind if kind in 'ao' else 'a'
            nd = None
            if k2 == 'o':
                nd = d.snap(st, j2, 'o')['map']['node']
                st.assume(d.snap(st, j2, 'o')['map']['have'])
            st, a, p = place(c, st, j2, k2, 'position', nd)
            args, q = [a], None
            if two:
                st, b, q = place(c, st, j2, k2, 'end position')
                args.append(b)
                if q is not None:
                    st.assume(z3.ULE(p, q))
            o = ex.new(st, 'result', d.itsize, 'param')
            c.st = st
            n = d.snap(st, c.j, kind)['seq'].n if kind == 'a' else None
            allowed = z3.BoolVal(kind in 'ao' and not foreign)
            if kind == 'a' and not two and not foreign:
                allowed = p != n
            what = 'erase of %s' % ('a range' if two else 'an iterator')
            d.after = ex.new(st, 'the following member', 64, 'param')
            for s, r, x in c.go('^vp_ierase%s$' % ('2' if two else ''), args + [o], allowed, what):
                if kind == 'a':
                    e = q if two else p + 1
                    d.sameseq(s, x['seq'], n - (e - p), lambda k: z3.If(z3.ULT(k, p), c.before['seq'].f(k), c.before['seq'].f(k + (e - p))), what)
                    at_index(c, s, o, x['seq'], p, what)
                else:
                    hdr = ex.load(s, args[1].add(8), 8) if two else None
                    want = ('erase', c.before['map']['rest'], (nd.obj, str(nd.off))) + (((hdr.obj, str(hdr.off)),) if two else ())
                    ex.oblige(s, x['map']['rest'] == want, what + ': the members of the range are erased')
                    mine, at = where(c, s, o, c.j)
                    ex.oblige(s, mine and isinstance(at, Ptr) and at.obj == d.after.obj, what + ': the iterator is behind the erased members')
    return f


def c_insert_at(kind, foreign):
    def f(t):
        """insert by iterator"""
        for fn in ('vp_iinsert', 'vp_iinsertm', 'vp_iinsertn', 'vp_iinsertr'):
            c = Case(t, kind)
            d, ex = c.d, c.ex
            st = c.st
            st, j2 = d.make_again(st, 'a', 'other value')
            st, a, p = place(c, st, j2 if foreign or kind != 'a' else c.j, 'a', 'position')
            n = d.snap(st, c.j, kind)['seq'].n if kind == 'a' else None
            args = [a]
            if fn == 'vp_iinsertr':
                st, x, u = place(c, st, j2, 'a', 'first')
                st, y, w = place(c, st, j2, 'a', 'last')
                st.assume(z3.ULE(u, w))
                args += [x, y]
                src = d.snap(st, j2, 'a')['seq']
                cnt, g = w - u, lambda k: src.f(u + k)
            else:
                v, vi = d.value(st, 'other')
                cnt, g = B(1), lambda k: vi
                if fn == 'vp_iinsertn':
                    cnt = fresh('count', 64)
                    st.assume(z3.ULT(cnt, LIMIT))
                    args.append(cnt)
                args.append(v)
            o = ex.new(st, 'result', d.itsize, 'param')
            c.st = st
            what = {'vp_iinsert': 'insert of a value', 'vp_iinsertm': 'insert of a moved value', 'vp_iinsertn': 'insert of copies', 'vp_iinsertr': 'insert of a range'}[fn]
            for s, r, x in c.go('^%s$' % fn, args + [o], z3.BoolVal(kind == 'a' and not foreign), what):
                f0 = c.before['seq'].f
                d.sameseq(s, x['seq'], n + cnt, lambda k: z3.If(z3.ULT(k, p), f0(k), z3.If(z3.ULT(k - p, cnt), g(k - p), f0(k - cnt))), what)
                at_index(c, s, o, x['seq'], p, what)
                if fn == 'vp_iinsertr':
                    d.sameseq(s, d.snap(s, j2, 'a')['seq'], src.n, src.f, what + ': the source is unchanged')
    return f


def c_insert_bad(t):
    """ranges that may not be inserted: of two values, of the array itself, of an object, of nothing"""
    for how in ('self', 'two', 'object', 'none'):
        c = Case(t, 'a')
        d, ex = c.d, c.ex
        st, a, p = place(c, c.st, c.j, 'a', 'position')
        st, j2 = d.make_again(st, 'o' if how == 'object' else 'a', 'other value')
        st, j3 = d.make_again(st, 'a', 'third value')
        if how == 'none':
            x = ex.new(st, 'nothing', d.itsize, 'param')
            st, _ = d.one('^vp_none$', [x], st)
            y = x
        else:
            src = c.j if how == 'self' else j2
            st, x, _ = place(c, st, src, 'o' if how == 'object' else 'a', 'first')
            st, y, _ = place(c, st, j3 if how == 'two' else src, 'o' if how == 'object' else 'a', 'last')
        o = ex.new(st, 'result', d.itsize, 'param')
        c.st = st
        c.go('^vp_iinsertr$', [a, x, y, o], z3.BoolVal(False), 'insert of a range (%s)' % how)


def c_insert_members(t):
    """insertion of a range of members"""
    for kind in 'onai':
        for how in ('good', 'two', 'array', 'none'):
            c = Case(t, kind)
            d, ex = c.d, c.ex
            k2 = 'a' if how == 'array' else 'o'
            st, j2 = d.make_again(c.st, k2, 'other value')
            st, j3 = d.make_again(st, k2, 'third value')
            if how == 'none':
                x = y = ex.new(st, 'nothing', d.itsize, 'param')
                st, _ = d.one('^vp_none$', [x], st)
            else:
                nd = d.snap(st, j2, 'o')['map']['node'] if k2 == 'o' else None
                if nd is not None:
                    st.assume(d.snap(st, j2, 'o')['map']['have'])
                st, x, _ = place(c, st, j2, k2, 'first', nd)
                st, y, _ = place(c, st, j3 if how == 'two' else j2, k2, 'last')
            c.st = st
            ok = kind == 'o' and how == 'good'
            for s, r, z in c.go('^vp_oinsert$', [x, y], z3.BoolVal(ok), 'insert of members'):
                u, w = ex.load(s, x.add(8), 8), ex.load(s, y.add(8), 8)
                ex.oblige(s, z['map']['rest'] == ('insert', c.before['map']['rest'], u.obj, str(u.off), w.obj, str(w.off)), 'the members of the range are inserted')


def c_swap(kind):
    def f(t):
        """swap with a value of any kind"""
        for k2 in KINDS:
            c = Case(t, kind)
            d, ex = c.d, c.ex
            st, j2 = d.make_again(c.st, k2, 'other value')
            x, y = d.snap(st, c.j, kind), d.snap(st, j2, k2)
            for kd, s, r in ex.run(ex.find('^vp_swap$'), [c.j, j2], st):
                ex.cover(s, 'swap')
                ex.oblige(s, kd == 'ret', 'swap returns')
                d.equal(s, d.snap(s, c.j, k2), y, 'swap gives the value of the other')
                d.equal(s, d.snap(s, j2, kind), x, 'swap gives the other the value')
    return f


def c_merge(kind):
    def f(t):
        """merge with a value of any kind"""
        for fn in ('vp_merge', 'vp_mergem'):
            for k2 in KINDS:
                c = Case(t, kind)
                d, ex = c.d, c.ex
                st, j2 = d.make_again(c.st, k2, 'other value')
                c.st = st
                y = d.snap(st, j2, k2)
                before = d.snap(st, c.j, kind)
                allowed = kind in 'on' and k2 == 'o'
                rest = before['map']['rest'] if kind == 'o' else 'empty'
                for kd, s, r in ex.run(ex.find('^%s$' % fn), [c.j, j2], st):
                    ex.cover(s, 'merge')
                    if not allowed:
                        ex.oblige(s, kd == 'throw', 'merge: an invalid merge is refused')
                        d.equal(s, d.snap(s, c.j, kind), before, 'merge: a refused merge leaves the value unchanged')
                        d.equal(s, d.snap(s, j2, k2), y, 'merge: a refused merge leaves the other value unchanged')
                        continue
                    ex.oblige(s, kd == 'ret', 'merge: a valid merge is not refused')
                    a = d.snap(s, c.j, 'o')
                    ex.oblige(s, a['kind'] == INDEX['o'], 'merge: the value is an object')
                    if 'map' in a:
                        ex.oblige(s, a['map']['rest'] == ('merged', rest, y['map']['rest']), 'merge: the members of both')
                    b = d.snap(s, j2, 'o')
                    if fn == 'vp_merge':
                        ex.oblige(s, 'map' in b and b['map']['rest'] == ('left', rest, y['map']['rest']), 'merge: the other value keeps what was there already')
    return f


OPEN, KEYED, COLON, COMMA, AFTER, DONE, START, WRONG = range(8)


class Writing:
    """The text that is written, as what it is made of: brackets, keys, values, separators."""
    def __init__(self, c, n, base, stride, obj):
        self.c, self.ex, self.n, self.base, self.stride, self.obj = c, c.ex, n, base, stride, obj
        st = c.st
        self.a = self.ex.new(st, 'what was written', 16, 'param')
        self.put(st, B(START, 8), B(0))
        self.out = None
        st.ghost['tokens'] = {}
        ct = self.ex.contracts
        for fn in [x for mo in self.ex.mods for x in mo.funcs.values()]:
            d = fn.dem
            if d == 'fly::Json::serialize() const':
                ct[d] = self.nested
            elif re.match(r'fly::Json::serialize\(\) const::\$_\d+::operator\(\)\(bstr<char> const&\) const$', d):
                ct[d] = self.string
            elif re.match(r'bstr<char>::(operator\+=|append|push_back)\(', d):
                ct[d] = self.append
            elif d == 'std::_Rb_tree_const_iterator<std::pair<bstr<char> const, fly::Json> >::operator++()' and obj:
                ct[d] = self.advance

    def get(self, st):
        return bv(self.ex.load(st, self.a, 8), 64), bv(self.ex.load(st, self.a.add(8), 8), 64)

    def put(self, st, ph, n):
        self.ex.store(st, self.a, 8, z3.ZeroExt(56, ph) if ph.size() == 8 else ph)
        self.ex.store(st, self.a.add(8), 8, n)

    def index(self, p, at):
        if self.ex.dry and not (isinstance(p, Ptr) and p.obj == self.base.obj and p.off.sub(self.base.off).add(-at & ((1 << 64) - 1)).divides(self.stride)):
            return fresh('some_member', 64)
        if not isinstance(p, Ptr) or p.obj != self.base.obj:
            return None
        d = p.off.sub(self.base.off).add(-at & ((1 << 64) - 1))
        return bv(d.div(self.stride).val(), 64) if d.divides(self.stride) else None

    def need(self, st, ok, what):
        self.ex.oblige(st, ok, what)

    def key(self, st, i):
        ph, n = self.get(st)
        self.need(st, z3.And(z3.Or(ph == OPEN, ph == COMMA), i == n, z3.ULT(i, self.n)), 'a key follows the bracket or a comma, and is that of the next member')
        self.put(st, B(KEYED), n)

    def member(self, st, i):
        ph, n = self.get(st)
        self.need(st, z3.And(ph == COLON if self.obj else z3.Or(ph == OPEN, ph == COMMA), i == n, z3.ULT(i, self.n)),
                  'a value follows %s, and is the next one' % ('its colon' if self.obj else 'the bracket or a comma'))
        self.put(st, B(AFTER), n + 1)

    def char(self, st, ch):
        ph, n = self.get(st)
        l, r = '{}' if self.obj else '[]'
        ch = chr(ch)
        if ch == l:
            self.need(st, ph == START, 'one opening bracket, first')
            self.put(st, B(OPEN), n)
        elif ch == r:
            self.need(st, z3.Or(z3.And(ph == OPEN, self.n == 0), z3.And(ph == AFTER, n == self.n)), 'the closing bracket follows the last element')
            self.put(st, B(DONE), n)
        elif ch == ',':
            self.need(st, z3.And(ph == AFTER, z3.ULT(n, self.n)), 'a comma follows an element that is not the last')
            self.put(st, B(COMMA), n)
        elif ch == ':' and self.obj:
            self.need(st, ph == KEYED, 'a colon follows a key')
            self.put(st, B(COLON), n)
        elif ch in ' \t\r\n':
            pass
        else:
            self.need(st, False, 'only brackets, keys, separators and values are written')

    def nested(self, ex, st, a, fn, ins):
        i = self.index(a[1], 64 if self.obj else 0)
        if i is None:
            return NotImplemented
        n = fresh('nested_length', 64)
        st.assume(z3.ULT(n, 1 << 40))
        g = mk(ex, st, ABase('nested', 8), n, 1)
        st.ghost['tokens'] = dict(st.ghost['tokens'], **{g.data: i})
        putstr(ex, st, a[0], g)

    def string(self, ex, st, a, fn, ins):
        i = self.index(a[1], 32)
        if i is None:
            raise Unsupported('another string is written')
        self.key(st, i)

    def append(self, ex, st, a, fn, ins):
        g = getstr(ex, st, a[0])
        arg = fn.dem[fn.dem.index('('):]
        if arg == '(char)':
            ch = bv(a[1], 8)
            ch = z3.simplify(ch)
            if not z3.is_bv_value(ch):
                return NotImplemented
            self.char(st, ch.as_long())
        elif arg.startswith(('(bstr<char> const&)', '(bstr<char>&&)')):
            t = st.ghost['tokens'].get(getstr(ex, st, a[1]).data)
            if t is None:
                if not ex.dry:
                    raise Unsupported('another text is written')
                t = fresh('some_member', 64)
            self.member(st, t)
        else:
            return NotImplemented
        return a[0]

    def advance(self, ex, st, a, fn, ins):
        p = ex.load(st, a[0], 8)
        if not isinstance(p, Ptr) or p.obj != self.base.obj:
            raise Unsupported('another iterator')
        ex.oblige(st, z3.ULT(self.index(p, 0), self.n), 'the end is not passed')
        ex.store(st, a[0], 8, p.add(self.stride))
        return a[0]


class WriteLoop(LoopSpec):
    def __init__(self, w):
        LoopSpec.__init__(self)
        self.w = w

    def matches(self, ex, st, f, blk):
        return len(st.cuts) == 0 and 'force'

    def extra_mods(self, ex, st):
        return {(self.w.a.obj, 0, 8), (self.w.a.obj, 8, 8)}

    def candidates(self, ex, st, lvs, L):
        w, r = self.w, []
        for key, sym, width, kind, e in lvs:
            if key == ('cell', w.a.obj, 0):
                r.append(('the separator is written ahead', sym == z3.If(L.k == 0, B(OPEN), z3.If(z3.ULT(L.k, w.n), B(COMMA), B(AFTER)))))
                r.append(('the separator is written later', sym == z3.If(L.k == 0, B(OPEN), B(AFTER))))
            elif key == ('cell', w.a.obj, 8):
                r.append(('elements written', sym == L.k))
        return r

    def inv(self, ex, st, L):
        return [('not behind the end', z3.ULE(bv(L.k, 64), self.w.n))]

    def variant(self, ex, st, L):
        return self.w.n - bv(L.k, 64)


def c_text(kind):
    def f(t):
        """arrays and objects are written as their elements, in order, between brackets and separated"""
        c = Case(t, kind)
        d, ex = c.d, c.ex
        st = c.st
        if kind == 'a':
            sq = d.snap(st, c.j, 'a')['seq']
            w = Writing(c, sq.n, sq.base, d.size, False)
        else:
            n = d.snap(st, c.j, 'o')['map']['n']
            base = ex.new(st, 'members', LIMIT * (64 + d.size), 'param')
            w = Writing(c, n, base, 64 + d.size, True)
            for fn in [x for mo in ex.mods for x in mo.funcs.values()]:
                if fn.dem.startswith(MAP + '::') and re.match(r'c?(begin|end)\(\)', fn.dem[len(MAP) + 2:]):
                    e = 'end' in fn.dem[len(MAP) + 2:]
                    ex.contracts[fn.dem] = lambda ex, st, a, fn, ins, e=e: w.base.add(Lin.of(w.n).mul(w.stride)) if e else w.base
        o = ex.new(st, 'text', 32, 'param')
        ex.loopspecs = [WriteLoop(w)]
        before = d.snap(st, c.j, kind)
        for kd, s, r in ex.run(ex.find('^vp_serialize$'), [c.j, o], st):
            ex.cover(s, 'written')
            ex.oblige(s, kd == 'ret', 'serialize returns')
            ph, n = w.get(s)
            ex.oblige(s, z3.And(ph == DONE, n == w.n), 'every element is written, and the closing bracket is last')
            d.equal(s, d.snap(s, c.j, kind), before, 'serialize leaves the value unchanged')
    return f


def c_words(kind):
    def f(t):
        """null is written as null, booleans and integers by the formatter of their value"""
        c = Case(t, kind)
        d, ex = c.d, c.ex
        st = c.st
        o = ex.new(st, 'text', 32, 'param')
        seen = []

        def fmt(ex, st, a, fn, ins):
            n = fresh('formatted_length', 64)
            st.assume(z3.ULT(n, 1 << 20))
            g = mk(ex, st, ABase('formatted', 8), n, 1)
            ty = re.search(r'format<(.*?)>\(', fn.dem).group(1)
            v = ex.load(st, a[-1], 1 if 'bool' in ty else 8)
            spec = ex.load(st, a[1], 8)
            st.ghost['formatted'] = (ty, v, spec, g)
            putstr(ex, st, a[0], g)
        for fn in [x for mo in ex.mods for x in mo.funcs.values()]:
            if fn.dem.startswith('bstr<char> fly::string::format<'):
                ex.contracts[fn.dem] = fmt
        before = d.snap(st, c.j, kind)
        for kd, s, r in ex.run(ex.find('^vp_serialize$'), [c.j, o], st):
            ex.cover(s, 'written')
            ex.oblige(s, kd == 'ret', 'serialize returns')
            g = getstr(ex, s, o)
            fa = content(ex, s, g)
            if kind == 'n':
                ex.oblige(s, bv(g.len, 64) == 4, 'null has four letters')
                for i, ch in enumerate('null'):
                    ex.oblige(s, bv(fa.get(s, i), 8) == ord(ch), 'letter %d of null' % i)
                continue
            ty, v, spec, h = s.ghost['formatted']
            ex.oblige(s, {'b': 'bool', 'i': 'long', 'u': 'unsigned long'}[kind] == ty.replace(' const', '').replace('&', ''), 'the value is formatted in its own type')
            ex.oblige(s, bv(v, before['raw'].size()) == before['raw'], 'the value is formatted')
            ex.oblige(s, bv(g.len, 64) == bv(h.len, 64), 'nothing but the formatted value is written')
            ex.oblige(s, z3.Implies(z3.ULT(d.K, bv(h.len, 64)), bv(fa.get(s, d.K), 8) == bv(content(ex, s, h).get(s, d.K), 8)), 'the formatted value is written')
            d.equal(s, d.snap(s, c.j, kind), before, 'serialize leaves the value unchanged')
    return f


def group(gen, kinds=KINDS):
    def f(t):
        for k in kinds:
            gen(k)(t)
    f.__doc__ = gen.__doc__
    return f


def tasks(tier):
    u = ['jsondoc']
    r = []
    for fn in ('vp_at', 'vp_cat', 'vp_cidx'):
        r.append(('%s by index' % fn[3:], group(lambda k, fn=fn: c_at(fn, k, fn != 'vp_at')), u))
    r.append(('operator[] by index', group(c_idx), u))
    for fn, g in OPS.items():
        r.append((fn[3:], group(g, [k for k in KINDS if not (k == 's' and fn in ('vp_resize', 'vp_reserve'))]), u))
    r.append(('size and empty', group(c_size), u))
    r.append(('clear', group(c_clear), u))
    for fn, promote, need in (('vp_kat', 0, 1), ('vp_kcat', 0, 1), ('vp_kidx', 1, 0), ('vp_kcidx', 0, 1), ('vp_kerase', 0, 0), ('vp_kcount', 0, 0), ('vp_kcontains', 0, 0),
                              ('vp_kfind', 0, 0), ('vp_kcfind', 0, 0), ('vp_kinsert', 0, 0), ('vp_kinsertm', 0, 0), ('vp_kassign', 0, 0), ('vp_kemplace', 1, 0)):
        r.append(('%s by key' % fn[4:], group(lambda k, a=(fn, promote, need): c_key(a[0], k, a[1], a[2])), u))
    r.append(('begin and end', group(c_bounds), u))
    r += [('iterators of arrays', c_array_iter, u), ('pairs of iterators of arrays', c_array_pair, u), ('iterators of objects', c_object_iter, u), ('iterators of nothing', c_none_iter, u)]
    r.append(('erase by iterator', group(lambda k: c_erase_at(k, False)), u))
    r.append(('erase by iterator of another value', group(lambda k: c_erase_at(k, True), 'ao'), u))
    r.append(('insert by iterator', group(lambda k: c_insert_at(k, False)), u))
    r.append(('insert by iterator of another value', group(lambda k: c_insert_at(k, True), 'a'), u))
    r += [('insert of invalid ranges', c_insert_bad, u), ('insert of members', c_insert_members, u)]
    r.append(('swap', group(c_swap), u))
    r.append(('merge', group(c_merge), u))
    r += [('text of arrays', c_text('a'), u), ('text of objects', c_text('o'), u), ('text of words and integers', group(c_words, 'nbiu'), u)]
    return r
