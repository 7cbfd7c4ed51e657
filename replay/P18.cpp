// Histories of operations on JSON values against a plain tree; serialization against an independent reader.
// FLAGS: -O1 -DSTUB_LOGGER -fsanitize=address,undefined -fno-sanitize-recover=undefined
// SOURCES: fly/parser/json_parser.cpp fly/parser/parser.cpp fly/types/json/json.cpp fly/types/json/json_exception.cpp
#include "jsonref.hpp"
#include "fly/parser/json_parser.hpp"
#include <climits>
using J = fly::Json;
using V = ref::V;

static std::string g_log;
static J *g_root;
static V *g_model;

[[noreturn]] static void bad(std::string const &what) { drv::fail(what + " after:" + g_log); }
static void note(std::string const &s)
{
    g_log += " " + s + ";";
    drv::at_quiet(g_log.size() > 900 ? g_log.substr(g_log.size() - 900) : g_log);
}
static std::string brief(V const &v)
{
    auto s = ref::text(v);
    return s.size() > 80 ? s.substr(0, 80) + "..." : s;
}

static void same(J const &j, V const &v, char const *what)
{
    if (!(ref::tree(j) == v)) bad(std::string(what) + " is " + ref::text(ref::tree(j)) + " instead of " + ref::text(v));
}

static void text_of(J const &j, V const &v)
{
    auto text = j.serialize();
    ref::Reader r(text);
    V x;
    if (!r.document(x)) bad("serialize gives " + drv::show(text) + ", which is not JSON");
    if (!(x == v)) bad("serialize gives " + drv::show(text) + ", which denotes " + ref::text(x) + " instead of " + ref::text(v));
    static fly::parser::JsonParser p(fly::parser::JsonParser::Features::AllFeatures);
    static fly::parser::JsonParser strict;
    auto back = (v.k == V::Arr || v.k == V::Obj) && drv::rnd(2) ? strict.parse_string(text) : p.parse_string(text);
    if (!back) bad("the text " + drv::show(text) + " of the value is refused by the parser");
    same(*back, v, "the value parsed from its text");
    if (!(*back == j) || *back != j || *back < j || j < *back) bad("the value parsed from its text " + drv::show(text) + " is not equal");
}

// The operation raises an error and leaves the value unchanged.
template <typename F>
static void refused(J const &j, F &&f, char const *what)
{
    auto before = ref::tree(j);
    try
    {
        f();
    }
    catch (fly::JsonException const &)
    {
        same(j, before, what);
        return;
    }
    bad(std::string(what) + " is not refused");
}
template <typename F>
static decltype(auto) allowed(F &&f, char const *what)
{
    try
    {
        return f();
    }
    catch (fly::JsonException const &e)
    {
        bad(std::string(what) + " is refused: " + e.what());
    }
}

// A key: the text it is given by, and the string that denotes (or nothing, when it is invalid).
struct Key
{
    std::string text;
    std::string str;
    bool ok;
};
static Key key(V const &m)
{
    Key k;
    switch (drv::rnd(8))
    {
        case 0: k.str = ref::random_string(); break;
        case 1:
        {
            static char const *const B[] = {"\\", "\"", "a\n", "\\u12", "\xff", "\\ud800", "\\x"};
            k.text = B[drv::rnd(7)];
            k.ok = false;
            return k;
        }
        case 2: case 3: case 4:
            if (m.k == V::Obj && !m.o.empty())
            {
                auto it = m.o.begin();
                std::advance(it, drv::rnd(m.o.size()));
                k.str = it->first;
                break;
            }
            [[fallthrough]];
        default: k.str = std::string(1, static_cast<char>('a' + drv::rnd(4)));
    }
    k.ok = true;
    for (char c : k.str)
    {
        char b[8];
        if (static_cast<unsigned char>(c) < 0x20 || c == '"' || c == '\\' || (static_cast<unsigned char>(c) < 0x7f && drv::rnd(20) == 0)) snprintf(b, sizeof b, "\\u%04x", static_cast<unsigned>(c)), k.text += b;
        else k.text += c;
    }
    return k;
}
template <typename F>
static void with_key(Key const &k, F &&f)
{
    // as any string type
    auto as = [&]<typename C>(C) {
        std::vector<std::uint32_t> cps;
        std::basic_string<C> r;
        uni::valid(k.text, &cps);
        for (auto c : cps) r += uni::enc<C>(c);
        return r;
    };
    switch (k.ok ? drv::rnd(7) : drv::rnd(2))
    {
        case 0: case 1: case 2: f(k.text); break;
        case 3: f(as(char16_t())); break;
        case 4: f(as(char32_t())); break;
        case 5: f(as(char8_t())); break;
        default: f(as(wchar_t())); break;
    }
}

static V leaf() { return ref::random_tree(static_cast<int>(drv::rnd(3))); }

static void iterators(J &j, V const &m)
{
    J const &c = j;
    if (m.k != V::Arr && m.k != V::Obj)
    {
        refused(j, [&] { j.begin(); }, "begin of a value without elements");
        refused(j, [&] { c.begin(); }, "begin of a constant value without elements");
        refused(j, [&] { j.end(); }, "end of a value without elements");
        refused(j, [&] { c.crbegin(); }, "crbegin of a value without elements");
        refused(j, [&] { j.front(); }, "front of a value without elements");
        refused(j, [&] { j.back(); }, "back of a value without elements");
        return;
    }
    auto n = static_cast<std::ptrdiff_t>(m.k == V::Arr ? m.a.size() : m.o.size());
    std::vector<V> el;
    std::vector<std::string> ks;
    if (m.k == V::Arr) el = m.a;
    else
        for (auto &[k, x] : m.o) ks.push_back(k), el.push_back(x);
    // forward and backward, constant and not
    std::ptrdiff_t i = 0;
    for (auto it = j.begin(); it != j.end(); ++it, ++i)
    {
        if (i >= n) bad("iteration goes on behind the last element");
        same(*it, el[static_cast<std::size_t>(i)], "an element of the iteration");
        if (!(&it.value() == &*it && it.operator->() == &*it)) bad("value of an iterator is another element");
        if (m.k == V::Obj && it.key() != ks[static_cast<std::size_t>(i)]) bad("a key of the iteration is " + drv::show(it.key()));
    }
    if (i != n) bad("iteration ends early");
    i = n;
    for (auto it = c.crbegin(); it != c.crend(); it++)
    {
        if (--i < 0) bad("reverse iteration goes on before the first element");
        same(*it, el[static_cast<std::size_t>(i)], "an element of the reverse iteration");
    }
    if (i != 0) bad("reverse iteration ends early");
    refused(j, [&] { *j.end(); }, "the value behind the last element");
    refused(j, [&] { auto it = j.end(); ++it; }, "advancing past the end");
    refused(j, [&] { auto it = c.begin(); it--; }, "advancing before the beginning");
    refused(j, [&] { J::const_iterator it; *it; }, "dereferencing an iterator of nothing");
    {
        J other = fly::json_array_type();
        refused(j, [&] { (void)(other.begin() == j.begin()); }, "comparing iterators of different values");
    }
    if (n == 0)
    {
        refused(j, [&] { j.front(); }, "front of an empty value");
        refused(j, [&] { c.back(); }, "back of an empty value");
    }
    else
    {
        if (&j.front() != &*j.begin()) bad("front is not the first element");
        same(c.back(), el.back(), "the last element");
    }
    auto a = static_cast<std::ptrdiff_t>(drv::rnd(static_cast<std::uint64_t>(n) + 1)), b = static_cast<std::ptrdiff_t>(drv::rnd(static_cast<std::uint64_t>(n) + 1));
    static std::ptrdiff_t const far[] = {PTRDIFF_MAX, PTRDIFF_MIN, PTRDIFF_MIN + 1, PTRDIFF_MAX - 1, 1LL << 40, -(1LL << 40)};
    if (m.k == V::Arr)
    {
        auto x = c.begin() + a, y = c.begin() + b;
        if ((x < y) != (a < b) || (x <= y) != (a <= b) || (x > y) != (a > b) || (x >= y) != (a >= b) || (x == y) != (a == b) || (x != y) != (a != b) || x - y != a - b)
            bad("iterators " + std::to_string(a) + " and " + std::to_string(b) + " compare wrongly");
        auto d = static_cast<std::ptrdiff_t>(drv::rnd(static_cast<std::uint64_t>(2 * n + 7))) - n - 3;
        if (drv::rnd(8) == 0) d = far[drv::rnd(6)];
        bool in = d >= 0 ? d <= n - a : d >= -a;
        if (in)
        {
            auto z = x;
            z += d;
            if (z - c.begin() != a + d || (d + x) != z || (z - d) != x) bad("iterator " + std::to_string(a) + " advanced by " + std::to_string(d) + " is elsewhere");
            if (a + d < n) same(x[d], el[static_cast<std::size_t>(a + d)], "an element by offset");
            else refused(j, [&] { x[d]; }, "the element behind the end by offset");
        }
        else
        {
            auto z = x;
            refused(j, [&] { z += d; }, "advancing an iterator out of the array");
            if (z != x) bad("a refused advance moves the iterator");
            refused(j, [&] { x[d]; }, "an offset out of the array");
            refused(j, [&] { (void)(x + d); }, "an iterator out of the array");
            if (d != PTRDIFF_MIN) refused(j, [&] { (void)(x - -d); }, "an iterator out of the array");
        }
        refused(j, [&] { c.begin().key(); }, "the key of an array element");
    }
    else
    {
        refused(j, [&] { (void)(j.begin() < j.end()); }, "ordering iterators of an object");
        refused(j, [&] { (void)(j.begin() + 1); }, "an offset in an object");
        refused(j, [&] { j.begin()[0]; }, "an offset in an object");
        refused(j, [&] { (void)(j.end() - j.begin()); }, "the difference of iterators of an object");
        refused(j, [&] { c.end().key(); }, "the key behind the last member");
    }
}

// One operation on the value j, which stands for m.
static void step(J &j, V &m)
{
    J const &c = j;
    auto who = brief(m);
    auto size = m.k == V::Arr ? m.a.size() : m.k == V::Obj ? m.o.size() : 0;
    switch (drv::rnd(30))
    {
        case 0:
        {
            auto k = key(m);
            note("[key " + drv::show(k.text) + "] of " + who);
            if (!k.ok || (m.k != V::Obj && m.k != V::Null)) return refused(j, [&] { with_key(k, [&](auto s) { j[s]; }); }, "an invalid key");
            auto v = leaf();
            bool set = drv::rnd(2);
            with_key(k, [&](auto s) {
                auto &x = allowed([&]() -> J & { return j[s]; }, "operator[key]");
                m.k = V::Obj;
                auto &y = m.o[k.str];
                same(x, y, "operator[key]");
                if (set) x = ref::make(v), y = v;
            });
            return;
        }
        case 1:
        {
            auto k = key(m);
            note("at key " + drv::show(k.text) + " of " + who);
            bool have = k.ok && m.k == V::Obj && m.o.count(k.str);
            with_key(k, [&](auto s) {
                if (!have)
                {
                    refused(j, [&] { j.at(s); }, "at of an invalid key");
                    refused(j, [&] { c.at(s); }, "constant at of an invalid key");
                    refused(j, [&] { c[s]; }, "constant operator[] of an invalid key");
                    return;
                }
                same(allowed([&]() -> J & { return j.at(s); }, "at"), m.o[k.str], "at of a key");
                same(allowed([&]() -> J const & { return c[s]; }, "operator[]"), m.o[k.str], "constant operator[key]");
                if (&j.at(s) != &c.at(s)) bad("at gives different members");
            });
            return;
        }
        case 2:
        {
            auto i = drv::rnd(4) ? drv::rnd(size + 1) : size + drv::rnd(5);
            note("[" + std::to_string(i) + "] of " + who);
            if (m.k != V::Arr && m.k != V::Null) return refused(j, [&] { j[static_cast<std::size_t>(i)]; }, "an index in a value that is no array");
            auto &x = allowed([&]() -> J & { return j[static_cast<std::size_t>(i)]; }, "operator[index]");
            m.k = V::Arr;
            if (i >= m.a.size()) m.a.resize(i + 1);
            same(x, m.a[i], "operator[index]");
            auto v = leaf();
            if (drv::rnd(2)) x = ref::make(v), m.a[i] = v;
            return;
        }
        case 3:
        {
            auto i = static_cast<std::size_t>(drv::rnd(4) ? drv::rnd(size + 1) : drv::rnd());
            note("at " + std::to_string(i) + " of " + who);
            if (m.k != V::Arr || i >= m.a.size())
            {
                refused(j, [&] { j.at(i); }, "at of an invalid index");
                refused(j, [&] { c.at(i); }, "constant at of an invalid index");
                return refused(j, [&] { c[i]; }, "constant operator[] of an invalid index");
            }
            same(allowed([&]() -> J & { return j.at(i); }, "at"), m.a[i], "at of an index");
            same(allowed([&]() -> J const & { return c[i]; }, "operator[]"), m.a[i], "constant operator[index]");
            return;
        }
        case 4: case 5:
        {
            auto k = key(m);
            auto v = leaf();
            note("insert " + drv::show(k.text) + ":" + brief(v) + " into " + who);
            with_key(k, [&](auto s) {
                auto in = [&] {
                    auto x = ref::make(v);
                    return drv::rnd(2) ? j.insert(s, x) : j.insert(s, std::move(x));
                };
                if (!k.ok || m.k != V::Obj) return refused(j, in, "an invalid insertion");
                auto r = allowed(in, "insert");
                bool done = m.o.emplace(k.str, v).second;
                if (r.second != done) bad("insert tells the wrong outcome");
                if (r.first.key() != k.str) bad("insert gives an iterator to " + drv::show(r.first.key()));
                same(*r.first, m.o[k.str], "the inserted member");
            });
            return;
        }
        case 6: case 7:
        {
            auto k = key(m);
            auto v = leaf();
            note("insert_or_assign " + drv::show(k.text) + ":" + brief(v) + " in " + who);
            with_key(k, [&](auto s) {
                auto in = [&] { return j.insert_or_assign(s, ref::make(v)); };
                if (!k.ok || m.k != V::Obj) return refused(j, in, "an invalid insertion");
                auto r = allowed(in, "insert_or_assign");
                bool fresh = m.o.insert_or_assign(k.str, v).second;
                if (r.second != fresh) bad("insert_or_assign tells the wrong outcome");
                if (r.first.key() != k.str) bad("insert_or_assign gives an iterator to " + drv::show(r.first.key()));
                same(*r.first, v, "the assigned member");
            });
            return;
        }
        case 8:
        {
            auto k = key(m);
            auto v = leaf();
            note("emplace " + drv::show(k.text) + ":" + brief(v) + " into " + who);
            with_key(k, [&](auto s) {
                auto in = [&] { return j.emplace(s, ref::make(v)); };
                if (!k.ok || (m.k != V::Obj && m.k != V::Null)) return refused(j, in, "an invalid emplacement");
                auto r = allowed(in, "emplace");
                m.k = V::Obj;
                bool fresh = m.o.emplace(k.str, v).second;
                if (r.second != fresh) bad("emplace tells the wrong outcome");
                if (r.first.key() != k.str) bad("emplace gives an iterator to " + drv::show(r.first.key()));
                same(*r.first, m.o[k.str], "the emplaced member");
            });
            return;
        }
        case 9: case 10: case 11:
        {
            auto v = leaf();
            auto x = ref::make(v);
            auto how = drv::rnd(3);
            note((how == 2 ? "emplace_back " : "push_back ") + brief(v) + " to " + who);
            auto in = [&] { how == 0 ? j.push_back(x) : how == 1 ? j.push_back(std::move(x)) : (void)j.emplace_back(std::move(x)); };
            if (m.k != V::Arr && m.k != V::Null) return refused(j, in, "an invalid push_back");
            allowed(in, "push_back");
            m.k = V::Arr;
            m.a.push_back(v);
            return;
        }
        case 12:
            note("pop_back of " + who);
            if (m.k != V::Arr || m.a.empty()) return refused(j, [&] { j.pop_back(); }, "an invalid pop_back");
            allowed([&] { j.pop_back(); }, "pop_back");
            m.a.pop_back();
            return;
        case 13:
        {
            auto k = key(m);
            note("erase " + drv::show(k.text) + " of " + who);
            with_key(k, [&](auto s) {
                if (!k.ok || m.k != V::Obj) return refused(j, [&] { j.erase(s); }, "an invalid erasure");
                if (allowed([&] { return j.erase(s); }, "erase") != m.o.erase(k.str)) bad("erase tells the wrong number");
            });
            return;
        }
        case 14:
        {
            auto i = static_cast<std::size_t>(drv::rnd(4) ? drv::rnd(size + 1) : drv::rnd());
            note("erase " + std::to_string(i) + " of " + who);
            if (m.k != V::Arr || i >= m.a.size()) return refused(j, [&] { j.erase(i); }, "an invalid erasure");
            allowed([&] { j.erase(i); }, "erase");
            m.a.erase(m.a.begin() + static_cast<std::ptrdiff_t>(i));
            return;
        }
        case 15: case 16:
        {
            if (m.k != V::Arr && m.k != V::Obj)
            {
                note("erase an iterator of " + who);
                J o = {1, 2};
                return refused(j, [&] { j.erase(o.cbegin()); }, "an invalid erasure");
            }
            auto a = drv::rnd(size + 1), b = a + drv::rnd(size + 1 - a);
            note("erase from " + std::to_string(a) + " to " + std::to_string(b) + " of " + who);
            auto it = j.cbegin(), en = j.cbegin();
            for (auto i = a; i--;) ++it;
            for (auto i = b; i--;) ++en;
            bool one = drv::rnd(2);
            J other = m.k == V::Arr ? J(fly::json_array_type(3)) : J(fly::json_object_type {{"a", 1}});
            if (drv::rnd(6) == 0)
            {
                refused(j, [&] { j.erase(other.cbegin()); }, "erasing an iterator of another value");
                refused(j, [&] { j.erase(other.cbegin(), other.cend()); }, "erasing a range of another value");
                return refused(j, [&] { j.erase(it, other.cend()); }, "erasing a range of two values");
            }
            if (one && a == size) return refused(j, [&] { j.erase(it); }, "erasing the end");
            if (one) b = a + 1;
            auto r = allowed([&] { return one ? j.erase(it) : j.erase(it, en); }, "erase");
            if (m.k == V::Arr)
            {
                m.a.erase(m.a.begin() + static_cast<std::ptrdiff_t>(a), m.a.begin() + static_cast<std::ptrdiff_t>(b));
                if (r - j.begin() != static_cast<std::ptrdiff_t>(a)) bad("erase gives an iterator elsewhere");
            }
            else
            {
                auto x = m.o.begin(), y = m.o.begin();
                std::advance(x, a), std::advance(y, b);
                x = m.o.erase(x, y);
                if (x == m.o.end() ? r != j.end() : r == j.end() || r.key() != x->first) bad("erase gives an iterator elsewhere");
            }
            return;
        }
        case 17: case 18: case 19:
        {
            auto n = drv::rnd(4);
            V v = leaf();
            J x = ref::make(v);
            V range;
            range.k = V::Arr;
            for (auto i = drv::rnd(5); i--;) range.a.push_back(leaf());
            J from = ref::make(range);
            auto how = drv::rnd(6);
            auto a = drv::rnd(size + 1);
            note("insert (" + std::to_string(how) + ") " + (how == 2 ? std::to_string(n) + " times " : "") + (how == 3 ? brief(range) : brief(v)) + " at " + std::to_string(a) + " into " + who);
            if (m.k != V::Arr)
            {
                refused(j, [&] { j.insert(from.cbegin(), x); }, "an invalid insertion");
                refused(j, [&] { j.insert(from.cbegin(), n, x); }, "an invalid insertion");
                return refused(j, [&] { j.insert(from.cbegin(), from.cbegin(), from.cend()); }, "an invalid insertion");
            }
            auto pos = c.begin() + static_cast<std::ptrdiff_t>(a);
            auto mp = m.a.begin() + static_cast<std::ptrdiff_t>(a);
            J::iterator r;
            switch (how)
            {
                case 0: r = allowed([&] { return j.insert(pos, x); }, "insert"); m.a.insert(mp, v); break;
                case 1: r = allowed([&] { return j.insert(pos, std::move(x)); }, "insert"); m.a.insert(mp, v); break;
                case 2: r = allowed([&] { return j.insert(pos, n, x); }, "insert"); m.a.insert(mp, n, v); break;
                case 3:
                {
                    auto p = drv::rnd(range.a.size() + 1), q = p + drv::rnd(range.a.size() + 1 - p);
                    r = allowed([&] { return j.insert(pos, from.cbegin() + static_cast<std::ptrdiff_t>(p), from.cbegin() + static_cast<std::ptrdiff_t>(q)); }, "insert");
                    m.a.insert(mp, range.a.begin() + static_cast<std::ptrdiff_t>(p), range.a.begin() + static_cast<std::ptrdiff_t>(q));
                    break;
                }
                case 4: r = allowed([&] { return j.insert(pos, {x, nullptr, x}); }, "insert"); m.a.insert(mp, {v, V(), v}); break;
                default:
                    refused(j, [&] { j.insert(from.cbegin(), x); }, "inserting at a position of another array");
                    refused(j, [&] { j.insert(pos, c.begin(), c.end()); }, "inserting a range of the array itself");
                    refused(j, [&] { j.insert(pos, from.cbegin(), c.end()); }, "inserting a range of two arrays");
                    {
                        J o = fly::json_object_type {{"a", 1}};
                        refused(j, [&] { j.insert(pos, o.cbegin(), o.cend()); }, "inserting a range of an object");
                        refused(j, [&] { j.insert(o.cbegin(), o.cend()); }, "inserting members");
                    }
                    return;
            }
            if (r - j.begin() != static_cast<std::ptrdiff_t>(a)) bad("insert gives an iterator elsewhere");
            return;
        }
        case 20:
        {
            V o;
            o.k = V::Obj;
            for (auto i = drv::rnd(5); i--;) o.o[std::string(1, static_cast<char>('a' + drv::rnd(6)))] = leaf();
            J from = ref::make(o);
            note("insert the members of " + brief(o) + " into " + who);
            if (m.k != V::Obj) return refused(j, [&] { j.insert(from.cbegin(), from.cend()); }, "an invalid insertion");
            auto p = drv::rnd(o.o.size() + 1);
            auto it = from.cbegin();
            auto mo = o.o.begin();
            for (auto i = p; i--;) ++it, ++mo;
            allowed([&] { j.insert(from.cbegin(), it); }, "insert");
            m.o.insert(o.o.begin(), mo);
            same(from, o, "the source of an insertion");
            return;
        }
        case 21: case 22:
        {
            V o = drv::rnd(6) ? V() : leaf();
            if (o.k == V::Null && drv::rnd(8))
            {
                o.k = V::Obj;
                for (auto i = drv::rnd(5); i--;) o.o[std::string(1, static_cast<char>('a' + drv::rnd(6)))] = leaf();
            }
            J other = ref::make(o);
            auto how = drv::rnd(4);
            note("merge (" + std::to_string(how) + ") " + brief(o) + " into " + who);
            if (o.k != V::Obj || (m.k != V::Obj && m.k != V::Null))
            {
                refused(j, [&] { j.merge(other); }, "an invalid merge");
                same(other, o, "the source of a refused merge");
                return refused(j, [&] { j.merge(std::move(other)); }, "an invalid merge");
            }
            m.k = V::Obj;
            if (how == 0)
            {
                allowed([&] { j.merge(other); }, "merge");
                m.o.merge(o.o);
                same(other, o, "what is left of the source of a merge");
            }
            else if (how == 1)
            {
                allowed([&] { j.merge(std::move(other)); }, "merge");
                m.o.merge(o.o);
            }
            else
            {
                // keys are JSON text: only plain ones here
                std::map<std::string, J> src;
                for (auto &[k, x] : o.o)
                    if (k.find_first_of("\"\\") == k.npos && std::none_of(k.begin(), k.end(), [](char ch) { return static_cast<unsigned char>(ch) < 0x20; })) src.emplace(k, ref::make(x));
                V left;
                left.k = V::Obj;
                for (auto &[k, x] : src)
                    if (!m.o.emplace(k, o.o[k]).second) left.o.emplace(k, o.o[k]);
                if (how == 2)
                {
                    allowed([&] { j.merge(src); }, "merge");
                    V got;
                    got.k = V::Obj;
                    for (auto &[k, x] : src) got.o.emplace(k, ref::tree(x));
                    if (!(got == left)) bad("what is left of a map that was merged is " + ref::text(got));
                }
                else allowed([&] { j.merge(std::move(src)); }, "merge");
            }
            return;
        }
        case 23:
        {
            auto k = key(m);
            note("find " + drv::show(k.text) + " in " + who);
            with_key(k, [&](auto s) {
                if (!k.ok || m.k != V::Obj)
                {
                    refused(j, [&] { j.find(s); }, "an invalid find");
                    refused(j, [&] { c.find(s); }, "an invalid find");
                    refused(j, [&] { c.count(s); }, "an invalid count");
                    return refused(j, [&] { (void)c.contains(s); }, "an invalid contains");
                }
                bool have = m.o.count(k.str);
                auto it = allowed([&] { return j.find(s); }, "find");
                auto ic = allowed([&] { return c.find(s); }, "find");
                if ((it != j.end()) != have || (ic != c.end()) != have) bad("find tells the wrong outcome");
                if (have && (it.key() != k.str || ic.key() != k.str || &*it != &j.at(s))) bad("find gives another member");
                if (c.count(s) != have || c.contains(s) != have) bad("count or contains tell the wrong outcome");
            });
            return;
        }
        case 24:
        {
            auto v = leaf();
            auto x = ref::make(v);
            note("swap " + brief(v) + " with " + who);
            if (drv::rnd(2))
            {
                j.swap(x);
                same(x, m, "the other value of a swap");
                m = v;
            }
            else if (v.k == V::Arr)
            {
                fly::json_array_type a;
                for (auto &e : v.a) a.push_back(ref::make(e));
                if (m.k != V::Arr) return refused(j, [&] { j.swap(a); }, "an invalid swap");
                allowed([&] { j.swap(a); }, "swap");
                same(J(a), m, "the other value of a swap");
                m = v;
            }
            else if (m.k == V::Arr || m.k == V::Obj)
            {
                std::string s = "x";
                refused(j, [&] { j.swap(s); }, "an invalid swap");
            }
            else if (m.k == V::Str)
            {
                std::string s = "x";
                allowed([&] { j.swap(s); }, "swap");
                if (s != m.s) bad("the other string of a swap is " + drv::show(s));
                m.s = "x";
            }
            return;
        }
        case 25:
            note("clear " + who);
            if (drv::rnd(3) == 0)
            {
                j.clear();
                if (m.k == V::Arr) m.a.clear();
                else if (m.k == V::Obj) m.o.clear();
                else if (m.k == V::Str) m.s.clear();
                else if (m.k == V::Bool) m.b = false;
                else if (m.k == V::Int) m.i = 0;
            }
            else if (m.k == V::Arr)
            {
                auto n = drv::rnd(8);
                j.resize(n);
                m.a.resize(n);
                auto cap = drv::rnd(64);
                j.reserve(cap);
                if (c.capacity() < cap || c.capacity() < c.size()) bad("capacity is too small");
            }
            else if (m.k != V::Str)
            {
                refused(j, [&] { j.resize(3); }, "an invalid resize");
                refused(j, [&] { j.reserve(3); }, "an invalid reserve");
            }
            return;
        case 26:
        {
            auto v = leaf();
            note("assign " + brief(v) + " to " + who);
            switch (drv::rnd(3))
            {
                case 0: j = ref::make(v); break;
                case 1: { J x = ref::make(v); j = x; same(x, v, "the source of an assignment"); break; }
                default: { J x = ref::make(v); J y(x); j = std::move(y); same(x, v, "the source of a copy"); if (!y.is_null()) bad("a moved value is not null"); }
            }
            m = v;
            return;
        }
        case 27:
        {
            // a part of the value itself
            note("copy a part of " + who + " into it");
            if (m.k == V::Arr && !m.a.empty())
            {
                auto i = drv::rnd(m.a.size()), k = drv::rnd(m.a.size());
                auto x = m.a[k];
                switch (drv::rnd(3))
                {
                    case 0: j.push_back(j[static_cast<std::size_t>(k)]); m.a.push_back(x); break;
                    case 1: j.insert(c.begin() + static_cast<std::ptrdiff_t>(i), j[static_cast<std::size_t>(k)]); m.a.insert(m.a.begin() + static_cast<std::ptrdiff_t>(i), x); break;
                    default: j[static_cast<std::size_t>(i)] = j[static_cast<std::size_t>(k)]; m.a[i] = x; break;
                }
            }
            else if (m.k == V::Obj && !m.o.empty())
            {
                auto x = m.o.begin()->second;
                if (drv::rnd(4) == 0) j = J(*j.begin()), m = x;
                else j["zz"] = *j.begin(), m.o["zz"] = m.o.begin()->first == "zz" ? m.o["zz"] : x;
            }
            return;
        }
        default:
        {
            note("look at " + who);
            iterators(j, m);
            if (c.empty() != (m.k == V::Null || ((m.k == V::Arr || m.k == V::Obj) && size == 0) || (m.k == V::Str && m.s.empty()))) bad("empty tells the wrong outcome");
            if (c.size() != (m.k == V::Null ? 0 : m.k == V::Arr || m.k == V::Obj ? size : m.k == V::Str ? m.s.size() : 1)) bad("size is " + std::to_string(c.size()));
            if (c.is_object_like() != (m.k == V::Arr && m.a.size() == 2 && m.a[0].k == V::Str)) bad("is_object_like tells the wrong outcome");
            // conversions to other kinds
            if (m.k != V::Null) refused(j, [&] { (void)static_cast<std::nullptr_t>(c); }, "null from another kind");
            if (m.k != V::Arr) refused(j, [&] { (void)static_cast<fly::json_array_type>(c); }, "an array from another kind");
            else if (!(ref::tree(J(static_cast<fly::json_array_type>(c))) == m)) bad("the array holds other elements");
            if (m.k != V::Obj) refused(j, [&] { (void)static_cast<fly::json_object_type>(c); }, "an object from another kind");
            else
            {
                V got;
                got.k = V::Obj;
                for (auto &[k, x] : static_cast<fly::json_object_type>(c)) got.o.emplace(k, ref::tree(x));
                if (!(got == m)) bad("the object holds other members");
            }
            if (m.k == V::Null || m.k == V::Arr || m.k == V::Obj || m.k == V::Bool) refused(j, [&] { (void)static_cast<std::string>(c); }, "a string from another kind");
            bool truth = m.k == V::Bool ? m.b : m.k == V::Int ? m.i != 0 : m.k == V::Str ? !m.s.empty() : size != 0;
            if (static_cast<bool>(c) != truth) bad("the truth value is wrong");
        }
    }
}

int main(int argc, char **argv)
{
    drv::init(argc, argv);
    drv::guard();
    while (drv::time_left())
    {
        g_log.clear();
        V m = drv::rnd(4) ? ref::random_tree(static_cast<int>(drv::rnd(4))) : V();
        g_log = " a value " + ref::text(m) + ";";
        J j = ref::make(m);
        g_root = &j, g_model = &m;
        same(j, m, "the value");
        auto steps = 1 + drv::rnd(20);
        for (std::uint64_t i = 0; i < steps; ++i)
        {
            // the value, or a part of it
            J *at = &j;
            V *mat = &m;
            while (drv::rnd(3) == 0)
            {
                if (mat->k == V::Arr && !mat->a.empty())
                {
                    auto x = drv::rnd(mat->a.size());
                    at = &(*at)[static_cast<std::size_t>(x)], mat = &mat->a[x];
                }
                else if (mat->k == V::Obj && !mat->o.empty())
                {
                    auto x = drv::rnd(mat->o.size());
                    auto it = at->begin();
                    auto mi = mat->o.begin();
                    while (x--) ++it, ++mi;
                    at = &*it, mat = &mi->second;
                }
                else break;
            }
            step(*at, *mat);
            same(j, m, "the value");
            if (drv::rnd(4) == 0) text_of(j, m);
        }
        text_of(j, m);
        J copy(j), moved(std::move(copy));
        if (!copy.is_null()) bad("a moved value is not null");
        same(moved, m, "a moved copy");
        if (moved != j) bad("a copy is not equal");
    }
    drv::finish(0);
}
