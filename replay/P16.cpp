// Comparison of JSON values against an independent order on a plain tree.
// FLAGS: -O1 -fsanitize=address,undefined
// SOURCES: fly/types/json/json.cpp fly/types/json/json_exception.cpp
#include "common.hpp"
#include "fly/types/json/json.hpp"
#include <memory>
using J = fly::Json;
struct V
{
    int kind = 0; // 0 null 1 string 2 object 3 array 4 bool 5 integer
    std::string s;
    __int128 n = 0;
    bool u = false; // stored unsigned
    std::vector<V> a;
    std::map<std::string, V> o;
};
static std::string show(V const &v)
{
    switch (v.kind)
    {
        case 0: return "null";
        case 1: return drv::show(v.s);
        case 2: { std::string r = "{"; for (auto const &[k, e] : v.o) r += drv::show(k) + ":" + show(e) + ","; return r + "}"; }
        case 3: { std::string r = "["; for (auto const &e : v.a) r += show(e) + ","; return r + "]"; }
        case 4: return v.n ? "true" : "false";
        default: return (v.u ? "u" : "i") + (v.n < 0 ? std::to_string(static_cast<long long>(v.n)) : std::to_string(static_cast<unsigned long long>(v.n)));
    }
}
static J make(V const &v)
{
    switch (v.kind)
    {
        case 0: return nullptr;
        case 1: return v.s;
        case 2: { fly::json_object_type o; for (auto const &[k, e] : v.o) o.emplace(k, make(e)); return J(std::move(o)); }
        case 3: { fly::json_array_type a; for (auto const &e : v.a) a.push_back(make(e)); return J(std::move(a)); }
        case 4: return v.n != 0;
        default: if (v.u) return static_cast<std::uint64_t>(v.n); return static_cast<std::int64_t>(v.n);
    }
}
static int order(V const &x, V const &y)
{
    if (x.kind != y.kind) return x.kind < y.kind ? -1 : 1;
    switch (x.kind)
    {
        case 0: return 0;
        case 1:
        {
            for (std::size_t i = 0; i < x.s.size() && i < y.s.size(); ++i)
                if (x.s[i] != y.s[i]) return static_cast<unsigned char>(x.s[i]) < static_cast<unsigned char>(y.s[i]) ? -1 : 1;
            return x.s.size() < y.s.size() ? -1 : x.s.size() > y.s.size();
        }
        case 2:
        {
            auto i = x.o.begin(), j = y.o.begin();
            for (; i != x.o.end() && j != y.o.end(); ++i, ++j)
            {
                if (i->first != j->first) return i->first < j->first ? -1 : 1;
                if (int c = order(i->second, j->second)) return c;
            }
            return i != x.o.end() ? 1 : j != y.o.end() ? -1 : 0;
        }
        case 3:
        {
            for (std::size_t i = 0; i < x.a.size() && i < y.a.size(); ++i)
                if (int c = order(x.a[i], y.a[i])) return c;
            return x.a.size() < y.a.size() ? -1 : x.a.size() > y.a.size();
        }
        default: return x.n < y.n ? -1 : x.n > y.n;
    }
}
static __int128 number(bool &u)
{
    static __int128 const edge[] = {0, 1, 2, -1, -2, 9223372036854775807LL, static_cast<__int128>(9223372036854775807LL) + 1, static_cast<__int128>(18446744073709551615ULL), -static_cast<__int128>(9223372036854775807LL) - 1,
        2147483647, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, 1LL << 53, (1LL << 53) + 1, 255, 256, -128, -129};
    __int128 n = drv::rnd(3) ? edge[drv::rnd(21)] : static_cast<__int128>(static_cast<std::int64_t>(drv::rnd() >> drv::rnd(64)));
    u = n > 9223372036854775807LL || (n >= 0 && drv::rnd(2));
    return n;
}
static V value(int depth)
{
    V v;
    v.kind = static_cast<int>(drv::rnd(8));
    if (v.kind > 5) v.kind = 5;
    if (depth == 0 && (v.kind == 2 || v.kind == 3)) v.kind = 5;
    static char const *const S[] = {"", "a", "b", "ab", "A", "\xc3\xa9", "\x7f", "aa", "\xf0\x9f\x8d\x95", "z"};
    switch (v.kind)
    {
        case 1: v.s = S[drv::rnd(10)]; if (drv::rnd(3) == 0) v.s += S[drv::rnd(10)]; break;
        case 2: for (auto n = drv::rnd(4); n--;) v.o[S[drv::rnd(10)]] = value(depth - 1); break;
        case 3: for (auto n = drv::rnd(4); n--;) v.a.push_back(value(depth - 1)); break;
        case 4: v.n = static_cast<int>(drv::rnd(2)); break;
        case 5: v.n = number(v.u); break;
    }
    return v;
}
static V near(V v)
{
    switch (v.kind)
    {
        case 2: if (!v.o.empty() && drv::rnd(2)) { auto i = v.o.begin(); std::advance(i, drv::rnd(v.o.size())); i->second = near(i->second); } else v.o["m"] = value(0); break;
        case 3: if (!v.a.empty() && drv::rnd(3)) { auto &e = v.a[drv::rnd(v.a.size())]; e = near(e); } else v.a.push_back(value(0)); break;
        case 5: if (drv::rnd(2)) { if (v.n >= 0 && v.n <= 9223372036854775807LL) v.u = !v.u; } else if (v.n < 9223372036854775807LL) ++v.n; break;
        default: return value(1);
    }
    return v;
}
static void check(V const &x, V const &y)
{
    drv::at_quiet(show(x) + " and " + show(y));
    J a = make(x), b = make(y);
    int c = order(x, y);
    auto is = [&](char const *op, bool got, bool want) { if (got != want) drv::fail(show(x) + " " + op + " " + show(y) + " is " + (got ? "true" : "false")); };
    is("==", a == b, c == 0);
    is("!=", a != b, c != 0);
    is("<", a < b, c < 0);
    is("<=", a <= b, c <= 0);
    is(">", a > b, c > 0);
    is(">=", a >= b, c >= 0);
}
int main(int argc, char **argv)
{
    drv::init(argc, argv);
    while (drv::time_left())
    {
        V x = value(static_cast<int>(drv::rnd(4))), y = drv::rnd(2) ? near(x) : value(static_cast<int>(drv::rnd(4)));
        check(x, y);
        check(y, x);
        check(x, x);
    }
    drv::finish(0);
}
