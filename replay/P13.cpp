// String utilities against independent definitions of their results.
// FLAGS: -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined
#include "common.hpp"
#include "fly/types/string/string.hpp"
#include <tuple>
#include <type_traits>

template <typename C>
using T = std::basic_string<C>;

template <typename C>
static std::string shown(T<C> const &s)
{
    std::string r = "\"";
    for (auto c : s)
    {
        char b[16];
        auto u = static_cast<std::uint32_t>(static_cast<std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, char, std::conditional_t<sizeof(C) == 2, short, int>>>>(c));
        if (u >= 0x21 && u < 0x7f && u != '"' && u != '\\') snprintf(b, sizeof b, "%c", u);
        else snprintf(b, sizeof b, "\\x{%x}", u);
        r += b;
        if (r.size() > 400) return r + "...";
    }
    return r + "\"";
}

// A view on a buffer of exactly this size.
template <typename C>
struct View
{
    std::unique_ptr<C[]> p;
    std::size_t n;
    explicit View(T<C> const &s) : p(new C[s.size()]), n(s.size()) { std::copy(s.begin(), s.end(), p.get()); }
    std::basic_string_view<C> v() const { return {p.get(), n}; }
};

template <typename C>
static std::string name()
{
    return std::is_same_v<C, char> ? "char" : std::is_same_v<C, wchar_t> ? "wchar_t" : sizeof(C) == 1 ? "char8_t" : sizeof(C) == 2 ? "char16_t" : "char32_t";
}

template <typename C>
static std::vector<T<C>> split(T<C> const &s, C d, std::size_t count)
{
    std::vector<T<C>> pieces(1), r;
    for (auto c : s)
    {
        if (c == d) pieces.emplace_back();
        else pieces.back().push_back(c);
    }
    for (auto &x : pieces)
    {
        if (x.empty()) continue;
        if (count == 0 || r.size() < count) r.push_back(x);
        else
        {
            r.back().push_back(d);
            r.back() += x;
        }
    }
    return r;
}

template <typename C>
static T<C> replace(T<C> const &s, T<C> const &x, T<C> const &y)
{
    if (x.empty()) return s;
    T<C> r;
    for (std::size_t i = 0; i < s.size();)
    {
        bool eq = s.size() - i >= x.size();
        for (std::size_t j = 0; eq && j < x.size(); ++j) eq = s[i + j] == x[j];
        if (eq)
        {
            for (auto c : y) r.push_back(c);
            i += x.size();
        }
        else r.push_back(s[i++]);
    }
    return r;
}

template <typename C>
static bool blank(C c)
{
    return c == ' ' || (c >= 9 && c <= 13);
}

template <typename C>
static T<C> trim(T<C> s)
{
    while (!s.empty() && blank(s.back())) s.pop_back();
    std::size_t i = 0;
    while (i < s.size() && blank(s[i])) ++i;
    return s.substr(i);
}

template <typename C>
static bool match(T<C> const &s, T<C> const &p)
{
    if (p.empty()) return false;
    std::vector<char> a(s.size() + 1, 0), b;
    a[0] = 1;
    for (auto c : p)
    {
        b.assign(s.size() + 1, 0);
        bool any = false;
        for (std::size_t i = 0; i <= s.size(); ++i)
        {
            if (c == '*')
            {
                any = any || a[i];
                b[i] = any;
            }
            else if (i > 0) b[i] = a[i - 1] && s[i - 1] == c;
        }
        a.swap(b);
    }
    return a[s.size()];
}

template <typename C>
static void one_split(T<C> const &s, C d, std::size_t count)
{
    drv::at_quiet("split<" + name<C>() + ">(" + shown<C>(s) + ", " + shown<C>(T<C>(1, d)) + ", " + std::to_string(count) + ")");
    View<C> v(s);
    auto want = split<C>(s, d, count);
    auto got = fly::BasicString<C>::split(v.v(), d, count);
    if (count == 0 && got != fly::BasicString<C>::split(v.v(), d)) drv::fail("split<" + name<C>() + "> differs without a count on " + shown<C>(s));
    if (got != want)
    {
        std::string g;
        for (auto &x : got) g += " " + shown<C>(x);
        drv::fail("split<" + name<C>() + ">(" + shown<C>(s) + ", " + shown<C>(T<C>(1, d)) + ", " + std::to_string(count) + ") gave" + g);
    }
}

template <typename C>
static void one_replace(T<C> const &s, T<C> const &x, T<C> const &y)
{
    drv::at_quiet("replace_all<" + name<C>() + ">(" + shown<C>(s) + ", " + shown<C>(x) + ", " + shown<C>(y) + ")");
    View<C> vx(x), vy(y);
    T<C> g = s;
    fly::BasicString<C>::replace_all(g, vx.v(), vy.v());
    if (g != replace<C>(s, x, y)) drv::fail("replace_all<" + name<C>() + ">(" + shown<C>(s) + ", " + shown<C>(x) + ", " + shown<C>(y) + ") gave " + shown<C>(g));
    g = s;
    fly::BasicString<C>::remove_all(g, vx.v());
    if (g != replace<C>(s, x, T<C>())) drv::fail("remove_all<" + name<C>() + ">(" + shown<C>(s) + ", " + shown<C>(x) + ") gave " + shown<C>(g));
    if (!y.empty())
    {
        g = s;
        fly::BasicString<C>::replace_all(g, vx.v(), y[0]);
        if (g != replace<C>(s, x, T<C>(1, y[0]))) drv::fail("replace_all<" + name<C>() + ">(" + shown<C>(s) + ", " + shown<C>(x) + ", character " + shown<C>(T<C>(1, y[0])) + ") gave " + shown<C>(g));
    }
}

template <typename C>
static void one_trim(T<C> const &s)
{
    drv::at_quiet("trim<" + name<C>() + ">(" + shown<C>(s) + ")");
    T<C> g = s;
    fly::BasicString<C>::trim(g);
    if (g != trim<C>(s)) drv::fail("trim<" + name<C>() + ">(" + shown<C>(s) + ") gave " + shown<C>(g));
}

template <typename C>
static void one_match(T<C> const &s, T<C> const &p)
{
    drv::at_quiet("wildcard_match<" + name<C>() + ">(" + shown<C>(s) + ", " + shown<C>(p) + ")");
    View<C> vs(s), vp(p);
    if (fly::BasicString<C>::wildcard_match(vs.v(), vp.v()) != match<C>(s, p))
        drv::fail("wildcard_match<" + name<C>() + ">(" + shown<C>(s) + ", " + shown<C>(p) + ") gave " + (match<C>(s, p) ? "false" : "true"));
}

template <typename C>
static void one_join(C sep, T<C> const &a, T<C> const &b, T<C> const &c)
{
    drv::at_quiet("join<" + name<C>() + ">(" + shown<C>(T<C>(1, sep)) + ", " + shown<C>(a) + ", " + shown<C>(b) + ", " + shown<C>(c) + ")");
    using S = fly::BasicString<C>;
    T<C> d(1, sep);
    if (S::join(sep, a) != a || S::join(sep, a, b) != a + d + b || S::join(sep, a, b, c) != a + d + b + d + c || S::join(sep, a, std::basic_string_view<C>(b), a, b, c) != a + d + b + d + a + d + b + d + c)
        drv::fail("join<" + name<C>() + ">(" + shown<C>(d) + ", " + shown<C>(a) + ", " + shown<C>(b) + ", " + shown<C>(c) + ") gave " + shown<C>(S::join(sep, a, b, c)));
}

// Every string of at most this length over the alphabet, and the parts share them.
template <typename C, typename F>
static void all(std::vector<C> const &al, std::size_t len, F f)
{
    std::vector<T<C>> cur(1);
    for (std::size_t l = 0;; ++l)
    {
        for (auto &s : cur) f(s);
        if (l == len) break;
        std::vector<T<C>> next;
        for (auto &s : cur)
            for (auto c : al) next.push_back(s + c);
        cur.swap(next);
    }
}

template <typename C>
static void exhaustive(bool full)
{
    std::vector<C> ab = {C('a'), C('b')}, abs = {C('a'), C('b'), C('*')};
    std::uint64_t k = 0;
    std::vector<T<C>> xs, ys, ps;
    all<C>(ab, 3, [&](T<C> const &x) { xs.push_back(x); });
    all<C>(ab, 2, [&](T<C> const &y) { ys.push_back(y); });
    ys.push_back(T<C>(3, C('a')));
    all<C>(abs, full ? 5 : 4, [&](T<C> const &p) { ps.push_back(p); });
    all<C>(ab, full ? 7 : 5, [&](T<C> const &s) {
        if (!drv::mine(k++)) return;
        for (auto &x : xs)
            for (auto &y : ys) one_replace<C>(s, x, y);
    });
    all<C>(abs, full ? 5 : 4, [&](T<C> const &s) {
        if (!drv::mine(k++)) return;
        for (auto &p : ps) one_match<C>(s, p);
    });
    all<C>({C('a'), C('b'), C(',')}, full ? 7 : 5, [&](T<C> const &s) {
        if (!drv::mine(k++)) return;
        for (std::size_t c = 0; c <= s.size() + 1; ++c) one_split<C>(s, C(','), c);
        one_split<C>(s, C(0), 0);
    });
    all<C>({C('a'), C(' '), C('\t'), C(0)}, full ? 6 : 4, [&](T<C> const &s) {
        if (drv::mine(k++)) one_trim<C>(s);
    });
    if (drv::mine(k++))
        for (std::uint32_t u = 0; u <= (sizeof(C) == 1 ? 0xffu : 0xffffu); ++u)
        {
            C c = static_cast<C>(u);
            one_trim<C>(T<C>(1, c) + C('x') + c);
            one_split<C>(T<C>(2, c) + C('x') + c + C('y') + c, c, u % 3);
        }
    all<C>({C('a'), C('{'), C('}'), C(0)}, 2, [&](T<C> const &s) {
        if (!drv::mine(k++)) return;
        one_join<C>(C(','), s, T<C>(1, C('x')), s + s);
        one_join<C>(C('{'), T<C>(), s, s);
        one_join<C>(C(0), s, T<C>(), T<C>(1, C('%')));
    });
}

template <typename C>
static void random_one()
{
    auto str = [](std::vector<C> const &al, std::size_t n) {
        T<C> r(drv::rnd(n + 1), C(0));
        for (auto &c : r) c = al[drv::rnd(al.size())];
        return r;
    };
    std::vector<C> al;
    auto hi = static_cast<C>(sizeof(C) == 1 ? 0xe9 : sizeof(C) == 2 ? 0xd83d : 0x1f600);
    switch (drv::rnd(3))
    {
        case 0: al = {C('a'), C('b'), C(' '), hi, C(0)}; break;
        case 1: al = {C('a'), C('a'), C('a'), C('b')}; break;
        default:
            for (int i = 0; i < 12; ++i) al.push_back(static_cast<C>(drv::rnd()));
    }
    std::size_t big = drv::rnd(20) == 0 ? 400 : 40;
    T<C> s = str(al, big), x = str(al, 4), y = str(al, drv::rnd(2) ? 3 : 30);
    one_replace<C>(s, x, y);
    if (s.size() > 3)
    {
        auto i = drv::rnd(s.size() - 2);
        one_replace<C>(s, s.substr(i, 1 + drv::rnd(s.size() - i)), y);
    }
    one_split<C>(s, al[drv::rnd(al.size())], drv::rnd(3) ? drv::rnd(6) : 0);
    auto wal = al;
    wal.push_back(C(' '));
    wal.push_back(C('\n'));
    T<C> w = str({C(' '), C('\t'), C('\n'), C('\v'), C('\f'), C('\r')}, 20);
    one_trim<C>(w + str(wal, big) + str({C(' '), C('\r')}, 5));
    // a pattern made from the text itself, then maybe broken
    T<C> p;
    for (std::size_t i = 0; i < s.size();)
    {
        auto l = 1 + drv::rnd(6);
        if (drv::rnd(2)) p += s.substr(i, l);
        else p.push_back(C('*'));
        i += l;
    }
    if (drv::rnd(3) == 0 && !p.empty()) p[drv::rnd(p.size())] = al[drv::rnd(al.size())];
    if (drv::rnd(4) == 0) p.push_back(C('*'));
    one_match<C>(s, p);
    auto few = std::vector<C> {C('a'), C('b')};
    auto pat = std::vector<C> {C('a'), C('b'), C('*')};
    for (int i = 0; i < 6; ++i) one_match<C>(str(few, 14), str(pat, 9));
    one_join<C>(al[drv::rnd(al.size())], s, x, y);
}

int main(int argc, char **argv)
{
    drv::init(argc, argv);
    drv::guard();
    exhaustive<char>(true);
    exhaustive<char16_t>(false);
    exhaustive<char32_t>(false);
    exhaustive<wchar_t>(false);
    while (drv::time_left())
    {
        random_one<char>();
        random_one<char16_t>();
        random_one<char32_t>();
        random_one<wchar_t>();
        random_one<char8_t>();
    }
    drv::finish(0);
}
