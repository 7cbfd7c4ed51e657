// Formatting of integers and strings against an independent renderer of the format specification.
// FLAGS: -O0 -fsanitize=address,undefined
// SOURCES:
#include "common.hpp"
#include "fly/types/string/format.hpp"
#include <limits>
template <typename C> using Str = std::basic_string<C>;
static char const *const ALIGN[] = {"", "<", ">", "^", "*<", "*>", "0^"};
static char const *const SIGN[] = {"", "+", "-", " "};
static char const *const TYPE[] = {"", "d", "b", "B", "o", "x", "X"};
constexpr char const *ALIGN_[] = {"", "<", ">", "^", "*<", "*>", "0^"};
constexpr char const *SIGN_[] = {"", "+", "-", " "};
constexpr char const *TYPE_[] = {"", "d", "b", "B", "o", "x", "X"};
constexpr unsigned TOTAL = 7 * 4 * 2 * 2 * 7 * 2;
struct Pick
{
    unsigned align, sign, alt, zero, type, width;
    constexpr explicit Pick(unsigned i) : align(i % 7), sign(i / 7 % 4), alt(i / 28 % 2), zero(i / 56 % 2), type(i / 112 % 7), width(i / 784 % 2) {}
    constexpr bool valid() const { return !(alt && type < 2); }
};
template <typename C>
struct Out
{
    C *p;
    std::size_t n = 0;
    constexpr void s(char const *t) { for (; *t; ++t) c(*t); }
    constexpr void c(char x) { if (p) p[n] = static_cast<C>(x); ++n; }
};
template <typename C>
constexpr std::size_t build(unsigned i, C *p)
{
    Pick k(i);
    Out<C> o {p};
    o.s("[{0");
    o.s(":"); o.s(ALIGN_[k.align]); o.s(SIGN_[k.sign]);
    if (k.alt) o.s("#");
    if (k.zero) o.s("0");
    if (k.width) o.s("{1}");
    o.s(TYPE_[k.type]);
    o.s("}]");
    return o.n;
}
template <typename C, unsigned I>
struct Lit
{
    static constexpr std::size_t N = build<C>(I, nullptr) + 1;
    struct T { C t[N]; };
    static constexpr T make() { T r {}; build<C>(I, r.t); return r; }
    static constexpr T value = make();
};
static std::string digits(std::uint64_t v, unsigned base, bool upper = false)
{
    std::string r;
    char const *d = upper ? "0123456789ABCDEF" : "0123456789abcdef";
    for (bool more = true; more; more = v != 0)
    {
        auto q = v / base;
        r = d[static_cast<std::size_t>(v - q * base)] + r;
        v = q;
    }
    return r;
}
// the field [prefix + digits] of at least the width
static std::string field(std::string prefix, std::string body, std::string align, bool zero, std::size_t width)
{
    char fill = align.size() == 2 ? align[0] : ' ';
    char a = align.empty() ? 0 : align.back();
    std::size_t size = prefix.size() + body.size(), pad = width > size ? width - size : 0;
    if (!a && zero) return prefix + std::string(pad, '0') + body;
    std::size_t left = a == '<' ? 0 : a == '^' ? pad / 2 : pad;
    return std::string(left, fill) + prefix + body + std::string(pad - left, fill);
}
template <typename T>
static std::string oracle(unsigned i, T value, std::size_t width)
{
    Pick k(i);
    static unsigned const bases[] = {10, 10, 2, 2, 8, 16, 16};
    bool upper = *TYPE[k.type] == 'B' || *TYPE[k.type] == 'X', neg = value < 0;
    std::string prefix = neg ? "-" : k.sign == 1 ? "+" : k.sign == 3 ? " " : "";
    if (k.alt) prefix += bases[k.type] == 8 ? "0" : std::string("0") + *TYPE[k.type];
    return "[" + field(prefix, digits(neg ? -static_cast<std::uint64_t>(value) : static_cast<std::uint64_t>(value), bases[k.type], upper), ALIGN[k.align], k.zero, k.width ? width : 0) + "]";
}
template <typename C>
static std::string narrow(Str<C> const &s)
{
    std::string r;
    for (C c : s) r += static_cast<std::make_unsigned_t<C>>(c) < 128 ? static_cast<char>(c) : '?';
    return r;
}
static std::string describe(unsigned i)
{
    std::string s(build<char>(i, nullptr), 0);
    build<char>(i, s.data());
    return s;
}
template <typename C, typename T, unsigned I>
static void run(T value, std::size_t width)
{
    if constexpr (Pick(I).valid())
    {
        drv::at_quiet("format " + describe(I) + " of " + std::to_string(value) + " width " + std::to_string(width));
        auto s = fly::string::format(Lit<C, I>::value.t, T(value), std::size_t(width));
        auto want = oracle<T>(I, value, width);
        if (narrow<C>(s) != want) drv::fail("format(" + describe(I) + ", " + std::to_string(value) + ", " + std::to_string(width) + ") = " + drv::show(narrow<C>(s)) + ", not " + drv::show(want));
    }
}
template <typename C, typename T>
struct Table
{
    std::vector<void (*)(T, std::size_t)> f;
    std::vector<unsigned> index;
    template <unsigned START, unsigned STEP, unsigned... J>
    void add(std::integer_sequence<unsigned, J...>) { ((f.push_back(&run<C, T, START + STEP * J>), index.push_back(START + STEP * J)), ...); }
    template <unsigned START, unsigned STEP>
    void slice() { add<START, STEP>(std::make_integer_sequence<unsigned, (TOTAL - START - 1) / STEP + 1> {}); }
    void values(std::vector<T> const &vs, std::vector<std::size_t> const &ws)
    {
        for (auto g : f)
            for (T v : vs)
                for (auto w : ws) g(v, w);
    }
    T any()
    {
        using U = std::make_unsigned_t<T>;
        U x = static_cast<U>(drv::rnd());
        switch (drv::rnd(4))
        {
            case 0: x = static_cast<U>(x >> drv::rnd(8 * sizeof(T))); break;
            case 1: { static unsigned const b[] = {2, 8, 10, 16}; U p = 1; for (auto n = drv::rnd(21); n--;) p = static_cast<U>(p * b[drv::rnd(4)]); x = static_cast<U>(p + drv::rnd(3) - 1); break; }
            case 2: x = static_cast<U>(U(1) << drv::rnd(8 * sizeof(T))) + static_cast<U>(drv::rnd(3)) - 1; break;
        }
        if (drv::rnd(2)) x = static_cast<U>(-x);
        return static_cast<T>(x);
    }
    void random()
    {
        auto g = f[drv::rnd(f.size())];
        for (int i = 0; i < 20; ++i) g(any(), 1 + (drv::rnd(20) ? drv::rnd(90) : drv::rnd(3000)));
    }
    void edges()
    {
        using L = std::numeric_limits<T>;
        values({L::min(), static_cast<T>(L::min() + 1), L::max(), static_cast<T>(L::max() - 1), T(0), T(1), T(7), T(8), T(9), T(10), T(15), T(16), T(99), T(100)}, {1, 2, 3, 9, 20, 70});
    }
};
static Table<char, std::int8_t> t0; static Table<char, std::uint8_t> t1; static Table<char, std::int16_t> t2; static Table<char, std::uint16_t> t3;
static Table<char, int> t4; static Table<char, unsigned> t5; static Table<char, long> t6; static Table<char, unsigned long> t7;
static Table<char16_t, int> t8; static Table<char32_t, unsigned long> t9; static Table<wchar_t, long> ta;

// strings: cut to the precision, padded to the width
static std::string cut(std::string s, char const *align, std::size_t width, std::size_t precision)
{
    s = s.substr(0, precision);
    std::string a = align;
    if (a.empty()) a = "<";
    return field("", s, a, false, width);
}
static void strings(std::string const &s, std::size_t w, std::size_t p)
{
    drv::at_quiet("strings " + drv::show(s) + " width " + std::to_string(w) + " precision " + std::to_string(p));
    auto same = [&](std::string const &got, std::string const &want, char const *f) {
        if (got != want) drv::fail(std::string("format(") + f + ", " + drv::show(s) + ", " + std::to_string(w) + ", " + std::to_string(p) + ") = " + drv::show(got) + ", not " + drv::show(want));
    };
    std::string const no = s;
    drv::Exact<char> e(s);
    std::string_view v = e.view();
#define CASE(A, AL) \
    same(fly::string::format("{0:" A "{1}s}", v, w, p), cut(s, AL, w, std::string::npos), "{0:" A "{1}s}"); \
    same(fly::string::format("{0:" A "{1}.{2}}", s, w, p), cut(s, AL, w, p), "{0:" A "{1}.{2}}"); \
    same(fly::string::format("{0:" A ".{2}s}", v, w, p), cut(s, AL, 0, p), "{0:" A ".{2}s}");
    CASE("", "") CASE("<", "<") CASE(">", ">") CASE("^", "^") CASE("*<", "*<") CASE("->", "->") CASE(".^", ".^")
#undef CASE
    if (s.find('\0') == std::string::npos) same(fly::string::format("{0:>{1}}", s.c_str(), w), cut(s, ">", w, std::string::npos), "{0:>{1}} of a C string");
    bool ascii = std::all_of(s.begin(), s.end(), [](char c) { return static_cast<unsigned char>(c) < 128; });
    if (ascii)
    {
        std::u16string u(s.begin(), s.end());
        std::u32string x(s.begin(), s.end());
        same(fly::string::format("{0:^{1}.{2}}", u, w, p), cut(s, "^", w, p), "{0:^{1}.{2}} of UTF-16");
        same(narrow<char16_t>(fly::string::format(u"{0:#>{1}.{2}}", s, w, p)), cut(s, "#>", w, p), "u\"{0:#>{1}.{2}}\"");
        same(narrow<char32_t>(fly::string::format(U"{0:<{1}.{2}}", x, w, p)), cut(s, "<", w, p), "U\"{0:<{1}.{2}}\"");
    }
}
// literal text, escapes, order of the arguments
static void whole(int a, std::string const &s, unsigned long b)
{
    drv::at_quiet("composition " + std::to_string(a) + " " + drv::show(s) + " " + std::to_string(b));
    std::string A = std::to_string(a), B = std::to_string(b);
    auto same = [&](std::string const &got, std::string const &want, char const *f) {
        if (got != want) drv::fail(std::string("format(") + f + ", " + A + ", " + drv::show(s) + ", " + B + ") = " + drv::show(got) + ", not " + drv::show(want));
    };
#define CASE(F, W) same(fly::string::format(F, a, s, b), W, F);
    CASE("", "") CASE("plain", "plain") CASE("{{}}", "{}") CASE("}}{{", "}{") CASE("{{{}}}", "{" + A + "}") CASE("{}{}{}", A + s + B) CASE("{0}{1}{2}", A + s + B) CASE("{2}{1}{0}", B + s + A)
    CASE("{2}{2}{0}x{1}y{1}", B + B + A + "x" + s + "y" + s) CASE("a{}b{}c{}d", "a" + A + "b" + s + "c" + B + "d") CASE("{{0}}{0}{{1}}", "{0}" + A + "{1}") CASE("{:}|{:}|{:}", A + "|" + s + "|" + B)
    CASE("{0:>9}|{1:.3}|{2:#x}|{0:+}", field("", A, ">", false, 9) + "|" + s.substr(0, 3) + "|0x" + digits(b, 16, false) + "|" + (a < 0 ? A : "+" + A))
    CASE("{:05}{:3}{:o}", field(a < 0 ? "-" : "", digits(a < 0 ? -static_cast<std::uint64_t>(a) : static_cast<std::uint64_t>(a), 10, false), "", true, 5) + field("", s, "<", false, 3) + digits(b, 8, false))
#undef CASE
    same(narrow<char16_t>(fly::string::format(u"<{1}>{{{0}}}", a, b)), "<" + B + ">{" + A + "}", "u\"<{1}>{{{0}}}\"");
    same(fly::string::format("{}{:d}{:s}{:>7}", b % 2 == 1, b % 2 == 1, b % 2 == 1, b % 2 == 1), b % 2 ? "true1true   true" : "false0false  false", "booleans");
    char c = static_cast<char>(b % 128);
    same(fly::string::format("{}{:c}{:*^5}{:c}", c, c, c, static_cast<int>(b % 128)), std::string(2, c) + "**" + c + "**" + c, "characters");
    same(fly::string::format("{:c}{:>4c}|", a, b), (a >= 0 && a < 128 ? std::string(1, static_cast<char>(a)) : "") + (b < 128 ? "   " + std::string(1, static_cast<char>(b)) : "") + "|", "characters of integers");
}
static std::string text()
{
    std::string s;
    for (auto n = drv::rnd(4) ? drv::rnd(12) : drv::rnd(200); n--;) s += static_cast<char>(drv::rnd(8) ? 32 + drv::rnd(95) : drv::rnd(128));
    return s;
}
int main(int argc, char **argv)
{
    drv::init(argc, argv);
    drv::guard();
    t0.slice<0, 31>(); t1.slice<1, 31>(); t2.slice<2, 31>(); t3.slice<3, 31>(); t4.slice<0, 9>(); t5.slice<1, 17>(); t6.slice<2, 13>(); t7.slice<3, 17>(); t8.slice<5, 61>(); t9.slice<6, 61>(); ta.slice<7, 61>();
    std::map<std::string, std::string> m(drv::S().candidates.begin(), drv::S().candidates.end());
    std::vector<long> vs;
    std::vector<std::size_t> ws {1};
    for (auto &[k, v] : drv::S().candidates)
        if (k == "value") vs.push_back(static_cast<long>(std::strtoull(v.c_str(), nullptr, 10)));
        else if (k == "width") ws.push_back(1 + std::strtoull(v.c_str(), nullptr, 10) % 300);
    auto cand = [&]<typename C, typename T>(Table<C, T> &t) { std::vector<T> x; for (auto v : vs) x.push_back(static_cast<T>(v)); t.values(x, ws); };
    auto all = [&](auto &&g) { g(t0); g(t1); g(t2); g(t3); g(t4); g(t5); g(t6); g(t7); g(t8); g(t9); g(ta); };
    all(cand);
    unsigned part = 0;
    all([&](auto &t) { if (drv::mine(part++)) t.edges(); });
    if (drv::mine(part++))
        for (int i = -128; i < 256; ++i) t0.f[0](static_cast<std::int8_t>(i), 5), whole(i, text(), static_cast<unsigned long>(i + 128));
    if (drv::mine(part++))
        for (std::size_t n = 0; n < 7; ++n)
            for (std::size_t w = 1; w < 9; ++w)
                for (std::size_t p = 0; p < 9; ++p) strings(std::string("abcdefg").substr(0, n), w, p);
    while (drv::time_left())
    {
        all([](auto &t) { t.random(); });
        for (int i = 0; i < 10; ++i)
        {
            strings(text(), 1 + drv::rnd(40), drv::rnd(30));
            whole(t4.any(), text(), t7.any());
            if (drv::rnd(50) == 0) strings(text(), 1 + drv::rnd(4000), drv::rnd());
        }
    }
    drv::finish(0);
}
