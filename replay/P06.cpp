// Escaping / unescaping of codepoints against an independent oracle.
// FLAGS: -O2
#include "uni.hpp"
#include "fly/types/string/string.hpp"
static std::string esc(std::uint32_t c, char p)
{
    char b[32];
    if (c >= 0x20 && c <= 0x7e) return std::string(1, char(c));
    if (c <= 0xffff) snprintf(b, sizeof b, "\\u%04x", c);
    else if (p == 'U') snprintf(b, sizeof b, "\\U%08x", c);
    else snprintf(b, sizeof b, "\\u%04x\\u%04x", 0xD800 + (c - 0x10000) / 1024, 0xDC00 + (c - 0x10000) % 1024);
    return b;
}
static int hv(std::uint32_t c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
template <typename C>
static bool num(std::basic_string<C> const &s, std::size_t at, int k, std::uint64_t &v)
{
    v = 0;
    for (int i = 0; i < k; ++i)
    {
        if (at + i >= s.size()) return false;
        auto c = static_cast<std::int64_t>(s[at + i]);
        int h = c < 0 || c > 127 ? -1 : hv(c);
        if (h < 0) return false;
        v = v * 16 + h;
    }
    return true;
}
// consumed units of the escape the text begins with (0: none)
template <typename C>
static std::size_t une(std::basic_string<C> const &s, std::uint32_t &cp)
{
    auto in = [&](std::size_t at, char c) { return at + 1 < s.size() && s[at] == C('\\') && s[at + 1] == C(c); };
    std::uint64_t v, w;
    if (in(0, 'u') && num(s, 2, 4, v))
    {
        cp = v;
        if (v < 0xD800 || v > 0xDFFF) return 6;
        if (v > 0xDBFF) return 0;
        if (in(6, 'u') && num(s, 8, 4, w) && w >= 0xDC00 && w <= 0xDFFF) return cp = (v - 0xD800) * 1024 + w - 0xDC00 + 0x10000, 12;
        return 0;
    }
    if (in(0, 'U') && num(s, 2, 8, v) && v <= 0x10FFFF && uni::scalar(v)) return cp = v, 10;
    return 0;
}
template <typename C>
static void unescape(char const *ty, std::basic_string<C> const &s)
{
    drv::at_quiet(std::string("unescape ") + ty + " " + uni::units(s));
    std::unique_ptr<C[]> p(new C[s.size()]);
    std::copy(s.begin(), s.end(), p.get());
    C const *it = p.get(), *b = it, *end = it + s.size();
    auto r = fly::BasicString<C>::unescape_codepoint(it, end);
    std::uint32_t cp = 0;
    auto k = une(s, cp);
    auto sh = [&] { return std::string("unescape_codepoint<") + ty + "> of " + uni::units(s); };
    if (r.has_value() != (k != 0)) drv::fail(sh() + (k ? " refuses a well-formed escape" : " accepts an ill-formed escape"));
    if (it > end || it < b) drv::fail(sh() + " leaves the text");
    if (!k) return;
    if (std::size_t(it - b) != k) drv::fail(sh() + " consumes " + std::to_string(it - b));
    if (*r != uni::enc<C>(cp)) drv::fail(sh() + " yields " + uni::units(*r));
}
template <typename C, char P>
static void escape(char const *ty, std::uint32_t c)
{
    auto s = uni::enc<C>(c);
    drv::at_quiet(std::string("escape ") + ty + " " + std::to_string(c));
    auto it = s.cbegin();
    auto r = fly::BasicString<C>::template escape_codepoint<P>(it, s.cend());
    auto e = esc(c, P);
    std::basic_string<C> w(e.begin(), e.end());
    if (!r || *r != w || it != s.cend()) drv::fail(std::string("escape_codepoint<") + ty + ", " + P + ">(" + std::to_string(c) + ") is " + (r ? uni::units(*r) : "refused"));
    if (w.size() > 1) unescape<C>(ty, w);
    auto a = fly::BasicString<C>::template escape_all_codepoints<P>(s + s);
    if (!a || *a != w + w) drv::fail(std::string("escape_all_codepoints<") + ty + ", " + P + "> is wrong for twice " + std::to_string(c));
    if (w.size() > 1)
    {
        auto u = fly::BasicString<C>::unescape_all_codepoints(w + w);
        if (!u || *u != s + s) drv::fail(std::string("unescape_all_codepoints<") + ty + "> is wrong for twice " + e);
    }
}
template <typename C>
static void both(char const *ty, std::uint32_t c)
{
    escape<C, 'u'>(ty, c);
    escape<C, 'U'>(ty, c);
}
template <typename C>
static void random(char const *ty)
{
    static char const al[] = "\\uU0123456789abcdefABCDEF\\uUdDcCgG/:@`~ \xff";
    std::basic_string<C> s;
    auto c = uni::interesting();
    auto e = drv::rnd(4) ? esc(c < 0x80 ? c + 0x80 : c, drv::rnd(2) ? 'u' : 'U') : std::string(drv::rnd(2) ? "\\ud8" : "\\U0011") + "abcdefg";
    if (!drv::rnd(6)) e = "\\u" + std::string(1, "dD"[drv::rnd(2)]) + std::string(1, "89abcdefAF"[drv::rnd(10)]) + "00" + (drv::rnd(2) ? "\\udc00" : "\\uD800");
    if (drv::rnd(3) == 0)
        for (auto &x : e)
            if (drv::rnd(2) && x >= 'a' && x <= 'f') x -= 32;
    s.assign(e.begin(), e.end());
    for (auto k = drv::rnd(3); k && !s.empty(); --k)
        switch (drv::rnd(4))
        {
            case 0: s[drv::rnd(s.size())] = static_cast<C>(al[drv::rnd(sizeof al - 1)]); break;
            case 1: s.erase(drv::rnd(s.size()), 1); break;
            case 2: s.resize(drv::rnd(s.size() + 1)); break;
            default: s += static_cast<C>(al[drv::rnd(sizeof al - 1)]); break;
        }
    if (sizeof(C) > 1 && !drv::rnd(6) && s.size()) s[drv::rnd(s.size())] += static_cast<C>(drv::rnd(2) ? 0x100 : 0x100 * drv::rnd());
    unescape<C>(ty, s);
}
int main(int argc, char **argv)
{
    drv::init(argc, argv);
    drv::guard();
    for (std::uint32_t c = drv::S().part; c <= 0x10FFFF; c += drv::S().parts)
        if (uni::scalar(c))
        {
            both<char>("char", c);
            both<char16_t>("char16_t", c);
            if (c % 7 < 2 || c < 0x3000) both<wchar_t>("wchar_t", c), both<char8_t>("char8_t", c), both<char32_t>("char32_t", c);
        }
    while (drv::time_left())
        for (int i = 0; i < 100; ++i)
        {
            random<char>("char");
            random<char8_t>("char8_t");
            random<char16_t>("char16_t");
            random<char32_t>("char32_t");
            random<wchar_t>("wchar_t");
        }
    drv::finish(0);
}
