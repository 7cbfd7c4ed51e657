// Codepoint decoding / encoding: all codepoints, all short unit sequences, against an independent oracle.
// FLAGS: -O2
#include "uni.hpp"
#include "fly/types/string/string.hpp"
template <typename C>
static void check(char const *ty, C const *d, std::size_t n)
{
    auto it = d;
    C const *end = d + n;
    std::uint32_t c = 0;
    auto k = uni::dec(d, n, c);
    auto r = fly::BasicString<C>::decode_codepoint(it, end);
    drv::count();
    auto show = [&] { return std::string("decode_codepoint<") + ty + "> on " + uni::units(std::basic_string<C>(d, n)); };
    if (r.has_value() != (k != 0)) drv::fail(show() + (k ? " rejects a well-formed encoding" : " accepts an ill-formed encoding"));
    if (it < d || it > end) drv::fail(show() + " leaves the text");
    if (r && *r != c) drv::fail(show() + " yields " + std::to_string(*r));
    if (r && std::size_t(it - d) != k) drv::fail(show() + " consumes " + std::to_string(it - d) + " units");
}
template <typename C>
static void exact(char const *ty, std::basic_string<C> const &s)
{
    std::unique_ptr<C[]> p(new C[s.size()]);   // exactly sized: a read past the end is caught by ASan
    std::copy(s.begin(), s.end(), p.get());
    drv::at_quiet(std::string(ty) + " " + uni::units(s));
    check<C>(ty, p.get(), s.size());
}
template <typename C>
static void codepoint(char const *ty, std::uint32_t c)
{
    auto r = fly::BasicString<C>::encode_codepoint(c);
    drv::count();
    if (r.has_value() != uni::scalar(c)) drv::fail(std::string("encode_codepoint<") + ty + ">(" + std::to_string(c) + (r ? ") accepts a value that is no scalar value" : ") fails"));
    if (!r) return;
    if (*r != uni::enc<C>(c)) drv::fail(std::string("encode_codepoint<") + ty + ">(" + std::to_string(c) + ") = " + uni::units(*r));
    check<C>(ty, r->data(), r->size());
    for (std::size_t i = 0; i < r->size(); ++i) exact<C>(ty, r->substr(0, i));
}
template <typename C>
static void cps(char const *ty)
{
    for (std::uint32_t c = drv::S().part; c <= 0x120000; c += drv::S().parts) codepoint<C>(ty, c);
    for (int i = 0; i < 1000; ++i) codepoint<C>(ty, drv::rnd());
    for (std::uint32_t i = 0; i < 16; ++i) codepoint<C>(ty, 0xFFFFFFFF - i), codepoint<C>(ty, 0x80000000 + i), codepoint<C>(ty, (1u << 21) + i);
}
template <typename C>
static void bytes(char const *ty)
{
    static unsigned char const t[] = {0, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xE0, 0xED, 0xF0, 0xF4, 0xFF};
    for (unsigned a = drv::S().part; a < 256; a += drv::S().parts)
        for (unsigned b = 0; b < 256; ++b)
        {
            C s[5] = {C(a), C(b)};
            check<C>(ty, s, 1);
            check<C>(ty, s, 2);
            for (unsigned c = 0; c < 256; ++c)
            {
                s[2] = C(c);
                check<C>(ty, s, 3);
                if (a >= 0xE0)
                    for (auto d : t)
                    {
                        s[3] = C(d);
                        check<C>(ty, s, 4);
                    }
            }
        }
}
int main(int argc, char **argv)
{
    drv::init(argc, argv);
    drv::guard();
    cps<char>("char");
    cps<wchar_t>("wchar_t");
    cps<char8_t>("char8_t");
    cps<char16_t>("char16_t");
    cps<char32_t>("char32_t");
    bytes<char>("char");
    bytes<char8_t>("char8_t");
    for (std::uint32_t a = drv::S().part; a < 65536; a += drv::S().parts)
        for (std::uint32_t b : {0u, 0x41u, 0xD7FFu, 0xD800u, 0xDBFFu, 0xDC00u, 0xDC01u, 0xDFFFu, 0xE000u, 0xFFFFu, (std::uint32_t)(drv::rnd() & 0xFFFF)})
        {
            char16_t s[2] = {char16_t(a), char16_t(b)};
            check<char16_t>("char16_t", s, 1);
            check<char16_t>("char16_t", s, 2);
        }
    while (drv::time_left())
        for (int i = 0; i < 200; ++i)
        {
            exact<char>("char", uni::random_any<char>(drv::rnd(3)));
            exact<char8_t>("char8_t", uni::random_any<char8_t>(drv::rnd(3)));
            exact<char16_t>("char16_t", uni::random_any<char16_t>(drv::rnd(3)));
            exact<wchar_t>("wchar_t", uni::random_any<wchar_t>(drv::rnd(3)));
            char32_t c[2] = {char32_t(drv::rnd(2) ? drv::rnd() : drv::rnd(0x200000)), 0};
            exact<char32_t>("char32_t", std::u32string(c, 1));
        }
    drv::finish(0);
}
