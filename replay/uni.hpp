// Independent Unicode oracle (tables 3-5, 3-6, 3-7 of the Unicode standard).
#pragma once
#include "common.hpp"
namespace uni {
inline bool scalar(std::uint32_t c) { return c < 0xD800 || (c > 0xDFFF && c <= 0x10FFFF); }
template <typename C>
std::basic_string<C> enc(std::uint32_t c)
{
    std::basic_string<C> r;
    auto p = [&](std::uint32_t v) { r += static_cast<C>(v); };
    if constexpr (sizeof(C) == 1)
    {
        if (c < 0x80) p(c);
        else if (c < 0x800) p(192 + c / 64), p(128 + c % 64);
        else if (c < 0x10000) p(224 + c / 4096), p(128 + c / 64 % 64), p(128 + c % 64);
        else p(240 + c / 262144), p(128 + c / 4096 % 64), p(128 + c / 64 % 64), p(128 + c % 64);
    }
    else if constexpr (sizeof(C) == 2)
    {
        if (c < 0x10000) p(c);
        else p(0xD800 + (c - 0x10000) / 1024), p(0xDC00 + (c - 0x10000) % 1024);
    }
    else p(c);
    return r;
}
// number of units of the encoding the text begins with (0: none), and its value
template <typename C>
std::size_t dec(C const *s, std::size_t n, std::uint32_t &c)
{
    auto u = [&](std::size_t i) { return static_cast<std::uint32_t>(s[i]) & (sizeof(C) == 1 ? 0xFFu : sizeof(C) == 2 ? 0xFFFFu : 0xFFFFFFFFu); };
    if (!n) return 0;
    if constexpr (sizeof(C) == 1)
    {
        auto a = u(0);
        auto t = [&](std::size_t i, unsigned lo = 0x80, unsigned hi = 0xBF) { return i < n && u(i) >= lo && u(i) <= hi; };
        if (a < 0x80) return c = a, 1;
        if (a >= 0xC2 && a <= 0xDF) return t(1) ? (c = (a - 0xC0) * 64 + u(1) - 128, 2) : 0;
        if (a >= 0xE0 && a <= 0xEF)
            return t(1, a == 0xE0 ? 0xA0 : 0x80, a == 0xED ? 0x9F : 0xBF) && t(2) ? (c = (a - 0xE0) * 4096 + (u(1) - 128) * 64 + u(2) - 128, 3) : 0;
        if (a >= 0xF0 && a <= 0xF4)
            return t(1, a == 0xF0 ? 0x90 : 0x80, a == 0xF4 ? 0x8F : 0xBF) && t(2) && t(3) ? (c = (a - 0xF0) * 262144 + (u(1) - 128) * 4096 + (u(2) - 128) * 64 + u(3) - 128, 4) : 0;
        return 0;
    }
    else if constexpr (sizeof(C) == 2)
    {
        auto a = u(0);
        if (a < 0xD800 || a > 0xDFFF) return c = a, 1;
        if (a < 0xDC00 && n > 1 && u(1) >= 0xDC00 && u(1) <= 0xDFFF) return c = (a - 0xD800) * 1024 + u(1) - 0xDC00 + 0x10000, 2;
        return 0;
    }
    else return scalar(u(0)) ? (c = u(0), 1) : 0;
}
template <typename C>
bool valid(std::basic_string<C> const &s, std::vector<std::uint32_t> *out = nullptr)
{
    std::size_t i = 0;
    while (i < s.size())
    {
        std::uint32_t c;
        auto k = dec(s.data() + i, s.size() - i, c);
        if (!k) return false;
        if (out) out->push_back(c);
        i += k;
    }
    return true;
}
template <typename C>
std::string units(std::basic_string<C> const &s)
{
    std::string r = "<";
    char b[16];
    for (auto c : s.substr(0, 60))
    {
        snprintf(b, sizeof b, "%llx ", (unsigned long long)c & (sizeof(C) == 1 ? 0xFFu : sizeof(C) == 2 ? 0xFFFFu : 0xFFFFFFFFu));
        r += b;
    }
    if (r.size() > 1) r.pop_back();
    return r + ">" + std::to_string(sizeof(C) * 8);
}
// codepoints around every boundary of the definitions
inline std::uint32_t interesting()
{
    static std::uint32_t const b[] = {0, 0x1f, 0x20, 0x22, 0x2f, 0x5c, 0x7e, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1ffff, 0x20000, 0xfffff, 0x100000, 0x10ffff};
    switch (drv::rnd(4))
    {
        case 0:
        {
            auto c = b[drv::rnd(std::size(b))] + drv::rnd(3) - 1;
            return scalar(c) ? c : 0x41;
        }
        case 1: return 0x20 + drv::rnd(0x5f);
        case 2: return drv::rnd(0x800);
        default:
        {
            std::uint32_t c = drv::rnd(0x110000);
            return scalar(c) ? c : 0xE000;
        }
    }
}
template <typename C>
std::basic_string<C> random_valid(std::size_t n)
{
    std::basic_string<C> s;
    for (std::size_t i = 0; i < n; ++i) s += enc<C>(interesting());
    return s;
}
// a valid text with a few units changed, dropped or inserted
template <typename C>
std::basic_string<C> random_any(std::size_t n)
{
    auto s = random_valid<C>(n);
    static std::uint32_t const b[] = {0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, 0xFFFFFFFF, 0x10FFFF, 0x41};
    for (auto k = drv::rnd(3); k && !s.empty(); --k)
        switch (drv::rnd(4))
        {
            case 0: s[drv::rnd(s.size())] = static_cast<C>(b[drv::rnd(std::size(b))]); break;
            case 1: s.erase(drv::rnd(s.size()), 1); break;
            case 2: s.insert(drv::rnd(s.size() + 1), 1, static_cast<C>(b[drv::rnd(std::size(b))])); break;
            default: s.resize(s.size() - 1); break;
        }
    return s;
}
} // namespace uni
