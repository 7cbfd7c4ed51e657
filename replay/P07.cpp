// Character classification, against tables written from the C locale definitions.
// FLAGS: -O2 -fno-sanitize=all
#include "common.hpp"
#include "fly/types/string/string.hpp"
template <typename C>
static void one(char const *ty, C c)
{
    using S = fly::BasicString<C>;
    auto v = static_cast<std::uint64_t>(static_cast<std::make_unsigned_t<std::conditional_t<std::is_same_v<C, wchar_t>, int, std::conditional_t<sizeof(C) == 1, char, std::conditional_t<sizeof(C) == 2, short, int>>>>>(c));
    bool up = v >= 65 && v <= 90, lo = v >= 97 && v <= 122, di = v >= 48 && v <= 57;
    bool xd = di || (v >= 65 && v <= 70) || (v >= 97 && v <= 102), sp = v == 32 || (v >= 9 && v <= 13);
    auto f = [&](char const *n) { drv::fail(std::string(n) + "<" + ty + "> is wrong for the character with code " + std::to_string(v)); };
    if (S::is_alpha(c) != (up || lo)) f("is_alpha");
    if (S::is_upper(c) != up) f("is_upper");
    if (S::is_lower(c) != lo) f("is_lower");
    if (S::is_digit(c) != di) f("is_digit");
    if (S::is_x_digit(c) != xd) f("is_x_digit");
    if (S::is_space(c) != sp) f("is_space");
    if (S::to_upper(c) != (lo ? C(v - 32) : c)) f("to_upper");
    if (S::to_lower(c) != (up ? C(v + 32) : c)) f("to_lower");
}
template <typename C>
static void all(char const *ty, std::uint64_t n)
{
    for (std::uint64_t i = drv::S().part; i < n; i += drv::S().parts) one<C>(ty, static_cast<C>(i));
    drv::count(n / drv::S().parts);
}
int main(int argc, char **argv)
{
    drv::init(argc, argv);
    drv::guard();
    all<char>("char", 256);
    all<char8_t>("char8_t", 256);
    all<char16_t>("char16_t", 65536);
    for (auto &[k, v] : drv::S().candidates)
    {
        auto c = std::strtoull(v.c_str(), nullptr, 10);
        one<wchar_t>("wchar_t", static_cast<wchar_t>(c));
        one<char32_t>("char32_t", static_cast<char32_t>(c));
    }
    all<wchar_t>("wchar_t", 1ull << 32);
    all<char32_t>("char32_t", 1ull << 32);
    drv::finish(0);
}
