// Whole-string validation and conversion against an independent oracle.
#include "uni.hpp"
#include "fly/types/string/string.hpp"
template <typename C>
constexpr char const *tn = std::is_same_v<C, char> ? "char" : std::is_same_v<C, wchar_t> ? "wchar_t" : std::is_same_v<C, char8_t> ? "char8_t" : std::is_same_v<C, char16_t> ? "char16_t" : "char32_t";
template <typename C, typename D>
static void conv(std::basic_string<C> const &s)
{
    std::vector<std::uint32_t> cps;
    bool ok = uni::valid(s, &cps);
    drv::at_quiet(std::string("convert ") + tn<C> + " to " + tn<D> + " " + uni::units(s));
    auto r = fly::BasicString<C>::template convert<std::basic_string<D>>(s);
    if (r.has_value() != ok) drv::fail(std::string("convert ") + tn<C> + " to " + tn<D> + (ok ? " refuses valid " : " accepts invalid ") + uni::units(s));
    if (!ok) return;
    std::basic_string<D> w;
    for (auto c : cps) w += uni::enc<D>(c);
    if (*r != w) drv::fail(std::string("convert ") + tn<C> + " to " + tn<D> + " of " + uni::units(s) + " gives " + uni::units(*r));
    auto b = fly::BasicString<D>::template convert<std::basic_string<C>>(*r);
    if (!b || *b != s) drv::fail(std::string("converting ") + uni::units(s) + " to " + tn<D> + " and back does not yield it");
}
template <typename C>
static void one(std::basic_string<C> const &s)
{
    bool ok = uni::valid(s);
    drv::at_quiet(std::string("validate ") + tn<C> + " " + uni::units(s));
    std::unique_ptr<C[]> p(new C[s.size()]);
    std::copy(s.begin(), s.end(), p.get());
    if (fly::BasicString<C>::validate(std::basic_string_view<C>(p.get(), s.size())) != ok)
        drv::fail(std::string("validate<") + tn<C> + (ok ? "> refuses valid " : "> accepts invalid ") + uni::units(s));
    conv<C, char>(s);
    conv<C, wchar_t>(s);
    conv<C, char8_t>(s);
    conv<C, char16_t>(s);
    conv<C, char32_t>(s);
}
int main(int argc, char **argv)
{
    drv::init(argc, argv);
    drv::guard();
    for (std::uint32_t c = drv::S().part; c <= 0x10FFFF; c += drv::S().parts * (c > 0x3000 && c < 0x10FF00 && (c & 0xfff) > 2 ? 37 : 1))
        if (uni::scalar(c))
        {
            one(uni::enc<char>(c));
            one(uni::enc<char16_t>(c));
            one(uni::enc<char32_t>(c));
        }
    while (drv::time_left())
    {
        auto n = [] { return drv::rnd(20) ? drv::rnd(6) : drv::rnd(400); };
        one(uni::random_any<char>(n()));
        one(uni::random_any<char8_t>(n()));
        one(uni::random_any<char16_t>(n()));
        one(uni::random_any<wchar_t>(n()));
        one(uni::random_any<char32_t>(n()));
    }
    drv::finish(0);
}
