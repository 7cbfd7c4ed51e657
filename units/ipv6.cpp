// IPv6 addresses: construction, parsing and printing.
#include "lexer_access.hpp"
#include "format_access.hpp"
#include "fly/net/ipv6_address.hpp"
using A = fly::net::IPv6Address;
extern "C" bool vp_parse6(char const *p, std::size_t n, std::uint8_t *out)
{
    auto r = A::from_string(std::string_view(p, n));
    if (!r) return false;
    std::uint8_t b[16];
    r->copy(b);
    for (int i = 0; i < 16; ++i) out[i] = b[i];
    return true;
}
static A make(std::uint8_t const *p)
{
    A::address_type b;
    for (std::size_t i = 0; i < 16; ++i) b[i] = p[i];
    return A(b);
}
extern "C" void vp_print6(std::uint8_t const *p, std::string *out) { *out = fly::string::format("{}", make(p)); }
extern "C" void vp_copy6(std::uint8_t const *p, std::uint8_t *out)
{
    std::uint8_t b[16];
    make(p).copy(b);
    for (int i = 0; i < 16; ++i) out[i] = b[i];
}
extern "C" bool vp_eq6(std::uint8_t const *a, std::uint8_t const *b) { return make(a) == make(b); }
extern "C" int vp_cmp6(std::uint8_t const *a, std::uint8_t const *b) { auto c = make(a) <=> make(b); return c < 0 ? -1 : c > 0 ? 1 : 0; }
FORMATTER_ACCESS(u16, unsigned short)
