// Network endpoints: parsing and printing.
#include "lexer_access.hpp"
#include "format_access.hpp"
#include "fly/net/endpoint.hpp"
using A4 = fly::net::IPv4Address;
using A6 = fly::net::IPv6Address;
using E4 = fly::net::Endpoint<A4>;
using E6 = fly::net::Endpoint<A6>;
static void put(A4 const &a, std::uint8_t *out)
{
    std::uint32_t v = a.network_order();
    for (int i = 0; i < 4; ++i) out[i] = static_cast<std::uint8_t>(v >> (8 * i));
}
static void put(A6 const &a, std::uint8_t *out)
{
    std::uint8_t b[16];
    a.copy(b);
    for (int i = 0; i < 16; ++i) out[i] = b[i];
}
static A4 make4(std::uint8_t const *p) { return A4(A4::address_type {p[0], p[1], p[2], p[3]}); }
static A6 make6(std::uint8_t const *p)
{
    A6::address_type b;
    for (std::size_t i = 0; i < 16; ++i) b[i] = p[i];
    return A6(b);
}
extern "C" bool vp_parse4(char const *p, std::size_t n, std::uint8_t *out, std::uint16_t *port)
{
    auto r = E4::from_string(std::string_view(p, n));
    if (!r) return false;
    put(r->address(), out);
    *port = r->port();
    return true;
}
extern "C" bool vp_parse6(char const *p, std::size_t n, std::uint8_t *out, std::uint16_t *port)
{
    auto r = E6::from_string(std::string_view(p, n));
    if (!r) return false;
    put(r->address(), out);
    *port = r->port();
    return true;
}
extern "C" void vp_print4(std::uint8_t const *p, std::uint16_t port, std::string *out) { *out = fly::string::format("{}", E4(make4(p), port)); }
extern "C" void vp_print6(std::uint8_t const *p, std::uint16_t port, std::string *out) { *out = fly::string::format("{}", E6(make6(p), port)); }
extern "C" bool vp_eq4(std::uint8_t const *a, std::uint16_t x, std::uint8_t const *b, std::uint16_t y) { return E4(make4(a), x) == E4(make4(b), y); }
extern "C" bool vp_eq6(std::uint8_t const *a, std::uint16_t x, std::uint8_t const *b, std::uint16_t y) { return E6(make6(a), x) == E6(make6(b), y); }
extern "C" bool vp_less4(std::uint8_t const *a, std::uint16_t x, std::uint8_t const *b, std::uint16_t y) { return E4(make4(a), x) < E4(make4(b), y); }
extern "C" bool vp_less6(std::uint8_t const *a, std::uint16_t x, std::uint8_t const *b, std::uint16_t y) { return E6(make6(a), x) < E6(make6(b), y); }
// what the contracts of the addresses return
extern "C" void vp_make4(std::uint8_t const *p, bool some, std::optional<A4> *out) { *out = some ? std::optional<A4>(make4(p)) : std::nullopt; }
extern "C" void vp_make6(std::uint8_t const *p, bool some, std::optional<A6> *out) { *out = some ? std::optional<A6>(make6(p)) : std::nullopt; }
extern "C" void vp_bytes4(A4 const *a, std::uint8_t *out) { put(*a, out); }
extern "C" void vp_bytes6(A6 const *a, std::uint8_t *out) { put(*a, out); }
FORMATTER_ACCESS(u16, unsigned short)
