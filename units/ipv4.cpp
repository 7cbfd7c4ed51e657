// IPv4 addresses: construction, parsing and printing.
#include "fly/net/ipv4_address.hpp"
using A = fly::net::IPv4Address;
extern "C" bool vp_parse(char const *p, std::size_t n, std::uint32_t *network, std::uint32_t *host)
{
    auto r = A::from_string(std::string_view(p, n));
    if (r) *network = r->network_order(), *host = r->host_order();
    return r.has_value();
}
extern "C" void vp_print(std::uint32_t network, std::string *out) { *out = fly::string::format("{}", A(network)); }
extern "C" void vp_from_bytes(std::uint8_t const *b, std::uint32_t *network, std::uint32_t *host)
{
    A a(A::address_type {b[0], b[1], b[2], b[3]});
    *network = a.network_order(), *host = a.host_order();
}
extern "C" void vp_from_int(std::uint32_t i, std::uint32_t *network, std::uint32_t *host) { A a(i); *network = a.network_order(), *host = a.host_order(); }
extern "C" bool vp_eq(std::uint32_t a, std::uint32_t b) { return A(a) == A(b); }
extern "C" int vp_cmp(std::uint32_t a, std::uint32_t b) { auto c = A(a) <=> A(b); return c < 0 ? -1 : c > 0 ? 1 : 0; }
