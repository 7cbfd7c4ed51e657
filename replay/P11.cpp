// Network endpoints of both families against independent parsers and printers.
// FLAGS: -O1 -fsanitize=address,undefined
#include "common.hpp"
#include "fly/net/endpoint.hpp"
#include "fly/types/string/format.hpp"
#include <optional>
using A4 = fly::net::IPv4Address;
using A6 = fly::net::IPv6Address;
using E4 = fly::net::Endpoint<A4>;
using E6 = fly::net::Endpoint<A6>;
using G = std::array<unsigned, 8>;
static bool oracle4(std::string const &s, std::uint32_t &out)
{
    std::vector<std::string> parts(1);
    for (char c : s) c == '.' ? parts.emplace_back() : parts.back() += c, void();
    if (parts.size() > 4) return false;
    std::uint64_t v = 0;
    for (std::size_t i = 0; i < parts.size(); ++i)
    {
        std::string p = parts[i];
        if (p.empty() || p.find_first_not_of("0123456789") != std::string::npos) return false;
        p.erase(0, std::min(p.find_first_not_of('0'), p.size()));
        if (p.size() > 10) return false;
        std::uint64_t x = p.empty() ? 0 : std::stoull(p);
        int rest = i + 1 == parts.size() ? 8 * (4 - static_cast<int>(i)) : 8;
        if (x >> rest) return false;
        v = v << rest | x;
    }
    out = static_cast<std::uint32_t>(v);
    return true;
}
static bool group(std::string p, unsigned &v)
{
    if (p.empty() || p.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) return false;
    p.erase(0, std::min(p.find_first_not_of('0'), p.size()));
    if (p.size() > 4) return false;
    v = p.empty() ? 0 : static_cast<unsigned>(std::stoul(p, nullptr, 16));
    return true;
}
static bool groups(std::string const &s, std::vector<unsigned> &out)
{
    if (s.empty()) return true;
    std::size_t i = 0;
    for (;;)
    {
        auto j = std::min(s.find(':', i), s.size());
        unsigned v;
        if (!group(s.substr(i, j - i), v)) return false;
        out.push_back(v);
        if (j == s.size()) return true;
        i = j + 1;
    }
}
static std::optional<G> oracle6(std::string const &s)
{
    std::vector<unsigned> l, r;
    auto d = s.find("::");
    if (d == std::string::npos)
    {
        if (s.empty() || !groups(s, l) || l.size() != 8) return {};
    }
    else
    {
        if (!groups(s.substr(0, d), l) || !groups(s.substr(d + 2), r) || l.size() + r.size() > 7) return {};
        while (l.size() + r.size() < 8) l.push_back(0);
        l.insert(l.end(), r.begin(), r.end());
    }
    G g;
    std::copy(l.begin(), l.end(), g.begin());
    return g;
}
static std::string print6(G const &g)
{
    std::string s;
    char b[8];
    std::size_t a = 0;
    while (a < 8 && g[a]) ++a;
    std::size_t e = a;
    while (e < 8 && !g[e]) ++e;
    for (std::size_t i = 0; i < 8; ++i)
    {
        if (i == a) { s += "::"; i = e; if (i == 8) break; }
        else if (i) s += ":";
        std::snprintf(b, sizeof b, "%x", g[i]);
        s += b;
    }
    return s;
}
static bool port(std::string p, unsigned &v)
{
    if (p.empty() || p.find_first_not_of("0123456789") != std::string::npos) return false;
    p.erase(0, std::min(p.find_first_not_of('0'), p.size()));
    if (p.size() > 5) return false;
    v = p.empty() ? 0 : static_cast<unsigned>(std::stoul(p));
    return v <= 65535;
}
static A4 make4(std::uint32_t h) { return A4(A4::address_type {static_cast<std::uint8_t>(h >> 24), static_cast<std::uint8_t>(h >> 16), static_cast<std::uint8_t>(h >> 8), static_cast<std::uint8_t>(h)}); }
static A6 make6(G const &g)
{
    A6::address_type b;
    for (std::size_t i = 0; i < 8; ++i) b[2 * i] = static_cast<std::uint8_t>(g[i] >> 8), b[2 * i + 1] = static_cast<std::uint8_t>(g[i]);
    return A6(b);
}
static void parse(std::string const &s)
{
    drv::at_quiet(s);
    auto const c = s.rfind(':');
    bool w4 = false, w6 = false;
    std::uint32_t h = 0;
    G g {};
    unsigned p = 0;
    if (c != std::string::npos && port(s.substr(c + 1), p))
    {
        auto a = s.substr(0, c);
        w4 = oracle4(a, h);
        if (a.size() >= 2 && a.front() == '[' && a.back() == ']')
        {
            auto r = oracle6(a.substr(1, a.size() - 2));
            w6 = r.has_value();
            if (r) g = *r;
        }
    }
    drv::Exact<char> e(s);
    auto r4 = E4::from_string(std::string_view(e.p(), e.n()));
    auto r6 = E6::from_string(std::string_view(e.p(), e.n()));
    if (r4.has_value() != w4) drv::fail("IPv4 endpoint " + drv::show(s) + " is " + (r4 ? "accepted" : "refused"));
    if (r6.has_value() != w6) drv::fail("IPv6 endpoint " + drv::show(s) + " is " + (r6 ? "accepted" : "refused"));
    if (r4 && (r4->address().host_order() != h || r4->port() != p)) drv::fail("IPv4 endpoint " + drv::show(s) + " has another address or port: " + std::to_string(r4->port()));
    if (r6 && (r6->address() != make6(g) || r6->port() != p)) drv::fail("IPv6 endpoint " + drv::show(s) + " has another address or port: " + std::to_string(r6->port()));
}
static std::string print4(std::uint32_t h) { return std::to_string(h >> 24) + "." + std::to_string(h >> 16 & 255) + "." + std::to_string(h >> 8 & 255) + "." + std::to_string(h & 255); }
static void round4(std::uint32_t h, std::uint16_t p)
{
    E4 e(make4(h), p);
    auto want = print4(h) + ":" + std::to_string(p);
    drv::at_quiet(want);
    auto s = fly::string::format("{}", e);
    if (s != want) drv::fail("IPv4 endpoint " + want + " prints as " + s);
    auto r = E4::from_string(s);
    if (!r || *r != e || r->port() != p || r->address() != make4(h)) drv::fail("IPv4 endpoint " + want + " is not read back");
    std::uint16_t q = static_cast<std::uint16_t>(drv::rnd(3) ? drv::rnd() : p + drv::rnd(3) - 1);
    std::uint32_t i = drv::rnd(2) ? h : static_cast<std::uint32_t>(drv::rnd());
    E4 f(make4(i), q);
    if ((e == f) != (h == i && p == q)) drv::fail("equality of " + want + " and port " + std::to_string(q));
    if (h == i && (e < f) != (p < q)) drv::fail("order of " + want + " and port " + std::to_string(q));
}
static void round6(G const &g, std::uint16_t p)
{
    E6 e(make6(g), p);
    auto want = "[" + print6(g) + "]:" + std::to_string(p);
    drv::at_quiet(want);
    auto s = fly::string::format("{}", e);
    if (s != want) drv::fail("IPv6 endpoint " + want + " prints as " + s);
    auto r = E6::from_string(s);
    if (!r || *r != e || r->port() != p || r->address() != make6(g)) drv::fail("IPv6 endpoint " + want + " is not read back");
    std::uint16_t q = static_cast<std::uint16_t>(drv::rnd(3) ? drv::rnd() : p + drv::rnd(3) - 1);
    G i = g;
    if (drv::rnd(2)) i[drv::rnd(8)] = static_cast<unsigned>(drv::rnd(65536));
    E6 f(make6(i), q);
    if ((e == f) != (g == i && p == q)) drv::fail("equality of " + want + " and port " + std::to_string(q));
    if ((e < f) != (g < i || (g == i && p < q))) drv::fail("order of " + want + " and port " + std::to_string(q));
}
static G anyg()
{
    G g;
    auto dense = drv::rnd(4);
    for (auto &x : g) x = drv::rnd(4) < dense ? 0 : static_cast<unsigned>(drv::rnd(65536) >> drv::rnd(16));
    return g;
}
static std::string anyport()
{
    std::string s;
    switch (drv::rnd(8))
    {
        case 0: return "";
        case 1: s = std::to_string(65534 + drv::rnd(4)); break;
        case 2: s = std::to_string(65536 * (1 + drv::rnd(1ull << drv::rnd(48))) + drv::rnd(1000)); break;
        case 3: s = "184467440737095516" + std::to_string(drv::rnd(100000)); break;
        case 4: s = std::to_string(drv::rnd()) + std::to_string(drv::rnd()); break;
        default: s = std::to_string(drv::rnd(65536) >> drv::rnd(16));
    }
    if (!drv::rnd(6)) s = std::string(drv::rnd(25), '0') + s;
    return s;
}
static std::string any()
{
    static std::string const alphabet("0123456789abcfF.:[]:. -+x%/\0", 29);
    auto six = drv::rnd(2);
    std::string a = six ? print6(anyg()) : print4(static_cast<std::uint32_t>(drv::rnd()));
    if (!six && !drv::rnd(3)) a = std::to_string(drv::rnd() >> drv::rnd(64));
    std::string s = (six ? "[" + a + "]" : a) + ":" + anyport();
    for (auto k = drv::rnd(3); k--;)
    {
        auto i = drv::rnd(s.size() + 1);
        switch (drv::rnd(4))
        {
            case 0: s.insert(i, 1, alphabet[drv::rnd(alphabet.size())]); break;
            case 1: if (i < s.size()) s.erase(i, 1); break;
            case 2: if (i < s.size()) s[i] = alphabet[drv::rnd(alphabet.size())]; break;
            default: { auto j = s.find(drv::rnd(2) ? ']' : ':'); if (j != std::string::npos) s.insert(j + drv::rnd(2), 1, alphabet[drv::rnd(alphabet.size())]); }
        }
    }
    if (!drv::rnd(40)) { s.clear(); for (auto k = drv::rnd(6); k--;) s += alphabet[drv::rnd(alphabet.size())]; }
    return s;
}
int main(int argc, char **argv)
{
    drv::init(argc, argv);
    drv::guard();
    std::map<std::string, std::string> m(drv::S().candidates.begin(), drv::S().candidates.end());
    auto num = [&](std::string const &k) { return std::strtoull(m[k].c_str(), nullptr, 0); };
    if (m.count("n") && num("n") <= 24)
    {
        std::string s;
        for (unsigned i = 0; i < num("n"); ++i) s += static_cast<char>(num("text " + std::to_string(i)));
        parse(s);
    }
    if (m.count("port"))
    {
        std::uint8_t o[16] {};
        for (int i = 0; i < 16; ++i) o[i] = static_cast<std::uint8_t>(num("octet " + std::to_string(i)));
        G g;
        for (std::size_t i = 0; i < 8; ++i) g[i] = o[2 * i] * 256u + o[2 * i + 1];
        round4(static_cast<std::uint32_t>(o[0] << 24 | o[1] << 16 | o[2] << 8 | o[3]), static_cast<std::uint16_t>(num("port")));
        round6(g, static_cast<std::uint16_t>(num("port")));
    }
    for (auto s : {"", ":", "[", "]", "[]", "[]:", "[]:1", "[:1", "]:1", "[[::]]:1", "[::]", "[::]:", "[::]:0", "::1:80", "[::1]80", "[::1]:80:", "[::1]:65536", "1.2.3.4", "1.2.3.4:", ":80",
                   "1.2.3.4:80:80", "[1.2.3.4]:80", "1:2", "[1]:2", "1.2.3.4:65535", "1.2.3.4:65536", "1.2.3.4:+1", "1.2.3.4: 1", "1.2.3.4:1 ", "[::1] :1", " [::1]:1", "1.2.3.4:0x10"}) parse(s);
    for (unsigned p = 0; p < 65536; ++p) if ((p & 15) == (drv::S().seed & 15) || p < 300 || p > 65500 || p % 1000 == 0) { round4(0xffffffffu - p, static_cast<std::uint16_t>(p)); round6({0, 0, 0, 0, 0, 0, 0, p}, static_cast<std::uint16_t>(p)); }
    while (drv::time_left())
        for (int i = 0; i < 200; ++i)
        {
            parse(any());
            round4(static_cast<std::uint32_t>(drv::rnd()), static_cast<std::uint16_t>(drv::rnd()));
            round6(anyg(), static_cast<std::uint16_t>(drv::rnd() >> drv::rnd(64)));
        }
    drv::finish(0);
}
