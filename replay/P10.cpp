// IPv6 addresses against an independent parser and printer.
// FLAGS: -O1
#include "common.hpp"
#include "fly/net/ipv6_address.hpp"
#include "fly/types/string/format.hpp"
#include <optional>
using A = fly::net::IPv6Address;
using G = std::array<unsigned, 8>;
static bool group(std::string p, unsigned &v)
{
    if (p.empty() || p.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) return false;
    p.erase(0, std::min(p.find_first_not_of('0'), p.size()));
    if (p.size() > 4) return false;
    v = p.empty() ? 0 : static_cast<unsigned>(std::stoul(p, nullptr, 16));
    return true;
}
static bool groups(std::string const &s, std::vector<unsigned> &out)
{
    if (s.empty()) return true;
    std::size_t i = 0;
    for (;;)
    {
        auto j = std::min(s.find(':', i), s.size());
        unsigned v;
        if (!group(s.substr(i, j - i), v)) return false;
        out.push_back(v);
        if (j == s.size()) return true;
        i = j + 1;
    }
}
static std::optional<G> oracle(std::string const &s)
{
    std::vector<unsigned> l, r;
    auto d = s.find("::");
    if (d == std::string::npos)
    {
        if (s.empty() || !groups(s, l) || l.size() != 8) return {};
    }
    else
    {
        if (!groups(s.substr(0, d), l) || !groups(s.substr(d + 2), r) || l.size() + r.size() > 7) return {};
        while (l.size() + r.size() < 8) l.push_back(0);
        l.insert(l.end(), r.begin(), r.end());
    }
    G g;
    std::copy(l.begin(), l.end(), g.begin());
    return g;
}
static std::string print(G const &g)
{
    std::string s;
    char b[8];
    std::size_t a = 0;
    while (a < 8 && g[a]) ++a;
    std::size_t e = a;
    while (e < 8 && !g[e]) ++e;
    for (std::size_t i = 0; i < 8; ++i)
    {
        if (i == a) { s += "::"; i = e; if (i == 8) break; }
        else if (i) s += ":";
        std::snprintf(b, sizeof b, "%x", g[i]);
        s += b;
    }
    return s;
}
static A make(G const &g)
{
    A::address_type b;
    for (std::size_t i = 0; i < 8; ++i) b[2 * i] = static_cast<std::uint8_t>(g[i] >> 8), b[2 * i + 1] = static_cast<std::uint8_t>(g[i]);
    return A(b);
}
static G value(A const &a)
{
    std::uint8_t b[16];
    a.copy(b);
    G g;
    for (std::size_t i = 0; i < 8; ++i) g[i] = b[2 * i] << 8 | b[2 * i + 1];
    return g;
}
static void parse(std::string const &s)
{
    drv::at_quiet(s);
    auto want = oracle(s);
    drv::Exact<char> e(s);
    auto r = A::from_string(e.view());
    if (r.has_value() != want.has_value()) drv::fail("from_string(" + drv::show(s) + ") is " + (r ? "accepted" : "refused"));
    if (r && value(*r) != *want) drv::fail("from_string(" + drv::show(s) + ") = " + print(value(*r)) + ", not " + print(*want));
}
static G other()
{
    G g;
    for (auto &x : g) x = drv::rnd(3) ? 0 : static_cast<unsigned>(drv::rnd(65536));
    return g;
}
static void address(G const &g)
{
    std::string want = print(g);
    drv::at_quiet("address " + want);
    A a = make(g);
    if (value(a) != g) drv::fail("bytes of " + want);
    auto s = fly::string::format("{}", a);
    if (s != want) drv::fail("address " + want + " prints as " + s);
    auto r = A::from_string(s);
    if (!r || *r != a) drv::fail("address " + want + " is not read back");
    G o = drv::rnd(2) ? other() : g;
    if (drv::rnd(2)) o[drv::rnd(8)] ^= 1u << drv::rnd(16);
    A b = make(o);
    if ((a < b) != (g < o) || (a == b) != (g == o) || (a > b) != (o < g)) drv::fail("comparison of " + want + " and " + print(o));
    std::string t = want;
    switch (drv::rnd(6))
    {
        case 0: t += ":"; break;
        case 1: t = ":" + t; break;
        case 2: t += ":0"; break;
        case 3: t.insert(drv::rnd(t.size() + 1), std::string(drv::rnd(20), '0')); break;
        case 4: t[drv::rnd(t.size())] = "0123456789abcdefABCDEFgG:. \0xX"[drv::rnd(30)]; break;
        case 5: t.erase(drv::rnd(t.size()), 1 + drv::rnd(3)); break;
    }
    parse(t);
}
int main(int argc, char **argv)
{
    drv::init(argc, argv);
    drv::guard();
    std::map<std::string, std::string> m(drv::S().candidates.begin(), drv::S().candidates.end());
    {
        std::string s;
        for (int i = 0; i < 40 && m.count("text " + std::to_string(i)); ++i) s += static_cast<char>(std::atoi(m["text " + std::to_string(i)].c_str()));
        if (m.count("n")) s.resize(std::min<std::size_t>(s.size(), std::strtoull(m["n"].c_str(), nullptr, 10)));
        parse(s);
        G g {};
        for (std::size_t i = 0; i < 16; ++i) g[i / 2] = g[i / 2] << 8 | static_cast<unsigned>(std::atoi(m["octet " + std::to_string(i)].c_str()) & 255);
        address(g);
    }
    // every pattern of zero groups, with values of each number of digits
    for (unsigned p = 0; p < 256; ++p)
        for (unsigned v : {1u, 0xfu, 0x10u, 0xabu, 0x100u, 0x1000u, 0xffffu})
        {
            if (!drv::mine(p * 8 + v)) continue;
            G g;
            for (unsigned i = 0; i < 8; ++i) g[i] = p >> i & 1 ? v : 0;
            for (int k = 0; k < 6; ++k) address(g);
        }
    // every text of up to seven symbols of a small alphabet, and every arrangement of up to 18 groups and colons
    static char const alpha[] = "0aF:g";
    std::uint64_t i = 0;
    for (int n = 0; n <= 7; ++n)
    {
        std::uint64_t total = 1;
        for (int k = 0; k < n; ++k) total *= 5;
        for (std::uint64_t v = 0; v < total; ++v)
        {
            if (!drv::mine(i++)) continue;
            std::string s;
            for (std::uint64_t x = v, k = 0; k < static_cast<std::uint64_t>(n); ++k, x /= 5) s += alpha[x % 5];
            parse(s);
        }
    }
    for (unsigned v = 0; v < 1u << 16; ++v)
    {
        if (!drv::mine(v)) continue;
        std::string s;
        for (int k = 0; k < 16; ++k) s += v >> k & 1 ? ':' : '7';
        std::string t;
        // runs of digits longer than four are always refused: use them as they are and with one digit per run
        parse(s);
        for (char c : s) if (c == ':' || t.empty() || t.back() == ':') t += c;
        parse(t);
        parse(t + ":7");
        parse("7:7:7:7" + t);
    }
    while (drv::time_left())
        for (int k = 0; k < 300; ++k)
        {
            address(other());
            G g;
            for (auto &x : g) x = static_cast<unsigned>(drv::rnd() & 0xffff) >> drv::rnd(17);
            address(g);
            std::string s;
            for (auto n = drv::rnd(11); n--;)
            {
                char b[40];
                std::snprintf(b, sizeof b, "%0*llx", static_cast<int>(drv::rnd(7)), static_cast<unsigned long long>(drv::rnd() >> (drv::rnd(10) ? 48 + drv::rnd(17) % 16 : drv::rnd(64))));
                s += b;
                s += drv::rnd(8) ? (n ? ":" : "") : "::";
            }
            if (drv::rnd(4) == 0 && !s.empty()) s = s.substr(1);
            parse(s);
        }
    drv::finish(0);
}
