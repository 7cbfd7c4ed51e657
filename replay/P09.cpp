// IPv4 addresses against an independent parser and printer.
// FLAGS: -O1 -fsanitize=address,undefined
#include "common.hpp"
#include "uni.hpp"
#include "fly/net/ipv4_address.hpp"
using A = fly::net::IPv4Address;
static bool oracle(std::string const &s, std::uint32_t &out)
{
    std::vector<std::string> parts(1);
    for (char c : s) c == '.' ? parts.emplace_back() : parts.back() += c, void();
    if (parts.size() > 4) return false;
    std::uint64_t v = 0;
    for (std::size_t i = 0; i < parts.size(); ++i)
    {
        std::string p = parts[i];
        if (p.empty() || p.find_first_not_of("0123456789") != std::string::npos) return false;
        p.erase(0, std::min(p.find_first_not_of('0'), p.size()));
        if (p.size() > 10) return false;
        std::uint64_t x = p.empty() ? 0 : std::stoull(p);
        int rest = i + 1 == parts.size() ? 8 * (4 - static_cast<int>(i)) : 8;
        if (x >> rest) return false;
        v = v << rest | x;
    }
    out = static_cast<std::uint32_t>(v);
    return true;
}
static std::uint32_t swap(std::uint32_t h) { return h << 24 | (h & 0xff00) << 8 | (h >> 8 & 0xff00) | h >> 24; }
static void parse(std::string const &s)
{
    drv::at_quiet(s);
    std::uint32_t h = 0;
    bool want = oracle(s, h);
    drv::Exact<char> e(s);
    auto r = A::from_string(std::string_view(e.p(), e.n()));
    if (r.has_value() != want) drv::fail("from_string(" + drv::show(s) + ") is " + (r ? "accepted" : "refused"));
    if (r && (r->host_order() != h || r->network_order() != swap(h))) drv::fail("from_string(" + drv::show(s) + ") = " + std::to_string(r->host_order()) + ", not " + std::to_string(h));
}
static void address(std::uint32_t h)
{
    drv::at_quiet("address " + std::to_string(h));
    A a(swap(h)), b(A::address_type {static_cast<std::uint8_t>(h >> 24), static_cast<std::uint8_t>(h >> 16), static_cast<std::uint8_t>(h >> 8), static_cast<std::uint8_t>(h)});
    std::string want = std::to_string(h >> 24) + "." + std::to_string(h >> 16 & 255) + "." + std::to_string(h >> 8 & 255) + "." + std::to_string(h & 255);
    if (a != b || a.network_order() != swap(h) || b.host_order() != h || a.host_order() != h) drv::fail("byte orders of " + want);
    auto s = fly::string::format("{}", a);
    if (s != want) drv::fail("address " + want + " prints as " + s);
    auto r = A::from_string(s);
    if (!r || *r != a) drv::fail("address " + want + " is not read back");
    std::uint32_t o = static_cast<std::uint32_t>(drv::rnd());
    if ((A(o) < a) != (o < swap(h)) || (A(o) == a) != (o == swap(h))) drv::fail("comparison of " + want);
    for (std::string t : {want + ".", "." + want, want + " ", " " + want, want + ".1", "0" + want, "00000000000000000000000" + want}) parse(t);
}
static std::string number()
{
    static std::uint64_t const edge[] = {0, 1, 9, 10, 255, 256, 257, 65535, 65536, 16777215, 16777216, 4294967295ULL, 4294967296ULL, 42949672950ULL, 9223372036854775807ULL, 18446744073709551615ULL};
    std::string s;
    switch (drv::rnd(8))
    {
        case 0: case 1: s = std::to_string(edge[drv::rnd(16)] + drv::rnd(3) - 1); break;
        case 2: case 3: case 4: s = std::to_string(drv::rnd(300)); break;
        case 5: s = std::to_string(drv::rnd() >> drv::rnd(64)); break;
        case 6: s = "184467440737095516" + std::to_string(drv::rnd(100000)); break;
        case 7: s = ""; break;
    }
    if (drv::rnd(6) == 0) s = std::string(drv::rnd(30), '0') + s;
    return s;
}
int main(int argc, char **argv)
{
    drv::init(argc, argv);
    drv::guard();
    auto &c = drv::S().candidates;
    {
        std::string s;
        std::map<std::string, std::string> m(c.begin(), c.end());
        for (int i = 0; i < 16 && m.count("text " + std::to_string(i)); ++i) s += static_cast<char>(std::atoi(m["text " + std::to_string(i)].c_str()));
        if (m.count("n")) s.resize(std::min<std::size_t>(s.size(), std::strtoull(m["n"].c_str(), nullptr, 10)));
        parse(s);
        if (m.count("network")) address(swap(static_cast<std::uint32_t>(std::strtoull(m["network"].c_str(), nullptr, 10))));
        for (auto &[k, v] : c) address(static_cast<std::uint32_t>(std::strtoull(v.c_str(), nullptr, 10)));
    }
    // every text of up to 5 symbols of a small alphabet
    static char const alpha[] = "0129.x ";
    std::uint64_t i = 0;
    for (int n = 0; n <= 5; ++n)
    {
        std::uint64_t total = 1;
        for (int k = 0; k < n; ++k) total *= 7;
        for (std::uint64_t v = 0; v < total; ++v)
        {
            if (!drv::mine(i++)) continue;
            std::string s;
            for (std::uint64_t x = v, k = 0; k < static_cast<std::uint64_t>(n); ++k, x /= 7) s += alpha[x % 7];
            parse(s);
        }
    }
    for (std::uint32_t o = drv::S().part; o < 256; o += drv::S().parts)
        for (int s = 0; s < 32; s += 8) address(o << s), address(~(o << s)), address(o * 0x01010101u);
    while (drv::time_left())
        for (int k = 0; k < 200; ++k)
        {
            address(static_cast<std::uint32_t>(drv::rnd()));
            std::string s = number();
            for (auto n = drv::rnd(5); n--;) s += (drv::rnd(20) ? "." : std::string(1, static_cast<char>(drv::rnd(256)))) + number();
            parse(s);
            if (!s.empty()) s[drv::rnd(s.size())] = static_cast<char>(drv::rnd(256)), parse(s);
        }
    drv::finish(0);
}
