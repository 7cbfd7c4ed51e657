// Bit streams against a plain list of bits.
// SOURCES: fly/types/bit_stream/bit_stream_reader.cpp fly/types/bit_stream/bit_stream_writer.cpp fly/types/bit_stream/detail/bit_stream.cpp
// FLAGS: -O1 -fsanitize=address,undefined
#include "common.hpp"
#include "fly/types/bit_stream/bit_stream_reader.hpp"
#include "fly/types/bit_stream/bit_stream_writer.hpp"
using Bits = std::vector<bool>;
static std::uint64_t val(std::uint64_t m) { switch (drv::rnd(4)) { case 0: return ~0ull; case 1: return drv::rnd(4); case 2: return 1ull << drv::rnd(64); default: return drv::rnd() & m; } }
static std::string name(Bits const &b) { std::string s; for (std::size_t i = 0; i < b.size() && i < 300; ++i) s += b[i] ? '1' : '0'; return std::to_string(b.size()) + " bits " + s; }
struct Reader
{
    fly::BitStreamReader &r;
    Bits const &b;
    std::size_t at = 0;
    template <class T> void check(char const *what, T v, unsigned got, unsigned n)
    {
        unsigned left = static_cast<unsigned>(std::min<std::size_t>(n, b.size() - at));
        std::uint64_t want = 0;
        for (unsigned i = 0; i < n; ++i) want = want << 1 | (i < left && b[at + i] ? 1u : 0u);
        if (got != left) drv::fail(std::string(what) + " of " + std::to_string(n) + " bits at " + std::to_string(at) + " returns " + std::to_string(got) + " of " + name(b));
        if (v != static_cast<T>(want)) drv::fail(std::string(what) + " of " + std::to_string(n) + " bits at " + std::to_string(at) + " is " + std::to_string(v) + ", not " + std::to_string(want) + " of " + name(b));
    }
    template <class T> void read(unsigned n)
    {
        T v = static_cast<T>(drv::rnd());
        unsigned g = r.read_bits(v, static_cast<fly::byte_type>(n));
        check("read", v, g, n);
        at += g;
    }
    template <class T> void peek(unsigned n)
    {
        T v = static_cast<T>(drv::rnd());
        unsigned g = r.peek_bits(v, static_cast<fly::byte_type>(n));
        check("peek", v, g, n);
        if (drv::rnd(2))
        {
            unsigned d = static_cast<unsigned>(drv::rnd(g + 1));
            r.discard_bits(static_cast<fly::byte_type>(d));
            at += d;
        }
    }
    void step(unsigned kind, unsigned n)
    {
        switch (kind)
        {
            case 0: read<std::uint8_t>(n % 8 + 1); break;
            case 1: read<std::uint16_t>(n % 16 + 1); break;
            case 2: read<std::uint32_t>(n % 32 + 1); break;
            case 3: read<std::uint64_t>(n % 64 + 1); break;
            case 4: peek<std::uint8_t>(n % 8 + 1); break;
            case 5: peek<std::uint16_t>(n % 16 + 1); break;
            case 6: peek<std::uint32_t>(n % 32 + 1); break;
            case 7: { std::uint8_t v = 0; bool ok = r.read_byte(v); check("read_byte", v, ok ? 8 : static_cast<unsigned>(std::min<std::size_t>(7, b.size() - at)), 8); at = std::min(b.size(), at + 8); } break;
            case 8: { std::uint16_t v = 0; bool ok = r.read_word(v); check("read_word", v, ok ? 16 : static_cast<unsigned>(std::min<std::size_t>(15, b.size() - at)), 16); at = std::min(b.size(), at + 16); } break;
        }
        bool end = at == b.size();
        if (r.fully_consumed() != end) drv::fail("fully_consumed at " + std::to_string(at) + " of " + name(b));
    }
};
static std::string pack(Bits const &b)
{
    std::string f(1 + (b.size() + 7) / 8, '\0');
    f[0] = static_cast<char>(0x1a << 3 | ((8 - b.size() % 8) % 8));
    for (std::size_t i = 0; i < b.size(); ++i) if (b[i]) f[1 + i / 8] = static_cast<char>(f[1 + i / 8] | 0x80 >> i % 8);
    return f;
}
static void readall(std::string const &f, Bits const &b)
{
    for (int mode = 0; mode < 3; ++mode)
    {
        std::istringstream in(f);
        fly::BitStreamReader r(in);
        if (!in || r.header() != static_cast<unsigned char>(f[0])) drv::fail("header of " + name(b));
        Reader rd {r, b};
        unsigned kind = static_cast<unsigned>(drv::rnd(9)), n = static_cast<unsigned>(drv::rnd(64));
        for (int extra = 3; extra > 0;)
        {
            if (mode == 0) kind = static_cast<unsigned>(drv::rnd(9)), n = static_cast<unsigned>(drv::rnd(64));
            else if (mode == 1 && rd.at == b.size()) kind = kind % 4;
            else if (mode == 1) n = static_cast<unsigned>(drv::rnd(64));
            std::size_t before = rd.at;
            rd.step(kind, n);
            if (rd.at == before && mode > 0) kind = static_cast<unsigned>(drv::rnd(4));
            if (rd.at == b.size()) --extra;
        }
    }
}
static void round()
{
    Bits b;
    std::ostringstream out;
    bool ok;
    {
        fly::BitStreamWriter w(out);
        int fields = static_cast<int>(drv::rnd(drv::rnd(4) ? 12 : 60)), fixed = drv::rnd(3) ? -1 : static_cast<int>(drv::rnd(64));
        for (int i = 0; i < fields; ++i)
        {
            unsigned n = fixed >= 0 ? static_cast<unsigned>(fixed) : static_cast<unsigned>(drv::rnd(64));
            std::uint64_t v = val(~0ull);
            auto put = [&](unsigned k) { for (unsigned j = k; j-- > 0;) b.push_back(v >> j & 1); };
            switch (drv::rnd(6))
            {
                case 0: n = n % 8 + 1; w.write_bits(static_cast<std::uint8_t>(v), static_cast<fly::byte_type>(n)); put(n); break;
                case 1: n = n % 16 + 1; w.write_bits(static_cast<std::uint16_t>(v), static_cast<fly::byte_type>(n)); put(n); break;
                case 2: n = n % 32 + 1; w.write_bits(static_cast<std::uint32_t>(v), static_cast<fly::byte_type>(n)); put(n); break;
                case 3: n = n % 64 + 1; w.write_bits(v, static_cast<fly::byte_type>(n)); put(n); break;
                case 4: w.write_byte(static_cast<std::uint8_t>(v)); put(8); break;
                case 5: w.write_word(static_cast<std::uint16_t>(v)); put(16); break;
            }
        }
        drv::at_quiet(name(b));
        ok = w.finish();
    }
    if (!ok) drv::fail("finish fails for " + name(b));
    std::string f = out.str();
    if (f != pack(b)) drv::fail("the file of " + name(b) + " is " + drv::show(f));
    readall(f, b);
    // the same with a file which cannot hold the data
    if (drv::rnd(8) == 0)
    {
        std::ostringstream bad;
        bad.setstate(drv::rnd(2) ? std::ios::failbit : std::ios::badbit);
        fly::BitStreamWriter w(bad);
        w.write_byte(1);
        if (w.finish()) drv::fail("finish succeeds on a failed stream");
    }
}
static void arbitrary()
{
    // any file with a proper header; the padding must fit in the last byte
    std::size_t n = drv::rnd(40);
    Bits b;
    unsigned pad = n ? static_cast<unsigned>(drv::rnd(8)) : 0;
    for (std::size_t i = 0; i < 8 * n; ++i) b.push_back(drv::rnd() & 1);
    std::string f = pack(b);
    f[0] = static_cast<char>(0x1a << 3 | pad);
    b.resize(b.size() - pad);
    drv::at_quiet("file " + drv::show(f));
    readall(f, b);
    f[0] = static_cast<char>(drv::rnd());
    if (drv::rnd(9) == 0) f.clear();
    std::istringstream in(f);
    fly::BitStreamReader r(in);
    bool good = !f.empty() && (static_cast<unsigned char>(f[0]) >> 3) == 0x1a;
    if (in.good() != good && !in.fail() != good) drv::fail("header of file " + drv::show(f));
    if (!good)
    {
        std::uint32_t v = 5;
        if (r.read_bits(v, fly::byte_type(8)) != 0) drv::fail("a file with a bad header is read: " + drv::show(f));
    }
}
int main(int argc, char **argv)
{
    drv::init(argc, argv);
    while (drv::time_left())
    {
        round();
        arbitrary();
    }
    drv::finish(0);
}
