// Base64: cross-check of the stream contracts through the public string API, against an independent RFC 4648 oracle.
// SOURCES: fly/coders/base64/base64_coder.cpp
// FLAGS: -DVP_NO_LOG
#include "common.hpp"
#include "fly/coders/base64/base64_coder.hpp"

// Encoder / Decoder string wrappers are exercised through the stream interface to keep the driver self contained.
struct C : fly::coders::Base64Coder
{
    bool enc(std::string const &in, std::string &out)
    {
        std::istringstream i(in, std::ios::in | std::ios::binary);
        std::ostringstream o(std::ios::out | std::ios::binary | std::ios::trunc);
        bool r = this->encode_internal(i, o);
        out = o.str();
        return r;
    }
    bool dec(std::string const &in, std::string &out)
    {
        std::istringstream i(in, std::ios::in | std::ios::binary);
        std::ostringstream o(std::ios::out | std::ios::binary | std::ios::trunc);
        bool r = this->decode_internal(i, o);
        out = o.str();
        return r;
    }
};
namespace fly::coders {
bool Encoder::encode_string(std::string const &, std::string &) { return false; }
bool Encoder::encode_file(std::filesystem::path const &, std::filesystem::path const &) { return false; }
}

static char const *AL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string oracle(std::string const &in)
{
    std::string o;
    for (std::size_t i = 0; i < in.size(); i += 3)
    {
        unsigned a = (unsigned char)in[i], b = i + 1 < in.size() ? (unsigned char)in[i + 1] : 0, c = i + 2 < in.size() ? (unsigned char)in[i + 2] : 0;
        unsigned v = a << 16 | b << 8 | c;
        o += AL[v >> 18];
        o += AL[(v >> 12) & 63];
        o += i + 1 < in.size() ? AL[(v >> 6) & 63] : '=';
        o += i + 2 < in.size() ? AL[v & 63] : '=';
    }
    return o;
}
static bool wf(std::string const &e, std::string &out)
{
    out.clear();
    if (e.size() % 4) return false;
    for (std::size_t i = 0; i < e.size(); i += 4)
    {
        unsigned v = 0;
        int pad = 0;
        for (int k = 0; k < 4; ++k)
        {
            char c = e[i + k];
            char const *p = c ? std::strchr(AL, c) : nullptr;
            if (p && !pad) v = v << 6 | unsigned(p - AL);
            else if (c == '=' && k >= 2 && i + 4 == e.size())
            {
                v <<= 6;
                ++pad;
            }
            else return false;
        }
        out += char(v >> 16);
        if (pad < 2) out += char(v >> 8);
        if (pad < 1) out += char(v);
    }
    return true;
}
static std::string shorten(std::string const &s) { return s.size() <= 64 ? drv::show(s) : drv::show(s.substr(0, 24)) + ".." + drv::show(s.substr(s.size() - 24)) + " (" + std::to_string(s.size()) + " bytes)"; }

static void round(C &c, std::string const &in)
{
    drv::at_quiet("encode " + shorten(in));
    std::string e, d;
    if (!c.enc(in, e)) drv::fail("encode fails on " + shorten(in));
    if (e != oracle(in)) drv::fail("encode of " + shorten(in) + " is not RFC 4648: " + shorten(e));
    drv::at_quiet("decode " + shorten(e));
    if (!c.dec(e, d)) drv::fail("decode rejects the encoding of " + shorten(in));
    if (d != in) drv::fail("decode(encode(x)) != x for x = " + shorten(in) + ", got " + shorten(d));
}
static void dec(C &c, std::string const &e)
{
    drv::at_quiet("decode " + shorten(e));
    std::string d, w;
    bool ok = wf(e, w), r = c.dec(e, d);
    if (ok != r) drv::fail(std::string("decode ") + (r ? "accepts malformed " : "rejects well-formed ") + shorten(e));
    if (ok && d != w) drv::fail("decode of " + shorten(e) + " gives " + shorten(d));
}
static std::string bytes(std::size_t n)
{
    std::string s(n, 0);
    for (auto &c : s) c = char(drv::rnd());
    return s;
}
int main(int argc, char **argv)
{
    drv::init(argc, argv);
    drv::guard();
    auto cp = std::make_unique<C>();
    C &c = *cp;
    // single groups: every two-byte input and every symbol in every position
    for (unsigned v = drv::S().part; v < 65536; v += drv::S().parts)
    {
        std::string in{char(v >> 8), char(v)};
        round(c, in);
        if (v < 256) round(c, in.substr(1));
        std::string e = "AAAA";
        e[(v >> 8) & 3] = char(v);
        e[(v >> 10) & 3] = char(v >> 12 ? v >> 8 : '=');
        dec(c, e);
        std::string e2 = "Zm9v" + e;
        dec(c, e2);
    }
    // block boundaries
    std::size_t const B = 64 * 1024 * 3, E = 64 * 1024 * 4;
    int i = 0;
    for (std::size_t mult : {1, 2, 3})
        for (int d = -4; d <= 4; ++d)
            if (drv::mine(i++)) round(c, bytes(B * mult + d));
    for (std::size_t mult : {1, 2})
        for (int d = 0; d < 8; ++d)
            if (drv::mine(i++))
            {
                std::string in = bytes(B * mult + d), e = oracle(in);
                dec(c, e);
                auto x = e;
                x[E * mult - 1 - d] = '=';
                dec(c, x);
                x = e;
                x[drv::rnd(x.size())] = char(drv::rnd());
                dec(c, x);
                dec(c, e.substr(0, e.size() - 1));
            }
    while (drv::time_left())
    {
        std::size_t n = drv::rnd(8) ? drv::rnd(40) : drv::rnd(3 * B);
        std::string in = bytes(n);
        round(c, in);
        std::string e = oracle(in);
        for (int k = 0; k < 4 && !e.empty(); ++k)
        {
            auto x = e;
            switch (drv::rnd(4))
            {
                case 0: x[drv::rnd(x.size())] = char(drv::rnd()); break;
                case 1: x[x.size() - 1 - drv::rnd(std::min<std::size_t>(4, x.size()))] = '='; break;
                case 2: x.resize(drv::rnd(x.size())); break;
                default: x.insert(drv::rnd(x.size()), 1, char(drv::rnd(2) ? '=' : 'A')); break;
            }
            dec(c, x);
        }
    }
    drv::finish(0);
}
