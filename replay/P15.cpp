// JSON strings of every type against an independent reader.
// FLAGS: -O1 -DSTUB_LOGGER -fsanitize=address,undefined -fno-sanitize-recover=undefined
// SOURCES: fly/parser/json_parser.cpp fly/parser/parser.cpp fly/types/json/json.cpp fly/types/json/json_exception.cpp
#include "jsonref.hpp"
#include "fly/parser/json_parser.hpp"

// How a string denotes another: (valid, codepoints as UTF-8).
template <typename C>
static bool denotes(std::basic_string<C> const &s, std::string &out)
{
    std::vector<std::uint32_t> cps;
    if (!uni::valid(s, &cps)) return false;
    std::string u;
    for (auto c : cps) u += uni::enc<char>(c);
    ref::Reader r(u);
    return r.inside(out, false) && r.p == u.size();
}

static void roundtrip(fly::Json const &j, std::string const &v, std::string const &what)
{
    auto text = j.serialize();
    ref::Reader r(text);
    ref::V x;
    if (!r.document(x) || x.k != ref::V::Str || x.s != v) drv::fail(what + " is written as " + drv::show(text) + ", which does not denote " + drv::show(v));
    static fly::parser::JsonParser p(fly::parser::JsonParser::Features::AllFeatures);
    auto back = p.parse_string(text);
    if (!back || !back->is_string() || !(*back == j) || static_cast<std::string>(*back) != v) drv::fail(what + ": its text " + drv::show(text) + " is not parsed as the same string");
}

template <typename C>
static void one(std::basic_string<C> const &s, char const *ty, bool serialize = true)
{
    auto what = std::string("a JSON string of ") + ty + " " + uni::units(s);
    drv::at_quiet(what);
    std::string want;
    bool ok = denotes(s, want);
    auto attempt = [&](char const *how, auto f) {
        try
        {
            fly::Json j = f();
            if (!ok) drv::fail(what + " (" + how + ") is accepted as " + drv::show(static_cast<std::string>(j)));
            if (!j.is_string()) drv::fail(what + " (" + how + ") is not a string");
            if (static_cast<std::string>(j) != want) drv::fail(what + " (" + how + ") holds " + drv::show(static_cast<std::string>(j)) + " instead of " + drv::show(want));
            return j;
        }
        catch (fly::JsonException const &)
        {
            if (ok) drv::fail(what + " (" + how + ") is refused, but denotes " + drv::show(want));
        }
        return fly::Json();
    };
    auto j = attempt("string", [&] { return fly::Json(s); });
    if (drv::rnd(4) == 0)
    {
        attempt("moved string", [&] { auto c = s; return fly::Json(std::move(c)); });
        if (s.find(C(0)) == s.npos) attempt("character array", [&] { return fly::Json(s.c_str()); });
        // as the key of a member
        try
        {
            fly::Json o;
            o[s] = 1;
            if (!ok) drv::fail("the key " + what + " is accepted");
            if (o.begin().key() != want) drv::fail("the key " + what + " is " + drv::show(o.begin().key()));
            if (!o.contains(s) || o.count(s) != 1) drv::fail("the key " + what + " is not found again");
            auto t = o.serialize();
            ref::Reader r(t);
            ref::V x;
            if (!r.document(x) || x.k != ref::V::Obj || x.o.size() != 1 || x.o.begin()->first != want) drv::fail("the key " + what + " is written as " + drv::show(t));
        }
        catch (fly::JsonException const &)
        {
            if (ok) drv::fail("the key " + what + " is refused");
        }
    }
    if (!ok) return;
    if (serialize) roundtrip(j, want, what);
    // every other string type
    auto into = [&](auto c, char const *to) {
        using D = decltype(c);
        std::vector<std::uint32_t> cps;
        uni::valid(want, &cps);
        std::basic_string<D> e;
        for (auto x : cps) e += uni::enc<D>(x);
        if (static_cast<std::basic_string<D>>(j) != e) drv::fail(what + " is given as the " + to + " string " + uni::units(static_cast<std::basic_string<D>>(j)));
    };
    if (drv::rnd(4) == 0) into(wchar_t(), "wchar_t"), into(char8_t(), "char8_t"), into(char16_t(), "char16_t"), into(char32_t(), "char32_t");
}

template <typename C>
static std::basic_string<C> widen(std::string const &s)
{
    std::basic_string<C> r;
    for (unsigned char c : s) r += static_cast<C>(c);
    return r;
}

static void ascii(std::string const &s)
{
    one<char>(s, "char");
    switch (drv::rnd(4))
    {
        case 0: one(widen<wchar_t>(s), "wchar_t"); break;
        case 1: one(widen<char8_t>(s), "char8_t"); break;
        case 2: one(widen<char16_t>(s), "char16_t"); break;
        default: one(widen<char32_t>(s), "char32_t"); break;
    }
}

static std::string hex4(std::uint32_t v)
{
    char b[16];
    snprintf(b, sizeof b, drv::rnd(2) ? "%04x" : "%04X", v & 0xFFFF);
    return b;
}

static std::string piece()
{
    static char const *esc = "\"\\/bfnrtu0a'xUv N";
    std::string r;
    switch (drv::rnd(9))
    {
        case 0: return std::string("\\") + esc[drv::rnd(18)];
        case 1: return std::string("\\") + esc[drv::rnd(8)];
        case 2: return "\\u" + hex4(drv::rnd());
        case 3: return "\\u" + hex4(0xD800 + drv::rnd(0x400)) + "\\u" + hex4(0xDC00 + drv::rnd(0x400));
        case 4: return "\\u" + hex4(0xD700 + drv::rnd(0xA00)) + "\\u" + hex4(0xDB00 + drv::rnd(0x600));
        case 5: return std::string(1, static_cast<char>(drv::rnd(128)));
        case 6: return uni::enc<char>(uni::interesting());
        case 7: return std::string(drv::rnd(20), 'a');
        default: return "\\u" + hex4(drv::rnd(0x100));
    }
}

template <typename C>
static std::basic_string<C> recode(std::string const &s)
{
    std::vector<std::uint32_t> cps;
    std::basic_string<C> r;
    if (!uni::valid(s, &cps)) return r;
    for (auto c : cps) r += uni::enc<C>(c);
    return r;
}

int main(int argc, char **argv)
{
    drv::init(argc, argv);
    drv::guard();
    std::uint64_t k = 0;
    // short texts over the symbols of escapes
    static std::string const tk[] = {"\\", "\"", "u", "n", "0", "D8", "dc", "00", "a", "/", "\n", "\xc3", "\xa9", std::string(1, '\0'), "\\u", "\x7f", "U"};
    for (std::size_t len = 0, total = 1; len <= 4; ++len, total *= std::size(tk))
        for (std::size_t n = 0; n < total; ++n)
        {
            if (!drv::mine(k++)) continue;
            std::string s;
            for (std::size_t i = 0, m = n; i < len; ++i, m /= std::size(tk)) s += tk[m % std::size(tk)];
            one<char>(s, "char");
            if (drv::rnd(8) == 0) ascii(s);
        }
    // escapes of every length, cut and continued
    for (std::uint32_t v = 0; v < 0x10000; ++v)
    {
        if (!drv::mine(k++)) continue;
        auto e = "\\u" + hex4(v);
        one<char>(e, "char");
        switch (v % 7)
        {
            case 0: one<char>("x" + e + "y" + e, "char"); break;
            case 1: one<char>(e.substr(0, 2 + drv::rnd(4)), "char"); break;
            case 2: one<char>(e + e, "char"); break;
            case 3: one<char>(e + "\\udc" + hex4(v).substr(2), "char"); break;
            case 4: ascii("\\ud8" + hex4(v).substr(2) + e); break;
            case 5: ascii(e + "\\" + std::string(1, static_cast<char>(drv::rnd(128)))); break;
            default: { auto c = e; c[2 + drv::rnd(4)] = static_cast<char>(drv::rnd(256)); one<char>(c, "char"); }
        }
    }
    // every codepoint
    for (std::uint32_t c = 0; c <= 0x10FFFF; ++c)
    {
        if (!uni::scalar(c) || (c > 0x3000 && c % 16 != drv::S().seed % 16 && (c & 0xFFFF) > 0x10 && (c & 0xFFFF) < 0xFFF0) || !drv::mine(k++)) continue;
        switch (c % 5)
        {
            case 0: one(uni::enc<char>(c), "char"); break;
            case 1: one(uni::enc<wchar_t>(c) + L"\\n", "wchar_t"); break;
            case 2: one(u8"a" + uni::enc<char8_t>(c), "char8_t"); break;
            case 3: one(uni::enc<char16_t>(c) + uni::enc<char16_t>(c), "char16_t"); break;
            default: one(uni::enc<char32_t>(c), "char32_t"); break;
        }
        one(uni::enc<char>(c) + "\\t" + uni::enc<char>(c), "char");
    }
    while (drv::time_left())
        for (int r = 0; r < 64; ++r)
        {
            std::string s;
            for (auto n = drv::rnd(7); n; --n) s += piece();
            if (drv::rnd(3) == 0 && !s.empty()) s.erase(drv::rnd(s.size()), 1 + drv::rnd(2));
            if (drv::rnd(8) == 0 && !s.empty()) s[drv::rnd(s.size())] = static_cast<char>(drv::rnd());
            one<char>(s, "char");
            switch (drv::rnd(6))
            {
                case 0: one(recode<wchar_t>(s), "wchar_t"); break;
                case 1: one(recode<char8_t>(s), "char8_t"); break;
                case 2: one(recode<char16_t>(s), "char16_t"); break;
                case 3: one(recode<char32_t>(s), "char32_t"); break;
                case 4: one(uni::random_any<char16_t>(drv::rnd(8)), "char16_t"), one(uni::random_any<char32_t>(drv::rnd(8)), "char32_t"); break;
                default: one(uni::random_any<char>(drv::rnd(8)), "char"), one(uni::random_any<char8_t>(drv::rnd(8)), "char8_t"); break;
            }
        }
    drv::finish(0);
}
