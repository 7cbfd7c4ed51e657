// The JSON parser against an independent reader of RFC 8259.
// FLAGS: -O1 -DSTUB_LOGGER -fsanitize=address,undefined -fno-sanitize-recover=undefined
// SOURCES: fly/parser/json_parser.cpp fly/parser/parser.cpp fly/types/json/json.cpp fly/types/json/json_exception.cpp
#include "jsonref.hpp"
#include "fly/parser/json_parser.hpp"
#include <filesystem>
#include <sys/resource.h>
#include <sys/wait.h>
using P = fly::parser::JsonParser;

static P::Features features(unsigned f)
{
    P::Features r = P::Features::Strict;
    if (f & 1) r = r | P::Features::AllowComments;
    if (f & 2) r = r | P::Features::AllowTrailingComma;
    if (f & 4) r = r | P::Features::AllowAnyType;
    return f == 7 ? P::Features::AllFeatures : r;
}

static void judge(std::string const &s, unsigned f, std::optional<fly::Json> const &got, char const *how)
{
    ref::Reader r(s);
    r.comments = f & 1;
    r.trailing = f & 2;
    r.any = f & 4;
    ref::V v;
    bool ok = r.document(v);
    auto what = [&] { return std::string(how) + " with features " + std::to_string(f) + " of " + drv::show(s); };
    if (r.unsure)
    {
        if (!ok && got) drv::fail(what() + " is accepted");
        return;
    }
    if (ok != got.has_value()) drv::fail(what() + (ok ? " is refused" : " is accepted as " + ref::text(ref::tree(*got))));
    if (ok && !(ref::tree(*got) == v)) drv::fail(what() + " gives " + ref::text(ref::tree(*got)));
}

static void one(std::string const &s, unsigned f)
{
    drv::at_quiet("parse_string with features " + std::to_string(f) + " of " + drv::show(s));
    static std::vector<std::unique_ptr<P>> ps;
    if (ps.empty())
        for (unsigned i = 0; i < 8; ++i) ps.push_back(i == 0 && drv::S().part % 2 ? std::make_unique<P>() : std::make_unique<P>(features(i)));
    judge(s, f, ps[f]->parse_string(s), "parse_string");
}

static void all(std::vector<std::string> const &tokens, std::size_t len, unsigned fs, std::string const &pre, std::string const &post)
{
    std::uint64_t k = 0, total = 1;
    for (std::size_t l = 0; l <= len; ++l, total *= tokens.size())
        for (std::uint64_t n = 0; n < total; ++n)
        {
            if (!drv::mine(k++)) continue;
            std::string s = pre;
            auto m = n;
            for (std::size_t i = 0; i < l; ++i, m /= tokens.size()) s += tokens[m % tokens.size()];
            s += post;
            for (unsigned f = 0; f < 8; ++f)
                if (fs >> f & 1) one(s, f);
        }
}

static std::string encode(std::string const &s, int e)
{
    std::vector<std::uint32_t> cps;
    uni::valid(s, &cps);
    std::string r;
    auto u = [&](std::uint32_t v, int n, bool big) {
        for (int i = 0; i < n; ++i) r += static_cast<char>(v >> 8 * (big ? n - 1 - i : i));
    };
    bool big = e % 2;
    if (e < 2) return (e ? "" : "\xef\xbb\xbf") + s;
    cps.insert(cps.begin(), 0xFEFF);
    for (auto c : cps)
    {
        if (e < 4)
            for (auto x : uni::enc<char16_t>(c)) u(x, 2, big);
        else u(c, 4, big);
    }
    return r;
}

static void file(std::filesystem::path const &dir, std::string const &s, int e, unsigned f)
{
    static char const *const E[] = {"UTF-8 with a mark", "UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE"};
    drv::at_quiet(std::string("parse_file in ") + E[e] + " of " + drv::show(s));
    auto p = dir / "doc.json";
    std::ofstream(p, std::ios::binary) << encode(s, e);
    P parser(features(f));
    judge(s, f, parser.parse_file(p), E[e]);
}

// Nesting in a process of its own; it may not fit the stack.
static bool nested(std::size_t depth)
{
    fflush(stdout);
    auto pid = fork();
    if (pid == 0)
    {
        rlimit no {0, 0};
        setrlimit(RLIMIT_CORE, &no);
        freopen("/dev/null", "w", stderr);
        freopen("/dev/null", "w", stdout);
        P p;
        std::string s(depth, '[');
        s += std::string(depth, ']');
        auto r = p.parse_string(s);
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

static std::string mutate(std::string s)
{
    static std::string const I = "{}[],:\"\\/*-+.eE0123456789 \t\n\r\v\f\0truefalsn\x7f\x80\xff\xc3\xa9u";
    for (auto n = 1 + drv::rnd(2); n--;)
    {
        auto i = drv::rnd(s.size() + 1);
        switch (drv::rnd(5))
        {
            case 0: s.insert(i, 1, I[drv::rnd(I.size())]); break;
            case 1: if (i < s.size()) s[i] = I[drv::rnd(I.size())]; break;
            case 2: s.erase(i, 1 + drv::rnd(2)); break;
            case 3: s.resize(i); break;
            default:
            {
                auto j = drv::rnd(s.size() + 1);
                s.insert(i, s.substr(j, 1 + drv::rnd(6)));
            }
        }
    }
    return s;
}

int main(int argc, char **argv)
{
    drv::init(argc, argv);
    drv::guard();
    for (auto &[k, v] : drv::S().candidates) (void)k, (void)v;
    std::string none;
    if (drv::S().part == 0)
    {
        drv::at("nested arrays");
        if (!nested(1000)) drv::fail("1000 nested arrays crash the parser");
        if (!nested(3000000)) drv::fail_known("json-depth", "3000000 nested arrays overflow the stack of the parser");
    }
    all({"[", "]", "{", "}", ",", ":", "\"a\"", "1", "-", " ", "true", "/", "//", "/**/", "*", "\n", "\"", "\\", "0", ".", "\v", "\f", "null", std::string(1, '\0'), "\xff"}, 3, 0xff, none, none);
    all({"[", "]", "{", "}", ",", ":", "\"a\"", "1", "/*,*/", "\n"}, 5, 0x91, none, none);
    all({",", "1", "\"a\"", ":", " ", "{}", "//\n"}, 4, 0xff, "[", "]");
    all({",", "1", "\"a\"", "\"b\":2", ":", " ", "//\n", "/"}, 4, 0xff, "{", "}");
    all({"-", "+", ".", "e", "E", "0", "1", "9", "x"}, 5, 0x10, none, none);
    all({"-", ".", "e", "+", "0", "1"}, 4, 0x01, "[", "5]");
    all({"\\", "u", "\"", "n", "00", "d8", "DC", "/", "\n", "\x80", "\xc3\xa9", "\x7f"}, 4, 0x01, "[\"", "\"]");
    for (char const *w : {"true", "false", "null", "True", "nul", "nulll", "NaN", "Infinity", "-Infinity", "1e5", "18446744073709551615", "-9223372036854775808", "9223372036854775808", "18446744073709551616", "-9223372036854775809",
                          "123456789012345678901234567890", "0x10", "1e400", "1e5000", "1e-6000", "-0", "-0.0", "1.0", "3.141592653589793238462643", "1 2", "[1 2]", "\"a\" \"b\"", "{\"a\":1 \"b\":2}", "{\"a\" 1}", "[1}", "{]", "'a'"})
        for (unsigned f = 0; f < 8; ++f)
        {
            one(w, f);
            one(std::string("[") + w + "]", f);
            one(std::string("{\"k\":") + w + "}", f);
        }
    char name[] = "/tmp/p17.XXXXXX";
    std::filesystem::path dir = mkdtemp(name);
    while (drv::time_left())
    {
        for (int i = 0; i < 40; ++i)
        {
            unsigned f = static_cast<unsigned>(drv::rnd(8));
            ref::Writer w;
            w.comments = f & 1 ? drv::rnd(4) : drv::rnd(12) == 0;
            w.trailing = f & 2 ? drv::rnd(4) : drv::rnd(12) == 0;
            auto v = ref::random_tree(3, true);
            if (drv::rnd(4) && v.k != ref::V::Arr && v.k != ref::V::Obj)
            {
                ref::V a;
                a.k = ref::V::Arr;
                a.a.push_back(v);
                v = a;
            }
            w.value(v);
            one(w.r, f);
            for (int m = 0; m < 6; ++m) one(mutate(w.r), f);
            if (i == 0 && uni::valid(w.r)) file(dir, w.r, static_cast<int>(drv::rnd(6)), f);
        }
    }
    std::filesystem::remove_all(dir);
    drv::finish(0);
}
