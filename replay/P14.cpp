// Conversion of text to integers against an independent decimal reader; integer literals by compiling batches of random ones.
// FLAGS: -O1 -fsanitize=address,undefined
#include "common.hpp"
#include "fly/types/string/string.hpp"
#include <limits>
#include <unistd.h>
using I = __int128;
// value of the whole string, or nothing
template <typename T> static bool oracle(std::string const &s, T &out)
{
    std::size_t i = 0;
    bool neg = false;
    if (std::is_signed_v<T> && !s.empty() && s[0] == '-') { neg = true; i = 1; }
    if (i == s.size()) return false;
    I v = 0;
    for (; i < s.size(); ++i)
    {
        if (s[i] < '0' || s[i] > '9') return false;
        v = v * 10 + (s[i] - '0');
        if (v > (I(1) << 70)) v = I(1) << 70;
    }
    if (neg) v = -v;
    if (v < I(std::numeric_limits<T>::min()) || v > I(std::numeric_limits<T>::max())) return false;
    out = static_cast<T>(v);
    return true;
}
static std::string dec(I v)
{
    bool neg = v < 0;
    std::string s;
    if (neg) v = -v;
    do { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10))); v /= 10; } while (v);
    return neg ? "-" + s : s;
}
template <typename T> static void one(std::string const &s, char const *name)
{
    ++drv::S().cases;
    T want {};
    bool ok = oracle<T>(s, want);
    auto got = fly::String::convert<T>(s);
    if (got.has_value() != ok) drv::fail("convert<" + std::string(name) + ">(" + drv::show(s) + ") " + (ok ? "is refused" : "is accepted"));
    if (ok && *got != want) drv::fail("convert<" + std::string(name) + ">(" + drv::show(s) + ") = " + dec(I(*got)));
}
static void all(std::string const &s)
{
    one<char>(s, "char"); one<signed char>(s, "signed char"); one<unsigned char>(s, "unsigned char"); one<short>(s, "short");
    one<unsigned short>(s, "unsigned short"); one<int>(s, "int"); one<unsigned>(s, "unsigned"); one<long>(s, "long");
    one<unsigned long>(s, "unsigned long"); one<long long>(s, "long long"); one<unsigned long long>(s, "unsigned long long");
}
static std::string text()
{
    static int const bits[] = {7, 8, 15, 16, 31, 32, 63, 64};
    std::string s;
    switch (drv::rnd(6))
    {
        case 0: s = dec(((I(1) << bits[drv::rnd(8)]) - 2 + I(drv::rnd(4))) * (drv::rnd(2) ? 1 : -1)); break;
        case 1: s = dec(I(drv::rnd() >> drv::rnd(64)) * (drv::rnd(3) ? 1 : -1)); break;
        case 2: s = dec(I(drv::rnd()) * I(1 + drv::rnd(100))); break;
        case 3: { auto n = drv::rnd(30); while (n--) s += static_cast<char>('0' + drv::rnd(10)); break; }
        case 4: { static char const a[] = "0123456789-+ .xeE,\t'"; auto n = drv::rnd(6); while (n--) s += a[drv::rnd(20)]; break; }
        default: s = std::to_string(static_cast<int>(drv::rnd(600)) - 300);
    }
    if (!drv::rnd(6)) s.insert((!s.empty() && s[0] == '-') ? 1 : 0, drv::rnd(25), '0');
    if (!drv::rnd(8) && !s.empty())
    {
        static std::string const junk("-+ .x\0e\t\n\xff:/", 13);
        s.insert(drv::rnd(s.size() + 1), 1, junk[drv::rnd(junk.size())]);
    }
    if (!drv::rnd(30)) s += s;
    return s;
}
struct Literal
{
    std::string text;
    bool ok;
    unsigned long long value;
};
static Literal literal()
{
    struct Ty { char const *suffix; int bits; bool sig; };
    static Ty const types[] = {{"_i8", 8, true}, {"_i16", 16, true}, {"_i32", 32, true}, {"_i64", 64, true}, {"_u8", 8, false},
                               {"_u16", 16, false}, {"_u32", 32, false}, {"_u64", 64, false}, {"_zu", 64, false}};
    auto const &t = types[drv::rnd(9)];
    int const base = std::array {2, 8, 10, 16}[drv::rnd(4)];
    I const limit = (I(1) << (t.bits - (t.sig ? 1 : 0))) - 1;
    I v = 0;
    switch (drv::rnd(6))
    {
        case 0: v = limit - I(drv::rnd(2)); break;
        case 1: v = limit + 1 + I(drv::rnd(2)); break;
        case 2: v = (I(1) << (t.bits == 64 ? 64 : t.bits + drv::rnd(65 - t.bits))) + I(drv::rnd(4)) - 1; break;
        case 3: v = I(drv::rnd() >> drv::rnd(64)) * I(1 + drv::rnd(20)); break;
        case 4: v = (I(1) << 64) * I(1 + drv::rnd(9)) + I(drv::rnd(300)); break;
        default: v = I(drv::rnd()) & limit; v >>= static_cast<int>(drv::rnd(static_cast<std::uint64_t>(t.bits)));
    }
    bool const ok = v <= limit;
    auto const low = static_cast<unsigned long long>(v);
    std::string s;
    for (I x = v; x != 0 || s.empty(); x /= base)
    {
        int const d = static_cast<int>(x % base);
        s.insert(s.begin(), static_cast<char>(d < 10 ? '0' + d : (drv::rnd(2) ? 'a' : 'A') + d - 10));
    }
    if (base != 10 && !drv::rnd(3)) s.insert(0, 1 + drv::rnd(9), '0');
    if (base == 8) s.insert(0, "0");
    // separators between digits
    std::string r;
    auto const every = drv::rnd(5);
    for (std::size_t i = 0; i < s.size(); ++i)
    {
        if (i && every && !drv::rnd(every + 1)) r += '\'';
        r += s[i];
    }
    if (base == 2) r.insert(0, drv::rnd(2) ? "0b" : "0B");
    if (base == 16) r.insert(0, drv::rnd(2) ? "0x" : "0X");
    if (base == 10 && v == 0) r = "0";
    return {r + t.suffix, ok, low};
}
static void batch()
{
    std::vector<Literal> lits;
    std::set<std::string> seen;
    while (lits.size() < 120)
    {
        auto l = literal();
        if (seen.insert(l.text).second) lits.push_back(l);
    }
    lits.push_back({"1.5_u8", false, 0});
    lits.push_back({"0x1.2p0_i32", false, 0});
    lits.push_back({"08_u8", false, 0});
    lits.push_back({"0b12_u16", false, 0});
    lits.push_back({"1e3_u32", false, 0});
    lits.push_back({"12a_i64", false, 0});
    lits.push_back({"0_u8", true, 0});
    lits.push_back({"00_u8", true, 0});
    lits.push_back({"0x0_i8", true, 0});
    char dir[] = "/tmp/vp14.XXXXXX";
    if (!mkdtemp(dir)) return;
    std::string const cpp = std::string(dir) + "/literals.cpp", err = std::string(dir) + "/err";
    {
        std::ofstream f(cpp);
        f << "#include \"fly/types/numeric/literals.hpp\"\nusing namespace fly::literals::numeric_literals;\n";
        for (std::size_t i = 0; i < lits.size(); ++i) f << "constexpr auto v" << i << " = " << lits[i].text << ";\n";
        for (std::size_t i = 0; i < lits.size(); ++i)
            if (lits[i].ok) f << "static_assert(static_cast<unsigned long long>(v" << i << ") == " << lits[i].value << "ull);\n";
            else f << "\n";
    }
    char const *repo = std::getenv("FLYVC_REPO");
    std::string const cmd = "cd " + std::string(dir) + " && g++ -std=c++20 -w -fmax-errors=0 -fsyntax-only -I" + (repo ? repo : "/repo") + " literals.cpp 2>err";
    int const rc = std::system(cmd.c_str());
    std::set<std::size_t> bad;
    bool other = false;
    {
        std::ifstream f(err);
        std::string l;
        while (std::getline(f, l))
        {
            auto p = l.find("literals.cpp:");
            if (p == 0) bad.insert(std::strtoull(l.c_str() + 13, nullptr, 10));
            else if (l.find("literal_parser.hpp") == std::string::npos && l.find("fatal error") != std::string::npos) other = true;
        }
    }
    unlink(cpp.c_str()); unlink(err.c_str()); rmdir(dir);
    if (other || (rc != 0 && bad.empty())) return;  // the compiler could not run
    for (std::size_t i = 0; i < lits.size(); ++i)
    {
        ++drv::S().cases;
        bool const refused = bad.count(i + 3), wrong = bad.count(i + 3 + lits.size());
        if (refused == lits[i].ok) drv::fail("the literal " + lits[i].text + (refused ? " is refused" : " is accepted"));
        if (lits[i].ok && wrong) drv::fail("the literal " + lits[i].text + " has a wrong value");
    }
}
int main(int argc, char **argv)
{
    drv::init(argc, argv);
    std::string cand;
    std::map<int, int> chars;
    long n = -1;
    for (auto const &[k, v] : drv::S().candidates)
    {
        if (k == "n") n = std::strtol(v.c_str(), nullptr, 0);
        else if (k.rfind("text ", 0) == 0) chars[std::atoi(k.c_str() + 5)] = std::atoi(v.c_str());
    }
    if (n >= 0 && n < 24)
    {
        for (int i = 0; i < n; ++i) cand += static_cast<char>(chars[i]);
        all(cand);
    }
    for (auto s : {"", "-", "+", "+1", "-0", "00", " 1", "1 ", "0x1", "1.0", "1e1", "--1", "127", "128", "-128", "-129", "255", "256", "65535", "65536"}) all(s);
    batch();
    double next = 4;
    while (drv::time_left())
    {
        for (int i = 0; i < 2000; ++i) all(text());
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - drv::S().start).count() > next) { batch(); next += 4; }
    }
    drv::finish(0);
}
