// Common part of the native replay / cross-check drivers (bounded evidence; never counted as proof).
#pragma once
#include <algorithm>
#include <array>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

namespace drv {

struct State
{
    std::uint64_t seed = 1, part = 0, parts = 1;
    double seconds = 20;
    std::vector<std::pair<std::string, std::string>> candidates;
    std::vector<std::string> known;
    std::set<std::string> known_hit;
    std::uint64_t cases = 0;
    std::chrono::steady_clock::time_point start = std::chrono::steady_clock::now();
    std::mt19937_64 rng;
};

inline State &S()
{
    static State s;
    return s;
}

inline void init(int argc, char **argv)
{
    auto &s = S();
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") s.seed = std::strtoull(v.c_str(), nullptr, 10);
        else if (a == "--part") s.part = std::strtoull(v.c_str(), nullptr, 10);
        else if (a == "--parts") s.parts = std::strtoull(v.c_str(), nullptr, 10);
        else if (a == "--seconds") s.seconds = std::strtod(v.c_str(), nullptr);
        else if (a == "--candidates")
        {
            std::ifstream f(v);
            std::string l;
            while (std::getline(f, l))
            {
                auto t = l.find('\t');
                if (t != std::string::npos) s.candidates.emplace_back(l.substr(0, t), l.substr(t + 1));
            }
        }
        else if (a == "--known")
        {
            std::ifstream f(v);
            std::string l;
            while (std::getline(f, l)) s.known.push_back(l);
        }
    }
    s.rng.seed(s.seed * 1000003 + s.part * 7919 + 17);
    setvbuf(stdout, nullptr, _IOLBF, 0);
}

inline std::uint64_t rnd() { return S().rng(); }
inline std::uint64_t rnd(std::uint64_t n) { return n ? S().rng() % n : 0; }

inline bool time_left()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - S().start).count() < S().seconds;
}

// Is this case mine?  (deterministic enumerations are spread over the parallel parts)
inline bool mine(std::uint64_t i) { return i % S().parts == S().part; }

inline std::string hex(std::string_view b)
{
    static char const *d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : b)
    {
        r += d[c >> 4];
        r += d[c & 15];
    }
    return r;
}

inline std::string show(std::string_view b)
{
    std::string r = "\"";
    for (unsigned char c : b.substr(0, 200))
    {
        char buf[8];
        if (c >= 0x20 && c < 0x7f && c != '"' && c != '\\') r += static_cast<char>(c);
        else
        {
            snprintf(buf, sizeof buf, "\\x%02x", c);
            r += buf;
        }
    }
    return r + "\"" + (b.size() > 200 ? "... (" + std::to_string(b.size()) + " bytes)" : "");
}

[[noreturn]] inline void finish(int rc)
{
    printf("CASES %llu\n", static_cast<unsigned long long>(S().cases));
    for (auto &k : S().known_hit) printf("KNOWN %s\n", k.c_str());
    fflush(stdout);
    std::_Exit(rc);
}

// A failing input on the real code.
[[noreturn]] inline void fail(std::string what)
{
    for (auto &c : what)
        if (c == '\n' || c == '\r') c = ' ';
    printf("VIOLATION-FOUND %s\n", what.substr(0, 1500).c_str());
    finish(1);
}

// A failing input that a known finding (listed by id) covers.
inline void fail_known(char const *id, std::string what)
{
    for (auto &k : S().known)
        if (k == id)
        {
            S().known_hit.insert(id);
            return;
        }
    fail(std::move(what));
}

// Announce the input about to run, so that a crash or hang can be attributed to it.
inline void at(std::string what)
{
    ++S().cases;
    for (auto &c : what)
        if (c == '\n' || c == '\r') c = ' ';
    printf("AT %s\n", what.substr(0, 600).c_str());
}
inline void count(std::uint64_t n = 1) { S().cases += n; }

// The announcement is written to memory that a crash handler prints, for cases that are too many to print one by one.
inline char g_at[1024];
inline void at_quiet(std::string_view what)
{
    ++S().cases;
    auto n = std::min<std::size_t>(what.size(), sizeof g_at - 1);
    std::memcpy(g_at, what.data(), n);
    g_at[n] = 0;
}
} // namespace drv
extern "C" inline void vp_death()
{
    if (drv::g_at[0])
    {
        for (char *c = drv::g_at; *c; ++c)
            if (*c == '\n' || *c == '\r') *c = ' ';
        printf("AT %s\n", drv::g_at);
    }
    fflush(stdout);
}
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#endif
#include <csignal>
#include <unistd.h>
namespace drv {
inline void on_signal(int s)
{
    vp_death();
    printf("CASES %llu\n", static_cast<unsigned long long>(S().cases));
    fflush(stdout);
    std::_Exit(s == SIGALRM ? 99 : 128 + s);
}
// Crash and hang attribution; a single case may take limit seconds.
inline void guard()
{
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_set_death_callback(vp_death);
#endif
    std::signal(SIGABRT, on_signal);
    std::signal(SIGALRM, on_signal);
    std::set_terminate([] { vp_death(); std::cout << std::flush; std::fprintf(stderr, "terminate called: uncaught exception\n"); std::_Exit(134); });
}
// A copy of a text in memory of exactly its size, so that the sanitizer sees every access outside it.
template <typename C>
struct Exact
{
    explicit Exact(std::basic_string_view<C> s) : m(new C[s.size()]), n_(s.size()) { std::copy(s.begin(), s.end(), m); }
    explicit Exact(std::basic_string<C> const &s) : Exact(std::basic_string_view<C>(s)) {}
    Exact(Exact const &) = delete;
    ~Exact() { delete[] m; }
    C const *p() const { return m; }
    std::size_t n() const { return n_; }
    std::basic_string_view<C> view() const { return {m, n_}; }
    C *m;
    std::size_t n_;
};

inline void watchdog(unsigned secs) { alarm(secs); }
} // namespace drv
