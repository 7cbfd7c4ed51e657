// An independent reader of JSON (RFC 8259) and a plain tree of values.
#pragma once
#include "uni.hpp"
#include "fly/logger/logger.hpp"
#include "fly/types/json/json.hpp"
#include <cerrno>
#include <climits>
#include <cmath>
#include <map>
#include <memory>

#ifdef STUB_LOGGER
// The parsers report refused texts to the default logger; nothing is logged here.
namespace fly::logger {
Logger *Logger::get_default_logger()
{
    alignas(64) static char place[sizeof(Logger)];
    return reinterpret_cast<Logger *>(place);
}
void Logger::log(Level, Trace &&, std::string &&)
{
}
} // namespace fly::logger
#endif

namespace ref {
struct V
{
    enum K { Null, Bool, Int, Float, Str, Arr, Obj } k = Null;
    bool b = false;
    __int128 i = 0;
    long double f = 0;
    std::string s;
    std::vector<V> a;
    std::map<std::string, V> o;
    bool operator==(V const &x) const
    {
        if (k != x.k) return false;
        switch (k)
        {
            case Null: return true;
            case Bool: return b == x.b;
            case Int: return i == x.i;
            case Float: return f == x.f;
            case Str: return s == x.s;
            case Arr: return a == x.a;
            default: return o == x.o;
        }
    }
};
inline V str(std::string s) { V v; v.k = V::Str; v.s = std::move(s); return v; }
inline V integer(__int128 i) { V v; v.k = V::Int; v.i = i; return v; }
inline V boolean(bool b) { V v; v.k = V::Bool; v.b = b; return v; }

inline std::string text(V const &v)
{
    switch (v.k)
    {
        case V::Null: return "null";
        case V::Bool: return v.b ? "true" : "false";
        case V::Int: return (v.i < 0 ? "-" : "") + std::to_string(static_cast<std::uint64_t>(v.i < 0 ? -v.i : v.i));
        case V::Float: return std::to_string(v.f);
        case V::Str: return drv::show(v.s);
        case V::Arr:
        {
            std::string r = "[";
            for (auto &x : v.a) r += (r.size() > 1 ? "," : "") + text(x);
            return r + "]";
        }
        default:
        {
            std::string r = "{";
            for (auto &[k, x] : v.o) r += (r.size() > 1 ? "," : "") + drv::show(k) + ":" + text(x);
            return r + "}";
        }
    }
}

struct Reader
{
    std::string const &t;
    bool comments = false, trailing = false, any = true;
    bool unsure = false; // a number that no integer or floating point type holds
    std::size_t p = 0;
    explicit Reader(std::string const &text) : t(text) { }
    int c(std::size_t k = 0) const { return p + k < t.size() ? static_cast<unsigned char>(t[p + k]) : -1; }
    bool ws()
    {
        for (;;)
        {
            if (c() == ' ' || c() == '\t' || c() == '\n' || c() == '\r') ++p;
            else if (c() == '/')
            {
                if (!comments) return false;
                if (c(1) == '/')
                {
                    while (c() != -1 && c() != '\n') ++p;
                }
                else if (c(1) == '*')
                {
                    auto e = t.find("*/", p + 2);
                    if (e == std::string::npos) return false;
                    p = e + 2;
                }
                else return false;
            }
            else return true;
        }
    }
    static int hex(int x) { return x >= '0' && x <= '9' ? x - '0' : x >= 'a' && x <= 'f' ? x - 'a' + 10 : x >= 'A' && x <= 'F' ? x - 'A' + 10 : -1; }
    bool four(std::uint32_t &r)
    {
        r = 0;
        for (int k = 0; k < 4; ++k, ++p)
        {
            if (hex(c()) < 0) return false;
            r = r * 16 + static_cast<std::uint32_t>(hex(c()));
        }
        return true;
    }
    // the inside of a string, up to the quote (or the end of the text)
    bool inside(std::string &s, bool quoted)
    {
        s.clear();
        for (;;)
        {
            int x = c();
            if (x == -1) return !quoted;
            if (x == '"') return quoted;
            if (x < 0x20) return false;
            if (x == '\\')
            {
                int y = c(1);
                p += 2;
                switch (y)
                {
                    case '"': case '\\': case '/': s += static_cast<char>(y); break;
                    case 'b': s += '\b'; break;
                    case 'f': s += '\f'; break;
                    case 'n': s += '\n'; break;
                    case 'r': s += '\r'; break;
                    case 't': s += '\t'; break;
                    case 'u':
                    {
                        std::uint32_t a, b;
                        if (!four(a)) return false;
                        if (a >= 0xDC00 && a <= 0xDFFF) return false;
                        if (a >= 0xD800 && a <= 0xDBFF)
                        {
                            if (c() != '\\' || c(1) != 'u') return false;
                            p += 2;
                            if (!four(b) || b < 0xDC00 || b > 0xDFFF) return false;
                            a = 0x10000 + (a - 0xD800) * 1024 + (b - 0xDC00);
                        }
                        s += uni::enc<char>(a);
                        break;
                    }
                    default: return false;
                }
                continue;
            }
            std::uint32_t cp;
            auto n = uni::dec(t.data() + p, t.size() - p, cp);
            if (n == 0) return false;
            s.append(t, p, n);
            p += n;
        }
    }
    bool string(std::string &s)
    {
        if (c() != '"') return false;
        ++p;
        if (!inside(s, true)) return false;
        ++p;
        return true;
    }
    bool number(V &v)
    {
        auto b = p;
        bool neg = c() == '-', real = false;
        if (neg) ++p;
        auto digits = [&] { auto q = p; while (c() >= '0' && c() <= '9') ++p; return p != q; };
        if (c() == '0') ++p;
        else if (!digits()) return false;
        if (c() == '.')
        {
            ++p;
            real = true;
            if (!digits()) return false;
        }
        if (c() == 'e' || c() == 'E')
        {
            ++p;
            real = true;
            if (c() == '+' || c() == '-') ++p;
            if (!digits()) return false;
        }
        std::string s = t.substr(b, p - b);
        if (real)
        {
            errno = 0;
            v.k = V::Float;
            v.f = std::strtold(s.c_str(), nullptr);
            if (errno == ERANGE) unsure = true;
            return true;
        }
        v.k = V::Int;
        __int128 i = 0;
        for (char d : s)
            if (d != '-')
            {
                i = i * 10 + (d - '0');
                if (i > (static_cast<__int128>(1) << 100)) i = static_cast<__int128>(1) << 100;
            }
        v.i = neg ? -i : i;
        if (v.i > static_cast<__int128>(UINT64_MAX) || v.i < static_cast<__int128>(INT64_MIN)) unsure = true;
        return true;
    }
    bool value(V &v)
    {
        if (!ws()) return false;
        if (c() == '{')
        {
            ++p;
            v.k = V::Obj;
            if (!ws()) return false;
            if (c() == '}') return ++p, true;
            for (;;)
            {
                std::string k;
                V x;
                if (!ws() || !string(k) || !ws() || c() != ':') return false;
                ++p;
                if (!value(x) || !ws()) return false;
                v.o[k] = std::move(x);
                if (c() == ',')
                {
                    ++p;
                    if (!ws()) return false;
                    if (trailing && c() == '}') return ++p, true;
                }
                else if (c() == '}') return ++p, true;
                else return false;
            }
        }
        if (c() == '[')
        {
            ++p;
            v.k = V::Arr;
            if (!ws()) return false;
            if (c() == ']') return ++p, true;
            for (;;)
            {
                V x;
                if (!value(x) || !ws()) return false;
                v.a.push_back(std::move(x));
                if (c() == ',')
                {
                    ++p;
                    if (!ws()) return false;
                    if (trailing && c() == ']') return ++p, true;
                }
                else if (c() == ']') return ++p, true;
                else return false;
            }
        }
        if (c() == '"')
        {
            v.k = V::Str;
            return string(v.s);
        }
        auto word = [&](char const *w) { auto n = std::strlen(w); if (t.compare(p, n, w) != 0) return false; p += n; return true; };
        if (word("null")) return v.k = V::Null, true;
        if (word("true")) return v = boolean(true), true;
        if (word("false")) return v = boolean(false), true;
        return number(v);
    }
    bool document(V &v)
    {
        if (!value(v) || !ws() || p != t.size()) return false;
        return any || v.k == V::Arr || v.k == V::Obj;
    }
};

// The tree a library value stands for.
inline V tree(fly::Json const &j)
{
    V v;
    if (j.is_null()) v.k = V::Null;
    else if (j.is_boolean()) v = boolean(static_cast<bool>(j));
    else if (j.is_signed_integer()) v = integer(static_cast<std::int64_t>(j));
    else if (j.is_unsigned_integer()) v = integer(static_cast<std::uint64_t>(j));
    else if (j.is_float())
    {
        v.k = V::Float;
        v.f = static_cast<long double>(j);
    }
    else if (j.is_string()) v = str(static_cast<std::string>(j));
    else if (j.is_array())
    {
        v.k = V::Arr;
        for (auto it = j.begin(); it != j.end(); ++it) v.a.push_back(tree(*it));
        if (v.a.size() != j.size()) drv::fail("size() of an array is " + std::to_string(j.size()) + " but it has " + std::to_string(v.a.size()) + " elements");
    }
    else if (j.is_object())
    {
        v.k = V::Obj;
        for (auto it = j.begin(); it != j.end(); ++it) v.o.emplace(it.key(), tree(*it));
        if (v.o.size() != j.size()) drv::fail("size() of an object is " + std::to_string(j.size()) + " but it has " + std::to_string(v.o.size()) + " members");
    }
    else drv::fail("a JSON value of no kind");
    return v;
}

// A text whose escapes denote the string.
inline std::string escaped(std::string const &v)
{
    std::string e;
    for (char c : v)
    {
        char b[8];
        if (static_cast<unsigned char>(c) < 0x20 || c == '"' || c == '\\') snprintf(b, sizeof b, "\\u%04x", static_cast<unsigned>(c)), e += b;
        else e += c;
    }
    return e;
}
// A library value made from a tree, piece by piece.
inline fly::Json make(V const &v)
{
    switch (v.k)
    {
        case V::Null: return nullptr;
        case V::Bool: return v.b;
        case V::Int: return v.i < 0 ? fly::Json(static_cast<std::int64_t>(v.i)) : drv::rnd(2) && v.i <= INT64_MAX ? fly::Json(static_cast<std::int64_t>(v.i)) : fly::Json(static_cast<std::uint64_t>(v.i));
        case V::Float: return v.f;
        case V::Str:
        {
            return escaped(v.s);
        }
        case V::Arr:
        {
            fly::Json j = fly::json_array_type();
            for (auto &x : v.a) j.push_back(make(x));
            return j;
        }
        default:
        {
            fly::json_object_type o;
            for (auto &[k, x] : v.o) o.emplace(escaped(k), make(x));
            return o;
        }
    }
}

inline std::string random_string(bool wild = true)
{
    std::string s;
    for (auto n = drv::rnd(4) ? drv::rnd(5) : drv::rnd(30); n--;)
    {
        switch (drv::rnd(wild ? 8 : 2))
        {
            case 0: case 1: s += static_cast<char>('a' + drv::rnd(4)); break;
            case 2: s += "\"\\/\b\f\n\r\t\x7f"[drv::rnd(9)]; break;
            case 3: s += static_cast<char>(drv::rnd(32)); break;
            case 4: s += uni::enc<char>(0x80 + static_cast<std::uint32_t>(drv::rnd(0x780))); break;
            case 5: s += uni::enc<char>(0x800 + static_cast<std::uint32_t>(drv::rnd(0xD000))); break;
            case 6: s += uni::enc<char>(0xE000 + static_cast<std::uint32_t>(drv::rnd(0x2000))); break;
            default: s += uni::enc<char>(0x10000 + static_cast<std::uint32_t>(drv::rnd(0x100000))); break;
        }
    }
    return s;
}
inline V random_tree(int depth, bool floats = false)
{
    V v;
    switch (drv::rnd(depth > 0 ? 9 : 6))
    {
        case 0: return v;
        case 1: return boolean(drv::rnd(2));
        case 2: return integer(static_cast<std::int64_t>(drv::rnd(40)) - 20);
        case 3:
        {
            static __int128 const B[] = {INT64_MIN, INT64_MAX, static_cast<__int128>(INT64_MAX) + 1, UINT64_MAX, static_cast<__int128>(UINT64_MAX) - 1, INT32_MIN, UINT32_MAX, 1000000007, 0};
            return integer(drv::rnd(2) ? B[drv::rnd(9)] : static_cast<__int128>(drv::rnd()));
        }
        case 4: case 5:
            if (floats && drv::rnd(2))
            {
                v.k = V::Float;
                v.f = static_cast<long double>(static_cast<std::int64_t>(drv::rnd(1000)) - 500) / 8;
                return v;
            }
            return str(random_string());
        case 6:
            v.k = V::Obj;
            for (auto n = drv::rnd(5); n--;) v.o[random_string(drv::rnd(2))] = random_tree(depth - 1, floats);
            return v;
        default:
            v.k = V::Arr;
            for (auto n = drv::rnd(5); n--;) v.a.push_back(random_tree(depth - 1, floats));
            return v;
    }
}

// A text that denotes the tree, with blanks, and comments where allowed.
struct Writer
{
    bool comments = false, trailing = false;
    std::string r;
    void blank()
    {
        while (drv::rnd(4) == 0)
        {
            if (comments && drv::rnd(2))
            {
                static char const *const C[] = {"/**/", "/***/", "/* \" [ */", "// }\n", "//\n", "/*/ */", "/* * / \n **/", "//*\n"};
                r += C[drv::rnd(8)];
            }
            else r += " \t\n\r"[drv::rnd(4)];
        }
    }
    void string(std::string const &s)
    {
        r += '"';
        for (std::size_t i = 0; i < s.size();)
        {
            std::uint32_t c = 0;
            auto n = uni::dec(s.data() + i, s.size() - i, c);
            char b[32];
            static char const *const N = "\b\f\n\r\t\"\\/", *const L = "bfnrt\"\\/";
            char const *q = c && c < 128 ? std::strchr(N, static_cast<int>(c)) : nullptr;
            if (q && drv::rnd(2)) r += '\\', r += L[q - N];
            else if (c < 0x20 || c == '"' || c == '\\' || drv::rnd(6) == 0)
            {
                bool up = drv::rnd(2);
                if (c < 0x10000) snprintf(b, sizeof b, up ? "\\u%04X" : "\\u%04x", c);
                else snprintf(b, sizeof b, up ? "\\u%04X\\u%04x" : "\\u%04x\\u%04X", 0xD800 + (c - 0x10000) / 1024, 0xDC00 + (c - 0x10000) % 1024);
                r += b;
            }
            else r.append(s, i, n);
            i += n;
        }
        r += '"';
    }
    void value(V const &v)
    {
        blank();
        switch (v.k)
        {
            case V::Str: string(v.s); break;
            case V::Float:
            {
                char b[64];
                static char const *const F[] = {"%.3Lf", "%.6Le", "%.5LE"};
                snprintf(b, sizeof b, F[drv::rnd(3)], v.f);
                r += b;
                break;
            }
            case V::Arr:
                r += '[';
                blank();
                for (auto &x : v.a)
                {
                    if (&x != &v.a[0]) r += ',';
                    value(x);
                }
                if (trailing && !v.a.empty() && drv::rnd(3) == 0) r += ',';
                blank();
                r += ']';
                break;
            case V::Obj:
            {
                r += '{';
                bool first = true;
                for (auto &[k, x] : v.o)
                {
                    if (!first) r += ',';
                    blank();
                    if (drv::rnd(8) == 0)
                    {
                        // an earlier duplicate
                        string(k);
                        r += ":0,";
                    }
                    first = false;
                    string(k);
                    blank();
                    r += ':';
                    value(x);
                }
                if (trailing && !first && drv::rnd(3) == 0) r += ',';
                blank();
                r += '}';
                break;
            }
            default: r += text(v);
        }
        blank();
    }
};
} // namespace ref
