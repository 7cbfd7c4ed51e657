// Conversion of strings to integers, and the digit aggregation of literals.
#include "fly/types/numeric/detail/literal_parser.hpp"
#include "fly/types/string/string.hpp"
#include <cstdint>
#define C(n, T) \
    extern "C" bool vp_to_##n(std::string const *in, T *out) \
    { \
        auto r = fly::BasicString<char>::convert<T>(*in); \
        if (r) *out = *r; \
        return r.has_value(); \
    }
C(c, char) C(sc, signed char) C(uc, unsigned char) C(s, short) C(us, unsigned short) C(i, int) C(ui, unsigned) C(l, long) C(ul, unsigned long)
C(ll, long long) C(ull, unsigned long long)
namespace d = fly::detail;
using S = std::intmax_t;
using U = std::uintmax_t;
// one digit from any value so far
#define D1(B, c, n) \
    extern "C" S vp_ds_##B##_##n(S a) { return d::Aggregator<S, B, c>::aggregate(a); } \
    extern "C" U vp_du_##B##_##n(U a) { return d::Aggregator<U, B, c>::aggregate(a); }
#define D2(B) D1(B, '0', 0) D1(B, '1', 1)
#define D8(B) D2(B) D1(B, '2', 2) D1(B, '3', 3) D1(B, '4', 4) D1(B, '5', 5) D1(B, '6', 6) D1(B, '7', 7)
#define D10(B) D8(B) D1(B, '8', 8) D1(B, '9', 9)
#define D16(B) \
    D10(B) D1(B, 'a', 10) D1(B, 'b', 11) D1(B, 'c', 12) D1(B, 'd', 13) D1(B, 'e', 14) D1(B, 'f', 15) D1(B, 'A', 20) D1(B, 'B', 21) D1(B, 'C', 22) \
        D1(B, 'D', 23) D1(B, 'E', 24) D1(B, 'F', 25)
D2(2) D8(8) D10(10) D16(16)
// a separator, and more digits
extern "C" U vp_sep(U a) { return d::Aggregator<U, 10, '\''>::aggregate(a); }
extern "C" U vp_more(U a) { return d::Aggregator<U, 10, '7', '\'', '3', '5'>::aggregate(a); }
extern "C" U vp_morex(U a) { return d::Aggregator<U, 16, 'F', '\'', '3', 'a'>::aggregate(a); }
extern "C" U vp_none(U a) { return d::Aggregator<U, 10>::aggregate(a); }
