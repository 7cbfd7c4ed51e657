// Whole-string validation and encoding conversion, for every pair of standard character types.
#include "fly/types/string/string.hpp"
#define V(n, C) \
    extern "C" bool vp_validate_##n(C const *p, std::size_t s) { return fly::BasicString<C>::validate(std::basic_string_view<C>(p, s)); }
V(char, char) V(wchar, wchar_t) V(char8, char8_t) V(char16, char16_t) V(char32, char32_t)
#define E(n, C, m, D) \
    extern "C" bool vp_convert_##n##_##m(std::basic_string<C> const *in, std::basic_string<D> *out) \
    { \
        auto r = fly::BasicString<C>::convert<std::basic_string<D>>(*in); \
        if (r) *out = *r; \
        return r.has_value(); \
    }
#define F(n, C) E(n, C, char, char) E(n, C, wchar, wchar_t) E(n, C, char8, char8_t) E(n, C, char16, char16_t) E(n, C, char32, char32_t)
F(char, char) F(wchar, wchar_t) F(char8, char8_t) F(char16, char16_t) F(char32, char32_t)
