// Escaping and unescaping of one codepoint, for every standard character type.
#include "fly/types/string/string.hpp"
#define E(n, C) \
    extern "C" bool vp_escape_u_##n(C const **it, C const *end, std::basic_string<C> *out) \
    { \
        auto r = fly::BasicString<C>::escape_codepoint<'u'>(*it, end); \
        if (r) *out = *r; \
        return r.has_value(); \
    } \
    extern "C" bool vp_escape_U_##n(C const **it, C const *end, std::basic_string<C> *out) \
    { \
        auto r = fly::BasicString<C>::escape_codepoint<'U'>(*it, end); \
        if (r) *out = *r; \
        return r.has_value(); \
    } \
    extern "C" bool vp_unescape_##n(C const **it, C const *end, std::basic_string<C> *out) \
    { \
        auto r = fly::BasicString<C>::unescape_codepoint(*it, end); \
        if (r) *out = *r; \
        return r.has_value(); \
    }
E(char, char) E(wchar, wchar_t) E(char8, char8_t) E(char16, char16_t) E(char32, char32_t)
