// Public entry points of codepoint coding, for every standard character type.  The iterators are pointers into the text.
#include "fly/types/string/string.hpp"
#define E(n, C) \
    extern "C" bool vp_decode_##n(C const **it, C const *end, std::uint32_t *out) \
    { \
        auto r = fly::BasicString<C>::decode_codepoint(*it, end); \
        if (r) *out = *r; \
        return r.has_value(); \
    } \
    extern "C" bool vp_encode_##n(std::uint32_t cp, std::basic_string<C> *out) \
    { \
        auto r = fly::BasicString<C>::encode_codepoint(cp); \
        if (r) *out = *r; \
        return r.has_value(); \
    }
E(char, char) E(wchar, wchar_t) E(char8, char8_t) E(char16, char16_t) E(char32, char32_t)
