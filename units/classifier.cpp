// Public entry points of the character classification, instantiated for every standard character type.
#include "fly/types/string/string.hpp"
#define E(n, C) \
    extern "C" bool vp_is_alpha_##n(C c) { return fly::BasicString<C>::is_alpha(c); } \
    extern "C" bool vp_is_upper_##n(C c) { return fly::BasicString<C>::is_upper(c); } \
    extern "C" bool vp_is_lower_##n(C c) { return fly::BasicString<C>::is_lower(c); } \
    extern "C" bool vp_is_digit_##n(C c) { return fly::BasicString<C>::is_digit(c); } \
    extern "C" bool vp_is_x_digit_##n(C c) { return fly::BasicString<C>::is_x_digit(c); } \
    extern "C" bool vp_is_space_##n(C c) { return fly::BasicString<C>::is_space(c); } \
    extern "C" C vp_to_upper_##n(C c) { return fly::BasicString<C>::to_upper(c); } \
    extern "C" C vp_to_lower_##n(C c) { return fly::BasicString<C>::to_lower(c); }
E(char, char) E(wchar, wchar_t) E(char8, char8_t) E(char16, char16_t) E(char32, char32_t)
