// String utilities.
#include "fly/types/string/string.hpp"
template <typename C> struct Abi {};
#define OPS(n, C) \
    using S##n = fly::BasicString<C>; \
    using T##n = std::basic_string<C>; \
    using V##n = std::basic_string_view<C>; \
    extern "C" void vp_replace_chr_##n(T##n *t, C const *s, std::size_t l, C r) { S##n::replace_all(*t, V##n(s, l), r); } \
    extern "C" void vp_replace_str_##n(T##n *t, C const *s, std::size_t l, C const *r, std::size_t m) { S##n::replace_all(*t, V##n(s, l), V##n(r, m)); } \
    extern "C" void vp_remove_##n(T##n *t, C const *s, std::size_t l) { S##n::remove_all(*t, V##n(s, l)); } \
    extern "C" void vp_trim_##n(T##n *t) { S##n::trim(*t); } \
    extern "C" std::size_t vp_split_##n(C const *s, std::size_t l, C d, std::size_t c) { return S##n::split(V##n(s, l), d, c).size(); } \
    extern "C" std::size_t vp_split_all_##n(C const *s, std::size_t l, C d) { return S##n::split(V##n(s, l), d).size(); } \
    extern "C" bool vp_match_##n(C const *s, std::size_t l, C const *p, std::size_t m) { return S##n::wildcard_match(V##n(s, l), V##n(p, m)); }
OPS(c, char) OPS(u16, char16_t) OPS(u32, char32_t)
