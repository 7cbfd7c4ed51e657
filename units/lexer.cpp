// Lexer operations from an arbitrary lexer state: any text, any position set by the caller (also past the end).
#include "fly/types/string/lexer.hpp"
template <typename C>
static fly::BasicLexer<C> at(C const *p, std::size_t n, std::size_t pos)
{
    fly::BasicLexer<C> lexer(std::basic_string_view<C>(p, n));
    lexer.set_position(pos);
    return lexer;
}
template <typename T, typename U>
static bool put(std::optional<T> const &r, U *out)
{
    if (r) *out = *r;
    return r.has_value();
}
#define L(n, C) \
    extern "C" bool vp_peek_##n(C const *p, std::size_t s, std::size_t pos, std::size_t off, C *out, std::size_t *after) { auto l = at(p, s, pos); bool r = put(l.peek(off), out); *after = l.position(); return r; } \
    extern "C" bool vp_consume_##n(C const *p, std::size_t s, std::size_t pos, C *out, std::size_t *after) { auto l = at(p, s, pos); bool r = put(l.consume(), out); *after = l.position(); return r; } \
    extern "C" bool vp_consume_if_##n(C const *p, std::size_t s, std::size_t pos, C ch, std::size_t *after) { auto l = at(p, s, pos); bool r = l.consume_if(ch); *after = l.position(); return r; } \
    extern "C" bool vp_number_##n(C const *p, std::size_t s, std::size_t pos, std::uintmax_t *out, std::size_t *after) { auto l = at(p, s, pos); bool r = put(l.consume_number(), out); *after = l.position(); return r; } \
    extern "C" bool vp_hex_##n(C const *p, std::size_t s, std::size_t pos, std::uintmax_t *out, std::size_t *after) { auto l = at(p, s, pos); bool r = put(l.consume_hex_number(), out); *after = l.position(); return r; } \
    extern "C" bool vp_fresh_##n(C const *p, std::size_t s, std::size_t *after, C const **vp, std::size_t *vs) { fly::BasicLexer<C> l(std::basic_string_view<C>(p, s)); *after = l.position(); *vp = l.view().data(); *vs = l.view().size(); return true; }
L(char, char) L(wchar, wchar_t) L(char8, char8_t) L(char16, char16_t) L(char32, char32_t)
