// The state of a lexer, through its public interface.
#pragma once
#include "fly/types/string/lexer.hpp"
extern "C" std::size_t vp_lexer_position(fly::Lexer *l) { return l->position(); }
extern "C" void vp_lexer_set(fly::Lexer *l, std::size_t p) { l->set_position(p); }
extern "C" char const *vp_lexer_data(fly::Lexer *l) { return l->view().data(); }
extern "C" std::size_t vp_lexer_size(fly::Lexer *l) { return l->view().size(); }
// consume_hex_number from any position of any text
extern "C" bool vp_hex_number(char const *p, std::size_t n, std::size_t pos, std::uintmax_t *out, std::size_t *after)
{
    fly::Lexer l(std::string_view(p, n));
    l.set_position(pos);
    auto r = l.consume_hex_number();
    if (r) *out = *r;
    *after = l.position();
    return r.has_value();
}
extern "C" bool vp_number(char const *p, std::size_t n, std::size_t pos, std::uintmax_t *out, std::size_t *after)
{
    fly::Lexer l(std::string_view(p, n));
    l.set_position(pos);
    auto r = l.consume_number();
    if (r) *out = *r;
    *after = l.position();
    return r.has_value();
}
