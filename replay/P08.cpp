// Lexer: operation histories on exactly sized texts against an independent model.
#include "uni.hpp"
#include "fly/types/string/lexer.hpp"
template <typename C>
static void history(char const *ty)
{
    static char const *alpha[] = {"0123456789", "0123456789abcdefABCDEF", "0123456789abcdefABCDEFgGzZ@[`{/: \t-+x.", "09", "184467307105"};
    std::basic_string<C> text;
    for (auto segs = 1 + drv::rnd(3); segs--;)
    {
        auto n = drv::rnd(4) ? drv::rnd(25) : drv::rnd(3);
        std::string a = alpha[drv::rnd(5)];
        if (!drv::rnd(3)) for (char c : std::to_string(UINT64_MAX - (drv::rnd(2) ? drv::rnd(3) : 0))) text += C(c);
        for (std::uint64_t i = 0; i < n; ++i) text += !drv::rnd(30) ? C(drv::rnd()) : !drv::rnd(30) ? C(a[drv::rnd(a.size())] + 256 * drv::rnd(3)) : C(a[drv::rnd(a.size())]);
    }
    auto n = text.size();
    std::unique_ptr<C[]> p(new C[n]);
    std::copy(text.begin(), text.end(), p.get());
    fly::BasicLexer<C> lex(std::basic_string_view<C>(p.get(), n));
    std::size_t pos = 0;
    std::string log = std::string("Lexer<") + ty + "> on " + uni::units(text) + ":";
    auto U = [](C c) { return std::uint32_t(std::make_unsigned_t<std::conditional_t<std::is_same_v<C, char8_t>, unsigned char, std::conditional_t<std::is_same_v<C, char16_t>, std::uint16_t, std::conditional_t<std::is_same_v<C, char32_t>, std::uint32_t, C>>>>(c)); };
    auto check = [&](bool ok, std::string what) { if (!ok) drv::fail(log + " -> " + what); };
    if (lex.view().data() != p.get() || lex.view().size() != n) drv::fail(log + " view() is not the text");
    for (auto ops = 1 + drv::rnd(12); ops--;)
    {
        switch (drv::rnd(7))
        {
            case 0:
            {
                pos = drv::rnd(8) ? drv::rnd(n + 2) : drv::rnd(3) ? n + drv::rnd(5) : ~std::size_t(0) - drv::rnd(3);
                log += " set_position(" + std::to_string(pos) + ")";
                lex.set_position(pos);
                break;
            }
            case 1:
            {
                std::size_t off = drv::rnd(8) ? drv::rnd(n + 2) : ~std::size_t(0) - drv::rnd(n + 3);
                log += " peek(" + std::to_string(off) + ")";
                drv::at_quiet(log);
                auto r = lex.peek(off);
                bool ok = pos < n && off < n - pos;
                check(r.has_value() == ok && (!r || *r == text[pos + off]), "wrong result");
                break;
            }
            case 2:
            {
                log += " consume()";
                drv::at_quiet(log);
                auto r = lex.consume();
                bool ok = pos < n;
                check(r.has_value() == ok && (!r || *r == text[pos]), "wrong result");
                pos += ok;
                break;
            }
            case 3:
            {
                C ch = pos < n && drv::rnd(3) ? text[pos] : C(drv::rnd(4) ? U(n ? text[drv::rnd(n)] : C('0')) + 256 * drv::rnd(2) : 0);
                log += " consume_if(" + std::to_string(U(ch)) + ")";
                drv::at_quiet(log);
                bool r = lex.consume_if(ch), ok = pos < n && text[pos] == ch;
                check(r == ok, "wrong result");
                pos += ok;
                break;
            }
            default:
            {
                bool hex = drv::rnd(2);
                log += hex ? " consume_hex_number()" : " consume_number()";
                drv::at_quiet(log);
                auto r = hex ? lex.consume_hex_number() : lex.consume_number();
                unsigned __int128 v = 0;
                bool any = false, big = false;
                while (pos < n)
                {
                    auto c = U(text[pos]);
                    int d = c >= '0' && c <= '9' ? c - '0' : hex && c >= 'a' && c <= 'f' ? c - 'a' + 10 : hex && c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
                    if (d < 0) break;
                    v = v * (hex ? 16 : 10) + d;
                    big |= v >> 64 != 0;
                    if (big) v = 0;
                    any = true;
                    ++pos;
                }
                check(r.has_value() == (any && !big), r ? "yields a number" : "refuses the number");
                check(!r || *r == std::uint64_t(v), "yields " + std::to_string(r.value_or(0)));
            }
        }
        check(lex.position() == pos, "position " + std::to_string(lex.position()) + ", not " + std::to_string(pos));
    }
}
int main(int argc, char **argv)
{
    drv::init(argc, argv);
    drv::guard();
    while (drv::time_left())
        for (int i = 0; i < 500; ++i)
        {
            history<char>("char");
            history<wchar_t>("wchar_t");
            history<char8_t>("char8_t");
            history<char16_t>("char16_t");
            history<char32_t>("char32_t");
        }
    drv::finish(0);
}
