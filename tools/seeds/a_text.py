PRE = '#include <cstdio>\n#include <cstdint>\n#include <string>\n#include <cstdlib>\n'
U = 'fly/types/string/detail/unicode.hpp'
STR = PRE + '#include "fly/types/string/string.hpp"\n'
SEEDS = [
 dict(id='p04-overlong', property='P04', edits=[(U, '((codepoint >= 0x80) && (codepoint < 0x800) && (bytes != 2))', '((codepoint >= 0x80) && (codepoint < 0x800) && (bytes == 3))')],
      needs='a four byte sequence that is an overlong form of U+0080..U+07FF', breaks='decode_codepoint<char> accepts F0 80 82 80 (an ill-formed encoding) as U+0080',
      demo=STR + 'int main() { char const s[] = "\\xF0\\x80\\x82\\x80"; char const *p = s; auto r = fly::BasicString<char>::decode_codepoint(p, s + 4); return r ? 1 : 0; }\n', src=''),
 dict(id='p04-range', property='P04', edits=[(U, 'else if (codepoint > s_max_codepoint)', 'else if ((codepoint & 0x1fffff) > s_max_codepoint)')],
      needs='a 32 bit value above 0x1FFFFF whose low 21 bits are at most 0x10FFFF', breaks='encode_codepoint accepts 0x200041',
      demo=STR + 'int main() { return fly::BasicString<char32_t>::encode_codepoint(0x200041) ? 1 : 0; }\n', src=''),
 dict(id='p05-fastpath', property='P05', edits=[(U, """    while (it != end)
    {
        if (auto codepoint = decode_codepoint(it, end); codepoint)
        {
            DesiredUnicodeType""", """    while (it != end)
    {
        if ((*it & 0xfff80) == 0)
        {
            *out++ = static_cast<typename DesiredStringType::value_type>(*it++);
            continue;
        }
        else if (auto codepoint = decode_codepoint(it, end); codepoint)
        {
            DesiredUnicodeType""")],
      needs='a UTF-32 string with a codepoint such as U+100041', breaks='convert from UTF-32 takes U+100041 for the letter A (and accepts values above U+10FFFF)',
      demo=STR + 'int main() { std::u32string s(1, 0x100041); auto r = fly::BasicString<char32_t>::convert<std::string>(s); return r && *r == "\\xF4\\x80\\x81\\x81" ? 0 : 1; }\n', src=''),
 dict(id='p06-boundary', property='P06', edits=[(U, '    if ((codepoint <= 0x1f) || (codepoint >= 0x7f))\n    {\n        if (codepoint <= 0xffff)', '    if ((codepoint <= 0x1f) || (codepoint >= 0x7f))\n    {\n        if (codepoint < 0xffff)')],
      needs='exactly the codepoint U+FFFF', breaks='U+FFFF escapes to a pair of units that is no surrogate pair and cannot be unescaped',
      demo=STR + 'int main() { std::u32string s(1, 0xFFFF); auto p = s.cbegin(); auto e = fly::BasicString<char32_t>::escape_codepoint<\'u\'>(p, s.cend()); return e && *e == U"\\\\uffff" ? 0 : 1; }\n', src=''),
 dict(id='p06-end', property='P06', edits=[(U, '(*it >= s_upper_a) && (*it <= s_upper_f)', '(*it >= s_upper_a) && (*it <= s_upper_f + (i == 3 ? 1 : 0))')],
      needs='an escape whose fourth digit is the letter G', breaks='unescape_codepoint accepts \\u000G as U+0010',
      demo=STR + 'int main() { std::string s = "\\\\u004G"; auto p = s.cbegin(); auto e = fly::BasicString<char>::unescape_codepoint(p, s.cend()); return e ? 1 : 0; }\n', src=''),
 dict(id='p07-wide', property='P07', edits=[('fly/types/string/detail/classifier.hpp', '    return (ch == s_space) || (ch == s_form_feed) || (ch == s_line_feed) ||\n        (ch == s_carriage_return) || (ch == s_horizontal_tab) || (ch == s_vertical_tab);', '    auto const low = static_cast<std::uint16_t>(ch);\n    return (ch == s_space) || ((low >= s_horizontal_tab) && (low <= s_carriage_return));')],
      needs='a 32 bit character whose low 16 bits are a control code', breaks='is_space<char32_t>(0x1000A) is true',
      demo=STR + 'int main() { return fly::BasicString<char32_t>::is_space(char32_t(0x1000A)) ? 1 : 0; }\n', src=''),
 dict(id='p08-hexrange', property='P08', edits=[('fly/types/string/lexer.hpp', 'number += static_cast<std::uintmax_t>(ch.value()) - s_lower_a + 0xa;', 'number += static_cast<std::uintmax_t>(ch.value()) - s_lower_a + ((number >> 60) ? 0xb : 0xa);')],
      needs='a hexadecimal number of sixteen digits whose last one is a lower case letter', breaks='consume_hex_number reads 100000000000000a as ...b',
      demo=PRE + '#include "fly/types/string/lexer.hpp"\nint main() { fly::Lexer l(std::string_view("100000000000000a")); auto r = l.consume_hex_number(); return r && *r == 0x100000000000000aull ? 0 : 1; }\n', src=''),
 dict(id='p08-consumeif', property='P08', edits=[('fly/types/string/lexer.hpp', '    if (auto next = peek(); next && (next.value() == ch))\n    {\n        ++m_index;\n        return true;\n    }\n\n    return false;', '    if (auto next = peek(); next && (next.value() == ch))\n    {\n        ++m_index;\n        return true;\n    }\n    else if (!next)\n    {\n        m_index = m_size;\n    }\n\n    return false;')],
      needs='a position set past the end of the text, then consume_if', breaks='a failed consume_if changes the position',
      demo=PRE + '#include "fly/types/string/lexer.hpp"\nint main() { fly::Lexer l(std::string_view("ab")); l.set_position(7); l.consume_if(\'x\'); return l.position() == 7 ? 0 : 1; }\n', src=''),
 dict(id='p20-swap', property='P20', edits=[('fly/types/numeric/endian.hpp', 'return static_cast<T>(detail::byte_swap(static_cast<std::uint16_t>(value)));', 'return static_cast<T>((value << 8) | ((value >> 8) & 0xffff));')],
      needs='a negative 16 bit value', breaks='endian_swap of a negative int16_t carries the sign into the other byte',
      demo=PRE + '#include "fly/types/numeric/endian.hpp"\nint main() { volatile std::int16_t v = -32766; return fly::endian_swap<std::int16_t>(v) == 0x0280 ? 0 : 1; }\n', src=''),
]
B = 'fly/coders/base64/base64_coder.cpp'
B64 = PRE + '#include <sstream>\n#include "fly/coders/base64/base64_coder.hpp"\n'
SEEDS += [
 dict(id='p01-padlast', property='P01', edits=[(B, '((code2 == -2) && (code3 != -2))', '((code2 == -2) && (code3 > 0))')],
      needs='a last chunk whose third symbol is padding and whose fourth is the letter A', breaks='decode_string accepts "QQ=A"',
      demo=B64 + 'int main() { fly::coders::Base64Coder c; std::string out; return c.decode_string("QQ=A", out) ? 1 : 0; }\n'),
 dict(id='p01-stale', property='P01', edits=[(B, '(bytes % s_encoded_chunk_size) != 0)', '((bytes % s_encoded_chunk_size) != 0) && (bytes < m_encoded.size() - 1))')],
      needs='a text of exactly one block less one symbol', breaks='decoding accepts a text whose length is no multiple of four and invents a last symbol',
      demo=B64 + 'int main() { fly::coders::Base64Coder c; std::string out; std::string s((256 << 10) - 1, \'A\'); return c.decode_string(s, out) ? 1 : 0; }\n'),
]
