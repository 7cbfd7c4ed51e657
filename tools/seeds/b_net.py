PRE = '#include <cstdio>\n#include <cstdint>\n#include <string>\n#include <cstdlib>\n#include <array>\n'
I4 = 'fly/net/ipv4_address.hpp'
I6 = 'fly/net/ipv6_address.hpp'
FMT = 'fly/types/string/formatters.hpp'
A4 = PRE + '#include "fly/net/ipv4_address.hpp"\n#include "fly/types/string/format.hpp"\n'
A6 = PRE + '#include "fly/net/ipv6_address.hpp"\n#include "fly/types/string/format.hpp"\n'
SF = PRE + '#include "fly/types/string/format.hpp"\n'
SEEDS = [
 dict(id='p09-carry', property='P09', edits=[(I4, '(parts[0] <= 0xff) && (parts[1] <= 0xff) && (parts[2] <= 0xff\'ff)', '(parts[0] <= 0xff) && ((parts[1] << 16) <= 0xff\'00\'00) && (parts[2] <= 0xff\'ff)')],
      needs='three numbers of which the second overflows when it is moved into its byte', breaks='from_string accepts 1.65537.3 as 1.1.0.3',
      demo=A4 + 'int main() { return fly::net::IPv4Address::from_string("1.65537.3") ? 1 : 0; }\n', src=''),
 dict(id='p09-end', property='P09', edits=[(I4, '    if (!host_address || lexer.peek())', '    if (!host_address || (lexer.peek() && (index < parts.size() || !lexer.consume_if(s_decimal) || lexer.peek())))')],
      needs='four numbers followed by a last dot', breaks='from_string accepts "1.2.3.4."',
      demo=A4 + 'int main() { return fly::net::IPv4Address::from_string("1.2.3.4.") ? 1 : 0; }\n', src=''),
 dict(id='p09-narrow', property='P09', edits=[(I4, 'segment && (*segment <= s_max32))', 'segment && ((*segment & 0xff\'ffff\'ffff) <= s_max32))')],
      needs='a number of more than 40 bits', breaks='from_string accepts 1099511627777 as 0.0.0.1',
      demo=A4 + 'int main() { return fly::net::IPv4Address::from_string("1099511627777") ? 1 : 0; }\n', src=''),
 dict(id='p10-group', property='P10', edits=[(I6, 'segment && (*segment <= s_max16))', 'segment && (((*segment >> 8) & ~std::uint64_t(0xff)) <= ((index_after_short_form && (*segment >> 31)) ? *segment : 0)))')],
      needs='a group above ffff of at least 32 bits, after a short form', breaks='from_string accepts ::180000001 as ::1',
      demo=A6 + 'int main() { return fly::net::IPv6Address::from_string("::180000001") ? 1 : 0; }\n', src=''),
 dict(id='p10-firstrun', property='P10', edits=[(I6, '} while ((i < s_address_size) && (join_segments(i) == 0));', '} while ((i < s_address_size) && (parts[i] == 0) && (parts[i + 1] < (i == 14 ? 1 : 1)) && (i != 12 || parts[14] == 0));')],
      needs='a run of zero groups up to the seventh one, with a last group of 0x0100 or more', breaks='the run is cut before its last group and the address is printed with a needless zero group',
      demo=A6 + 'int main() { std::array<std::uint8_t, 16> a {}; a[1] = 1; a[14] = 1; return fly::string::format("{}", fly::net::IPv6Address(a)) == "1::100" ? 0 : 1; }\n', src=''),
 dict(id='p10-separator', property='P10', edits=[(I6, '"{:.{}}{:x}", ":", (i > 0) ? 1 : 0, segment', '"{:.{}}{:x}", ":", ((i > 0) && (segment || (i < 14) || (parts[13] != 0))) ? 1 : 0, segment')],
      needs='a zero last group after a group whose low byte is zero, when the short form was used earlier', breaks='1::7:100:0 prints as 1::7:1000, which is another address',
      demo=A6 + 'int main() { std::array<std::uint8_t, 16> a {}; a[1] = 1; a[11] = 7; a[12] = 1; return fly::string::format("{}", fly::net::IPv6Address(a)) == "1::7:100:0" ? 0 : 1; }\n', src=''),
 dict(id='p12-digits', property='P12', edits=[(FMT, 'while ((value /= static_cast<U>(base)) != 0);', 'while (((value /= static_cast<U>(base)) != 0) && ((base != 10) || (digits < std::numeric_limits<U>::digits10)));')],
      needs='a decimal number of as many digits as the greatest value of its type, and a width', breaks='the number is counted one digit too short, so that it is padded by one too many',
      demo=SF + 'int main() { return fly::string::format("{:12}", std::uint32_t(4000000000u)) == "  4000000000" ? 0 : 1; }\n', src=''),
 dict(id='p12-zeropad', property='P12', edits=[(FMT, '                if (m_zero_padding)\n                {\n                    append_prefix();\n                    append_padding(padding_size, s_zero);\n                    append_number(value, base, context);', '                if (m_zero_padding && !(is_negative && m_alternate_form && (padding_size > 0)))\n                {\n                    append_prefix();\n                    append_padding(padding_size, s_zero);\n                    append_number(value, base, context);')],
      needs='a negative value with zero padding and the alternate form', breaks='the zeros are replaced by blanks before the sign',
      demo=SF + 'int main() { return fly::string::format("{:#08x}", -42) == "-0x0002a" ? 0 : 1; }\n', src=''),
 dict(id='p12-strcenter', property='P12', edits=[(FMT, '        std::size_t const padding_size = std::max(value_size, min_width) - value_size;\n        auto const padding_char = m_fill.value_or(s_space);\n\n        auto append_padding = [&context, padding_char](std::size_t count) {\n            for (std::size_t i = 0; i < count; ++i)\n            {\n                *context.out()++ = padding_char;\n            }\n        };\n\n        switch (m_alignment)\n        {\n            case FormatSpecifier::Alignment::Left:\n            case FormatSpecifier::Alignment::Default:\n                append_string', '        std::size_t const padding_size = std::max(std::min(actual_size, min_width), min_width) - std::min(value_size, min_width);\n        auto const padding_char = (value_size < actual_size) ? s_space : m_fill.value_or(s_space);\n\n        auto append_padding = [&context, padding_char](std::size_t count) {\n            for (std::size_t i = 0; i < count; ++i)\n            {\n                *context.out()++ = padding_char;\n            }\n        };\n\n        switch (m_alignment)\n        {\n            case FormatSpecifier::Alignment::Left:\n            case FormatSpecifier::Alignment::Default:\n                append_string')],
      needs='a string which is cut to a precision and then padded with a fill character', breaks='the fill character is replaced by a blank when the string was cut',
      demo=SF + 'int main() { return fly::string::format("{:*>6.2}", "abcd") == "****ab" ? 0 : 1; }\n', src=''),
 dict(id='p12-upper', property='P12', edits=[(FMT, '(m_type == FormatSpecifier::Type::Hex) && (m_case == FormatSpecifier::Case::Upper))\n        {\n            for (char *it = begin; it != result.ptr; ++it)', '(m_type == FormatSpecifier::Type::Hex) && (m_case == FormatSpecifier::Case::Upper))\n        {\n            for (char *it = begin; (it != result.ptr) && (it != begin + 8); ++it)')],
      needs='a value of more than 32 bits whose ninth hexadecimal digit or a later one is a letter', breaks='upper case applies to the first eight digits only',
      demo=SF + 'int main() { return fly::string::format("{:X}", 0xabcdef12abull) == "ABCDEF12AB" ? 0 : 1; }\n', src=''),
]
