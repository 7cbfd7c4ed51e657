PRE = '#include <cstdio>\n#include <cstdint>\n#include <string>\n#include <cstdlib>\n#include <array>\n#include <sstream>\n'
EP = 'fly/net/endpoint.hpp'
BW, BR, BRC = 'fly/types/bit_stream/bit_stream_writer.hpp', 'fly/types/bit_stream/bit_stream_reader.hpp', 'fly/types/bit_stream/bit_stream_reader.cpp'
CV, LP = 'fly/types/string/detail/converter.hpp', 'fly/types/numeric/detail/literal_parser.hpp'
JC = 'fly/types/json/json.cpp'
E = PRE + '#include "fly/net/endpoint.hpp"\n#include "fly/types/string/format.hpp"\nusing namespace fly::net;\n'
BS = PRE + '#include "fly/types/bit_stream/bit_stream_writer.hpp"\n#include "fly/types/bit_stream/bit_stream_reader.hpp"\n'
ST = PRE + '#include "fly/types/string/string.hpp"\n#include "fly/types/numeric/literals.hpp"\n'
JS = PRE + '#include "fly/types/json/json.hpp"\n'
SEEDS = [
 dict(id='p02-straddle', property='P02', edits=[(BW, 'bits &= bit_mask<DataType>(rshift);', 'bits &= bit_mask<DataType>((rshift > 48) ? byte_type {48} : rshift);')],
      needs='a field of more than 48 bits of which more than 48 belong to the next buffer', breaks='the high bits of the rest are lost',
      demo=BS + '''int main()
{
    std::ostringstream o;
    std::uint64_t const v = 0xfedcba9876543210ull, m = (1ull << 62) - 1;
    { fly::BitStreamWriter w(o); w.write_bits<std::uint64_t>(5, 56); w.write_bits<std::uint64_t>(v & m, 62); if (!w.finish()) return 2; }
    std::istringstream i(o.str());
    fly::BitStreamReader r(i);
    std::uint64_t a = 0, b = 0;
    r.read_bits<std::uint64_t>(a, 56);
    r.read_bits<std::uint64_t>(b, 62);
    return a == 5 && b == (v & m) ? 0 : 1;
}
'''),
 dict(id='p11-bracket', property='P11', edits=[(EP, 'address_view.substr(1, address_view.size() - 2)', 'address_view.substr(1, address_view.find(s_right_bracket) - 1)')],
      needs='an IPv6 endpoint with a second closing bracket', breaks='whatever stands between the brackets is ignored',
      demo=E + 'int main() { return Endpoint<IPv6Address>::from_string("[::1]junk]:80") ? 1 : 0; }\n', src=''),
 dict(id='p11-port', property='P11', edits=[(EP, '(*port > s_max16)', '(static_cast<std::uint32_t>(*port) > s_max16)')],
      needs='a port of more than 32 bits whose low bits are a valid port', breaks='the port is taken modulo 2^32',
      demo=E + 'int main() { return Endpoint<IPv4Address>::from_string("1.2.3.4:4294967376") ? 1 : 0; }\n', src=''),
 dict(id='p11-nul', property='P11', edits=[(EP, '|| lexer.peek())', '|| lexer.peek().value_or(0))')],
      needs='a NUL character after the port', breaks='the text behind the NUL is ignored',
      demo=E + 'int main() { using namespace std::literals; return Endpoint<IPv4Address>::from_string("1.2.3.4:80\\0x"sv) ? 1 : 0; }\n', src=''),
 dict(id='p14-nul', property='P14', edits=[(CV, '(result.ptr != end)', '((result.ptr != end) && (*result.ptr != 0))')],
      needs='a NUL character after the numeral', breaks='the text behind the NUL is ignored',
      demo=ST + 'int main() { return fly::String::convert<int>(std::string("12\\0x", 4)) ? 1 : 0; }\n', src=''),
 dict(id='p14-long', property='P14', edits=[(CV, '(result.ec != std::errc {})', '((result.ec != std::errc {}) && (value.size() <= std::numeric_limits<std::uint64_t>::digits10 + 1))'), (CV, '#include <cstdint>\n', '#include <cstdint>\n#include <limits>\n')],
      needs='a numeral of more than twenty characters which does not fit', breaks='the conversion yields zero instead of nothing',
      demo=ST + 'int main() { return fly::String::convert<int>("123456789012345678901234") ? 1 : 0; }\n', src=''),
 dict(id='p14-digit', property='P14', edits=[(LP, "static_cast<T>('A') + 0xA", "static_cast<T>('A') + ((sizeof...(Literals) == 15) ? 0x2 : 0xA)")],
      needs='a hexadecimal literal of sixteen digits whose first is an upper case letter', breaks='the first digit has a value which is eight less',
      demo=ST + 'int main() { using namespace fly::literals::numeric_literals; volatile bool ok = 0xA000000000000000_u64 == 0xA000000000000000ull; return ok ? 0 : 1; }\n', src=''),
 dict(id='p16-array', property='P16', edits=[(JC, 'return value1 == value2;', 'if constexpr (JsonArray<S1>)\n            {\n                return (value1.size() == value2.size()) && std::is_permutation(value1.begin(), value1.end(), value2.begin());\n            }\n            else\n            {\n                return value1 == value2;\n            }')],
      needs='two arrays of the same elements in another order', breaks='the arrays compare equal although one is less than the other',
      demo=JS + 'int main() { fly::Json a = fly::json_array_type {1, 2}, b = fly::json_array_type {2, 1}; return a == b ? 1 : 0; }\n'),
]
