// JSON strings: reading and writing of their characters, and the conversion of every string type.
#include <algorithm>
#include <cstdint>
#include <map>
#include <optional>
#include <sstream>
#include <string>
#include <string_view>
#include <variant>
#include <vector>
#define private public
#define protected public
#include "fly/types/json/json.hpp"
#undef private
#undef protected
#include "fly/types/json/json.cpp"
using J = fly::Json;
extern "C" void vp_validate(std::string *out, std::string *value) { *out = J::validate_string(std::move(*value)); }
extern "C" void vp_read(std::string *value, std::string::iterator *it) { J::read_escaped_character(*value, *it); }
extern "C" void vp_write(std::string *out, std::string::const_iterator *it, std::string::const_iterator const *end)
{
    J::write_escaped_character(*out, *it, *end);
}
#define C(n, T) \
    extern "C" void vp_convert_##n(std::string *out, std::basic_string<T> *v) { *out = J::convert_to_string(std::move(*v)); }
C(char, char) C(wchar, wchar_t) C(char8, char8_t) C(char16, char16_t) C(char32, char32_t)
extern "C" void vp_serialize(std::string *out, J const *j) { *out = j->serialize(); }
