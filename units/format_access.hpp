// The parts of the formatters that have contracts of their own, and access to what those contracts speak about.
#pragma once
#include <array>
#include <charconv>
#include <iterator>
#include <optional>
#include <string>
#include <variant>
#include <vector>
#include "fly/fly.hpp"
#include "fly/types/string/concepts.hpp"
#include "fly/types/string/detail/format_specifier.hpp"
// the functions under contract are not public
#define private public
#include "fly/types/string/formatters.hpp"
#undef private
#include "fly/types/string/format.hpp"
namespace d = fly::string::detail;
namespace d = fly::string::detail;
template <typename C>
using Ctx = d::BasicFormatContext<std::back_insert_iterator<std::basic_string<C>>, C>;
struct Peek : std::back_insert_iterator<std::string>
{
    static std::string *get(std::back_insert_iterator<std::string> const &it) { return it.*&Peek::container; }
};
extern "C" std::string *vp_context_out(Ctx<char> *context) { return Peek::get(context->out()); }
#define FORMATTER_ACCESS(n, T) \
    extern "C" bool vp_formatter_is_##n(fly::string::Formatter<T, char> *f, std::uint8_t type, bool upper) \
    { \
        using S = d::BasicFormatSpecifier<char>; \
        return (f->m_type == (type == 2 ? S::Type::Binary : type == 8 ? S::Type::Octal : type == 10 ? S::Type::Decimal : S::Type::Hex)) && (f->m_case == (upper ? S::Case::Upper : S::Case::Lower)); \
    }
