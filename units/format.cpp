// Formatting of one integer or string with an arbitrary (already parsed) format specification.
#include "format_access.hpp"
template <typename C>
using Ctx = d::BasicFormatContext<std::back_insert_iterator<std::basic_string<C>>, C>;
template <typename C>
static d::BasicFormatSpecifier<C> spec(bool has_fill, C fill, std::uint8_t align, std::uint8_t sign, bool alternate, bool zero, std::size_t width, std::uint8_t type, bool upper)
{
    using S = d::BasicFormatSpecifier<C>;
    S s;
    if (has_fill) s.m_fill = fill;
    static constexpr typename S::Alignment alignments[4] = {S::Alignment::Default, S::Alignment::Left, S::Alignment::Right, S::Alignment::Center};
    static constexpr typename S::Sign signs[4] = {S::Sign::Default, S::Sign::Always, S::Sign::NegativeOnly, S::Sign::NegativeOnlyWithPositivePadding};
    s.m_alignment = alignments[align & 3];
    s.m_sign = signs[sign & 3];
    s.m_alternate_form = alternate;
    s.m_zero_padding = zero;
    s.m_width = width;
    s.m_type = type == 2 ? S::Type::Binary : type == 8 ? S::Type::Octal : type == 10 ? S::Type::Decimal : type == 16 ? S::Type::Hex : type == 'c' ? S::Type::Character : S::Type::String;
    s.m_case = upper ? S::Case::Upper : S::Case::Lower;
    return s;
}
template <typename T, typename C>
static void put(T value, d::BasicFormatSpecifier<C> s, std::basic_string<C> *out)
{
    d::BasicFormatParameters<Ctx<C>> none;
    Ctx<C> context(std::back_inserter(*out), none);
    fly::string::Formatter<T, C> formatter(s);
    formatter.format(value, context);
}
#define N(n, T) \
    extern "C" void vp_format_##n(T value, bool has_fill, char fill, std::uint8_t align, std::uint8_t sign, bool alternate, bool zero, std::size_t width, std::uint8_t type, bool upper, std::string *out) \
    { put<T, char>(value, spec<char>(has_fill, fill, align, sign, alternate, zero, width, type, upper), out); }
N(i8, signed char) N(u8, unsigned char) N(i16, short) N(u16, unsigned short) N(i32, int) N(u32, unsigned) N(i64, long) N(u64, unsigned long)
#define P(n, T, U) \
    FORMATTER_ACCESS(n, T) \
    extern "C" void vp_append_##n(U value, std::uint8_t type, bool upper, std::string *out) \
    { \
        d::BasicFormatParameters<Ctx<char>> none; \
        Ctx<char> context(std::back_inserter(*out), none); \
        fly::string::Formatter<T, char> formatter(spec<char>(false, ' ', 0, 0, false, false, 0, type, upper)); \
        formatter.append_number(value, int(type), context); \
    } \
    extern "C" std::size_t vp_count_##n(U value, std::uint8_t type) { return fly::string::Formatter<T, char>::count_digits(value, int(type)); }
P(i8, signed char, unsigned char) P(u8, unsigned char, unsigned char) P(i16, short, unsigned short) P(u16, unsigned short, unsigned short)
P(i32, int, unsigned) P(u32, unsigned, unsigned) P(i64, long, unsigned long) P(u64, unsigned long, unsigned long)
extern "C" void vp_format_string(std::string_view *v, bool has_fill, char fill, std::uint8_t align, std::size_t width, bool has_precision, std::size_t precision, std::string *out)
{
    auto s = spec<char>(has_fill, fill, align, 0, false, false, width, 0, false);
    if (has_precision) s.m_precision = precision;
    put<std::string_view, char>(*v, s, out);
}
