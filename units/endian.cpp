#include "fly/types/numeric/endian.hpp"
#define E(n, T) \
    extern "C" T vp_swap_##n(T v) { return fly::endian_swap(v); } \
    extern "C" T vp_little_##n(T v) { return fly::endian_swap_if_non_native<std::endian::little>(v); } \
    extern "C" T vp_big_##n(T v) { return fly::endian_swap_if_non_native<std::endian::big>(v); }
E(i8, std::int8_t) E(u8, std::uint8_t) E(i16, std::int16_t) E(u16, std::uint16_t) E(i32, std::int32_t) E(u32, std::uint32_t)
E(i64, std::int64_t) E(u64, std::uint64_t) E(c, char) E(l, long) E(ll, long long) E(ull, unsigned long long) E(c16, char16_t) E(w, wchar_t)
extern "C" const unsigned long vp_native_is_little = std::endian::native == std::endian::little;
