// Endian conversion against byte-wise reversal of the object representation.
// FLAGS: -O2
#include "common.hpp"
#include "fly/types/numeric/endian.hpp"
template <typename T>
static void one(char const *ty, T v)
{
    unsigned char a[sizeof(T)], b[sizeof(T)];
    std::memcpy(a, &v, sizeof v);
    std::reverse_copy(a, a + sizeof v, b);
    T r;
    std::memcpy(&r, b, sizeof r);
    auto s = [&](char const *n, T x) { drv::fail(std::string(n) + "<" + ty + ">(" + std::to_string(v) + ") = " + std::to_string(x)); };
    drv::count();
    if (fly::endian_swap(v) != r) s("endian_swap", fly::endian_swap(v));
    bool l = std::endian::native == std::endian::little;
    if (fly::endian_swap_if_non_native<std::endian::little>(v) != (l ? v : r)) s("little", fly::endian_swap_if_non_native<std::endian::little>(v));
    if (fly::endian_swap_if_non_native<std::endian::big>(v) != (l ? r : v)) s("big", fly::endian_swap_if_non_native<std::endian::big>(v));
}
static void every(std::uint64_t v)
{
    one<std::int8_t>("int8", v);
    one<std::uint8_t>("uint8", v);
    one<std::int16_t>("int16", v);
    one<std::uint16_t>("uint16", v);
    one<std::int32_t>("int32", v);
    one<std::uint32_t>("uint32", v);
    one<std::int64_t>("int64", v);
    one<std::uint64_t>("uint64", v);
    one<long long>("long long", v);
    one<char16_t>("char16", v);
    one<wchar_t>("wchar", v);
}
int main(int argc, char **argv)
{
    drv::init(argc, argv);
    drv::guard();
    for (auto &[k, v] : drv::S().candidates) every(std::strtoull(v.c_str(), nullptr, 10));
    for (std::uint64_t v = drv::S().part; v < 65536; v += drv::S().parts)
        for (int s = 0; s < 64; s += 8) every(v << s), every(~(v << s)), every(v << s | v);
    while (drv::time_left())
        for (int i = 0; i < 1000; ++i) every(drv::rnd());
    drv::finish(0);
}
