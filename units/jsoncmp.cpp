// Comparison of JSON values: one wrapper per pair of stored types.
#include "fly/types/json/json.hpp"
#include "fly/types/json/json.cpp"
#include "fly/types/json/json_exception.cpp"
using J = fly::Json;
using I = std::int64_t;
using U = std::uint64_t;
template <class A, class B>
static unsigned cmp(A &&a, B &&b)
{
    J x = std::forward<A>(a), y = std::forward<B>(b);
    return (x == y ? 1u : 0u) | (x != y ? 2u : 0u) | (x < y ? 4u : 0u) | (x <= y ? 8u : 0u) | (x > y ? 16u : 0u) | (x >= y ? 32u : 0u);
}
extern "C" unsigned vp_ii(I a, I b) { return cmp(a, b); }
extern "C" unsigned vp_iu(I a, U b) { return cmp(a, b); }
extern "C" unsigned vp_ui(U a, I b) { return cmp(a, b); }
extern "C" unsigned vp_uu(U a, U b) { return cmp(a, b); }
extern "C" unsigned vp_bb(bool a, bool b) { return cmp(a, b); }
extern "C" unsigned vp_bi(bool a, I b) { return cmp(a, b); }
extern "C" unsigned vp_ib(I a, bool b) { return cmp(a, b); }
extern "C" unsigned vp_bu(bool a, U b) { return cmp(a, b); }
extern "C" unsigned vp_ub(U a, bool b) { return cmp(a, b); }
extern "C" unsigned vp_nn() { return cmp(nullptr, nullptr); }
extern "C" unsigned vp_ni(I b) { return cmp(nullptr, b); }
extern "C" unsigned vp_in(I a) { return cmp(a, nullptr); }
#include <new>
extern "C" void vp_make_n(J *o) { new (o) J(nullptr); }
extern "C" void vp_make_i(J *o, I v) { new (o) J(v); }
extern "C" void vp_make_u(J *o, U v) { new (o) J(v); }
extern "C" void vp_make_b(J *o, bool v) { new (o) J(v); }
extern "C" void vp_make_s(J *o) { new (o) J(fly::json_string_type()); }
extern "C" void vp_make_a(J *o) { new (o) J(fly::json_array_type()); }
extern "C" void vp_make_o(J *o) { new (o) J(fly::json_object_type()); }
extern "C" unsigned vp_cmp(J const &x, J const &y)
{
    return (x == y ? 1u : 0u) | (x != y ? 2u : 0u) | (x < y ? 4u : 0u) | (x <= y ? 8u : 0u) | (x > y ? 16u : 0u) | (x >= y ? 32u : 0u);
}
extern "C" std::uint64_t const vp_json_size;
std::uint64_t const vp_json_size = sizeof(J);
