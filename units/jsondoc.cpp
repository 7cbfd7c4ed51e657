// Accessors and modifiers of JSON values, and their serialization.
#include <algorithm>
#include <map>
#include <optional>
#include <string>
#include <string_view>
#include <variant>
#include <vector>
#include <ostream>
#include <sstream>
#include <iostream>
#include <memory>
#include <new>
#include <unordered_map>
#define private public
#include "fly/types/json/json.hpp"
#undef private
#include "fly/types/json/json.cpp"
#include "fly/types/json/json_exception.cpp"
using J = fly::Json;
using S = std::string;
using It = J::iterator;
using Ct = J::const_iterator;
using N = std::size_t;
extern "C" std::uint64_t const vp_json_size, vp_it_size;
std::uint64_t const vp_json_size = sizeof(J), vp_it_size = sizeof(It);
extern "C" {
void vp_make_n(J *o) { new (o) J(nullptr); }
void vp_make_i(J *o, std::int64_t v) { new (o) J(v); }
void vp_make_u(J *o, std::uint64_t v) { new (o) J(v); }
void vp_make_b(J *o, bool v) { new (o) J(v); }
void vp_make_s(J *o) { new (o) J(fly::json_string_type()); }
void vp_make_a(J *o) { new (o) J(fly::json_array_type()); }
void vp_make_o(J *o) { new (o) J(fly::json_object_type()); }
N vp_kind(J const *j) { return j->m_value.index(); }
fly::json_array_type *vp_arr(J *j) { return std::get_if<fly::json_array_type>(&j->m_value); }
fly::json_object_type *vp_obj(J *j) { return std::get_if<fly::json_object_type>(&j->m_value); }
fly::json_string_type *vp_str(J *j) { return std::get_if<fly::json_string_type>(&j->m_value); }
// by index
J *vp_at(J *j, N i) { return &j->at(i); }
J const *vp_cat(J const *j, N i) { return &j->at(i); }
J *vp_idx(J *j, N i) { return &(*j)[i]; }
J const *vp_cidx(J const *j, N i) { return &(*j)[i]; }
void vp_erase_i(J *j, N i) { j->erase(i); }
void vp_push(J *j, J const *v) { j->push_back(*v); }
void vp_pushm(J *j, J *v) { j->push_back(std::move(*v)); }
void vp_pop(J *j) { j->pop_back(); }
void vp_resize(J *j, N n) { j->resize(n); }
void vp_reserve(J *j, N n) { j->reserve(n); }
void vp_clear(J *j) { j->clear(); }
N vp_size(J const *j) { return j->size(); }
bool vp_empty(J const *j) { return j->empty(); }
// by key
J *vp_kat(J *j, S const *k) { return &j->at(*k); }
J const *vp_kcat(J const *j, S const *k) { return &j->at(*k); }
J *vp_kidx(J *j, S const *k) { return &(*j)[*k]; }
J const *vp_kcidx(J const *j, S const *k) { return &(*j)[*k]; }
N vp_kerase(J *j, S const *k) { return j->erase(*k); }
N vp_kcount(J const *j, S const *k) { return j->count(*k); }
bool vp_kcontains(J const *j, S const *k) { return j->contains(*k); }
void vp_kfind(J *j, S const *k, It *o) { new (o) It(j->find(*k)); }
void vp_kcfind(J const *j, S const *k, Ct *o) { new (o) Ct(j->find(*k)); }
bool vp_kinsert(J *j, S const *k, J const *v, It *o) { auto r = j->insert(*k, *v); new (o) It(r.first); return r.second; }
bool vp_kinsertm(J *j, S const *k, J *v, It *o) { auto r = j->insert(*k, std::move(*v)); new (o) It(r.first); return r.second; }
bool vp_kassign(J *j, S const *k, J *v, It *o) { auto r = j->insert_or_assign(*k, std::move(*v)); new (o) It(r.first); return r.second; }
bool vp_kemplace(J *j, S const *k, J *v, It *o) { auto r = j->emplace(*k, std::move(*v)); new (o) It(r.first); return r.second; }
void vp_merge(J *j, J *o) { j->merge(*o); }
void vp_mergem(J *j, J *o) { j->merge(std::move(*o)); }
void vp_swap(J *j, J *o) { j->swap(*o); }
// by iterator
void vp_begin(J *j, It *o) { new (o) It(j->begin()); }
void vp_end(J *j, It *o) { new (o) It(j->end()); }
void vp_cbegin(J const *j, Ct *o) { new (o) Ct(j->begin()); }
void vp_cend(J const *j, Ct *o) { new (o) Ct(j->end()); }
J *vp_deref(It *i) { return &**i; }
J *vp_off(It *i, std::ptrdiff_t d) { return &(*i)[d]; }
S const *vp_key(It *i) { return &i->key(); }
void vp_inc(It *i) { ++*i; }
void vp_dec(It *i) { --*i; }
void vp_add(It *i, std::ptrdiff_t d) { *i += d; }
void vp_sub(It *i, std::ptrdiff_t d) { *i -= d; }
std::ptrdiff_t vp_diff(It *i, It *k) { return *i - *k; }
bool vp_eq(It *i, It *k) { return *i == *k; }
bool vp_ne(It *i, It *k) { return *i != *k; }
bool vp_lt(It *i, It *k) { return *i < *k; }
bool vp_le(It *i, It *k) { return *i <= *k; }
bool vp_gt(It *i, It *k) { return *i > *k; }
bool vp_ge(It *i, It *k) { return *i >= *k; }
void vp_ierase(J *j, It *i, It *o) { new (o) It(j->erase(*i)); }
void vp_ierase2(J *j, It *i, It *k, It *o) { new (o) It(j->erase(*i, *k)); }
void vp_iinsert(J *j, It *i, J const *v, It *o) { new (o) It(j->insert(*i, *v)); }
void vp_iinsertm(J *j, It *i, J *v, It *o) { new (o) It(j->insert(*i, std::move(*v))); }
void vp_iinsertn(J *j, It *i, N n, J const *v, It *o) { new (o) It(j->insert(*i, n, *v)); }
void vp_iinsertr(J *j, It *i, It *a, It *b, It *o) { new (o) It(j->insert(*i, *a, *b)); }
void vp_oinsert(J *j, It *a, It *b) { j->insert(*a, *b); }
void vp_none(It *o) { new (o) It(); }
// text
void vp_serialize(J const *j, S *o) { new (o) S(j->serialize()); }
}
