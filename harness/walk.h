// What the accessors of generated types reach. Used by generated code; judges nothing.
#pragma once
#include "loader.h"
#include "mfast.h"
#include "mfast/field_instructions.h"
#include <nlohmann/json.hpp>

typedef nlohmann::json (*walker)();
std::map<std::string, std::vector<walker>> &walkers();
struct walked { walked(const char *n, walker w) { walkers()[n].push_back(w); } };

namespace walk {
using nlohmann::json;
using namespace mfast;

inline bool same(const field_cref &g, const field_cref &f) {
  return field_cref_core_access::storage_of(g) == field_cref_core_access::storage_of(f) && g.instruction() == f.instruction();
}
// a group refers to its fields, not to the field which it is
inline bool same(const field_cref &g, const aggregate_cref &f) {
  return f.instruction() == g.instruction() &&
         aggregate_cref_core_access::storage_of(f) == field_cref_core_access::storage_of(g)->of_group.content_;
}
// position in the parent of the field a reference refers to; -2 if none
template <typename P, typename F> int position(const P &parent, const F &f) {
  typedef typename std::conditional<std::is_base_of<aggregate_cref, F>::value, aggregate_cref, field_cref>::type base;
  for (size_t i = 0; i < parent.num_fields(); ++i)
    if (same(static_cast<const aggregate_cref &>(parent)[i], static_cast<const base &>(f))) return (int)i;
  return -2;
}
template <typename P, typename F> int tried(const P &parent, F f) {
  try { return position(parent, f()); } catch (bad_optional_access &) { return -3; }
}
inline json one(const char *const *path, size_t n) {
  json p = json::array();
  for (size_t i = 0; i < n; ++i) p.push_back(path[i]);
  return {{"p", p}, {"get", -1}, {"set", -1}, {"try", -1}, {"gone", -1}, {"e", json::array()}};
}
inline int bit_of(uint64_t v) {
  for (int i = 0; i < 64; ++i)
    if (v == (uint64_t(1) << i)) return i;
  return -1;
}
template <typename P> uint64_t raw(const P &parent, size_t i) {
  return field_cref_core_access::storage_of(static_cast<const aggregate_cref &>(parent)[i])->of_uint64.content_;
}
}
