// Projection of mFAST messages to and from JSON.
#pragma once
#include "errors.h"
#include <nlohmann/json.hpp>
#include <set>
#include <string>
#include <typeinfo>
#include "mfast.h"
#include "mfast/field_instructions.h"
#include "mfast/coder/encoder/fast_ostreambuf.h"
#include <boost/exception/all.hpp>
using json = nlohmann::json;

inline std::string hex(const char *p, size_t n) {
  static const char *d = "0123456789abcdef";
  std::string s; s.reserve(2 * n);
  for (size_t i = 0; i < n; ++i) { s += d[(unsigned char)p[i] >> 4]; s += d[(unsigned char)p[i] & 15]; }
  return s;
}
inline std::string unhex(const std::string &s, size_t from = 0) {
  auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  std::string r;
  for (size_t i = from; i + 1 < s.size(); i += 2) r += char(v(s[i]) * 16 + v(s[i + 1]));
  return r;
}

json read_agg(const mfast::aggregate_cref &a);

template <typename V> json read_vec(const V &v) {
  json r = json::array();
  for (size_t i = 0; i < v.size(); ++i) r.push_back(std::to_string(v[i]));
  return json{{"v", r}};
}
template <typename S> json read_str(const S &s) {
  return "x" + hex(reinterpret_cast<const char *>(s.data()), s.size());
}

inline json read_field(const mfast::field_cref &f) {
  using namespace mfast;
  switch (f.instruction()->field_type()) {
  case field_type_templateref: {
    nested_message_cref n(f);
    if (n.target_instruction() == nullptr) return nullptr;
    json r; r["n"] = n.target_instruction()->id(); r["f"] = read_agg(aggregate_cref(n)); return r;
  }
  default: break;
  }
  if (f.absent()) return nullptr;
  switch (f.instruction()->field_type()) {
  case field_type_int32: return std::to_string(int32_cref(f).value());
  case field_type_uint32: return std::to_string(uint32_cref(f).value());
  case field_type_int64: return std::to_string(int64_cref(f).value());
  case field_type_uint64: return std::to_string(uint64_cref(f).value());
  case field_type_enum: return std::to_string(enum_cref(f).value());
  case field_type_set: return std::to_string(set_cref(f).value());
  case field_type_decimal:
  case field_type_exponent: {
    decimal_cref d(f);
    return json::array({std::to_string(d.mantissa()), std::to_string(d.exponent())});
  }
  case field_type_ascii_string: return read_str(ascii_string_cref(f));
  case field_type_unicode_string: return read_str(unicode_string_cref(f));
  case field_type_byte_vector: return read_str(byte_vector_cref(f));
  case field_type_int32_vector: return read_vec(int32_vector_cref(f));
  case field_type_uint32_vector: return read_vec(uint32_vector_cref(f));
  case field_type_int64_vector: return read_vec(int64_vector_cref(f));
  case field_type_uint64_vector: return read_vec(uint64_vector_cref(f));
  case field_type_sequence: {
    sequence_cref s(f);
    json r = json::array();
    for (size_t i = 0; i < s.size(); ++i) r.push_back(read_agg(s[i]));
    return json{{"s", r}};
  }
  case field_type_group: return json{{"g", read_agg(aggregate_cref(group_cref(f)))}};
  default: return "?type";
  }
}
inline json read_agg(const mfast::aggregate_cref &a) {
  json r = json::array();
  for (size_t i = 0; i < a.num_fields(); ++i) r.push_back(read_field(a[i]));
  return r;
}

typedef const mfast::template_instruction *(*tfinder)(void *, unsigned);
struct write_ctx { tfinder find; void *self; };

void write_agg(const mfast::aggregate_mref &a, const json &v, write_ctx &c);

template <typename R, typename T> void write_int(const mfast::field_mref &f, const json &v) {
  R r(f);
  if (std::is_signed<T>::value) r.as((T)std::stoll(v.get<std::string>()));
  else r.as((T)std::stoull(v.get<std::string>()));
}
template <typename R> void write_str(const mfast::field_mref &f, const json &v) {
  R r(f);
  std::string s = unhex(v.get<std::string>(), 1);
  typedef typename R::value_type ch;
  const ch *p = reinterpret_cast<const ch *>(s.data());
  r.assign(p, p + s.size());
}
template <typename R, typename T> void write_vec(const mfast::field_mref &f, const json &v) {
  R r(f);
  std::vector<T> x;
  for (auto &e : v["v"]) {
    if (std::is_signed<T>::value) x.push_back((T)std::stoll(e.get<std::string>()));
    else x.push_back((T)std::stoull(e.get<std::string>()));
  }
  r.assign(x.begin(), x.end());
}
template <typename F> void with_mref(const mfast::field_mref &f, F fn) {
  using namespace mfast;
  switch (f.instruction()->field_type()) {
  case field_type_int32: fn(int32_mref(f)); break;
  case field_type_uint32: fn(uint32_mref(f)); break;
  case field_type_int64: fn(int64_mref(f)); break;
  case field_type_uint64: fn(uint64_mref(f)); break;
  case field_type_enum: fn(enum_mref(f)); break;
  case field_type_set: fn(set_mref(f)); break;
  case field_type_decimal:
  case field_type_exponent: fn(decimal_mref(f)); break;
  case field_type_ascii_string: fn(ascii_string_mref(f)); break;
  case field_type_unicode_string: fn(unicode_string_mref(f)); break;
  case field_type_byte_vector: fn(byte_vector_mref(f)); break;
  default: break;
  }
}
struct do_initial { template <typename R> void operator()(const R &r) const { r.to_initial_value(); } };
inline void write_field(const mfast::field_mref &f, const json &v, write_ctx &c) {
  using namespace mfast;
  const field_instruction *in = f.instruction();
  auto t = in->field_type();
  if (t == field_type_templateref) {
    if (v.is_null()) return;
    const template_instruction *ti = c.find(c.self, v["n"].get<unsigned>());
    if (!ti) throw std::runtime_error("harness: no such template");
    message_mref m = nested_message_mref(f).rebind(ti);
    write_agg(m, v["f"], c);
    return;
  }
  if (v.is_null()) {
    if (f.optional()) f.omit();
    return;
  }
  if (in->field_operator() == operator_constant && t != field_type_sequence && t != field_type_group &&
      t != field_type_exponent) {
    with_mref(f, do_initial());
    return;
  }
  switch (t) {
  case field_type_int32: write_int<int32_mref, int32_t>(f, v); break;
  case field_type_uint32: write_int<uint32_mref, uint32_t>(f, v); break;
  case field_type_int64: write_int<int64_mref, int64_t>(f, v); break;
  case field_type_uint64: write_int<uint64_mref, uint64_t>(f, v); break;
  case field_type_enum: write_int<enum_mref, uint64_t>(f, v); break;
  case field_type_set: write_int<set_mref, uint64_t>(f, v); break;
  case field_type_decimal:
  case field_type_exponent: {
    decimal_mref d(f);
    d.as((int64_t)std::stoll(v[0].get<std::string>()), (int16_t)std::stoi(v[1].get<std::string>()));
    break;
  }
  case field_type_ascii_string: write_str<ascii_string_mref>(f, v); break;
  case field_type_unicode_string: write_str<unicode_string_mref>(f, v); break;
  case field_type_byte_vector: write_str<byte_vector_mref>(f, v); break;
  case field_type_int32_vector: write_vec<int32_vector_mref, int32_t>(f, v); break;
  case field_type_uint32_vector: write_vec<uint32_vector_mref, uint32_t>(f, v); break;
  case field_type_int64_vector: write_vec<int64_vector_mref, int64_t>(f, v); break;
  case field_type_uint64_vector: write_vec<uint64_vector_mref, uint64_t>(f, v); break;
  case field_type_sequence: {
    sequence_mref s(f);
    s.resize(v["s"].size());
    for (size_t i = 0; i < v["s"].size(); ++i) write_agg(s[i], v["s"][i], c);
    break;
  }
  case field_type_group: {
    group_mref g(f);
    write_agg(aggregate_mref(g), v["g"], c);
    break;
  }
  default: break;
  }
}
inline void write_agg(const mfast::aggregate_mref &a, const json &v, write_ctx &c) {
  for (size_t i = 0; i < a.num_fields() && i < v.size(); ++i) write_field(a[i], v[i], c);
}

