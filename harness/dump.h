// What a templates description says, as JSON.
#pragma once
#include <string>
#include <nlohmann/json.hpp>
#include "mfast.h"
#include "mfast/field_instructions.h"
#include "mfast/instructions/templates_description.h"

namespace dump {
using nlohmann::json;
using namespace mfast;

inline std::string text(const char *s) { return s ? s : ""; }
inline std::string hex(const char *s, size_t n) {
  static const char *d = "0123456789abcdef";
  std::string r = "x";
  for (size_t i = 0; i < n; ++i) { r += d[(unsigned char)s[i] >> 4]; r += d[s[i] & 15]; }
  return r;
}

inline json init_of(field_type_enum_t t, const value_storage &v) {
  if (v.is_empty()) return nullptr;
  switch (t) {
  case field_type_int32: return std::to_string(v.get<int32_t>());
  case field_type_uint32: return std::to_string(v.get<uint32_t>());
  case field_type_int64: return std::to_string(v.get<int64_t>());
  case field_type_uint64: case field_type_enum: case field_type_set: return std::to_string(v.get<uint64_t>());
  case field_type_decimal: return json::array({std::to_string((int64_t)v.of_decimal.mantissa_), std::to_string((int)v.of_decimal.exponent_)});
  case field_type_exponent: return std::to_string((int)v.of_decimal.exponent_);
  case field_type_ascii_string: case field_type_unicode_string: case field_type_byte_vector:
    return hex(v.get<const char *>(), v.array_length());
  default: return "?";
  }
}

inline json blank() {
  return json{{"k", ""}, {"nm", ""}, {"ns", ""}, {"id", 0}, {"opt", false}, {"op", "none"}, {"init", nullptr},
              {"ck", ""}, {"cn", ""}, {"cd", ""}, {"sub", json::array()}, {"dic", ""}, {"tn", ""}, {"tns", ""},
              {"els", json::array()}, {"els_v", json::array()}, {"len", json::array()}, {"ma", json::array()},
              {"lid", 0}, {"lnm", ""}, {"lns", ""}, {"tag", 0}, {"bits", 0}, {"pm", 0}, {"null", false}, {"rst", false}};
}
inline const char *op_name(operator_enum_t o) {
  static const char *n[] = {"none", "constant", "delta", "default", "copy", "increment", "tail"};
  return n[o];
}
json field(const field_instruction *f);

inline void op(json &r, const field_instruction *f, const op_context_t *c, const value_storage &v, field_type_enum_t t) {
  r["op"] = op_name(f->field_operator());
  if (c) { r["ck"] = text(c->key_); r["cn"] = text(c->ns_); r["cd"] = text(c->dictionary_); }
  r["init"] = init_of(t, v);
}
inline void group(json &r, const group_field_instruction *g) {
  r["dic"] = text(g->dictionary()); r["tn"] = text(g->typeref_name()); r["tns"] = text(g->typeref_ns());
  r["pm"] = g->segment_pmap_size();
  for (auto s : g->subinstructions()) r["sub"].push_back(field(s));
}

inline json field(const field_instruction *f) {
  json r = blank();
  auto t = f->field_type();
  r["nm"] = text(f->name()); r["ns"] = text(f->ns()); r["id"] = f->id(); r["opt"] = f->optional();
  r["null"] = f->is_nullable(); r["tag"] = f->tag().to_uint64(); r["bits"] = f->pmap_size();
  switch (t) {
  case field_type_int32: case field_type_uint32: case field_type_int64: case field_type_uint64: {
    auto i = static_cast<const integer_field_instruction_base *>(f);
    static const char *n[] = {"i32", "u32", "i64", "u64"};
    r["k"] = n[t];
    op(r, i, i->op_context(), i->initial_value(), t);
    break;
  }
  case field_type_enum: {
    auto i = static_cast<const enum_field_instruction *>(f);
    r["k"] = "enum";
    op(r, i, i->op_context(), i->initial_value(), t);
    for (uint64_t k = 0; k < i->num_elements(); ++k) {
      r["els"].push_back(text(i->elements()[k]));
      r["els_v"].push_back(i->element_values() ? i->element_values()[k] : k);
    }
    break;
  }
#ifdef HAVE_SETS
  case field_type_set: {
    auto i = static_cast<const set_field_instruction *>(f);
    r["k"] = "set";
    op(r, i, i->op_context(), i->initial_value(), t);
    for (uint64_t k = 0; k < i->num_elements(); ++k) r["els"].push_back(text(i->elements()[k]));
    break;
  }
#endif
  case field_type_decimal: case field_type_exponent: {
    auto i = static_cast<const decimal_field_instruction *>(f);
    r["k"] = t == field_type_decimal ? "dec" : "sdec";
    op(r, i, i->op_context(), i->initial_value(), t);
    if (auto m = i->mantissa_instruction()) {
      json x = blank();
      x["k"] = "i64"; x["null"] = m->is_nullable(); x["opt"] = m->optional(); x["bits"] = m->pmap_size();
      op(x, m, m->op_context(), m->initial_value(), field_type_int64);
      r["ma"].push_back(x);
    }
    break;
  }
  case field_type_ascii_string: case field_type_unicode_string: case field_type_byte_vector: {
    auto i = static_cast<const ascii_field_instruction *>(f);
    r["k"] = t == field_type_ascii_string ? "asc" : t == field_type_unicode_string ? "uni" : "bv";
    op(r, i, i->op_context(), i->initial_value(), t);
    if (t != field_type_ascii_string) {
      auto u = static_cast<const unicode_field_instruction *>(f);
      r["lid"] = u->length_id(); r["lnm"] = text(u->length_name()); r["lns"] = text(u->length_ns());
    }
    break;
  }
  case field_type_int32_vector: r["k"] = "vec.i32"; break;
  case field_type_uint32_vector: r["k"] = "vec.u32"; break;
  case field_type_int64_vector: r["k"] = "vec.i64"; break;
  case field_type_uint64_vector: r["k"] = "vec.u64"; break;
  case field_type_group: r["k"] = "grp"; group(r, static_cast<const group_field_instruction *>(f)); break;
  case field_type_sequence: {
    auto s = static_cast<const sequence_field_instruction *>(f);
    r["k"] = "seq";
    group(r, s);
    r["len"].push_back(s->length_instruction() ? field(s->length_instruction()) : json());
    break;
  }
  case field_type_template: {
    auto s = static_cast<const template_instruction *>(f);
    r["k"] = "tmpl";
    group(r, s);
    r["lns"] = text(s->template_ns()); r["rst"] = s->has_reset_attribute();
    break;
  }
  case field_type_templateref: r["k"] = "nest"; break;
  default: r["k"] = "?"; break;
  }
  return r;
}

inline json description(const templates_description &d) {
  json r = {{"ns", text(d.ns())}, {"base", text(d.template_ns())}, {"dic", text(d.dictionary())}, {"ts", json::array()}};
  for (auto t : d) r["ts"].push_back(field(t));
  return r;
}
}
