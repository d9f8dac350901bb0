// Type-erased coders so that one driver runs v1, and v2 over generated code.
#pragma once
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "mfast.h"
#include "mfast/coder/fast_decoder.h"
#include "mfast/coder/fast_encoder.h"
#include "mfast/coder/fast_decoder_v2.h"
#include "mfast/coder/fast_encoder_v2.h"
#include "objops.h"

struct any_encoder {
  virtual ~any_encoder() {}
  virtual size_t encode(const mfast::message_cref &m, char *b, size_t n, bool reset) = 0;
  virtual void encode(const mfast::message_cref &m, std::vector<char> &b, bool reset) = 0;
  virtual void overlong(bool v) = 0;
};
struct any_decoder {
  virtual ~any_decoder() {}
  std::unique_ptr<mfast::message_mref> mr;   // where the API gives one
  virtual mfast::message_cref decode(unsigned tok, const char *&f, const char *l, bool reset) = 0;
};
struct v1_encoder : any_encoder {
  mfast::fast_encoder e;
  v1_encoder(mfast::allocator *a, const std::vector<const mfast::templates_description *> &d) : e(a) { e.include(d.data(), d.size()); }
  size_t encode(const mfast::message_cref &m, char *b, size_t n, bool reset) override { return e.encode(m, b, n, reset); }
  void encode(const mfast::message_cref &m, std::vector<char> &b, bool reset) override { e.encode(m, b, reset); }
  void overlong(bool v) override { e.allow_overlong_pmap(v); }
};
struct v1_decoder : any_decoder {
  mfast::fast_decoder d;
  v1_decoder(mfast::allocator *a, const std::vector<const mfast::templates_description *> &ds) : d(a) { d.include(ds.data(), ds.size()); }
  mfast::message_cref decode(unsigned, const char *&f, const char *l, bool reset) override { return d.decode(f, l, reset); }
};
struct v2_encoder : any_encoder {
  mfast::fast_encoder_v2 e;
  template <typename... D> v2_encoder(mfast::allocator *a, const D *... d) : e(a, d...) {}
  size_t encode(const mfast::message_cref &m, char *b, size_t n, bool reset) override { return e.encode(m, b, n, reset); }
  void encode(const mfast::message_cref &m, std::vector<char> &b, bool reset) override { e.encode(m, b, reset); }
  void overlong(bool v) override { e.allow_overlong_pmap(v); }
};
template <unsigned N> struct v2_decoder : any_decoder {
  mfast::fast_decoder_v2<N> d;
  template <typename... D> v2_decoder(mfast::allocator *a, const D *... ds) : d(a, ds...) {}
  mfast::message_cref decode(unsigned t, const char *&f, const char *l, bool reset) override {
    mr.reset();
    mfast::message_mref m = d.decode(t, f, l, reset);
    mr.reset(new mfast::message_mref(m));
    return m;
  }
};
template <> struct v2_decoder<0> : any_decoder {
  mfast::fast_decoder_v2<0> d;
  template <typename... D> v2_decoder(mfast::allocator *a, const D *... ds) : d(a, ds...) {}
  mfast::message_cref decode(unsigned, const char *&f, const char *l, bool reset) override { return d.decode(f, l, reset); }
};

struct gen_set {
  std::vector<const mfast::templates_description *> descs;
  any_encoder *(*enc)(mfast::allocator *);
  any_decoder *(*dec0)(mfast::allocator *);
  any_decoder *(*dec1)(mfast::allocator *);
  any_decoder *(*dec3)(mfast::allocator *);
};
std::map<std::string, gen_set> &gen_sets();
struct gen_registrar { gen_registrar(const char *n, gen_set s) { gen_sets()[n] = s; } };
typedef void (*gen_view)(const mfast::message_cref &, std::vector<mfast::field_cref> &);
std::map<std::string, gen_view> &gen_views();
struct view_registrar { view_registrar(const char *n, gen_view v) { gen_views()[n] = v; } };
template <typename V, typename M> void show_gen_view(const mfast::message_cref &m, std::vector<mfast::field_cref> &out) {
  V v{M(m)};
  size_t n = 0;
  for (auto i = v.begin(); i != v.end() && n < 1000; ++i, ++n) out.push_back(*i);
}
#define REGISTER_VIEW(NAME, VIEW, M) \
  static view_registrar view_##NAME##_##VIEW(#NAME "." #VIEW, &show_gen_view<NAME::VIEW, NAME::M##_cref>);
#define REGISTER_GEN1(NAME, D)                                                              \
  static any_encoder *enc_##NAME(mfast::allocator *a) { return new v2_encoder(a, D::instance()); }          \
  static any_decoder *d0_##NAME(mfast::allocator *a) { return new v2_decoder<0>(a, D::instance()); }        \
  static any_decoder *d1_##NAME(mfast::allocator *a) { return new v2_decoder<1>(a, D::instance()); }        \
  static any_decoder *d3_##NAME(mfast::allocator *a) { return new v2_decoder<3>(a, D::instance()); }        \
  static gen_registrar reg_##NAME(#NAME, gen_set{{D::instance()}, enc_##NAME, d0_##NAME, d1_##NAME, d3_##NAME}); \
  static struct types_##NAME { types_##NAME() { register_types((D::types *)nullptr); } } treg_##NAME;
#define REGISTER_GEN2(NAME, D, E)                                                           \
  static any_encoder *enc_##NAME(mfast::allocator *a) { return new v2_encoder(a, D::instance(), E::instance()); }   \
  static any_decoder *d0_##NAME(mfast::allocator *a) { return new v2_decoder<0>(a, D::instance(), E::instance()); } \
  static any_decoder *d1_##NAME(mfast::allocator *a) { return new v2_decoder<1>(a, D::instance(), E::instance()); } \
  static any_decoder *d3_##NAME(mfast::allocator *a) { return new v2_decoder<3>(a, D::instance(), E::instance()); } \
  static gen_registrar reg_##NAME(#NAME, gen_set{{D::instance(), E::instance()}, enc_##NAME, d0_##NAME, d1_##NAME, d3_##NAME});
