// Operations on message objects: every call is made through the public
// references; what was called (indices as resolved) and what the objects read
// afterwards is recorded.
#pragma once
#include "msgio.h"
#include "guard.h"
#include "mfast/arena_allocator.h"
#include "mfast/json/json.h"
#include <functional>
#include <sstream>
#include <algorithm>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <tuple>

struct aobj {
  virtual ~aobj() {}
  virtual mfast::message_cref cref() const = 0;
  virtual mfast::message_mref mref() = 0;
  virtual const mfast::message_type &base() const = 0;
  virtual bool generated() const { return false; }
};
struct dobj : aobj {
  mfast::message_type m;
  dobj(mfast::allocator *a, const mfast::template_instruction *t) : m(a, t) {}
  dobj(const mfast::message_cref &c, mfast::allocator *a) : m(c, a) {}
  dobj(const mfast::message_type &o) : m(o) {}
  dobj(mfast::message_type &&o) : m(std::move(o)) {}
  mfast::message_cref cref() const override { return m.cref(); }
  mfast::message_mref mref() override { return m.mref(); }
  const mfast::message_type &base() const override { return m; }
};
template <typename M> struct gobj : aobj {
  M m;
  gobj(mfast::allocator *a) : m(a) {}
  gobj(const typename M::cref_type &c, mfast::allocator *a) : m(c, a) {}
  mfast::message_cref cref() const override { return m.cref(); }
  mfast::message_mref mref() override { return m.mref(); }
  const mfast::message_type &base() const override { return m; }
  bool generated() const override { return true; }
};
struct gen_type {
  aobj *(*make)(mfast::allocator *);
  aobj *(*copy)(const mfast::message_cref &, mfast::allocator *);
};
std::map<const mfast::template_instruction *, gen_type> &gen_types();
template <typename M> struct gen_type_of {
  static aobj *make(mfast::allocator *a) { return new gobj<M>(a); }
  static aobj *copy(const mfast::message_cref &c, mfast::allocator *a) {
    return new gobj<M>(typename M::cref_type(c), a);
  }
};
template <typename... M> struct gen_registrar_t {
  static void add(std::tuple<M...> *) {
    int x[] = {0, (gen_types()[M::instruction()] = gen_type{gen_type_of<M>::make, gen_type_of<M>::copy}, 0)...};
    (void)x;
  }
};
template <typename... M> inline void register_types(std::tuple<M...> *t) { gen_registrar_t<M...>::add(t); }

// input iterators over a value list: the one category the containers treat apart
template <typename T> struct once_iterator {
  typedef std::input_iterator_tag iterator_category;
  typedef T value_type;
  typedef std::ptrdiff_t difference_type;
  typedef const T *pointer;
  typedef const T &reference;
  const T *p;
  const T &operator*() const { return *p; }
  once_iterator &operator++() { ++p; return *this; }
  once_iterator operator++(int) { once_iterator r = *this; ++p; return r; }
  bool operator==(const once_iterator &o) const { return p == o.p; }
  bool operator!=(const once_iterator &o) const { return p != o.p; }
};

struct lent {   // memory the fields may refer to; guarded on both sides
  std::list<std::unique_ptr<guarded_buffer>> bufs;
  std::map<const void *, std::string> content;
  std::set<const void *> open;   // not terminated
  const char *lend(const std::string &s, bool terminated) {
    bufs.emplace_back(new guarded_buffer(s.size() + terminated, true));
    char *p = bufs.back()->data;
    memcpy(p, s.data(), s.size());
    if (terminated) p[s.size()] = 0; else open.insert(p);
    content[p] = s;
    return p;
  }
  bool intact() const {
    for (auto &kv : content) if (memcmp(kv.first, kv.second.data(), kv.second.size())) return false;
    return true;
  }
};

struct objects {
  write_ctx ctx;
  lent mem;
  std::map<std::string, std::unique_ptr<guard_allocator>> als;
  std::map<std::string, std::unique_ptr<mfast::arena_allocator>> ars;
  struct entry { std::unique_ptr<aobj> o; std::string al; };
  std::map<std::string, entry> objs;
  bool skipped = false;
  explicit objects(const write_ctx &c) : ctx(c) {}

  mfast::allocator *al(const json &o) {
    std::string n = o["al"];
    if (n[0] == 'Z') {
      auto &p = ars[n];
      if (!p) p.reset(new mfast::arena_allocator());
      return p.get();
    }
    auto &p = als[n];
    if (!p) { p.reset(new guard_allocator()); if (o.contains("slack")) p->realloc_slack = o["slack"].get<size_t>(); }
    return p.get();
  }

  mfast::allocator *allocator_of(const std::string &n) {
    if (n[0] == 'Z') return ars.at(n).get();
    return als.at(n).get();
  }
  static void jwrite(std::ostream &os, const mfast::aggregate_cref &a, int w, const json &o) {
    if (o.contains("im")) { mfast::json::encode(os, a, o.value("jm", 0u), o["im"].get<unsigned>()); return; }
    if (o.contains("jm")) { mfast::json::encode(os, a, o["jm"].get<unsigned>()); return; }
    if (w) mfast::json::encode(os, a, 0, 0); else mfast::json::encode(os, a);
  }

  // ---------------------------------------------------------------- paths
  // field index; then for a sequence: element, field ...; group: field ...; nested: [tid] field ...
  mfast::field_mref walk(mfast::aggregate_mref a, const json &p, size_t i, json &got) {
    using namespace mfast;
    size_t k = p[i];
    field_mref f = a[k];
    got.push_back(k);
    if (i + 1 >= p.size()) return f;
    switch (f.instruction()->field_type()) {
    case field_type_group: { group_mref g(f); return walk(aggregate_mref(g), p, i + 1, got); }
    case field_type_sequence: {
      sequence_mref s(f);
      if (s.size() == 0) { skipped = true; return f; }
      size_t e = p[i + 1].get<size_t>() % s.size();
      got.push_back(e);
      if (i + 2 >= p.size()) { skipped = true; return f; }
      return walk(s[e], p, i + 2, got);
    }
    case field_type_templateref: {
      nested_message_mref n(f);
      if (!n.target_instruction() || n.target_instruction()->id() != p[i + 1][0].get<unsigned>()) { skipped = true; return f; }
      return walk(n.target(), p, i + 2, got);
    }
    default: skipped = true; return f;
    }
  }
  // reading does not make groups present
  mfast::field_cref cwalk(mfast::aggregate_cref a, const json &p, size_t i, json &got) {
    using namespace mfast;
    size_t k = p[i];
    field_cref f = a[k];
    got.push_back(k);
    if (i + 1 >= p.size()) return f;
    switch (f.instruction()->field_type()) {
    case field_type_group: return cwalk(aggregate_cref(group_cref(f)), p, i + 1, got);
    case field_type_sequence: {
      sequence_cref s(f);
      if (s.size() == 0) { skipped = true; return f; }
      size_t e = p[i + 1].get<size_t>() % s.size();
      got.push_back(e);
      return cwalk(s[e], p, i + 2, got);
    }
    case field_type_templateref: {
      nested_message_cref n(f);
      if (!n.target_instruction() || n.target_instruction()->id() != p[i + 1][0].get<unsigned>()) { skipped = true; return f; }
      return cwalk(n.target(), p, i + 2, got);
    }
    default: skipped = true; return f;
    }
  }

  // ---------------------------------------------------------------- scalars
  template <typename T> static T num(const json &v) {
    std::string s = v;
    return std::is_signed<T>::value ? (T)std::stoll(s) : (T)std::stoull(s);
  }
  template <typename R, typename C, typename T>
  bool m_int(const mfast::field_mref &f, const json &o, const mfast::field_cref *src) {
    R r(f);
    std::string k = o["k"];
    if (k == "set") {
      if (o.value("w", 0) == 1 && std::is_integral<T>::value) mfast::field_mref(f).as(num<T>(o["x"]));
      else r.as(num<T>(o["x"]));
    }
    else if (k == "from") r.as(C(*src));
    else return common(r, k);
    return true;
  }
  template <typename R> bool common(const R &r, const std::string &k) {
    if (k == "omit") r.omit();
    else if (k == "clear") r.clear();
    else if (k == "init") initial(r);
    else return false;
    return true;
  }
  template <typename R> static void initial(const R &r) { r.to_initial_value(); }
  template <typename T> static void initial(const mfast::int_vector_mref<T> &r) { r.omit(); }   // they have none
  bool m_dec(const mfast::field_mref &f, const json &o, json &res, const mfast::field_cref *src) {
    using namespace mfast;
    decimal_mref r(f);
    std::string k = o["k"];
    if (k == "set") r.as(num<int64_t>(o["x"][0]), (int16_t)num<int>(o["x"][1]));
    else if (k == "from") r.as(decimal_cref(*src));
    else if (k == "asint") r.as(num<int64_t>(o["x"]));
    else if (k == "setm") { if (f.absent()) { skipped = true; return true; } if (o.value("w", 0)) r.set_mantissa().as(num<int64_t>(o["x"])); else r.set_mantissa(num<int64_t>(o["x"])); }
    else if (k == "sete") { if (f.absent()) { skipped = true; return true; } if (o.value("w", 0)) r.set_exponent().as((int16_t)num<int>(o["x"])); else r.set_exponent(num<int>(o["x"])); }
    else if (k == "norm") { if (f.absent()) { skipped = true; return true; } r.normalize(); }
    else if (k == "viaval") {
      decimal_cref c(*src);
      if (c.absent() || c.mantissa() <= -1000000000000000000 || c.mantissa() >= 1000000000000000000) { skipped = true; return true; }
      r.as(c.value());
    }
    else if (k == "read") {
      if (!f.absent()) {
        std::string t = decimal_cref(f).to_string();
        res["txt"] = "x" + hex(t.data(), t.size());
      }
    }
    else if (k == "text") {
      std::string s = unhex(o["x"], 1);
      try { r.as(boost::string_ref(s)); } catch (const std::runtime_error &) { res["rej"] = true; }
    }
    else return common(r, k);
    return true;
  }

  // ---------------------------------------------------------------- strings and vectors
  struct vec_tag {}; struct str_tag {};
  template <typename R, typename T> bool str_way(R &r, const std::string &k, const json &o, const std::vector<T> &x, str_tag) {
    boost::string_ref s(reinterpret_cast<const char *>(x.data()), x.size());
    int w = o["w"];
    if (k == "set") { if (w == 3) r.as(s); else if (w == 4) r = s; else return false; return true; }
    if (k == "app") {
      if (w == 3) r.append(s); else if (w == 4) r += s;
      else if (w == 5) { if (x.empty()) return false; r.append(s, o["sub"], x.size() - o["sub"].get<size_t>()); }
      else if (w == 6) r.append(s.data(), s.size());
      else if (w == 7) r.append(x.begin(), x.end());
      else return false;
      return true;
    }
    return false;
  }
  template <typename R, typename T> bool str_way(R &r, const std::string &k, const json &o, const std::vector<T> &x, vec_tag) {
    int w = o["w"];
    if (k == "set" && w == 3) { r.as(x); return true; }
    return false;
  }
  void set_from(mfast::ascii_string_mref &r, const mfast::field_cref &s) {
    using namespace mfast;
    if (s.field_type() == field_type_unicode_string) { skipped = true; return; }
    r.as(vector_cref<char>(s));
  }
  void set_from(mfast::unicode_string_mref &r, const mfast::field_cref &s) {
    if (s.field_type() == mfast::field_type_ascii_string) { skipped = true; return; }
    r.as(mfast::vector_cref<mfast::utf8_char>(s));
  }
  void set_from(mfast::byte_vector_mref &r, const mfast::field_cref &s) { r.as(mfast::byte_vector_cref(s)); }
  template <typename T> void set_from(mfast::int_vector_mref<T> &r, const mfast::field_cref &s) { r.as(mfast::vector_cref<T>(s)); }

  template <typename R, typename T, typename TAG>
  bool m_vec(const mfast::field_mref &f, const json &o, json &res, const mfast::field_cref *src, bool chars) {
    typedef typename R::value_type ch;
    R r(f);
    std::string k = o["k"];
    int w = o.value("w", 0);
    std::vector<ch> x;
    if (o.contains("x")) {
      const json &j = o["x"];
      if (j.is_string()) { std::string s = unhex(j, 1); const ch *p = reinterpret_cast<const ch *>(s.data()); x.assign(p, p + s.size()); }
      else for (auto &e : j["v"]) { T v = num<T>(e); ch c; memcpy(&c, &v, sizeof(ch)); x.push_back(c); }
    }
    const ch *b = x.data(), *e = b + x.size();
    size_t n = r.size();
    if (k == "set") {
      if (str_way(r, k, o, x, TAG())) return true;
      if (w == 1) r.assign(once_iterator<ch>{b}, once_iterator<ch>{e});
      else if (w == 2 && x.size() && same(x)) r.assign(x.size(), x[0]);
      else r.assign(b, e);
    } else if (k == "from") set_from(r, *src);
    else if (k == "app") {
      if (str_way(r, k, o, x, TAG())) return true;
      if (w == 1) for (auto &c : x) r.push_back(c);
      else if (w == 2) r.insert(r.end(), once_iterator<ch>{b}, once_iterator<ch>{e});
      else r.insert(r.end(), b, e);
    } else if (k == "ins") {
      size_t pos = o["pos"].get<size_t>() % (n + 1);
      res["pos"] = pos;
      if (x.size() == 1 && w == 0) r.insert(r.begin() + pos, x[0]);
      else if (x.size() && same(x) && w == 1) r.insert(r.begin() + pos, x.size(), x[0]);
      else if (w == 2) r.insert(r.begin() + pos, once_iterator<ch>{b}, once_iterator<ch>{e});
      else r.insert(r.begin() + pos, b, e);
    } else if (k == "pop") r.pop_back();
    else if (k == "resize") {
      if (o["c"].get<int>() == 0 && w == 0) r.resize(o["n"].get<size_t>());
      else r.resize(o["n"].get<size_t>(), (char)o["c"].get<int>());
    } else if (k == "reserve") r.reserve(o["n"].get<size_t>());
    else if (k == "ref") {
      const ch *p = reinterpret_cast<const ch *>(mem.lend(std::string(reinterpret_cast<const char *>(b), x.size() * sizeof(ch)), chars && o.value("t", false)));
      refer(r, p, x.size(), w == 1 && o.value("t", false), TAG());
    } else if (k == "repl") {
      size_t pos = o["pos"].get<size_t>() % (n + 1);
      size_t cnt = o["n"].get<size_t>() % (n - pos + 2);
      res["pos"] = pos; res["n"] = cnt;
      r.replace(pos, cnt, b, x.size());
    } else if (k == "elem") {
      if (n == 0) { skipped = true; return true; }
      size_t pos = o["pos"].get<size_t>() % n;
      res["pos"] = pos;
      r.reserve(n);             // writable only when owned
      r[pos] = x[0];
    } else if (k == "read") {
      // read in other ways than by index: through iterators, backwards, as a C string
      std::string rev, fwd;
      for (auto i = r.rbegin(); i != r.rend(); ++i) { ch c = *i; rev.append(reinterpret_cast<const char *>(&c), sizeof(ch)); }
      typename R::cref_type c(f);
      for (auto i = c.cbegin(); i != c.cend(); ++i) { ch q = *i; fwd.append(reinterpret_cast<const char *>(&q), sizeof(ch)); }
      res["fwd"] = "x" + hex(fwd.data(), fwd.size());
      std::string bwd;
      for (size_t i = rev.size(); i >= sizeof(ch) && i; i -= sizeof(ch)) bwd += rev.substr(i - sizeof(ch), sizeof(ch));
      res["bwd"] = "x" + hex(bwd.data(), bwd.size());
      if (chars && !mem.open.count(r.data())) res["cs"] = "x" + cstr(r, c, f, n, TAG());
    } else if (k == "swap") { return false; }
    else return common(r, k);
    return true;
  }
  template <typename R, typename ch> static void refer(R &r, const ch *p, size_t n, bool whole, str_tag) {
    const char *c = reinterpret_cast<const char *>(p);
    if (whole && !memchr(c, 0, n)) r.shallow_assign(c); else r.refers_to(boost::string_ref(c, n));
  }
  template <typename R, typename ch> static void refer(R &r, const ch *p, size_t n, bool w, vec_tag) {
    if (w) r.shallow_assign(p, n); else r.refers_to(p, n);
  }
  template <typename R, typename C> std::string cstr(R &r, const C &c, const mfast::field_mref &, size_t n, str_tag) {
    const char *p = c.c_str();
    return hex(p, n + 1);
  }
  template <typename R, typename C> std::string cstr(R &, const C &, const mfast::field_mref &, size_t, vec_tag) { return ""; }
  template <typename T> static bool same(const std::vector<T> &x) {
    for (auto &c : x) if (memcmp(&c, &x[0], sizeof(T))) return false;
    return true;
  }

  // ---------------------------------------------------------------- the operation table
  bool mut(const mfast::field_mref &f, const json &o, json &res, const mfast::field_cref *src) {
    using namespace mfast;
    std::string k = o["k"];
    switch (f.instruction()->field_type()) {
    case field_type_int32: return m_int<int32_mref, int32_cref, int32_t>(f, o, src);
    case field_type_uint32: return m_int<uint32_mref, uint32_cref, uint32_t>(f, o, src);
    case field_type_int64: return m_int<int64_mref, int64_cref, int64_t>(f, o, src);
    case field_type_uint64: return m_int<uint64_mref, uint64_cref, uint64_t>(f, o, src);
    case field_type_enum: return m_int<enum_mref, enum_cref, uint64_t>(f, o, src);
    case field_type_set: {
      ::json q = o; q["w"] = 0;
      return m_int<set_mref, set_cref, uint64_t>(f, q, src);
    }
    case field_type_decimal:
    case field_type_exponent: return m_dec(f, o, res, src);
    case field_type_ascii_string: return m_vec<ascii_string_mref, char, str_tag>(f, o, res, src, true);
    case field_type_unicode_string: return m_vec<unicode_string_mref, char, str_tag>(f, o, res, src, true);
    case field_type_byte_vector: return m_vec<byte_vector_mref, unsigned char, vec_tag>(f, o, res, src, false);
    case field_type_int32_vector: return m_vec<int32_vector_mref, int32_t, vec_tag>(f, o, res, src, false);
    case field_type_uint32_vector: return m_vec<uint32_vector_mref, uint32_t, vec_tag>(f, o, res, src, false);
    case field_type_int64_vector: return m_vec<int64_vector_mref, int64_t, vec_tag>(f, o, res, src, false);
    case field_type_uint64_vector: return m_vec<uint64_vector_mref, uint64_t, vec_tag>(f, o, res, src, false);
    case field_type_sequence: {
      sequence_mref s(f);
      if (k == "resize") s.resize(o["n"].get<size_t>());
      else if (k == "reserve") s.reserve(o["n"].get<size_t>());
      else if (k == "grow") {
        auto it = s.grow_by(o["n"].get<size_t>());
        res["at"] = (long)(it - s.begin());
      }
      else if (k == "from") s.as(sequence_cref(*src));
      else if (k == "omit") s.omit();
      else if (k == "clear") s.clear();
      else if (k == "eas") {   // one element given another one's value
        if (s.size() == 0) { skipped = true; return true; }
        size_t a = o["pos"].get<size_t>() % s.size(), b = o["n"].get<size_t>() % s.size();
        res["pos"] = a; res["n"] = b;
        s[a].as(s[b]);
      }
      else if (k == "assign") {   // the elements of another one from that position on
        sequence_cref c(*src);
        size_t a = o["pos"].get<size_t>() % (c.size() + 1);
        res["pos"] = a;
        sequence_cref::iterator x = c.begin(), y = c.end();
        x += a;
        s.assign(x, y);
      }
      else if (k == "read") {
        ::json fwd = ::json::array(), bwd = ::json::array();
        sequence_cref c(f);
        for (auto i = s.begin(); i != s.end(); ++i) fwd.push_back(read_agg(*i));
        for (auto i = c.crbegin(); i != c.crend(); ++i) bwd.push_back(read_agg(*i));
        res["sf"] = {{"s", fwd}};
        std::reverse(bwd.begin(), bwd.end());
        res["sb"] = {{"s", bwd}};
        res["at"] = (long)c.length();
        if (s.size()) { res["ef"] = read_agg(s.front()); res["eb"] = read_agg(c.back()); }
      }
      else return false;
      return true;
    }
    case field_type_group: {
      if (k == "omit") group_omit(f);
      else if (k == "touch") group_mref g(f);
      else if (k == "as") {
        group_mref g(f);
        aggregate_mref(g).as(aggregate_cref(group_cref(*src)));
      }
      else return false;
      return true;
    }
    case field_type_templateref: {
      nested_message_mref n(f);
      if (k == "rebind") {
        const template_instruction *t = ctx.find(ctx.self, o["tid"].get<unsigned>());
        if (!t) throw std::runtime_error("harness: no such template");
        n.rebind(t);
      } else return false;
      return true;
    }
    default: return false;
    }
  }
  // where in the message a storage is
  static bool place(const mfast::aggregate_cref &a, const mfast::value_storage *s, json &p) {
    for (size_t i = 0; i < a.num_fields(); ++i) {
      mfast::field_cref f = a[i];
      p.push_back(i);
      if (mfast::field_cref_core_access::storage_of(f) == s) return true;
      if (f.present() && f.field_type() == mfast::field_type_group && place(mfast::aggregate_cref(mfast::group_cref(f)), s, p)) return true;
      if (f.present() && f.field_type() == mfast::field_type_sequence) {
        mfast::sequence_cref q(f);
        for (size_t j = 0; j < q.size(); ++j) {
          p.push_back(j);
          if (place(mfast::aggregate_cref(q[j]), s, p)) return true;
          p.erase(p.size() - 1);
        }
      }
      p.erase(p.size() - 1);
    }
    return false;
  }
  std::function<void(const mfast::message_cref &, const std::string &, const std::string &, std::vector<mfast::field_cref> &)> show_view;

  void group_omit(const mfast::field_mref &f) {
    // through the reference that does not make the group present first
    f.omit();
  }

  // ---------------------------------------------------------------- swaps
  template <typename R> static void sw(const mfast::field_mref &a, const mfast::field_mref &b) { R x(a), y(b); x.swap(y); }
  bool swap(const mfast::field_mref &a, const mfast::field_mref &b) {
    using namespace mfast;
    if (a.instruction()->field_type() != b.instruction()->field_type() || a.optional() != b.optional()) { skipped = true; return true; }
    switch (a.instruction()->field_type()) {
    case field_type_ascii_string: sw<ascii_string_mref>(a, b); return true;
    case field_type_unicode_string: sw<unicode_string_mref>(a, b); return true;
    case field_type_byte_vector: sw<byte_vector_mref>(a, b); return true;
    case field_type_int32_vector: sw<int32_vector_mref>(a, b); return true;
    case field_type_uint32_vector: sw<uint32_vector_mref>(a, b); return true;
    case field_type_int64_vector: sw<int64_vector_mref>(a, b); return true;
    case field_type_uint64_vector: sw<uint64_vector_mref>(a, b); return true;
    case field_type_sequence: sw<sequence_mref>(a, b); return true;
    default: return false;
    }
  }

  // ---------------------------------------------------------------- comparisons
  template <typename C> static void typed(const mfast::field_cref &a, const mfast::field_cref &b, json &r) {
    C x(a), y(b);
    r.push_back((bool)(x == y)); r.push_back((bool)(y == x)); r.push_back(!(x != y));
  }
  void compare(const mfast::field_cref &a, const mfast::field_cref &b, json &res) {
    using namespace mfast;
    ::json r = ::json::array();
    r.push_back((bool)(a == b)); r.push_back((bool)(b == a));
    if (a.field_type() == b.field_type()) switch (a.field_type()) {
      case field_type_int32: typed<int32_cref>(a, b, r); break;
      case field_type_uint32: typed<uint32_cref>(a, b, r); break;
      case field_type_int64: typed<int64_cref>(a, b, r); break;
      case field_type_uint64: typed<uint64_cref>(a, b, r); break;
      case field_type_enum: typed<enum_cref>(a, b, r); break;
      case field_type_set: typed<set_cref>(a, b, r); break;
      case field_type_decimal: case field_type_exponent: typed<decimal_cref>(a, b, r); break;
      case field_type_ascii_string: typed<ascii_string_cref>(a, b, r); order<ascii_string_cref>(a, b, res); break;
      case field_type_unicode_string: typed<unicode_string_cref>(a, b, r); order<unicode_string_cref>(a, b, res); break;
      case field_type_byte_vector: typed<byte_vector_cref>(a, b, r); break;
      case field_type_int32_vector: typed<int32_vector_cref>(a, b, r); break;
      case field_type_uint32_vector: typed<uint32_vector_cref>(a, b, r); break;
      case field_type_int64_vector: typed<int64_vector_cref>(a, b, r); break;
      case field_type_uint64_vector: typed<uint64_vector_cref>(a, b, r); break;
      default: break;
    }
    res["eq"] = r;
  }
  template <typename C> static void order(const mfast::field_cref &a, const mfast::field_cref &b, json &res) {
    C x(a), y(b);
    int c = x.compare(y);
    res["ord"] = c < 0 ? -1 : c > 0 ? 1 : 0;
    json l = json::array();
    l.push_back(x < y); l.push_back(x <= y); l.push_back(x > y); l.push_back(x >= y);
    l.push_back(x < y.value()); l.push_back(x <= y.value()); l.push_back(x > y.value()); l.push_back(x >= y.value());
    res["rel"] = l;
  }

  json dump() {
    json r = json::object();
    for (auto &kv : objs) r[kv.first] = json{{"tid", kv.second.o->cref().id()}, {"v", read_agg(kv.second.o->cref())}};
    return r;
  }

  json step(const json &o) {
    std::string op = o["op"];
    json r = json::object();
    skipped = false;
    if (op == "onew") {
      const mfast::template_instruction *ti = ctx.find(ctx.self, o["tid"]);
      if (!ti) throw std::runtime_error("harness: no such template");
      auto g = gen_types().find(ti);
      entry e;
      e.al = o["al"];
      mfast::allocator *a = al(o);
      if (g != gen_types().end() && o.value("gen", true)) e.o.reset(g->second.make(a));
      else e.o.reset(new dobj(a, ti));
      objs[o["m"]] = std::move(e);
    } else if (op == "ocopy") {      // a new object from another one
      entry e;
      std::string w = o["w"];
      entry &s = objs.at(o["from"]);
      auto g = gen_types().find(s.o->cref().instruction());
      if (w == "copy") { e.al = s.al; e.o.reset(new dobj(s.o->base())); }
      else {
        e.al = o["al"];
        mfast::allocator *a = al(o);
        if (g != gen_types().end() && w == "gen") e.o.reset(g->second.copy(s.o->cref(), a));
        else e.o.reset(new dobj(s.o->cref(), a));
      }
      objs[o["m"]] = std::move(e);
    } else if (op == "omove") {      // the source is gone afterwards
      entry &s = objs.at(o["from"]);
      if (s.o->generated()) { r["skip"] = true; r["all"] = dump(); return r; }
      entry e;
      e.al = s.al;
      e.o.reset(new dobj(std::move(static_cast<dobj *>(s.o.get())->m)));
      objs.erase(o["from"].get<std::string>());
      objs[o["m"]] = std::move(e);
    } else if (op == "oassign") {    // m = from, by copy or by move
      entry &s = objs.at(o["from"]), &d = objs.at(o["m"]);
      bool mv = o.value("mv", false);
      if (d.o->generated() || (mv && (s.o->generated() || &s == &d))) { r["skip"] = true; r["all"] = dump(); return r; }
      mfast::message_type &dm = static_cast<dobj *>(d.o.get())->m;
      d.al = s.al;
      if (mv) { dm = std::move(static_cast<dobj *>(s.o.get())->m); objs.erase(o["from"].get<std::string>()); }
      else { const mfast::message_type &sm = s.o->base(); dm = sm; }
    } else if (op == "oas") {        // contents through the references
      entry &s = objs.at(o["from"]), &d = objs.at(o["m"]);
      if (s.o->cref().instruction() != d.o->cref().instruction()) r["skip"] = true;
      else mfast::aggregate_mref(d.o->mref()).as(mfast::aggregate_cref(s.o->cref()));
    } else if (op == "odel") {
      objs.erase(o["m"].get<std::string>());
    } else if (op == "mut") {
      json got = json::array(), sgot = json::array();
      entry &d = objs.at(o["m"]);
      std::unique_ptr<mfast::field_cref> src;
      if (o.contains("src")) {
        entry &s = objs.at(o["src"]["m"]);
        src.reset(new mfast::field_cref(cwalk(s.o->cref(), o["src"]["p"], 0, sgot)));
        if (!skipped) { r["sp"] = sgot; r["sv"] = read_field(*src); }
      }
      if (!skipped) {
        mfast::field_mref f = walk(d.o->mref(), o["p"], 0, got);
        // a source inside what the walk reached, or resized since, is not used
        r["p"] = got;
        if (!skipped) {
          if (o["k"] == "swap") {
            json g2 = json::array();
            mfast::field_mref h = walk(d.o->mref(), o["q"], 0, g2);
            r["q"] = g2;
            if (!skipped && !swap(f, h)) throw std::runtime_error("harness: no swap");
          } else if (!mut(f, o, r, src.get())) throw std::runtime_error("harness: no operation " + o["k"].get<std::string>());
        }
      }
      if (skipped) r["skip"] = true;
    } else if (op == "cmp") {
      entry &a = objs.at(o["m"]), &b = objs.at(o["n"]);
      if (o.contains("p")) {
        json g1 = json::array(), g2 = json::array();
        mfast::field_cref x = cwalk(a.o->cref(), o["p"], 0, g1), y = cwalk(b.o->cref(), o["q"], 0, g2);
        r["p"] = g1; r["q"] = g2;
        if (skipped) r["skip"] = true; else compare(x, y, r);
      } else {
        mfast::message_cref x = a.o->cref(), y = b.o->cref();
        r["eq"] = json::array({(bool)(x == y), (bool)(y == x), (bool)(mfast::aggregate_cref(x) == mfast::aggregate_cref(y))});
      }
    } else if (op == "view") {       // where what a view shows is
      entry &a = objs.at(o["m"]);
      mfast::message_cref x = a.o->cref();
      r["ent"] = json::array();
      std::vector<mfast::field_cref> got;
      show_view(x, o["view"], a.o->generated() ? o.value("gen", "") : std::string(), got);
      for (auto &f : got) {
        json p = json::array();
        if (f.present() && !place(mfast::aggregate_cref(x), mfast::field_cref_core_access::storage_of(f), p)) p = json::array({-1});
        r["ent"].push_back(p);
      }
    } else if (op == "jenc") {       // JSON of an object, a group or a sequence
      std::ostringstream os;
      entry &a = objs.at(o["m"]);
      json g = json::array();
      if (!o.contains("p")) jwrite(os, a.o->cref(), o.value("w", 0), o);
      else {
        mfast::field_cref f = cwalk(a.o->cref(), o["p"], 0, g);
        if (skipped) r["skip"] = true;
        else if (f.field_type() == mfast::field_type_sequence) { r["im"] = 0; mfast::json::encode(os, mfast::sequence_cref(f), o.value("jm", 0u)); }
        else if (f.present()) jwrite(os, mfast::aggregate_cref(mfast::group_cref(f)), o.value("w", 0), o);
      }
      std::string s = os.str();
      r["p"] = g; r["x"] = "x" + hex(s.data(), s.size());
    } else if (op == "jdec") {       // a JSON text read into an object or a sequence
      entry &d = objs.at(o["m"]);
      std::string x;
      if (o.contains("of")) {        // the text another object is written as
        std::ostringstream os;
        mfast::json::encode(os, mfast::aggregate_cref(objs.at(o["of"]).o->cref()), o.value("jm", 0u));
        x = os.str();
      } else x = unhex(o["x"], 1);
      json g = json::array();
      std::istringstream is(x);
      bool rej = false;
      if (!o.contains("p")) {
        try { mfast::json::decode(is, mfast::aggregate_mref(d.o->mref()), o.value("jm", 0u)); }
        catch (const std::exception &ex) { rej = true; r["why"] = std::string(ex.what()).substr(0, 60); }
      } else {
        mfast::field_mref f = walk(d.o->mref(), o["p"], 0, g);
        if (skipped || f.instruction()->field_type() != mfast::field_type_sequence) r["skip"] = true;
        else {
          try { mfast::json::decode(is, mfast::sequence_mref(f), o.value("jm", 0u)); }
          catch (const std::exception &ex) { rej = true; r["why"] = std::string(ex.what()).substr(0, 60); }
        }
      }
      if (rej) {
        const mfast::template_instruction *ti = d.o->cref().instruction();
        auto gt = gen_types().find(ti);
        mfast::allocator *al = allocator_of(d.al);
        if (d.o->generated()) d.o.reset(gt->second.make(al)); else d.o.reset(new dobj(al, ti));
      }
      std::streamsize rest = is.rdbuf()->in_avail();
      r["used"] = (long)x.size() - (rest > 0 ? rest : 0);
      r["p"] = g; r["rej"] = rej; r["x"] = "x" + hex(x.data(), x.size());
    } else if (op == "oend") {
      objs.clear();
      json l = json::array(), p = json::array();
      for (auto &kv : als) {
        kv.second->check_all();
        l.push_back(kv.second->live.size());
        for (auto &x : kv.second->problems) p.push_back(x);
      }
      r["live"] = l; r["problems"] = p; r["lent"] = mem.intact();
    } else throw std::runtime_error("harness: unknown op " + op);
    r["all"] = dump();
    json p = json::array();
    for (auto &kv : als) { kv.second->check_all(); for (auto &x : kv.second->problems) p.push_back(x); }
    if (!p.empty()) r["problems"] = p;
    return r;
  }
};
