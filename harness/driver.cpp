// Executes sessions (one JSON line each) against the real coders and records
// one event per operation. Judges nothing: the specification does.
#include "coders.h"
#include "guard.h"
#include "msgio.h"
#include "objops.h"
#include "arenaops.h"
#include "runner.h"
#include "mfast/xml_parser/dynamic_templates_description.h"
#include <sys/resource.h>
#include <sys/wait.h>
#include <iostream>
#include <fstream>

std::map<const mfast::template_instruction *, gen_type> &gen_types() { static std::map<const mfast::template_instruction *, gen_type> m; return m; }
std::map<std::string, gen_view> &gen_views() { static std::map<std::string, gen_view> m; return m; }
std::map<std::string, gen_set> &gen_sets() { static std::map<std::string, gen_set> m; return m; }

struct session {
  struct doc { std::unique_ptr<mfast::template_registry> reg; std::shared_ptr<mfast::dynamic_templates_description> d; const mfast::templates_description *t; };
  struct coder { std::unique_ptr<guard_allocator> al; std::unique_ptr<any_encoder> e; std::unique_ptr<any_decoder> d; bool failed = false; };
  struct message { std::unique_ptr<guard_allocator> al; std::unique_ptr<mfast::message_type> m; };
  std::unique_ptr<mfast::template_registry> shared;
  std::map<std::string, doc> docs;
  std::map<std::string, coder> coders;
  std::map<std::string, message> msgs;
  std::map<std::string, mfast::message_cref *> held;
  std::map<std::string, mfast::message_mref *> held_m;
  objects objs;
  arenas arena;
  std::string loaded;                        // the documents so far
  // descriptions which the sessions of a group share
  static std::map<std::string, std::shared_ptr<mfast::dynamic_templates_description>> &preloaded() {
    static std::map<std::string, std::shared_ptr<mfast::dynamic_templates_description>> m;
    return m;
  }
  static void prepare(const std::vector<nlohmann::json> &group) {
    for (auto &s : group) {
      if (s.value("own", false)) continue;     // loads for itself
      std::string all;
      auto *reg = new mfast::template_registry();
      for (auto &o : s["ops"])
        if (o["op"] == "load" && !o.contains("gen")) {
          std::string xml = o["xml"];
          all += xml + '\f';
          try {
            std::shared_ptr<mfast::dynamic_templates_description> d(new mfast::dynamic_templates_description(xml.c_str(), "t", reg));
            preloaded().emplace(all, d);
          } catch (...) { break; }
        }
    }
  }
  session() : objs(write_ctx{find, this}) {
    objs.show_view = [this](const mfast::message_cref &m, const std::string &name, const std::string &gen, std::vector<mfast::field_cref> &out) {
      if (!gen.empty()) {
        gen_views().at(gen + "." + name)(m, out);
        return;
      }
      for (auto &d : docs)
        for (auto &v : d.second.d->view_infos())
          if (name == v.name_) {
            mfast::view_iterator i(mfast::aggregate_cref(m), v.data_.begin(), v.max_depth_), e(v.data_.end() - 1);
            for (size_t n = 0; i != e && n < 1000; ++i, ++n) out.push_back(*i);
            return;
          }
      throw std::runtime_error("harness: no view " + name);
    };
  }
  std::map<std::string, bool> last_rs;
  std::map<std::string, const gen_set *> gens;
  bool gens_first = false;
  std::map<std::string, std::string> last;   // bytes of the last encode per encoder

  static const mfast::template_instruction *find(void *self, unsigned tid) {
    session *s = (session *)self;
    if (s->gens_first)
      for (auto &kv : s->gens)
        for (auto *d : kv.second->descs)
          for (auto *ti : *d)
            if (ti->id() == tid) return ti;
    for (auto &kv : s->docs)
      for (auto *ti : *kv.second.t)
        if (ti->id() == tid) return ti;
    for (auto &kv : s->gens)
      for (auto *d : kv.second->descs)
        for (auto *ti : *d)
          if (ti->id() == tid) return ti;
    return nullptr;
  }
  std::vector<const mfast::templates_description *> descs(const json &names) {
    std::vector<const mfast::templates_description *> r;
    for (auto &n : names) {
      auto it = docs.find(n.get<std::string>());
      if (it != docs.end()) { r.push_back(it->second.t); continue; }
      for (auto *d : gens.at(n.get<std::string>())->descs) r.push_back(d);
    }
    return r;
  }
  template <typename F> json step(const json &o, F out) {
    std::string op = o["op"];
    json r = json::object();
    if (op == "anew" || op == "aa" || op == "ar" || op == "ad" || op == "az") return arena.step(o);
    if ((op[0] == 'o' && op != "overlong") || op == "mut" || op == "cmp" || op == "jenc" || op == "jdec" || op == "view") return objs.step(o);
    if (op == "load") {
      if (o.contains("gen")) {
        auto it = gen_sets().find(o["gen"].get<std::string>());
        if (it == gen_sets().end()) throw std::runtime_error("harness: no generated set");
        gens[o["doc"]] = &it->second;
        gens_first = o.value("first", false);
      } else {
        doc d;
        std::string xml = o["xml"];
        loaded += xml + '\f';
        auto known = preloaded().find(loaded);
        if (known != preloaded().end()) {
          d.d = known->second;
          d.t = d.d.get();
          docs[o["doc"]] = std::move(d);
          return r;
        }
        if (!shared) shared.reset(new mfast::template_registry());
        d.d.reset(new mfast::dynamic_templates_description(xml.c_str(), "t", shared.get()));
        d.t = d.d.get();
        docs[o["doc"]] = std::move(d);
      }
    } else if (op == "enc_new" || op == "dec_new") {
      coder c;
      c.al.reset(new guard_allocator());
      if (o.contains("slack")) c.al->realloc_slack = o["slack"].get<size_t>();
      bool v2 = o["kind"] == "v2";
      if (v2) {
        const gen_set *g = gens.at(o["docs"][0].get<std::string>());
        if (op == "enc_new") c.e.reset(g->enc(c.al.get()));
        else {
          int t = o.value("tok", 0);
          c.d.reset((t == 0 ? g->dec0 : t == 1 ? g->dec1 : g->dec3)(c.al.get()));
        }
      } else {
        if (op == "enc_new") c.e.reset(new v1_encoder(c.al.get(), descs(o["docs"])));
        else c.d.reset(new v1_decoder(c.al.get(), descs(o["docs"])));
      }
      coders.erase(o["c"].get<std::string>());
      coders[o["c"]] = std::move(c);
    } else if (op == "overlong") {
      coders.at(o["c"]).e->overlong(o["v"]);
    } else if (op == "countdown") {
      coders.at(o["c"]).al->countdown = o["n"].get<long>();
    } else if (op == "msg") {
      message m;
      const mfast::template_instruction *ti = find(this, o["tid"]);
      if (!ti) throw std::runtime_error("harness: no such template");
      m.al.reset(new guard_allocator());
      m.m.reset(new mfast::message_type(m.al.get(), ti));
      r["v"] = read_agg(m.m->cref());
      msgs.erase(o["m"].get<std::string>());   // the message goes before its allocator
      msgs[o["m"]] = std::move(m);
    } else if (op == "set") {
      message &m = msgs.at(o["m"]);
      write_ctx c{find, this};
      write_agg(m.m->mref(), o["v"], c);
      r["v"] = read_agg(m.m->cref());
    } else if (op == "enc") {
      coder &c = coders.at(o["c"]);
      message &m = msgs.at(o["m"]);
      bool reset = o.value("reset", false) || (c.failed && o.value("ar", false));
      c.failed = false;
      r["rs"] = reset;
      mfast::message_cref cr = m.m->cref();
      json before = read_agg(cr);
      r["v"] = before; r["tid"] = cr.id();
      if (o.contains("size")) {
        size_t n = o["size"];
        if (o.contains("rel")) {       // relative to what another encoder produced
          if (!last.count(o["rel"])) { r["skipped"] = true; return r; }
          long k = (long)last[o["rel"]].size() + o["d"].get<long>();
          n = k < 1 ? 1 : k;
        }
        r["cap"] = n;
        guarded_buffer b(n, o.value("end", true));
        b.fill(0xEE);
        size_t len = 0; bool ok = false;
        try { len = c.e->encode(cr, b.data, n, reset); ok = true; }
        catch (...) { r["err"] = error_of_current_exception(); }
        if (ok) {
          r["n"] = len;
          r["b"] = hex(b.data, std::min(len, n));
          bool tail = true;
          for (size_t i = len; i < n; ++i) if ((unsigned char)b.data[i] != 0xEE) tail = false;
          r["tail"] = tail;
        }
        r["slack"] = b.slack_intact(0xEE);
      } else {
        std::string pre = unhex(o.value("pre", std::string()));
        std::vector<char> v(pre.begin(), pre.end());
        if (o.contains("rsv")) v.reserve(v.size() + o["rsv"].get<size_t>());
        bool ok = false;
        try { c.e->encode(cr, v, reset); ok = true; }
        catch (...) { r["err"] = error_of_current_exception(); }
        if (ok) {
          bool pk = v.size() >= pre.size() && memcmp(v.data(), pre.data(), pre.size()) == 0;
          r["pre_ok"] = pk;
          r["b"] = pk ? hex(v.data() + pre.size(), v.size() - pre.size()) : hex(v.data(), v.size());
          r["n"] = (long)v.size() - (long)pre.size();
        }
      }
      r["same"] = (read_agg(cr) == before);
      c.failed = r.contains("err");
      last_rs[o["c"]] = reset;
      if (r.contains("b")) last[o["c"]] = unhex(r["b"]); else last.erase(o["c"].get<std::string>());
    } else if (op == "dec") {
      coder &c = coders.at(o["c"]);
      std::string bytes;
      if (o.contains("src")) {         // what that encoder produced last, possibly cut short
        auto it = last.find(o["src"]);
        if (it == last.end()) { r["skipped"] = true; return r; }
        bytes = it->second;
        if (o.contains("cut")) bytes.resize(bytes.size() * o["cut"].get<size_t>() / 1000);
        if (bytes.empty()) { r["skipped"] = true; return r; }
        r["b"] = hex(bytes.data(), bytes.size());
      } else bytes = unhex(o["b"]);
      guarded_buffer b(bytes.size(), o.value("end", true));
      b.fill(0xFF);
      memcpy(b.data, bytes.data(), bytes.size());
      const char *first = b.data, *last = b.data + bytes.size();
      bool reset = o.value("reset", false) || (c.failed && o.value("ar", false));
      if (o.value("rsrc", false) && last_rs[o["src"]]) reset = true;
      c.failed = false;
      r["rs"] = reset;
      mfast::message_cref *mr = nullptr;
      try {
        mr = new mfast::message_cref(c.d->decode(o.value("tok", 0u), first, last, reset));
      } catch (...) { r["err"] = error_of_current_exception(); }
      c.failed = !mr;
      r["n"] = (long)(first - b.data);
      if (mr) {
        r["tid"] = mr->id();
        r["name"] = mr->name();
        // the caller may reuse its buffer once decode returned
        memset(b.data, 0x55, bytes.size());
        r["v"] = read_agg(*mr);
        if (o.contains("keep")) {
          held[o["keep"]] = mr;
          if (c.d->mr) held_m[o["keep"]] = new mfast::message_mref(*c.d->mr);
        }
      }
    } else if (op == "scribble") {    // change a message the decoder returned
      write_ctx wc{find, this};
      write_agg(*held_m.at(o["h"]), o["v"], wc);
      r["v"] = read_agg(*held.at(o["h"]));
    } else if (op == "reread") {
      r["v"] = read_agg(*held.at(o["h"]));
    } else if (op == "copyof") {      // deep copy of a decoded message into an owned one
      message m;
      m.al.reset(new guard_allocator());
      m.m.reset(new mfast::message_type(*held.at(o["h"]), m.al.get()));
      r["v"] = read_agg(m.m->cref());
      msgs.erase(o["m"].get<std::string>());   // the message goes before its allocator
      msgs[o["m"]] = std::move(m);
    } else if (op == "get") {
      r["v"] = read_agg(msgs.at(o["m"]).m->cref());
    } else if (op == "del") {
      if (o.contains("c")) {
        coder c = std::move(coders.at(o["c"]));
        coders.erase(o["c"].get<std::string>());
        c.e.reset(); c.d.reset();
        c.al->check_all();
        r["live"] = c.al->live.size(); r["problems"] = c.al->problems;
      } else {
        message m = std::move(msgs.at(o["m"]));
        msgs.erase(o["m"].get<std::string>());
        m.m.reset();
        m.al->check_all();
        r["live"] = m.al->live.size(); r["problems"] = m.al->problems;
      }
    } else throw std::runtime_error("harness: unknown op " + op);
    return r;
  }
};

int main(int argc, char **argv) { return getenv("MFV_GROUP") ? run_groups<session>(argc, argv) : run_all<session>(argc, argv); }
