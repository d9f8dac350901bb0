// Loads template documents, or takes generated descriptions, and records what
// these say. Judges nothing: the specification does.
#include "loader.h"
#include "walk.h"
#include "dump.h"
#include "runner.h"
#include "mfast/xml_parser/dynamic_templates_description.h"
#include <deque>
#include <memory>

std::map<std::string, const mfast::templates_description *> &described() {
  static std::map<std::string, const mfast::templates_description *> m;
  return m;
}

std::map<std::string, std::vector<walker>> &walkers() {
  static std::map<std::string, std::vector<walker>> m;
  return m;
}

struct session {
  mfast::template_registry reg;
  std::deque<std::unique_ptr<mfast::dynamic_templates_description>> docs;
  std::vector<const mfast::templates_description *> all;
  template <typename F> nlohmann::json step(const nlohmann::json &o, F) {
    nlohmann::json r = nlohmann::json::object();
    std::string op = o["op"];
    if (op == "load") {
      try {
        std::string xml = o["xml"];
        docs.emplace_back(new mfast::dynamic_templates_description(xml.c_str(), "t", &reg));
        xml.assign(xml.size(), '?');    // the description is not to depend on the text
        all.push_back(docs.back().get());
      } catch (...) { all.push_back(nullptr); r["err"] = error_of_current_exception(); }
    } else if (op == "dump") {
      size_t k = o["k"];
      if (k < all.size() && all[k]) r["d"] = dump::description(*all[k]);
    } else if (op == "gen") {
      if (o.count("fail")) {
        all.push_back(nullptr);
        r["err"] = o["fail"];
        return r;
      }
      auto i = described().find(o["gen"].get<std::string>());
      if (i == described().end()) throw std::runtime_error("harness: no generated set");
      all.push_back(i->second);
    } else if (op == "walk") {
      r["w"] = nlohmann::json::array();
      for (auto w : walkers()[o["gen"].get<std::string>()])
        for (auto &x : w()) r["w"].push_back(x);
    } else throw std::runtime_error("harness: unknown op " + op);
    return r;
  }
};

int main(int argc, char **argv) { return run_all<session>(argc, argv); }
