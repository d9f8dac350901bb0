// Drives an arena allocator: every block is filled with a value of its own and all live blocks are read
// again after every call.
#pragma once
#include "mfast/arena_allocator.h"
#include <malloc.h>
#include <cstring>
#include <map>
#include <memory>
#include <vector>

struct arenas {
  struct block { char *p; size_t n; size_t filled; unsigned char c; };
  std::unique_ptr<mfast::arena_allocator> a;
  std::map<int, block> live;
  long foot = 0;   // bytes the calls have taken from the system and not given back

  static long used() {
    struct mallinfo2 m = mallinfo2();
    return long(m.uordblks + m.hblkhd);
  }
  static json limbs(uint64_t v) { return json::array({v >> 48, (v >> 24) & 0xffffff, v & 0xffffff}); }
  // the value a stretch is uniformly filled with, or -1
  static int uniform(const char *p, size_t n) {
    if (!n) return -2;
    for (size_t i = 1; i < n; ++i) if (p[i] != p[0]) return -1;
    return (unsigned char)p[0];
  }
  static size_t cap(size_t n) { return n > (size_t(64) << 20) ? 0 : n; }
  void fill(int id, void *p, size_t n, const json &o) {
    block b{(char *)p, n, cap(n), (unsigned char)o["c"].get<int>()};
    if (b.filled) memset(b.p, b.c, b.filled);
    live[id] = b;
  }
  json step(const json &o) {
    std::string op = o["op"];
    json r = json::object();
    if (op == "anew") { live.clear(); a.reset(); long u = used(); a.reset(new mfast::arena_allocator()); foot = used() - u; return r; }
    long u = used();
    try {
      if (op == "aa") {
        size_t n = o["n"].get<size_t>();
        void *p;
        if (o.value("op_new", false)) { p = ::operator new(n, *a); } else p = a->allocate(n);
        foot += used() - u;
        r["at"] = limbs((uint64_t)p); r["len"] = limbs(n);
        if (size_t(p) + n < (size_t(1) << 48) && size_t(p) + n >= size_t(p)) fill(o["id"], p, n, o);
      } else if (op == "ar") {
        size_t n = o["n"].get<size_t>();
        auto it = live.find(o["id"].get<int>());
        void *p = it == live.end() ? nullptr : it->second.p;
        size_t old = it == live.end() ? 0 : it->second.n, was = it == live.end() ? 0 : it->second.filled;
        size_t got = a->reallocate(p, old, n);
        foot += used() - u;
        r["at"] = limbs((uint64_t)p); r["len"] = limbs(got);
        r["kept"] = uniform((char *)p, std::min(was, n));
        if (size_t(p) + got < (size_t(1) << 48) && size_t(p) + got >= size_t(p)) fill(o["id"], p, got, o);
      } else if (op == "ad") {
        block b = live.at(o["id"]);
        a->deallocate(b.p, b.n);
        foot += used() - u;
        live.erase(o["id"].get<int>());
      } else if (op == "az") {
        r["ok"] = a->reset();
        foot += used() - u;
        live.clear();
      }
    } catch (const std::bad_alloc &) { foot += used() - u; r["err"] = "bad_alloc"; }
    r["foot"] = foot / 64;
    json now = json::object();
    for (auto &kv : live) now[std::to_string(kv.first)] = uniform(kv.second.p, kv.second.filled);
    r["now"] = now;
    return r;
  }
};
