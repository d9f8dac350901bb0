// Guard-page buffers and an accounting allocator with canaries: the projection
// of "memory" the specifications talk about.
#pragma once
#include <sys/mman.h>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <vector>
#include "mfast/allocator.h"

struct guarded_buffer {
  char *base; size_t total; char *data; size_t n;
  // at_end: data+n touches an inaccessible page; otherwise data follows one.
  guarded_buffer(size_t n_, bool at_end) : n(n_) {
    size_t pg = 4096;
    size_t inner = ((n + pg - 1) / pg) * pg; if (inner == 0) inner = pg;
    total = inner + 2 * pg;
    base = (char *)mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) { perror("mmap"); _exit(97); }
    mprotect(base, pg, PROT_NONE);
    mprotect(base + pg + inner, pg, PROT_NONE);
    data = at_end ? base + pg + inner - n : base + pg;
    slack_lo = base + pg; slack_hi = base + pg + inner;
  }
  char *slack_lo, *slack_hi;
  void fill(unsigned char c) { memset(slack_lo, c, slack_hi - slack_lo); }
  // bytes inside the accessible pages but outside [data,data+n) still hold c
  bool slack_intact(unsigned char c) const {
    for (char *p = slack_lo; p < data; ++p) if ((unsigned char)*p != c) return false;
    for (char *p = data + n; p < slack_hi; ++p) if ((unsigned char)*p != c) return false;
    return true;
  }
  ~guarded_buffer() { munmap(base, total); }
  guarded_buffer(const guarded_buffer &) = delete;
};

// Accounting allocator. Problems are collected, not asserted, so that the
// trace records them and the specification decides.
class guard_allocator : public mfast::allocator {
public:
  std::map<char *, size_t> live;
  std::vector<std::string> problems;
  long allocs = 0, frees = 0, countdown = -1;
  size_t realloc_slack = 0;
  static const size_t Z = 16;
  char *raw(size_t n) {
    if (countdown == 0) throw std::bad_alloc();
    if (countdown > 0) --countdown;
    if (n > (size_t(1) << 31)) throw std::bad_alloc();
    char *p = (char *)malloc(n + 2 * Z);
    if (!p) throw std::bad_alloc();
    memset(p, 0xA5, Z); memset(p + Z, 0xCD, n); memset(p + Z + n, 0xA5, Z);
    live[p + Z] = n; ++allocs;
    return p + Z;
  }
  void release(char *p, size_t n, const char *what) {
    auto it = live.find(p);
    if (it == live.end()) { problems.push_back(std::string(what) + ":not-live"); return; }
    if (it->second != n) problems.push_back(std::string(what) + ":size " + std::to_string(n) + "!=" + std::to_string(it->second));
    check(p, it->second);
    memset(p, 0xDD, it->second);
    live.erase(it); ++frees;
    free(p - Z);
  }
  void check(char *p, size_t n) {
    for (size_t i = 0; i < Z; ++i) if ((unsigned char)p[-(long)Z + (long)i] != 0xA5) { problems.push_back("underrun"); break; }
    for (size_t i = 0; i < Z; ++i) if ((unsigned char)p[n + i] != 0xA5) { problems.push_back("overrun"); break; }
  }
  void check_all() { for (auto &kv : live) check(kv.first, kv.second); }
  void *allocate(std::size_t n) override { return raw(n); }
  std::size_t reallocate(void *&pointer, std::size_t old_size, std::size_t new_size) override {
    size_t sz = new_size + realloc_slack;
    char *p = raw(sz);
    if (pointer) {
      auto it = live.find((char *)pointer);
      size_t cp = old_size;
      if (it != live.end() && cp > it->second) cp = it->second;
      if (cp > sz) cp = sz;
      if (it != live.end()) memcpy(p, pointer, cp);
      release((char *)pointer, old_size, "reallocate");
    } else if (old_size != 0) problems.push_back("reallocate:null-with-size");
    pointer = p;
    return sz;
  }
  void deallocate(void *pointer, std::size_t n) override {
    if (pointer == nullptr) { if (n) problems.push_back("deallocate:null"); return; }
    release((char *)pointer, n, "deallocate");
  }
};
