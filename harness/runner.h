// Reads sessions (one JSON object per line) and runs each in a process of its own.
#pragma once
#include <csignal>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <string>
#include <thread>
#include <vector>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <nlohmann/json.hpp>
#include "errors.h"

template <typename Session> void run_session(const nlohmann::json &s, FILE *out) {
  Session *ses = new Session;
  int i = 0;
  for (auto &o : s["ops"]) {
    nlohmann::json r;
    bool stop = false;
    try { r = ses->step(o, 0); }
    catch (...) { r["err"] = error_of_current_exception(); if (o["op"] != "load") { r["fatal"] = true; } stop = true; }
    r["s"] = s["id"]; r["i"] = i++;
    std::string l = r.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
    fprintf(out, "%s\n", l.c_str()); fflush(out);
    if (stop) break;
  }
}

template <typename Session> int run_all(int argc, char **argv) {
  if (argc < 3) { fprintf(stderr, "usage: driver in.jsonl out.jsonl\n"); return 2; }
  std::ifstream in(argv[1]);
  FILE *out = fopen(argv[2], "w");
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    nlohmann::json s = nlohmann::json::parse(line);
    fflush(out);
    pid_t p = fork();
    if (p == 0) {
#ifndef __SANITIZE_ADDRESS__
      struct rlimit rl { 4ul << 30, 4ul << 30 };
      setrlimit(RLIMIT_AS, &rl);
#endif
      struct rlimit nc { 0, 0 };
      setrlimit(RLIMIT_CORE, &nc);
      alarm(60);
      freopen("/dev/null", "w", stderr);
      run_session<Session>(s, out);
      fflush(out);
      _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    fseek(out, 0, SEEK_END);
    nlohmann::json r;
    r["s"] = s["id"];
    r["end"] = WIFEXITED(st) ? (WEXITSTATUS(st) == 0 ? "ok" : "exit" + std::to_string(WEXITSTATUS(st))) : "signal" + std::to_string(WTERMSIG(st));
    fprintf(out, "%s\n", r.dump().c_str());
    fflush(out);
  }
  fclose(out);
  return 0;
}

// Reads groups of MFV_GROUP sessions and runs each in a process of its own, every session in a thread of its own. The
// threads write to files of their own, so that nothing but the library orders what they do.
template <typename Session> int run_groups(int argc, char **argv) {
  if (argc < 3) { fprintf(stderr, "usage: driver in.jsonl out.jsonl\n"); return 2; }
  const size_t n = atoi(getenv("MFV_GROUP"));
  std::ifstream in(argv[1]);
  FILE *out = fopen(argv[2], "w");
  std::vector<nlohmann::json> group;
  auto run = [&] {
    std::vector<FILE *> files;
    for (size_t k = 0; k < group.size(); ++k) files.push_back(fopen((std::string(argv[2]) + "." + std::to_string(k)).c_str(), "w+"));
    fflush(out);
    pid_t p = fork();
    if (p == 0) {
      struct rlimit nc { 0, 0 };
      setrlimit(RLIMIT_CORE, &nc);
      alarm(200);
      freopen("/dev/null", "w", stderr);
      Session::prepare(group);
      std::atomic<size_t> ready(0);
      std::vector<std::thread> ts;
      for (size_t k = 0; k < group.size(); ++k)
        ts.emplace_back([&, k] {
          ready.fetch_add(1, std::memory_order_relaxed);
          while (ready.load(std::memory_order_relaxed) < group.size()) std::this_thread::yield();
          run_session<Session>(group[k], files[k]);
        });
      for (auto &t : ts) t.join();
      _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    for (size_t k = 0; k < group.size(); ++k) {
      fseek(files[k], 0, SEEK_SET);
      char buf[65536];
      size_t len;
      int last = '\n';
      while ((len = fread(buf, 1, sizeof buf, files[k])) > 0) { fwrite(buf, 1, len, out); last = buf[len - 1]; }
      if (last != '\n') fputc('\n', out);
      fclose(files[k]);
      nlohmann::json r;
      r["s"] = group[k]["id"];
      r["end"] = WIFEXITED(st) ? (WEXITSTATUS(st) == 0 ? "ok" : "exit" + std::to_string(WEXITSTATUS(st))) : "signal" + std::to_string(WTERMSIG(st));
      fprintf(out, "%s\n", r.dump().c_str());
    }
    fflush(out);
    group.clear();
  };
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    group.push_back(nlohmann::json::parse(line));
    if (group.size() == n) run();
  }
  if (!group.empty()) run();
  fclose(out);
  return 0;
}
