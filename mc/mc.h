// Bounded exhaustive enumeration of cases on the real code: case numbering,
// partitioning over processes, replay of one case, crash/hang attribution.
#pragma once
#include "proto.h"
#include <cstdarg>
#include <cstdint>
#include <fcntl.h>
#include <functional>
#include <set>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
namespace mc {
struct State {
  char *page = nullptr;            // shared progress page: current case, survives a crash
  std::string group; long idx = -1; long cases = 0, trans = 0; int viols = 0, samples = 0, maxv = 12;
  long group_cases = 0; std::string only_group; long only_idx = -1; bool only = false;
  std::unordered_set<uint64_t> seen; int case_viols = 0; std::set<std::string> violgroups;
};
inline State &S() { static State s; return s; }
inline void finish() {
  State &s = S();
  proto::stat("cases", s.cases); proto::stat("transitions", s.trans); proto::stat("distinct", (long)s.seen.size());
  proto::done();
}
inline void init(int argc, char **argv) {
  proto::parse(argc, argv);
  State &s = S();
  const char *pf = getenv("MC_PROGRESS");
  if (pf) { int fd = open(pf, O_RDWR | O_CREAT, 0644); if (ftruncate(fd, 4096)) {} s.page = (char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); }
  auto &o = proto::args().only;
  if (!o.empty()) { s.only = true; auto k = o.rfind(':'); s.only_group = o.substr(0, k); s.only_idx = atol(o.c_str() + k + 1); }
}
// exponents of exact (power of two) scale factors around every plausible threshold, up to the given magnitude
inline std::vector<int> scales(int lim) { std::vector<int> r; for (int k : {4, 7, 10, 14, 17, 20, 24, 27, 30, 34, 40, 47, 50, 54, 60, 67, 75, 84, 100, 130, 170, 200, 250, 300}) if (k <= lim) r.push_back(-k), r.push_back(k); return r; }
inline bool thorough() { return proto::args().thorough; }
// start a group of cases; false if the whole group can be skipped (replay of another group)
inline bool group(const std::string &g) {
  State &s = S(); s.group = g; s.idx = -1; s.group_cases = 0;
  return !s.only || s.only_group == g;
}
inline std::string id() { return S().group + ":" + std::to_string(S().idx); }
// next case: true if this process has to run it
inline bool next() {
  State &s = S(); ++s.idx; s.case_viols = 0;
  if (s.only) { if (s.group != s.only_group || s.idx != s.only_idx) return false; }
  else if (s.idx % proto::args().parts != proto::args().part) return false;
  ++s.cases; ++s.trans;
  if (s.page) { snprintf(s.page, 4096, "%s:%ld", s.group.c_str(), s.idx); }
  return true;
}
inline void trans(long n = 1) { S().trans += n; }
inline void distinct(uint64_t h) { if (S().seen.size() < 4000000) S().seen.insert(h); }
inline uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ull) { for (size_t i = 0; i < n; ++i) h = (h ^ ((const unsigned char *)p)[i]) * 1099511628211ull; return h; }
inline uint64_t hash(const std::string &s, uint64_t h = 1469598103934665603ull) { return hash(s.data(), s.size(), h); }
inline void sample(const std::string &t) { if (S().samples < 3) { ++S().samples; proto::sample(S().group + ":" + std::to_string(S().idx) + " " + t); } }
inline bool fail(const std::string &msg) {
  State &s = S();
  if (s.case_viols++) return false;
  if (!s.violgroups.insert(s.group).second && s.viols >= s.maxv) return false;
  proto::viol(id(), msg); ++s.viols;
  return false;
}
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) { char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
// sizes around the limits of narrow counters
inline std::vector<int> widths(int max) { std::vector<int> v; for (int b : {64, 128, 256, 1024, 32768, 65536}) for (int d = -1; d <= 2; ++d) if (b + d <= max) v.push_back(b + d); return v; }
// odometer over mixed radices: calls f(digits) for all combinations
template <class F> void product(const std::vector<int> &radix, F f) {
  std::vector<int> d(radix.size(), 0);
  for (int r : radix) if (r == 0) return;
  for (;;) {
    f(d);
    size_t i = 0; for (; i < d.size(); ++i) { if (++d[i] < radix[i]) break; d[i] = 0; }
    if (i == d.size()) return;
  }
}
}
#define MC_CHECK(cond, ...) do { ::mc::trans(); if (!(cond)) { ::mc::fail(std::string(#cond) + ": " + ::mc::fmt(__VA_ARGS__)); } } while (0)
#define MC_REQ(cond, ...) do { ::mc::trans(); if (!(cond)) { ::mc::fail(::mc::fmt(__VA_ARGS__)); return; } } while (0)
