// Monitor framework: one forked child per case, verdicts through a pipe.
#pragma once
#include "bridge.hpp"
#include <functional>
#include <cmath>
#include <cstring>

struct Ctx {
  Rng r;
  uint64_t seed, idx;
  std::string san;         // "san" or "rel"
  bool thorough = false;
  bool verbose = false;
  bool mute = false;       // verdicts of a borrowed workload are another property's business
  std::string scratch;     // private directory of this worker
  Ctx(uint64_t s, uint64_t i, uint64_t h) : r(h), seed(s), idx(i) {}
  // verdict channels
  void fail(const std::string &key, const std::string &msg);
  void inc(const std::string &counter, long n = 1);
  void state(const std::string &what);       // a distinct observed outcome/behaviour (hashed)
  void sample(const std::string &what);      // human readable sample
  void step(const std::string &what);        // what is being executed now (for crash reports)
};
typedef void (*MonFn)(Ctx &);
struct Mon { std::string prop, name; int weight; MonFn fn; };
std::vector<Mon> &mons();
struct MonReg { MonReg(const char *p, const char *n, int w, MonFn f) { mons().push_back({p, n, w, f}); } };
#define MONITOR(prop, name, weight) static void mon_##prop##_##name(Ctx &c); static MonReg reg_##prop##_##name(#prop, #name, weight, mon_##prop##_##name); static void mon_##prop##_##name(Ctx &c)

inline bool close(long double a, long double b, long double rel = 1e-6L) {
  if (std::isinf(a) || std::isinf(b)) return a == b;
  if (std::isnan(a) || std::isnan(b)) return false;
  return std::fabs(a - b) <= rel * std::max<long double>(1e-9L, std::max(std::fabs(a), std::fabs(b)));
}
inline std::string num(long double v) { char b[64]; snprintf(b, 64, "%.10Lg", v); return b; }
