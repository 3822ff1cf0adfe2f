// Independent model of CSDF graphs used by every monitor: generation, conversion to
// kiter's own Dataflow (through its public API) and to SDF3 XML text.
#pragma once
#include <cstdint>
#include <cstdio>
#include <map>
#include <numeric>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>

typedef long long ll;
typedef __int128 lll;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  ll in(ll a, ll b) { return a + (ll)(next() % (uint64_t)(b - a + 1)); }
  bool p(int pct) { return (ll)(next() % 100) < pct; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
};

struct GTask {
  std::string name;
  std::vector<ll> dur;   // periodic phases
  std::vector<ll> idur;  // initial phases
  int re = 1;            // reentrancy factor, 0 = unlimited auto-concurrency
};
struct GEdge {
  int s = 0, d = 0;
  std::vector<ll> in, out;    // production (source phases) / consumption (target phases)
  std::vector<ll> iin, iout;  // initial phases
  ll m0 = 0;
  ll tsize = 1;
  std::string name;
  ll sumIn() const { return std::accumulate(in.begin(), in.end(), 0ll); }
  ll sumOut() const { return std::accumulate(out.begin(), out.end(), 0ll); }
};
struct G {
  std::string name = "g", app = "a";
  std::vector<GTask> t;
  std::vector<GEdge> e;
  ll dden = 1;  // durations are dur/dden
  bool sdf() const {
    for (auto &x : t) if (x.dur.size() != 1) return false;
    return true;
  }
};

struct GenOpt {
  int tmin = 1, tmax = 5;
  int maxq = 4;          // repetition factors 1..maxq
  int maxphase = 3;      // phases per task
  int maxmult = 2;
  ll maxdur = 9, mindur = 1;
  int extra = 3;         // up to extra edges beyond the spanning tree
  int backpct = 50;      // extra edges closing cycles
  int selfpct = 10;      // explicit self loops
  int multipct = 15;     // parallel edges allowed
  int re0pct = 0;        // tasks with unlimited auto-concurrency
  int livepct = 80;      // make the graph live with this probability
  int evmax = 48;        // bound on sum of firings per iteration
  int zeropct = 25;      // chance that a rate vector may contain zeros
  bool connected = true;
  bool strong = false;   // make strongly connected
  int tokslack = 3;
};

inline std::vector<ll> splitTotal(Rng &r, ll total, int n, bool zeros) {
  std::vector<ll> v(n, 0);
  if (!zeros && total >= n) { for (auto &x : v) x = 1; total -= n; }
  while (total > 0) { ll c = r.in(1, std::max<ll>(1, total / 2)); v[r.in(0, n - 1)] += c; total -= c; }
  return v;
}

G genGraph(Rng &r, const GenOpt &o);
