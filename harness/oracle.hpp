// Reference computations written from the definition of CSDF only; no kiter code.
#pragma once
#include "graph.hpp"

struct Reps {
  bool ok = false;
  std::vector<ll> q;  // graph-iteration repetitions (cycles of all phases)
  std::vector<ll> n;  // firings: q * phases
};
Reps repetition(const G &g);

// Exact maximum cycle ratio of an arc-weighted graph (num/den), Lawler-style cycle improvement.
struct Arc { int u, v; ll w, d; int tag; };
struct Mcr {
  enum K { NONE, FINITE, INFINITE } k = NONE;  // NONE: no cycle with positive weight; INFINITE: a cycle without distance
  ll num = 0, den = 1;
  std::vector<int> cyc;  // indices of arcs of a critical cycle
  long double val() const { return (long double)num / (long double)den; }
};
Mcr maxCycleRatio(int nv, const std::vector<Arc> &arcs);

// Full expansion of one iteration. Event of firing k of task t is base[t]+k.
struct Expansion {
  std::vector<int> base;
  std::vector<ll> n;
  int nv = 0;
  std::vector<Arc> arcs;  // tag: channel index, or -1-task for the no-self-overlap constraint
};
Expansion expand(const G &g, const Reps &r);

// period of one graph iteration of the self-timed execution, times 1 (already divided by dden)
struct Period {
  enum K { UNBOUNDED, FINITE, DEADLOCK, INCONSISTENT } k;
  ll num = 0, den = 1;
  long double val() const { return (long double)num / (long double)den; }
};
// `as`: repetition vector to use instead of the graph's own (a part of a larger graph)
Period exactPeriod(const G &g, const Reps *as = nullptr);
// Same for the class of K-periodic schedules (K_t cycles of t per task period) and of strictly periodic ones.
Period kPeriodicPeriod(const G &g, const std::vector<ll> &K, const Reps *as = nullptr);
Period strictPeriod(const G &g, bool approx = false, const Reps *as = nullptr);

// Adds to g the reverse (space) channels of the given capacities; cap<0 means unbounded.
G withCapacities(const G &g, const std::vector<ll> &cap);

// Independent self-timed simulation with integer time; returns firings completed per task after
// `steps` events, used to cross-check exactPeriod.
struct SimRes { bool deadlock = false; bool found = false; ll num = 0, den = 1; ll states = 0; ll firings = 0; };
SimRes simulate(const G &g, const Reps &r, ll maxFirings);

// Replay of a schedule: start(t, n) gives the absolute start time of the n-th periodic firing.
struct StartSeq { std::vector<long double> init; std::vector<long double> per; long double period = 0; };
struct ReplayRes { bool ok = true; std::string why; ll events = 0; };
ReplayRes replay(const G &g, const Reps &r, const std::vector<StartSeq> &s, ll iterations, bool checkOverlap);

std::string dump(const G &g);
