// K24: the channels reported as critical are the bottleneck.
#include "domain.hpp"
#include <algorithms/dse/kperiodic.h>
#include <models/Scheduling.h>

namespace {
std::string set2s(const G &g, const std::set<int> &s) { std::string o; for (int i : s) o += (o.empty() ? "" : " ") + g.e[i].name; return "{" + o + "}"; }
// the reported channels, by name
bool index(Ctx &c, const G &g, const models::Dataflow *d, const std::set<Edge> &cc, const std::string &key, std::set<int> &o) {
  for (auto e : cc) {
    std::string n = d->getEdgeName(e); bool f = false;
    for (size_t i = 0; i < g.e.size(); i++) if (g.e[i].name == n) { o.insert((int)i); f = true; }
    if (!f) { c.fail(key + ".unknown-channel", n + " in " + dump(g)); return false; }
  }
  return true;
}
// every reported channel lies on one closed walk of reported channels
bool circuit(const G &g, const std::set<int> &s) {
  int n = g.t.size(); std::vector<std::vector<char>> r(n, std::vector<char>(n, 0));
  for (int i : s) r[g.e[i].s][g.e[i].d] = 1;
  for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (r[i][k] && r[k][j]) r[i][j] = 1;
  for (int i : s) for (int j : s) if (!(g.e[i].d == g.e[j].s || r[g.e[i].d][g.e[j].s])) return false;
  return true;
}
void decide(Ctx &c, const G &g, const models::Dataflow *d, const std::set<Edge> &cc, const std::string &key, const Period &p, const std::function<Period(const G &)> &cls) {
  std::set<int> s; if (!index(c, g, d, cc, key, s)) return;
  std::string what = set2s(g, s) + " of " + dump(g);
  c.state(key + what); c.sample(key + ": critical " + what);
  c.inc("circuits.checked"); c.inc(s.empty() ? "circuits.one-task" : s.size() == g.e.size() ? "circuits.whole-graph" : "circuits.partial");
  if (p.k == Period::DEADLOCK) c.inc("circuits.infeasible");
  G h = g; h.e.clear(); for (int i : s) h.e.push_back(g.e[i]);
  Period q = cls(h);
  if (p.k == Period::DEADLOCK) { if (q.k != Period::DEADLOCK) c.fail(key + ".not-blocking", "no schedule exists, yet the critical channels alone allow one: " + what); }
  else if (q.k != Period::FINITE || q.num != p.num || q.den != p.den) c.fail(key + ".not-critical", "period is " + num(p.val()) + " but the critical channels alone allow " + (q.k == Period::FINITE ? num(q.val()) : std::string("anything")) + ": " + what);
  else if (!circuit(g, s)) c.fail(key + ".not-a-circuit", what);
}
G one(Ctx &c, std::string &prof, ll maxev, bool dead) {
  for (int k = 0; k < 30; k++) {
    G g = thrGraph(c, &prof);
    Period p = exactPeriod(g);
    if (!(p.k == Period::FINITE || (dead && p.k == Period::DEADLOCK))) continue;
    Reps r = repetition(g); ll s = 0; for (auto x : r.n) s += x;
    if (s > maxev) continue;
    if (p.k == Period::FINITE && k < 8) {   // prefer graphs whose bottleneck is not a single task
      long double w = 0; for (size_t i = 0; i < g.t.size(); i++) { long double x = 0; for (auto d : g.t[i].dur) x += d; w = std::max(w, x * r.q[i] / g.dden); }
      if (p.val() <= w * (1 + 1e-12L)) continue;
    }
    return g;
  }
  return G();
}
}
MONITOR(K24, vec, 3) {
  std::string prof; G g = one(c, prof, 150, true); if (g.t.empty()) return;
  std::vector<ll> K; int m = (int)c.r.in(0, 2); Reps r = repetition(g);
  for (size_t i = 0; i < g.t.size(); i++) K.push_back(m == 0 ? 1 : m == 1 ? c.r.in(1, 3) : r.q[i]);
  Period p = kPeriodicPeriod(g, K);
  if (p.k != Period::FINITE && p.k != Period::DEADLOCK) return;
  models::Dataflow *d = toKiter(g); c.step("KSchedule " + dump(g));
  if (!computeRepetitionVector(d)) { c.fail("KSchedule.inconsistent", dump(g)); return; }
  periodicity_vector_t kv; size_t i = 0; { ForEachVertex(d, v) kv[v] = K[i++]; }
  kperiodic_result_t res = algorithms::KSchedule(d, &kv);
  decide(c, g, d, res.critical_edges, "KSchedule", p, [&](const G &h) { return kPeriodicPeriod(h, K, &r); });
}
MONITOR(K24, kiter, 2) {
  std::string prof; G g = one(c, prof, 150, false); if (g.t.empty()) return;
  Period p = exactPeriod(g); Reps r = repetition(g);
  models::Dataflow *d = toKiter(g); c.step("KPeriodicScheduling " + dump(g));
  if (!computeRepetitionVector(d)) { c.fail("KPeriodicScheduling.inconsistent", dump(g)); return; }
  models::Scheduling s = algorithms::scheduling::CSDF_KPeriodicScheduling(d);
  decide(c, g, d, s.getCriticalEdges(), "KPeriodicScheduling", p, [&](const G &h) { return exactPeriod(h, &r); });
}
MONITOR(K24, dse, 2) {
  std::string prof; G g = one(c, prof, 100, true); if (g.t.empty()) return;
  // with capacities, as the exploration of buffer sizes uses it
  if (c.r.p(50)) { std::vector<ll> cap; for (auto &e : g.e) { ll v = -1; if (c.r.p(70)) v = std::max(e.m0, (ll)(e.sumIn() + e.sumOut()) * c.r.in(1, 3) / 2); cap.push_back(v); } G b = withCapacities(g, cap); for (size_t i = g.e.size(); i < b.e.size(); i++) b.e[i].name = "space" + std::to_string(i); g = b; c.inc("bounded"); }
  Period p = exactPeriod(g); Reps r = repetition(g);
  if (p.k != Period::FINITE && p.k != Period::DEADLOCK) return;
  models::Dataflow *d = toKiter(g); c.step("Kperiodic throughput and cycles " + dump(g));
  parameters_list_t prm;
  kperiodic_result_t res = algorithms::compute_Kperiodic_throughput_and_cycles(d, prm);
  long double ref = p.k == Period::FINITE ? 1 / p.val() : 0, v = res.throughput < 0 ? 0 : res.throughput;
  if (!close(v, ref, 1e-7L)) { c.fail("cycles.throughput", num(v) + " expected " + num(ref) + ": " + dump(g)); return; }
  decide(c, g, d, res.critical_edges, "cycles", p, [&](const G &h) { return exactPeriod(h, &r); });
}
MONITOR(K24, one, 2) {
  std::string prof; G g = one(c, prof, 150, false); if (g.t.empty()) return;
  Reps r = repetition(g); std::vector<ll> K(g.t.size(), 1);
  bool strict = c.r.p(50);
  Period p = strict ? strictPeriod(g) : kPeriodicPeriod(g, K);
  if (p.k != Period::FINITE) return;
  models::Dataflow *d = toKiter(g); c.step((strict ? "SPeriodicScheduling " : "1PeriodicScheduling ") + dump(g));
  if (!computeRepetitionVector(d)) { c.fail("PeriodicScheduling.inconsistent", dump(g)); return; }
  models::Scheduling s = strict ? algorithms::scheduling::CSDF_SPeriodicScheduling(d) : algorithms::scheduling::CSDF_1PeriodicScheduling(d);
  decide(c, g, d, s.getCriticalEdges(), strict ? "SPeriodicScheduling" : "1PeriodicScheduling", p, [&](const G &h) { return strict ? strictPeriod(h, false, &r) : kPeriodicPeriod(h, K, &r); });
}
