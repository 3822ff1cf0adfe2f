#include "domain.hpp"
static bool prep(Ctx &c, models::Dataflow *d, const G &g, const char *what) {
  c.step(std::string(what) + " " + dump(g));
  if (!computeRepetitionVector(d)) { c.fail(std::string(what) + ".inconsistent", dump(g)); return false; }
  return true;
}
static G live(Ctx &c, std::string &prof, ll maxev) {
  for (int k = 0; k < 30; k++) {
    G g = thrGraph(c, &prof);
    if (exactPeriod(g).k != Period::FINITE) continue;
    Reps r = repetition(g); ll s = 0; for (auto x : r.n) s += x;
    if (s > maxev) continue;
    return g;
  }
  return G();
}
static void obs(Ctx &c, const G &g, const char *a) { c.state(std::string(a) + dump(g)); c.sample(std::string(a) + " on " + dump(g)); }

MONITOR(K07, one, 2) {
  std::string prof; G g = live(c, prof, 200); if (g.t.empty()) return;
  Period p = kPeriodicPeriod(g, std::vector<ll>(g.t.size(), 1));
  if (p.k != Period::FINITE) { c.inc("infeasible.skipped"); return; }
  models::Dataflow *d = toKiter(g);
  if (!prep(c, d, g, "1PeriodicScheduling")) return;
  models::Scheduling s = algorithms::scheduling::CSDF_1PeriodicScheduling(d);
  obs(c, g, "1PeriodicScheduling");
  replaySchedule(c, g, s, "1PeriodicScheduling", &p, 5);
}
MONITOR(K07, k, 3) {
  std::string prof; G g = live(c, prof, 200); if (g.t.empty()) return;
  Period p = exactPeriod(g);
  models::Dataflow *d = toKiter(g);
  if (!prep(c, d, g, "KPeriodicScheduling")) return;
  models::Scheduling s = algorithms::scheduling::CSDF_KPeriodicScheduling(d);
  obs(c, g, "KPeriodicScheduling");
  replaySchedule(c, g, s, "KPeriodicScheduling", &p, 5);
}
MONITOR(K07, vec, 2) {
  std::string prof; G g = live(c, prof, 200); if (g.t.empty()) return;
  std::vector<ll> K; for (size_t i = 0; i < g.t.size(); i++) K.push_back(c.r.in(1, 3));
  Period p = kPeriodicPeriod(g, K);
  if (p.k != Period::FINITE) { c.inc("infeasible.skipped"); return; }
  models::Dataflow *d = toKiter(g);
  if (!prep(c, d, g, "KVectorScheduling")) return;
  periodicity_vector_t kv; size_t i = 0;
  { ForEachVertex(d, v) kv[v] = K[i++]; }
  kperiodic_result_t res = algorithms::KSchedule(d, &kv);
  models::Scheduling s = period2Scheduling(d, kv, res);
  obs(c, g, "KVectorScheduling");
  replaySchedule(c, g, s, "KVectorScheduling", &p, 5);
}
MONITOR(K07, strict, 2) {
  std::string prof; G g = live(c, prof, 200); if (g.t.empty()) return;
  Period p = strictPeriod(g);
  if (p.k != Period::FINITE) { c.inc("infeasible.skipped"); return; }
  models::Dataflow *d = toKiter(g);
  if (!prep(c, d, g, "SPeriodicScheduling")) return;
  models::Scheduling s = algorithms::scheduling::CSDF_SPeriodicScheduling(d);
  obs(c, g, "SPeriodicScheduling");
  replaySchedule(c, g, s, "SPeriodicScheduling", &p, 5);
}
MONITOR(K07, lp, 2) {
  std::string prof; G g = live(c, prof, 24); if (g.t.empty() || prof == "scaled" || prof == "longdur") return;
  std::vector<ll> K; bool one = c.r.p(50); for (size_t i = 0; i < g.t.size(); i++) K.push_back(one ? 1 : c.r.in(1, 3));
  Period p = kPeriodicPeriod(g, K);
  if (p.k != Period::FINITE) { c.inc("infeasible.skipped"); return; }
  models::Dataflow *d = toKiter(g);
  if (!prep(c, d, g, "LPScheduling")) return;
  periodicity_vector_t kv; size_t i = 0;
  { ForEachVertex(d, v) kv[v] = K[i++]; }
  models::Scheduling s = algorithms::scheduling::CSDF_KPeriodicScheduling_LP(d, kv);
  obs(c, g, one ? "LP1Scheduling" : "LPKScheduling");
  replaySchedule(c, g, s, one ? "LP1Scheduling" : "LPKScheduling", &p, 5);
}

MONITOR(K07, asap, 2) {
  G g; Period p;
  for (int k = 0; k < 30; k++) {
    GenOpt o; o.tmin = 2; o.selfpct = 0; o.strong = true; o.livepct = 100; o.maxdur = 20; o.evmax = 60; if (c.r.p(50)) o.maxphase = 1; o.tokslack = (int)c.r.in(0, 4);
    g = genGraph(c.r, o); p = exactPeriod(g);
    if (p.k == Period::FINITE) break;
    g = G();
  }
  if (g.t.empty()) return;
  models::Dataflow *d = toKiter(g);
  if (!prep(c, d, g, "ASAPScheduling")) return;
  std::string out = runAlgo(d, "ASAPScheduling");
  obs(c, g, "ASAPScheduling");
  std::vector<StartSeq> q; std::string why;
  if (!parseText(out, g, q, why)) { c.fail("ASAPScheduling.text", why + " in " + out.substr(0, 500) + dump(g)); return; }
  Reps r = repetition(g);
  for (size_t i = 0; i < g.t.size(); i++) {
    long double rate = q[i].period * r.n[i] / q[i].per.size();
    if (!close(rate, p.val(), 1e-5L)) { c.fail("ASAPScheduling.rate", "task " + g.t[i].name + " repeats " + std::to_string(q[i].per.size()) + " firings every " + num(q[i].period) + ", graph period is " + num(p.val()) + ": " + out + dump(g)); return; }
  }
  ReplayRes R = replay(g, r, q, 5, true);
  c.inc("replayed.events", R.events); c.inc("replayed.schedules");
  if (!R.ok) c.fail("ASAPScheduling.invalid", R.why + ": " + out + dump(g));
}
