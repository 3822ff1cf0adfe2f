// Throughput and scheduling monitors.
#include "domain.hpp"
#include <algorithms/normalization.h>

static void observe(Ctx &c, const G &g, const Period &p, const std::string &prof) {
  c.state(sig(g));
  c.inc(p.k == Period::FINITE ? "graphs.live" : p.k == Period::DEADLOCK ? "graphs.deadlocked" : "graphs.other");
  c.sample(prof + ": period " + (p.k == Period::FINITE ? num(p.val()) : std::string("none")) + " of " + dump(g));
}

// ---- optimal throughput ------------------------------------------------------------------------------
MONITOR(K02, optimal, 4) {
  std::string prof; G g = thrGraph(c, &prof);
  Period p = exactPeriod(g);
  observe(c, g, p, prof);
  printedThroughput(c, g, "KPeriodicThroughput", p, 1e-7L);
  printedThroughput(c, g, "NKPeriodicThroughput", p, 1e-7L);
  printedThroughput(c, g, "EGN", p, 1e-7L);
}
// Regression input of a recorded, unrepaired defect: tasks with unlimited auto-concurrency are not ordered across periods.
static void knownAutoConcurrency(Ctx &c) {
  G g; g.t.resize(2); g.t[0].name = "t0"; g.t[0].dur = {1}; g.t[0].re = 0; g.t[1].name = "t1"; g.t[1].dur = {7};
  g.e.resize(2); g.e[0].name = "c0"; g.e[0].s = 0; g.e[0].d = 1; g.e[0].in = {2}; g.e[0].out = {4}; g.e[0].m0 = 3;
  g.e[1].name = "c1"; g.e[1].s = 1; g.e[1].d = 0; g.e[1].in = {4}; g.e[1].out = {2}; g.e[1].m0 = 2;
  models::Dataflow *d = toKiter(g); long double v; c.step("KPeriodicThroughput " + dump(g));
  std::string out = runAlgo(d, "KPeriodicThroughput"); delete d; c.inc("known.inputs");
  if (!findNumber(out, "hroughput is", v)) { c.fail("known.auto-concurrency.no-line", out); return; }
  if (close(v, 0.125L)) return;
  c.fail(close(v, 1 / 7.0L) ? "known.auto-concurrency" : "known.auto-concurrency.other-value", "reports " + num(v) + " expected 0.125: " + dump(g));
}
MONITOR(K02, simulated, 1) {   // same answers against the independent self-timed simulation
  if (c.idx < 100) knownAutoConcurrency(c);
  GenOpt o; o.tmin = 2; o.selfpct = 5; o.strong = true; o.livepct = 95;
  G g = genGraph(c.r, o);
  Reps r = repetition(g);
  SimRes s = simulate(g, r, 20000);
  if (!s.deadlock && !s.found) { c.inc("simulation.inconclusive"); return; }
  Period p; p.k = s.deadlock ? Period::DEADLOCK : Period::FINITE; p.num = s.num; p.den = s.den;
  Period e = exactPeriod(g);
  if (!s.deadlock && s.num * e.den != s.den * e.num) { c.inc("simulation.component-slower"); return; }
  observe(c, g, p, "simulated"); c.inc("simulated.states", s.states);
  printedThroughput(c, g, "KPeriodicThroughput", p, 1e-7L);
}
// ---- fixed periodicity ---------------------------------------------------------------------------------
MONITOR(K03, kperiodic, 4) {
  std::string prof; G g = thrGraph(c, &prof);
  Period e = exactPeriod(g);
  std::vector<ll> k1(g.t.size(), 1), k2(g.t.size(), 2);
  Period p1 = kPeriodicPeriod(g, k1), p2 = kPeriodicPeriod(g, k2);
  observe(c, g, p1, prof);
  printedThroughput(c, g, "1PeriodicThroughput", p1, 1e-7L);
  printedThroughput(c, g, "2PeriodicThroughput", p2, 1e-7L);
  printedThroughput(c, g, "EG1", p1, 1e-7L);
  (void)e;
}
MONITOR(K03, anyvector, 3) {
  std::string prof; G g = thrGraph(c, &prof);
  std::vector<ll> K; std::string ks;
  for (size_t i = 0; i < g.t.size(); i++) { K.push_back(c.r.in(1, 3)); ks += std::to_string(K.back()) + ","; }
  Period p = kPeriodicPeriod(g, K);
  observe(c, g, p, prof + " K=" + ks);
  models::Dataflow *d = toKiter(g);
  c.step("KSchedule K=" + ks + " " + dump(g));
  if (!computeRepetitionVector(d)) { c.fail("KSchedule.inconsistent", dump(g)); return; }
  periodicity_vector_t kv; size_t i = 0;
  { ForEachVertex(d, v) kv[v] = K[i++]; }
  kperiodic_result_t res = algorithms::KSchedule(d, &kv);
  c.inc("compared.KSchedule");
  long double ref = p.k == Period::FINITE ? 1 / p.val() : 0;
  if (p.k == Period::DEADLOCK) { if (!(res.throughput <= 1e-15L)) c.fail("KSchedule.positive-on-infeasible", "K=" + ks + " reports " + num(res.throughput) + ": " + dump(g)); }
  else if (!close(res.throughput, ref, 1e-9L)) c.fail(res.throughput < ref ? "KSchedule.lower" : "KSchedule.higher", "K=" + ks + " reports " + num(res.throughput) + " expected " + num(ref) + ": " + dump(g));
  delete d;
}
MONITOR(K03, linearprogram, 2) {
  std::string prof; G g;
  Period p1, pn;
  for (int k = 0; k < 20; k++) {
    g = thrGraph(c, &prof);
    std::vector<ll> k1(g.t.size(), 1);
    p1 = kPeriodicPeriod(g, k1); pn = exactPeriod(g);
    if (prof != "scaled" && prof != "longdur" && p1.k == Period::FINITE && repetition(g).n.size()) { ll s = 0; for (auto x : repetition(g).n) s += x; if (s < 40) break; }
    g = G();
  }
  if (g.t.empty()) return;
  observe(c, g, p1, prof);
  printedThroughput(c, g, "LP1", p1, 1e-6L);
  if (c.r.p(40)) printedThroughput(c, g, "LPN", pn, 1e-6L);
}
// ---- strictly periodic ---------------------------------------------------------------------------------
MONITOR(K04, strict, 1) {
  std::string prof; G g = thrGraph(c, &prof);
  Period p = strictPeriod(g, false), a = strictPeriod(g, true);
  observe(c, g, p, prof);
  printedThroughput(c, g, "SPeriodicThroughput", p, 1e-7L);
  printedThroughput(c, g, "ASPeriodicThroughput", a, 1e-7L);
}
// ---- self-timed ------------------------------------------------------------------------------------------
MONITOR(K05, selftimed, 3) {
  std::string prof; G g = thrGraph(c, &prof);
  if (prof == "longdur") for (auto &t : g.t) for (auto &d : t.dur) d = d % 900 + 1;
  Period p = exactPeriod(g);
  observe(c, g, p, prof);
  printedThroughput(c, g, "SymbExec", p, 1e-7L);
}
MONITOR(K06, singlerate, 1) {
  GenOpt o; o.tmin = 2; o.selfpct = 0; o.maxphase = 1;
  std::string prof; int k = (int)c.r.in(0, 4);
  if (k == 0) { prof = "hsdf"; o.maxq = 1; o.tmax = 8; o.extra = 6; }
  else if (k == 1) { prof = "multirate"; o.maxq = 9; o.evmax = 70; }
  else if (k == 2) { prof = "strong"; o.strong = true; o.tokslack = 1; o.livepct = 90; }
  else if (k == 3) { prof = "longdur"; o.mindur = 100; o.maxdur = 9000; }
  else { prof = "selfloops"; o.tmin = 1; o.selfpct = 40; }
  G g = genGraph(c.r, o);
  if (g.e.empty()) return;
  if (k == 2 && c.r.p(40)) for (auto &e : g.e) { ll f = c.r.in(2, 50); for (auto &x : e.in) x *= f; for (auto &x : e.out) x *= f; e.m0 = e.m0 * f + c.r.in(0, f - 1); }
  Period p = exactPeriod(g);
  observe(c, g, p, prof);
  printedThroughput(c, g, "deGrooteThroughput", p, 2e-5L);
  printedThroughput(c, g, "deGrooteCleanThroughput", p, 2e-5L);
}
