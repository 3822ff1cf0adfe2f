// K26: tasks with initial phases.
#include "domain.hpp"

namespace {
// Every task can do its initial phases and two iterations more.
bool runs(const G &g) {
  Reps R = repetition(g); size_t n = g.t.size(); std::vector<ll> cnt(n, 0), tok; for (auto &e : g.e) tok.push_back(e.m0);
  auto take = [](const GEdge &e, ll k, ll I) { return k < I ? e.iout[k] : e.out[(k - I) % e.out.size()]; };
  auto give = [](const GEdge &e, ll k, ll I) { return k < I ? e.iin[k] : e.in[(k - I) % e.in.size()]; };
  auto goal = [&](size_t t) { return (ll)g.t[t].idur.size() + 2 * R.n[t]; };
  for (bool more = true; more;) {
    more = false;
    for (size_t t = 0; t < n; t++) for (ll I = g.t[t].idur.size(); cnt[t] < goal(t); cnt[t]++) {
      ll k = cnt[t]; bool ok = true;
      for (size_t i = 0; i < g.e.size(); i++) if (g.e[i].d == (int)t && tok[i] < take(g.e[i], k, I)) ok = false;
      if (!ok) break;
      more = true;
      for (size_t i = 0; i < g.e.size(); i++) { if (g.e[i].d == (int)t) tok[i] -= take(g.e[i], k, I); if (g.e[i].s == (int)t) tok[i] += give(g.e[i], k, I); }
    }
  }
  for (size_t t = 0; t < n; t++) if (cnt[t] < goal(t)) return false;
  return true;
}
struct Case { G g, h; bool produceOnly = true, some = false; };   // h: the steady state, without the initial phases
bool make(Ctx &c, Case &x) {
  Rng &r = c.r;
  for (int k = 0; k < 20; k++) {
    std::string prof; x = Case(); x.g = thrGraph(c, &prof); if (prof == "scaled" || prof == "longdur") continue;
    G &g = x.g; bool po = r.p(60); ll hi = r.p(70) ? 3 : 12;
    for (auto &t : g.t) if (r.p(40)) { x.some = true; for (int i = (int)r.in(1, 3); i--;) t.idur.push_back(r.in(1, 9) * (r.p(10) ? 7 : 1)); }
    if (!x.some) { x.some = true; g.t[r.in(0, g.t.size() - 1)].idur.push_back(r.in(1, 9)); }
    x.h = g; for (auto &t : x.h.t) t.idur.clear();
    bool neg = false;
    for (size_t i = 0; i < g.e.size(); i++) {
      auto &e = g.e[i]; ll net = e.m0, step = r.p(30) ? e.in[0] + e.out[0] : 1;
      for (size_t j = 0; j < g.t[e.s].idur.size(); j++) e.iin.push_back(step * r.in(0, hi)), net += e.iin.back();
      for (size_t j = 0; j < g.t[e.d].idur.size(); j++) { e.iout.push_back(po ? 0 : r.in(0, 3)); net -= e.iout.back(); if (e.iout.back()) x.produceOnly = false; }
      ll add = r.p(50) ? 2 * hi : 0; e.m0 += add; net += add;
      if (net < 0) neg = true;
      x.h.e[i].m0 = net;
    }
    if (!neg && runs(g)) return true;
  }
  return false;
}
void seen(Ctx &c, const Case &x, const std::string &how) { c.inc(how + (x.produceOnly ? ".produce" : ".consume")); c.state(how + dump(x.g)); c.sample(how + ": " + dump(x.g)); }
// equal when the initial phases only produce; never better than possible otherwise
void compare(Ctx &c, const Case &x, const std::string &key, long double v, const Period &p) {
  seen(c, x, key);
  if (close(v, 1 / p.val(), 1e-6L)) { c.inc(key + ".equal"); return; }
  if (v < 1 / p.val() && !x.produceOnly) { c.inc(key + ".cautious"); return; }
  c.fail(key + (v < 1 / p.val() ? ".lower" : ".higher"), num(v) + " instead of " + num(1 / p.val()) + ": " + dump(x.g));
}
}
MONITOR(K26, throughput, 3) {
  Case x; if (!make(c, x)) return;
  Period p = exactPeriod(x.h); if (p.k != Period::FINITE) return;
  models::Dataflow *d = toKiter(x.g); c.step("KPeriodicThroughput " + dump(x.g));
  std::string out = runAlgo(d, "KPeriodicThroughput"); long double v = -1;
  if (!findNumber(out, "hroughput is", v)) { c.fail("KPeriodicThroughput.no-line", out + dump(x.g)); return; }
  compare(c, x, "KPeriodicThroughput", v, p);
}
MONITOR(K26, vec, 2) {
  Case x; if (!make(c, x)) return;
  std::vector<ll> K; for (size_t i = 0; i < x.g.t.size(); i++) K.push_back(c.r.in(1, 3));
  Period p = kPeriodicPeriod(x.h, K); if (p.k != Period::FINITE) return;
  models::Dataflow *d = toKiter(x.g); c.step("KSchedule " + dump(x.g));
  if (!computeRepetitionVector(d)) { c.fail("KSchedule.inconsistent", dump(x.g)); return; }
  periodicity_vector_t kv; size_t i = 0; { ForEachVertex(d, v) kv[v] = K[i++]; }
  compare(c, x, "KSchedule", algorithms::KSchedule(d, &kv).throughput, p);
}
MONITOR(K26, schedules, 2) {
  Case x; if (!make(c, x)) return;
  Reps R = repetition(x.g); ll s = 0; for (auto n : R.n) s += n; if (s > 200) return;
  int m = (int)c.r.in(0, 2);
  std::vector<ll> K; for (size_t i = 0; i < x.g.t.size(); i++) K.push_back(m == 1 ? 1 : c.r.in(1, 3));
  Period p = m == 2 ? exactPeriod(x.h) : kPeriodicPeriod(x.h, K); if (p.k != Period::FINITE) return;
  models::Dataflow *d = toKiter(x.g); std::string key = m == 2 ? "KPeriodicScheduling" : m == 1 ? "1PeriodicScheduling" : "KVectorScheduling";
  c.step(key + " " + dump(x.g));
  if (!computeRepetitionVector(d)) { c.fail(key + ".inconsistent", dump(x.g)); return; }
  periodicity_vector_t kv; size_t i = 0; { ForEachVertex(d, v) kv[v] = K[i++]; }
  models::Scheduling sch = m == 2 ? algorithms::scheduling::CSDF_KPeriodicScheduling(d) : m == 1 ? algorithms::scheduling::CSDF_1PeriodicScheduling(d) : [&] { auto res = algorithms::KSchedule(d, &kv); return period2Scheduling(d, kv, res); }();
  seen(c, x, key);
  long double o = sch.getGraphPeriod();
  if (!x.produceOnly && (!(o > 0) || o > 1e15L)) { c.inc(key + ".cautious"); return; }   // none was found
  if (!x.produceOnly && o < p.val() * (1 - 1e-6L)) { c.fail(key + ".faster", num(o) + " below " + num(p.val()) + ": " + dump(x.g)); return; }
  replaySchedule(c, x.g, sch, key, x.produceOnly ? &p : nullptr, 5);
}
