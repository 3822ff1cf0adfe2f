// Core model monitors: repetition vector, normalization, event graphs, SCC/cycles, arithmetic helpers.
#include "domain.hpp"
#include <algorithms/normalization.h>
#include <algorithms/scc.h>
#include <algorithms/analysis/cycle_detection.h>
#include <algorithms/throughput/symbolic_execution.h>
#include <memory>
#include <functional>

static ll gcdl(ll a, ll b) { a = a < 0 ? -a : a; b = b < 0 ? -b : b; while (b) { ll t = a % b; a = b; b = t; } return a; }

// ---- K01 repetition vector ---------------------------------------------------------------------------
static G consGraph(Ctx &c, std::string &prof) {
  Rng &r = c.r; GenOpt o; o.tmin = 1; o.livepct = 0; o.evmax = 100000; o.selfpct = 10;
  switch (r.in(0, 5)) {
    case 0: prof = "small"; break;
    case 1: prof = "wide-q"; o.maxq = 60; o.tmax = 6; break;
    case 2: prof = "phases"; o.maxphase = 9; o.maxq = 6; o.zeropct = 70; break;
    case 3: prof = "dense"; o.tmax = 9; o.extra = 25; o.multipct = 60; break;
    case 4: prof = "multiples"; o.maxmult = 30; o.maxq = 12; break;
    case 5: prof = "tree"; o.extra = 0; o.tmax = 12; o.maxq = 5; break;
  }
  G g = genGraph(r, o);
  if (r.p(25)) { prof += "+scaled"; for (auto &e : g.e) if (r.p(60)) { ll f = r.in(2, 3000); for (auto &x : e.in) x *= f; for (auto &x : e.out) x *= f; } }
  // reentrancy never matters for rates
  for (auto &t : g.t) t.re = (int)r.in(0, 2);
  return g;
}
static void cmpReps(Ctx &c, models::Dataflow *d, const G &g, const Reps &R, const char *key) {
  for (size_t i = 0; i < g.t.size(); i++) {
    ll n = d->getNi(d->getVertexByName(g.t[i].name));
    if (n != R.n[i]) { c.fail(std::string(key) + ".value", g.t[i].name + " gets " + std::to_string(n) + " firings, expected " + std::to_string(R.n[i]) + ": " + dump(g)); return; }
  }
  // read back the balance equation from the graph itself
  ForEachEdge(d, e) {
    Vertex a = d->getEdgeSource(e), b = d->getEdgeTarget(e);
    lll x = (lll)d->getEdgeIn(e) * (d->getNi(a) / d->getPhasesQuantity(a)), y = (lll)d->getEdgeOut(e) * (d->getNi(b) / d->getPhasesQuantity(b));
    if (d->getNi(a) % d->getPhasesQuantity(a) || x != y) { c.fail(std::string(key) + ".unbalanced", d->getEdgeName(e) + ": " + dump(g)); return; }
    c.inc("balance.checked");
  }
}
MONITOR(K01, consistent, 3) {
  std::string prof; G g = consGraph(c, prof);
  if (g.e.empty()) return;
  Reps R = repetition(g);
  if (!R.ok) return;
  for (auto &t : g.t) for (auto &e : g.e) { (void)t; (void)e; }
  models::Dataflow *d = toKiter(g);
  c.step("repetition " + dump(g));
  c.state(dump(g)); c.sample(prof + " " + dump(g)); c.inc("profile." + prof);
  if (!computeRepetitionVector(d)) { c.fail("rejected-consistent", dump(g)); return; }
  cmpReps(c, d, g, R, "vector");
  if (!computeRepetitionVector(d) || !d->has_repetition_vector()) c.fail("second-call", dump(g));
  cmpReps(c, d, g, R, "second");
  // an edited graph gets a new vector
  d->reset_computation();
  if (!computeRepetitionVector(d)) { c.fail("rejected-after-reset", dump(g)); return; }
  cmpReps(c, d, g, R, "reset");
  int k = (int)c.r.in(0, g.t.size() - 1);
  models::Dataflow e2(*d); e2.reset_computation();
  GEdge x; x.s = k; x.d = k; x.in.assign(g.t[k].dur.size(), 0); x.in[0] = c.r.in(1, 5); x.out = std::vector<ll>(g.t[k].dur.size(), 0); x.out.back() = x.in[0];
  Vertex v = e2.getVertexByName(g.t[k].name);
  Edge ne = e2.addEdge(v, v, "extra");
  e2.setEdgeInPhases(ne, std::vector<TOKEN_UNIT>(x.in.begin(), x.in.end())); e2.setEdgeOutPhases(ne, std::vector<TOKEN_UNIT>(x.out.begin(), x.out.end())); e2.setPreload(ne, 1);
  if (!computeRepetitionVector(&e2)) { c.fail("rejected-edited", dump(g)); return; }
  cmpReps(c, &e2, g, R, "edited");
}
MONITOR(K01, inconsistent, 2) {
  std::string prof; G g = consGraph(c, prof);
  if (g.e.empty()) return;
  // break one balance equation; trees always stay consistent, so ask the oracle
  int k = (int)c.r.in(0, g.e.size() - 1);
  GEdge &e = g.e[k];
  std::vector<ll> &w = c.r.p(50) ? e.in : e.out;
  switch (c.r.in(0, 3)) {
    case 0: w[c.r.in(0, w.size() - 1)] += 1; break;
    case 1: w[c.r.in(0, w.size() - 1)] += c.r.in(1, 50); break;
    case 2: for (auto &x : w) x *= 2; break;
    case 3: if (c.r.p(30)) for (auto &x : w) x = 0; else w[0] += 2; break;
  }
  Reps R = repetition(g);
  models::Dataflow *d = toKiter(g);
  c.step("repetition " + dump(g));
  c.state(dump(g)); c.sample((R.ok ? "still consistent " : "inconsistent ") + dump(g));
  c.inc(R.ok ? "perturbed.consistent" : "perturbed.inconsistent");
  bool ok = computeRepetitionVector(d);
  if (ok != R.ok) { c.fail(ok ? "accepted-inconsistent" : "rejected-consistent", dump(g)); return; }
  if (ok) cmpReps(c, d, g, R, "vector");
  else if (d->has_repetition_vector()) c.fail("inconsistent-marked-done", dump(g));
}

// ---- K22 normalization --------------------------------------------------------------------------------
static void checkNorm(Ctx &c, models::Dataflow *d, const G &g, const std::string &key) {
  lll z0n = 0, z0d = 1; Reps R = repetition(g); bool first = true;
  for (size_t i = 0; i < g.t.size(); i++) {
    TOKEN_UNIT z = d->getZi(d->getVertexByName(g.t[i].name));
    if (z <= 0) { c.fail(key + ".nonpositive", dump(g)); return; }
    // Z_t * q_t is the same for every task
    lll p = (lll)z * R.q[i];
    if (first) { z0n = p; first = false; } else if (p != z0n) { c.fail(key + ".unbalanced", g.t[i].name + " Z=" + std::to_string(z) + ": " + dump(g)); return; }
  }
  (void)z0d;
  for (auto &e : g.e) {
    Edge x = d->getEdgeByName(e.name);
    ll zi = d->getZi(d->getEdgeSource(x)), zj = d->getZi(d->getEdgeTarget(x));
    ll gc = 0; for (auto v : e.in) gc = gcdl(gc, v); for (auto v : e.out) gc = gcdl(gc, v);
    c.inc("edges.checked");
    ll si = 0, so = 0;
    if ((lll)gc * zi % e.sumIn()) { c.fail(key + ".not-integer", e.name + ": " + dump(g)); return; }
    for (size_t k = 0; k < e.in.size(); k++) { ll v = d->getNormIn(x, k + 1); if ((lll)v * e.sumIn() != (lll)e.in[k] * zi) { c.fail(key + ".in-rate", e.name + " phase " + std::to_string(k + 1) + " gives " + std::to_string(v) + ": " + dump(g)); return; } si += v; }
    for (size_t k = 0; k < e.out.size(); k++) { ll v = d->getNormOut(x, k + 1); if ((lll)v * e.sumOut() != (lll)e.out[k] * zj) { c.fail(key + ".out-rate", e.name + " phase " + std::to_string(k + 1) + " gives " + std::to_string(v) + ": " + dump(g)); return; } so += v; }
    if (si != zi || so != zj) { c.fail(key + ".phase-sum", e.name + ": " + dump(g)); return; }
    ll m = d->getNormMop(x);
    if ((lll)m * e.sumIn() != (lll)(e.m0 / gc * gc) * zi) { c.fail(key + ".tokens", e.name + " gives " + std::to_string(m) + " tokens: " + dump(g)); return; }
    if (d->unnormalizeValue(x, m) != e.m0 / gc * gc) { c.fail(key + ".unnormalize", e.name + ": " + dump(g)); return; }
  }
}
MONITOR(K22, normalize, 3) {
  std::string prof; G g = consGraph(c, prof);
  if (g.e.empty()) return;
  Reps R = repetition(g); if (!R.ok) return;
  models::Dataflow *d = toKiter(g);
  c.step("normalize " + dump(g));
  c.state(dump(g)); c.sample(prof + " " + dump(g)); c.inc("profile." + prof);
  if (!algorithms::normalize(d)) { c.fail("rejected", dump(g)); return; }
  checkNorm(c, d, g, "normalize");
  // edit the rates of one channel and normalise again: nothing of the previous state may stick
  G h = g; int k = (int)c.r.in(0, h.e.size() - 1); GEdge &e = h.e[k];
  ll f = c.r.in(1, 4), dv = 0; for (auto x : e.in) dv = gcdl(dv, x); for (auto x : e.out) dv = gcdl(dv, x);
  for (auto &x : e.in) x = x / dv * f; for (auto &x : e.out) x = x / dv * f;
  if (c.r.p(50)) { std::rotate(e.in.begin(), e.in.begin() + c.r.in(0, e.in.size() - 1), e.in.end()); }
  d->reset_computation();
  Edge x = d->getEdgeByName(e.name);
  d->setEdgeInPhases(x, std::vector<TOKEN_UNIT>(e.in.begin(), e.in.end())); d->setEdgeOutPhases(x, std::vector<TOKEN_UNIT>(e.out.begin(), e.out.end()));
  c.step("normalize-edited " + dump(h) + " after " + dump(g));
  if (!algorithms::normalize(d)) { c.fail("rejected-edited", dump(h) + " after " + dump(g)); return; }
  checkNorm(c, d, h, "edited");
}

// ---- K08 cycle ratio --------------------------------------------------------------------------------------
struct EgCase { int n; std::vector<Arc> a; };
static EgCase genEg(Rng &r, std::string &prof) {
  EgCase e; int k = (int)r.in(0, 6);
  e.n = (int)r.in(1, k == 3 ? 40 : 9);
  int m = (int)r.in(1, k == 3 ? 120 : 4 * e.n);
  ll wmax = 9, dmax = 4; int zpct = 20; bool selfs = false;
  switch (k) {
    case 0: prof = "small"; break;
    case 1: prof = "selfloops"; selfs = true; break;
    case 2: prof = "bigvalues"; wmax = 1000000; dmax = 1000; break;
    case 3: prof = "large"; zpct = 5; break;
    case 4: prof = "ring"; break;
    case 5: prof = "components"; break;
    case 6: prof = "ties"; wmax = 2; dmax = 1; break;
  }
  auto add = [&](int u, int v) { e.a.push_back({u, v, r.in(0, wmax), r.p(zpct) ? 0 : r.in(0, dmax), (int)e.a.size()}); };
  if (k == 4 || r.p(40)) for (int i = 0; i < e.n; i++) add(i, (i + 1) % e.n);
  int half = std::max(1, e.n / 2);
  for (int i = 0; i < m; i++) {
    int u = (int)r.in(0, e.n - 1), v = (int)r.in(0, e.n - 1);
    if (k == 5 && (u < half) != (v < half) && !r.p(10)) continue;
    if (u == v && !selfs && r.p(70)) continue;
    add(u, v);
  }
  if (selfs) for (int i = 0; i < e.n; i++) if (r.p(30)) add(i, i);
  return e;
}
static std::string dumpEg(const EgCase &e) { std::string s = std::to_string(e.n) + " events:"; for (auto &a : e.a) s += " " + std::to_string(a.u) + "->" + std::to_string(a.v) + "(w" + std::to_string(a.w) + ",d" + std::to_string(a.d) + ")"; return s; }
// kiter: weight = distance (tokens), duration = time; MinCycleRatio = min weight/duration = 1/period
static models::EventGraph *buildEg(const EgCase &e, bool swap) {
  models::EventGraph *g = new models::EventGraph();
  std::vector<models::EventGraphVertex> v;
  for (int i = 0; i < e.n; i++) v.push_back(g->addEvent(models::SchedulingEvent(i + 1, 1, 1)));
  for (auto &a : e.a) g->addEventConstraint(v[a.u], v[a.v], swap ? a.w : a.d, swap ? a.d : a.w, a.tag + 1);
  return g;
}
static bool closedCircuit(models::EventGraph *g, const std::vector<models::EventGraphEdge> &cc) {
  if (cc.empty()) return false;
  std::map<models::EventGraphVertex, int> deg;
  for (size_t i = 0; i < cc.size(); i++) { deg[g->getSource(cc[i])]++; deg[g->getTarget(cc[i])]--; }
  for (auto &k : deg) if (k.second) return false;
  for (size_t i = 0; i + 1 < cc.size(); i++) if (g->getTarget(cc[i]) != g->getSource(cc[i + 1]) && g->getTarget(cc[i + 1]) != g->getSource(cc[i])) return false;
  return true;
}
MONITOR(K08, ratio, 4) {
  std::string prof; EgCase e = genEg(c.r, prof);
  // every cycle must carry time: kiter's ratio is tokens over time
  for (auto &a : e.a) if (a.w == 0) a.w = 1;
  Mcr m = maxCycleRatio(e.n, e.a);
  c.state(dumpEg(e)); c.sample(prof + " " + dumpEg(e)); c.inc("profile." + prof);
  models::EventGraph *g = buildEg(e, false);
  c.step("MinCycleRatio " + dumpEg(e));
  auto res = g->MinCycleRatio();
  long double got = res.first;
  if (m.k == Mcr::NONE) {
    c.inc("acyclic");
    if (!std::isinf(got) || got < 0) c.fail("min.acyclic", "reports " + num(got) + ": " + dumpEg(e));
    if (!res.second.empty()) c.fail("min.acyclic-circuit", dumpEg(e));
    return;
  }
  long double ref = m.k == Mcr::INFINITE ? 0 : 1 / m.val();
  c.inc(m.k == Mcr::INFINITE ? "ratio.zero" : "ratio.finite");
  if (m.k == Mcr::INFINITE ? std::fabs(got) > 1e-15L : !close(got, ref, 1e-12L)) { c.fail(got < ref ? "min.lower" : "min.higher", "reports " + num(got) + " expected " + num(ref) + ": " + dumpEg(e)); return; }
  if (!closedCircuit(g, res.second)) { c.fail("min.circuit-open", dumpEg(e)); return; }
  long double w = 0, d = 0; for (auto x : res.second) { w += g->getWeight(x); d += g->getDuration(x); }
  if (std::fabs(w - ref * d) > 1e-9L * (1 + std::fabs(w))) { c.fail("min.circuit-ratio", "circuit gives " + num(w / d) + " reported " + num(got) + ": " + dumpEg(e)); return; }
  c.inc("circuits.checked");
  // start times for the reported period and for slacker ones
  if (m.k == Mcr::FINITE) for (int t = 0; t < 2; t++) {
    long double omega = t ? m.val() + c.r.in(1, 50) / 4.0L : m.val();
    g->computeStartingTimeWithOmega(omega);
    c.inc("starts.computed"); long double mn = INFINITY;
    ForEachEvent(g, v) mn = std::min<long double>(mn, g->getStartingTime(v));
    if (std::fabs(mn) > 1e-9L) { c.fail("starts.origin", "earliest start " + num(mn) + ": " + dumpEg(e)); return; }
    ForEachConstraint(g, k) {
      long double lhs = g->getStartingTime(g->getTarget(k)) - g->getStartingTime(g->getSource(k)), rhs = g->getDuration(k) - omega * g->getWeight(k);
      if (lhs < rhs - 1e-7L * (1 + std::fabs(rhs))) { c.fail("starts.violated", "constraint " + std::to_string(g->getSource(k)) + "->" + std::to_string(g->getTarget(k)) + " at period " + num(omega) + ": " + dumpEg(e)); return; }
    }
  }
}
MONITOR(K08, bounded, 2) {
  std::string prof; EgCase e = genEg(c.r, prof);
  for (auto &a : e.a) if (a.w == 0) a.w = 1;
  Mcr m = maxCycleRatio(e.n, e.a);
  c.state("b" + dumpEg(e));
  models::EventGraph *g = buildEg(e, false);
  long double ref = m.k == Mcr::NONE ? INFINITY : m.k == Mcr::INFINITE ? 0 : 1 / m.val();
  long double bound = c.r.p(50) && m.k == Mcr::FINITE ? ref * c.r.in(1, 8) / 4.0L : c.r.in(1, 40) / 8.0L;
  c.step("MinCycleRatio(bound) " + num(bound) + " " + dumpEg(e));
  auto res = g->MinCycleRatio(bound);
  // a bound above the true ratio changes nothing; below it, no better circuit exists and none may be invented
  if (ref < bound * (1 - 1e-9L)) {
    c.inc("bound.above");
    if (!(ref == 0 ? std::fabs(res.first) < 1e-15L : close(res.first, ref, 1e-12L))) c.fail("bound.missed", "bound " + num(bound) + " reports " + num(res.first) + " expected " + num(ref) + ": " + dumpEg(e));
    else if (!closedCircuit(g, res.second)) c.fail("bound.circuit-open", dumpEg(e));
  } else if (ref > bound * (1 + 1e-9L)) {
    c.inc("bound.below");
    if (res.first < bound * (1 - 1e-9L)) c.fail("bound.invented", "bound " + num(bound) + " reports " + num(res.first) + " expected none below " + num(ref) + ": " + dumpEg(e));
  }
}
MONITOR(K08, maximum, 2) {
  std::string prof; EgCase e = genEg(c.r, prof);
  for (auto &a : e.a) if (a.d == 0) a.d = 1;   // MaxCycleRatio = max weight/duration
  Mcr m = maxCycleRatio(e.n, e.a);
  bool zero = false;
  if (m.k == Mcr::NONE) { // no cycle at all, or only cycles without weight
    std::vector<Arc> b = e.a; for (auto &x : b) x.w = 1; zero = maxCycleRatio(e.n, b).k != Mcr::NONE;
  }
  c.state("m" + dumpEg(e));
  models::EventGraph *g = buildEg(e, true);
  c.step("MaxCycleRatio " + dumpEg(e));
  auto res = g->MaxCycleRatio();
  c.inc("max.compared");
  if (m.k == Mcr::NONE && !zero) { if (!(std::isinf(res.first) && res.first < 0)) c.fail("max.acyclic", "reports " + num(res.first) + ": " + dumpEg(e)); return; }
  long double ref = m.k == Mcr::NONE ? 0 : m.val();
  if (!(ref == 0 ? std::fabs(res.first) < 1e-15L : close(res.first, ref, 1e-12L))) { c.fail(res.first < ref ? "max.lower" : "max.higher", "reports " + num(res.first) + " expected " + num(ref) + ": " + dumpEg(e)); return; }
  if (!closedCircuit(g, res.second)) { c.fail("max.circuit-open", dumpEg(e)); return; }
  long double w = 0, d = 0; for (auto x : res.second) { w += g->getWeight(x); d += g->getDuration(x); }
  if (std::fabs(w - ref * d) > 1e-9L * (1 + std::fabs(w))) c.fail("max.circuit-ratio", dumpEg(e));
}
static std::vector<int> sccOf(int n, const std::vector<std::pair<int, int>> &ed) {
  std::vector<std::vector<char>> r(n, std::vector<char>(n, 0));
  for (int i = 0; i < n; i++) r[i][i] = 1;
  for (auto &e : ed) r[e.first][e.second] = 1;
  for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if (r[i][k]) for (int j = 0; j < n; j++) if (r[k][j]) r[i][j] = 1;
  std::vector<int> s(n, -1);
  for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) if (r[i][j] && r[j][i]) { s[i] = j; break; }
  return s;
}
MONITOR(K08, components, 1) {
  std::string prof; EgCase e = genEg(c.r, prof);
  std::vector<std::pair<int, int>> ed; for (auto &a : e.a) ed.push_back({a.u, a.v});
  std::vector<int> s = sccOf(e.n, ed);
  models::EventGraph *g = buildEg(e, false);
  c.step("StrongConnection " + dumpEg(e)); c.state("s" + dumpEg(e));
  auto *m = models::StrongConnection(g);
  c.inc("components.split");
  std::multiset<std::string> want, got;
  std::map<int, std::string> w; std::map<int, std::multiset<std::string>> we;
  for (int i = 0; i < e.n; i++) we[s[i]].insert("E" + std::to_string(i + 1));
  for (auto &a : e.a) if (s[a.u] == s[a.v]) we[s[a.u]].insert("A" + std::to_string(a.u + 1) + ">" + std::to_string(a.v + 1) + "w" + num(a.d) + "d" + num(a.w) + "#" + std::to_string(a.tag + 1));
  for (auto &x : we) { std::string t; for (auto &y : x.second) t += y + ";"; want.insert(t); }
  for (auto &x : *m) {
    models::EventGraph *h = x.second; std::multiset<std::string> q;
    { ForEachEvent(h, v) q.insert("E" + std::to_string(h->getTaskId(v))); }
    { ForEachConstraint(h, k) q.insert("A" + std::to_string(h->getTaskId(h->getSource(k))) + ">" + std::to_string(h->getTaskId(h->getTarget(k))) + "w" + num(h->getWeight(k)) + "d" + num(h->getDuration(k)) + "#" + std::to_string(h->getChannelId(k))); }
    std::string t; for (auto &y : q) t += y + ";"; got.insert(t);
  }
  if (want != got) { std::string a, b; for (auto &x : want) a += x + " | "; for (auto &x : got) b += x + " | "; c.fail("components.differ", "got " + b + " expected " + a + " for " + dumpEg(e)); }
}

// ---- K15 SCC and cycles of a dataflow graph ----------------------------------------------------------------
static G topo(Ctx &c, std::string &prof, bool selfs) {
  Rng &r = c.r; G g; int k = (int)r.in(0, 4);
  int n = (int)r.in(1, k == 3 ? 18 : 8); int m;
  switch (k) { case 0: prof = "sparse"; m = n; break; case 1: prof = "medium"; m = 2 * n; break; case 2: prof = "dense"; n = std::min(n, 6); m = 4 * n; break; case 3: prof = "large"; m = n + 6; break; default: prof = "ring"; m = n; }
  for (int i = 0; i < n; i++) { GTask t; t.name = "t" + std::to_string(i); t.dur = {r.in(1, 9)}; t.re = (int)r.in(0, 1); g.t.push_back(t); }
  std::set<std::pair<int, int>> have;
  auto add = [&](int a, int b) { if (a == b && !selfs) return; if (!have.insert({a, b}).second && !r.p(0)) return; GEdge e; e.s = a; e.d = b; e.in = {r.in(1, 4)}; e.out = {r.in(1, 4)}; e.m0 = r.in(0, 5); e.name = "c" + std::to_string(g.e.size()); g.e.push_back(e); };
  std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; for (int i = n - 1; i > 0; i--) std::swap(p[i], p[r.in(0, i)]);
  if (k == 4) for (int i = 0; i < n; i++) add(p[i], p[(i + 1) % n]);
  for (int i = 0; i < m; i++) { int a = (int)r.in(0, n - 1), b = (int)r.in(0, n - 1); if (k == 3 && r.p(75) && a != b) { if (a > b) std::swap(a, b); add(p[a], p[b]); } else add(a, b); }
  return g;
}
MONITOR(K15, scc, 2) {
  std::string prof; G g = topo(c, prof, true);
  models::Dataflow *d = toKiter(g);
  c.step("SCC " + dump(g)); c.state(dump(g)); c.sample(prof + dump(g)); c.inc("profile." + prof);
  std::vector<std::pair<int, int>> ed; for (auto &e : g.e) ed.push_back({e.s, e.d});
  std::vector<int> s = sccOf(g.t.size(), ed);
  auto m = algorithms::computeSCCKosaraju(d);
  std::map<int, std::set<std::string>> w; for (size_t i = 0; i < g.t.size(); i++) w[s[i]].insert(g.t[i].name);
  std::set<std::set<std::string>> want, got; size_t tot = 0;
  for (auto &x : w) want.insert(x.second);
  for (auto &x : m) { std::set<std::string> q; for (auto id : x.second) { q.insert(d->getVertexName(d->getVertexById(id))); tot++; } got.insert(q); }
  if (want != got || tot != g.t.size()) { c.fail("scc.partition", std::to_string(got.size()) + " components expected " + std::to_string(want.size()) + ": " + dump(g)); return; }
  c.inc("components.found", want.size());
  bool cyc = false; for (auto &x : want) if (x.size() > 1) cyc = true;
  if (algorithms::has_cycles(d) != cyc) c.fail("has_cycles", dump(g));
  std::string out = runAlgo(d, "CycleDetection"); long double v;
  if (!findNumber(out, "has_cycles result: ", v) || (v != 0) != cyc) c.fail("CycleDetection.output", out + dump(g));
  auto subs = algorithms::generateSCCs(d, m);
  if (subs.size() != m.size()) { c.fail("subgraphs.count", dump(g)); return; }
  size_t vs = 0;
  std::multiset<std::string> wantE, gotE;
  for (size_t i = 0; i < g.e.size(); i++) if (s[g.e[i].s] == s[g.e[i].d]) wantE.insert(g.e[i].name + ":" + g.t[g.e[i].s].name + ">" + g.t[g.e[i].d].name + "," + std::to_string(g.e[i].in[0]) + "," + std::to_string(g.e[i].out[0]) + "," + std::to_string(g.e[i].m0));
  for (auto sub : subs) {
    G h = fromKiter(sub); vs += h.t.size(); std::set<std::string> q;
    for (auto &t : h.t) { q.insert(t.name); int o = std::stoi(t.name.substr(1)); if (g.t[o].dur != t.dur || g.t[o].re != t.re) { c.fail("subgraphs.task", t.name + ": " + dump(g)); return; } }
    if (!want.count(q)) { c.fail("subgraphs.members", dump(g)); return; }
    for (auto &e : h.e) gotE.insert(e.name + ":" + h.t[e.s].name + ">" + h.t[e.d].name + "," + std::to_string(e.in[0]) + "," + std::to_string(e.out[0]) + "," + std::to_string(e.m0));
  }
  if (vs != g.t.size() || wantE != gotE) c.fail("subgraphs.channels", dump(g));
  if (canon(fromKiter(d)) != canon(g)) c.fail("subgraphs.original-changed", dump(g));
}
static void bruteCycles(int n, const std::vector<std::pair<int, int>> &ed, std::multiset<std::vector<int>> &out, size_t limit) {
  std::vector<std::vector<int>> adj(n); for (auto &e : ed) if (e.first != e.second) adj[e.first].push_back(e.second);
  for (int s = 0; s < n; s++) {
    std::vector<int> path{s}; std::vector<char> on(n, 0); on[s] = 1;
    std::function<void(int)> go = [&](int u) {
      if (out.size() > limit) return;
      for (int v : adj[u]) { if (v == s) out.insert(path); else if (v > s && !on[v]) { on[v] = 1; path.push_back(v); go(v); path.pop_back(); on[v] = 0; } }
    };
    go(s);
  }
}
static bool parseCycles(const std::string &out, std::multiset<std::vector<int>> &got, long &total) {
  std::istringstream is(out); std::string ln; bool in = false; total = -1;
  while (std::getline(is, ln)) {
    if (ln.find("Cycles detected:") != std::string::npos) { in = true; continue; }
    if (ln.find("Total number of cycles:") != std::string::npos) { total = atol(ln.c_str() + ln.find(':') + 1); in = false; continue; }
    if (!in) continue;
    std::vector<int> v; const char *p = ln.c_str(); while (*p) { if (isdigit((unsigned char)*p)) { char *e; v.push_back((int)strtol(p, &e, 10)); p = e; } else p++; }
    if (v.size() < 2 || v.front() != v.back()) return false;
    v.pop_back(); std::rotate(v.begin(), std::min_element(v.begin(), v.end()), v.end()); got.insert(v);
  }
  return total >= 0;
}
MONITOR(K15, cycles, 2) {
  std::string prof; G g = topo(c, prof, false);
  models::Dataflow *d = toKiter(g);
  std::string gone; std::set<std::string> out_;
  if (g.t.size() > 2 && c.r.p(25)) { // identifiers need not be contiguous, nor start at one
    int n = (int)c.r.in(1, std::min<ll>(4, g.t.size() - 1));
    bool low = c.r.p(50);
    for (int i = 0; i < n; i++) { const std::string &nm = g.t[low ? i : c.r.in(0, g.t.size() - 1)].name; if (out_.insert(nm).second) { d->removeVertex(d->getVertexByName(nm)); gone += (gone.empty() ? "" : ",") + nm; } }
  }
  std::vector<std::pair<int, int>> ed; std::map<std::string, int> id; int mx = 0;
  { ForEachVertex(d, v) { id[d->getVertexName(v)] = (int)d->getVertexId(v); mx = std::max(mx, (int)d->getVertexId(v)); } }
  for (auto &e : g.e) if (!out_.count(g.t[e.s].name) && !out_.count(g.t[e.d].name)) ed.push_back({id[g.t[e.s].name], id[g.t[e.d].name]});
  std::multiset<std::vector<int>> want; bruteCycles(mx + 1, ed, want, 3000);
  if (want.size() > 3000) { c.inc("too-many-cycles"); return; }
  c.step("CycleCount " + dump(g) + (gone.empty() ? "" : " without " + gone)); c.state("c" + gone + dump(g)); c.inc("cycles.expected", want.size()); if (!gone.empty()) c.inc("graphs.sparse-ids");
  for (int rep = 0; rep < 2; rep++) {
    std::multiset<std::vector<int>> got; long tot;
    std::string out = runAlgo(d, "CycleCount");
    if (!parseCycles(out, got, tot)) { c.fail("cycles.output", out.substr(0, 300) + dump(g)); return; }
    if (tot != (long)want.size() || got != want) { c.fail(std::string(rep ? "cycles.second-run" : tot < (long)want.size() ? "cycles.missing" : "cycles.extra"), std::to_string(tot) + " cycles reported, " + std::to_string(want.size()) + " exist: " + dump(g) + (gone.empty() ? "" : " without " + gone)); return; }
  }
}
