#include "domain.hpp"

static void scaleEdges(Rng &r, G &g) {
  for (auto &e : g.e) if (r.p(50)) {
    ll f = r.p(30) ? r.in(1000, 3000000) : r.in(2, 40);
    for (auto &x : e.in) x *= f;
    for (auto &x : e.out) x *= f;
    e.m0 = e.m0 * f + (r.p(50) ? r.in(0, f - 1) : 0);
  }
}

// a hub in several tight two-task circuits whose granularities are coprime: periodicity vectors have to be combined, not chosen
static G hubGraph(Rng &r) {
  G g;
  auto task = [&](ll q) { GTask t; t.name = "t" + std::to_string(g.t.size()); t.dur.push_back(r.in(1, 9)); t.re = 1; g.t.push_back(t); return q; };
  static const ll hubs[] = {6, 6, 10, 12, 15, 30};
  ll q = hubs[r.in(0, 5)]; std::vector<ll> Q{task(q)};
  std::vector<ll> div; for (ll d = 2; d < q; d++) if (q % d == 0) div.push_back(d);
  auto link = [&](int a, int b) {
    ll h = std::__gcd(Q[a], Q[b]), x = Q[b] / h, y = Q[a] / h, tok = x + y - std::__gcd(x, y) + r.in(0, 3), m = r.in(0, tok);
    for (int k = 0; k < 2; k++) {
      GEdge e; e.name = "c" + std::to_string(g.e.size()); e.s = k ? b : a; e.d = k ? a : b;
      e.in.assign(1, k ? y : x); e.out.assign(1, k ? x : y); e.m0 = k ? tok - m : m; g.e.push_back(e);
    }
  };
  int leaves = (int)r.in(2, 4);
  for (int i = 0; i < leaves; i++) { Q.push_back(task(div[r.in(0, (ll)div.size() - 1)] * (r.p(20) ? 2 : 1))); link(r.p(75) ? 0 : (int)r.in(0, i), i + 1); }
  return g;
}

G thrGraph(Ctx &c, std::string *profile) {
  Rng &r = c.r;
  GenOpt o; o.tmin = 2; o.selfpct = 0;
  int k = (int)r.in(0, 10);
  const char *nm = "";
  G g;
  if (c.thorough && r.p(30)) { o.tmax = 8; o.evmax = 110; o.maxq = 6; o.extra = 6; }
  switch (k) {
    case 0: case 1: nm = "csdf"; g = genGraph(r, o); break;
    case 2: nm = "sdf"; o.maxphase = 1; o.maxq = 6; g = genGraph(r, o); break;
    case 3: nm = "hsdf"; o.maxphase = 1; o.maxq = 1; o.tmax = 8; o.extra = 6; g = genGraph(r, o); break;
    case 4: nm = "selfloops"; o.tmin = 1; o.selfpct = 50; g = genGraph(r, o); break;
    case 5: nm = "longdur"; o.mindur = 500; o.maxdur = 100000; g = genGraph(r, o); break;
    case 6: nm = "dyadic"; g = genGraph(r, o); g.dden = r.p(50) ? 2 : 4; break;
    case 7: nm = "strong"; o.strong = true; o.tokslack = 1; o.livepct = 90; g = genGraph(r, o); break;
    case 8: nm = "scaled"; g = genGraph(r, o); scaleEdges(r, g); break;
    case 10: nm = "hub"; g = hubGraph(r); break;
    case 9: nm = "phases"; o.maxphase = 6; o.tmax = 4; o.zeropct = 60; o.maxq = 3; g = genGraph(r, o); break;
  }
  // a task without any channel has its own normalisation: not part of this domain
  if (g.e.empty()) { GEdge e; e.s = e.d = 0; e.in.assign(g.t[0].dur.size(), 1); e.out = e.in; e.m0 = r.in(1, 3); e.name = "c0"; g.e.push_back(e); }
  if (profile) *profile = nm;
  c.inc(std::string("profile.") + nm);
  return g;
}

std::string sig(const G &g) { return dump(g); }

void printedThroughput(Ctx &c, const G &g, const char *algo, const Period &p, long double tol, parameters_list_t prm) {
  models::Dataflow *d = toKiter(g);
  c.step(std::string(algo) + " " + dump(g));
  std::string out = runAlgo(d, algo, prm);
  delete d;
  long double v = -1;
  if (!findNumber(out, "hroughput is", v)) { c.fail(std::string(algo) + ".no-throughput-line", out.substr(0, 400) + " | " + dump(g)); return; }
  long double ref = p.k == Period::FINITE ? 1 / p.val() : p.k == Period::DEADLOCK ? 0 : INFINITY;
  c.inc(std::string("compared.") + algo);
  if (p.k == Period::DEADLOCK) {
    c.inc("expected.infeasible");
    if (!(v <= 1e-15L)) c.fail(std::string(algo) + ".positive-on-infeasible", "reports " + num(v) + " although no such schedule exists: " + dump(g));
    return;
  }
  c.inc(p.k == Period::FINITE ? "expected.finite" : "expected.unbounded");
  if (!close(v, ref, tol)) c.fail(std::string(algo) + (v < ref ? ".lower" : ".higher"), "reports " + num(v) + " expected " + num(ref) + ": " + dump(g));
}

bool replaySchedule(Ctx &c, const G &g, const models::Scheduling &s, const std::string &key, const Period *expect, ll iterations) {
  Reps r = repetition(g);
  long double P = s.getGraphPeriod();
  if (expect) {
    long double ref = expect->val();
    if (!close(P, ref, 1e-6L)) { c.fail(key + ".period", "announces period " + num(P) + " expected " + num(ref) + ": " + dump(g)); return false; }
  }
  std::vector<StartSeq> q(g.t.size());
  std::vector<char> have(g.t.size(), 0);
  for (auto it = s.getTaskSchedule().begin(); it != s.getTaskSchedule().end(); ++it) {
    std::string nm = s.getDataflow()->getVertexName(s.getDataflow()->getVertexById(it->first));
    for (size_t i = 0; i < g.t.size(); i++) if (g.t[i].name == nm) {
      have[i] = 1;
      q[i].init.assign(it->second.initial_starts.begin(), it->second.initial_starts.end());
      q[i].per.assign(it->second.periodic_starts.second.begin(), it->second.periodic_starts.second.end());
      q[i].period = it->second.periodic_starts.first;
    }
  }
  for (size_t i = 0; i < g.t.size(); i++) {
    if (!have[i] || q[i].per.empty()) { c.fail(key + ".missing-task", "no periodic start for " + g.t[i].name + ": " + dump(g)); return false; }
    for (auto x : q[i].init) if (x < -1e-7L) { c.fail(key + ".negative-start", dump(g)); return false; }
    for (auto x : q[i].per) if (x < -1e-7L) { c.fail(key + ".negative-start", dump(g)); return false; }
    long double rate = q[i].period * r.n[i] / q[i].per.size();
    if (!close(rate, P, 1e-6L)) { c.fail(key + ".rate", "task " + g.t[i].name + " repeats " + std::to_string(q[i].per.size()) + " firings every " + num(q[i].period) + " which is not the announced graph period " + num(P) + ": " + dump(g)); return false; }
  }
  ReplayRes R = replay(g, r, q, iterations, true);
  c.inc("replayed.events", R.events);
  c.inc("replayed.schedules");
  if (!R.ok) { c.fail(key + ".invalid", R.why + ": " + dump(g)); return false; }
  return true;
}

static std::vector<long double> numbers(const std::string &s) {
  std::vector<long double> v; const char *p = s.c_str();
  while (*p) { if (isdigit((unsigned char)*p) || *p == '-') { char *e; v.push_back(strtold(p, &e)); p = e > p ? e : p + 1; } else p++; }
  return v;
}
// rebuilds start sequences out of the textual schedule
bool parseText(const std::string &out, const G &g, std::vector<StartSeq> &q, std::string &why) {
  q.assign(g.t.size(), StartSeq()); std::vector<char> have(g.t.size(), 0);
  std::istringstream is(out); std::string ln;
  while (std::getline(is, ln)) {
    size_t a = ln.find(") "), b = ln.find(" | starts:"), pc = ln.find(" | period:"), pd = ln.find(" | periodic starts:"), pe = ln.find(" | durations:");
    if (a == std::string::npos || b == std::string::npos || pc == std::string::npos || pd == std::string::npos || pe == std::string::npos) continue;
    std::string nm = ln.substr(a + 2, b - a - 2);
    for (size_t i = 0; i < g.t.size(); i++) if (g.t[i].name == nm) {
      have[i] = 1;
      q[i].init = numbers(ln.substr(b + 10, pc - b - 10));
      auto p = numbers(ln.substr(pc + 10, pd - pc - 10)); if (p.empty()) { why = "no period: " + ln; return false; }
      q[i].period = p[0];
      q[i].per = numbers(ln.substr(pd + 19, pe - pd - 19));
    }
  }
  for (size_t i = 0; i < g.t.size(); i++) if (!have[i] || q[i].per.empty()) { why = "task " + g.t[i].name + " has no line"; return false; }
  return true;
}
