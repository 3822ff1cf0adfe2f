// Buffer sizing monitors: bounded-buffer execution, design space exploration, sizing for a period.
#include "domain.hpp"
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

namespace {
std::string slurp(const std::string &f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
std::string vecs(const std::vector<ll> &v) { std::string s; for (auto x : v) s += (s.empty() ? "" : ",") + std::to_string(x); return s; }
// throughput of g when channel i holds at most cap[i] tokens (space is claimed at the start of a firing, released at its end)
long double boundedThr(const G &g, const std::vector<ll> &cap) {
  for (size_t i = 0; i < cap.size(); i++) if (cap[i] < g.e[i].m0) return 0;
  Period p = exactPeriod(withCapacities(g, cap));
  return p.k == Period::FINITE ? 1 / p.val() : 0;
}
ll stepOf(const GEdge &e) { ll k = 0; for (auto x : e.in) k = std::__gcd(k, x); for (auto x : e.out) k = std::__gcd(k, x); return k; }
ll weight(const G &g) { Reps r = repetition(g); ll s = 0; for (auto x : r.n) s += x; return s; }
struct Row { ll size = 0; long double thr = 0; std::vector<ll> cap; };
bool rows(const std::string &txt, std::vector<Row> &o, std::string &bad) {
  std::istringstream is(txt); std::string ln;
  while (std::getline(is, ln)) {
    if (ln.find('"') == std::string::npos || !isdigit((unsigned char)ln[0])) continue;
    size_t a = ln.find(';'), b = ln.find(';', a + 1), q = ln.find('"'), z = ln.rfind('"');
    if (a == std::string::npos || b == std::string::npos || q == z) { bad = ln; return false; }
    Row r; r.size = atoll(ln.c_str()); r.thr = strtold(ln.c_str() + a + 1, 0);
    std::istringstream cs(ln.substr(q + 1, z - q - 1)); std::string w; while (std::getline(cs, w, ',')) r.cap.push_back(atoll(w.c_str()));
    o.push_back(r);
  }
  return true;
}
}
// ---- K12: throughput / buffer size trade-off ---------------------------------------------------------------
static void dse(Ctx &c, const char *method) {
  GenOpt o; o.tmin = 2; o.tmax = 4; o.selfpct = 0; o.multipct = 10; o.maxq = 3; o.maxphase = 2; o.extra = 1; o.evmax = 14; o.livepct = 100; o.maxdur = 5; o.tokslack = 1; o.zeropct = 15;
  int prof = (int)c.r.in(0, 3); std::string pn = "csdf";
  if (prof == 1) { o.maxphase = 1; pn = "sdf"; } if (prof == 2) { o.maxphase = 1; o.maxq = 1; o.extra = 2; o.tmax = 5; pn = "hsdf"; } if (prof == 3) { o.tmax = 3; o.maxphase = 1; o.maxq = 5; o.evmax = 20; pn = "multirate"; }
  G g; Period p;
  for (int k = 0; k < 40; k++) { g = genGraph(c.r, o); if (!g.e.empty() && g.e.size() <= 4) { p = exactPeriod(g); if (p.k == Period::FINITE) break; } g = G(); }
  if (g.t.empty()) { c.inc("no-graph"); return; }
  size_t n = g.e.size();
  std::string dir = c.scratch + "/dse"; mkdir(dir.c_str(), 0700); mkdir((dir + "/pp_logs").c_str(), 0700); mkdir((dir + "/dse_logs").c_str(), 0700);
  std::string suffix = *method ? method : "_kiter";
  parameters_list_t prm; prm["LOGDIR"] = dir + "/";
  if (suffix == "_symbexec_corrected") prm["SYMB_EXEC_CORRECTED"] = "1";
  if (suffix == "_symbexec_original") prm["SYMB_EXEC_ORIGINAL"] = "1";
  ll coarse = c.r.p(12) ? c.r.in(2, 4) : 1; if (coarse > 1) { prm["COARSE"] = std::to_string(coarse); suffix += "_coarse"; }
  bool target = c.r.p(25); long double maxthr = 1 / p.val(), want = maxthr;
  if (target) { want = maxthr * c.r.in(1, 9) / 10; char b[64]; snprintf(b, 64, "%.21Lg", want); prm["THR"] = b; }
  models::Dataflow *d = toKiter(g);
  std::string what = "ThroughputBufferingDSE" + suffix + (target ? " THR=" + num(want) : "") + " " + dump(g);
  std::string before = canon(fromKiter(d)), gn = d->getGraphName();
  std::string fl = dir + "/dse_logs/" + gn + "_dselog" + suffix + ".csv", fp = dir + "/pp_logs/" + gn + "_pp" + suffix + ".csv";
  unlink(fl.c_str()); unlink(fp.c_str());
  c.step(what);
  runAlgo(d, "ThroughputBufferingDSE", prm);
  if (canon(fromKiter(d)) != before) c.fail("dse" + suffix + ".input-changed", what);
  std::vector<Row> ex, pp; std::string bad;
  if (!rows(slurp(fl), ex, bad) || !rows(slurp(fp), pp, bad)) { c.fail("dse" + suffix + ".format", bad + " | " + what); return; }
  if (ex.empty() || pp.empty()) { c.fail("dse" + suffix + ".no-result", "explored " + std::to_string(ex.size()) + " pareto " + std::to_string(pp.size()) + ": " + what); return; }
  c.state(what); c.sample(pn + " " + std::to_string(ex.size()) + " explored, " + std::to_string(pp.size()) + " pareto: " + what);
  // every reported point must be true
  std::map<std::vector<ll>, long double> memo;
  auto thr = [&](const std::vector<ll> &v) { auto it = memo.find(v); if (it != memo.end()) return it->second; return memo[v] = boundedThr(g, v); };
  auto point = [&](const Row &r, const char *k) {
    if (r.cap.size() != n) { c.fail("dse" + suffix + "." + k + "-channels", what); return false; }
    ll s = 0; for (auto x : r.cap) s += x;
    if (s != r.size) { c.fail("dse" + suffix + "." + k + "-size", std::to_string(r.size) + " for " + vecs(r.cap) + ": " + what); return false; }
    long double t = thr(r.cap); c.inc("points.checked");
    if (!close(r.thr, t, 3e-6L)) { c.fail("dse" + suffix + "." + k + (r.thr > t ? "-too-high" : "-too-low"), "capacities " + vecs(r.cap) + " reported " + num(r.thr) + " exact " + num(t) + ": " + what); return false; }
    return true; };
  std::set<std::vector<ll>> once;
  for (auto &r : ex) { if (!point(r, "explored")) return; if (!once.insert(r.cap).second) { c.fail("dse" + suffix + ".explored-twice", vecs(r.cap) + ": " + what); return; } }
  c.inc("explored", ex.size()); c.inc("pareto.points", pp.size());
  // staircase of the reported front: several distributions of one size are allowed with equal throughput
  std::map<ll, long double> front;
  for (size_t i = 0; i < pp.size(); i++) {
    bool zero = true; for (auto x : pp[i].cap) zero &= x == 0;
    if (zero && pp[i].thr == 0) { front[0] = 0; continue; }
    if (!point(pp[i], "pareto")) return;
    if (front.count(pp[i].size) && !close(front[pp[i].size], pp[i].thr, 3e-6L)) { c.fail("dse" + suffix + ".pareto-size-twice", std::to_string(pp[i].size) + ": " + what); return; }
    front[pp[i].size] = pp[i].thr;
  }
  long double last = -1;
  for (auto &f : front) { if (!(f.second > last * (1 + 2e-6L))) { c.fail("dse" + suffix + ".pareto-not-increasing", std::to_string(f.first) + " " + num(f.second) + ": " + what); return; } last = f.second; }
  if (suffix.find("original") != std::string::npos) return;    // its dependency rule is the published, incomplete one
  if (last < want * (1 - 3e-6L)) { c.fail("dse" + suffix + ".target-missed", "best " + num(last) + " target " + num(want) + ": " + what); return; }
  c.inc(target ? "target.reached" : "maximum.reached");
  if (coarse > 1) { c.inc("coarse.checked"); return; }
  // completeness: brute force over every distribution smaller than the last one
  ll top = front.rbegin()->first; std::vector<ll> lo, st; double space = 1;
  for (auto &e : g.e) { st.push_back(stepOf(e)); lo.push_back(std::max(e.m0, e.m0 % st.back())); }
  ll slack = top; for (auto x : lo) slack -= x;
  for (size_t i = 0; i < n; i++) space *= (double)(slack / st[i] + 1) / (i + 1);
  if (space > 3000) { c.inc("front.too-large"); return; }
  std::map<ll, long double> best; std::vector<ll> cur = lo, arg;
  std::function<void(size_t, ll)> rec = [&](size_t i, ll left) {
    if (i == n) { ll s = 0; for (auto x : cur) s += x; long double t = thr(cur); if (!best.count(s) || best[s] < t) best[s] = t; c.inc("bruteforce.points"); return; }
    for (ll k = 0; k * st[i] <= left; k++) { cur[i] = lo[i] + k * st[i]; rec(i + 1, left - k * st[i]); }
    cur[i] = lo[i];
  };
  rec(0, slack);
  std::map<ll, long double> ref; long double m = 0;
  for (auto &b : best) if (b.second > m * (1 + 1e-9L)) { m = b.second; ref[b.first] = m; if (m >= want * (1 - 1e-9L)) break; }
  std::string a, b; for (auto &f : front) if (f.second > 0) a += std::to_string(f.first) + ":" + num(f.second) + " "; for (auto &f : ref) b += std::to_string(f.first) + ":" + num(f.second) + " ";
  c.inc("front.compared");
  size_t nf = 0; for (auto &f : front) nf += f.second > 0;
  bool same = nf == ref.size(); if (same) { auto it = ref.begin(); for (auto &f : front) if (f.second > 0) { same &= it->first == f.first && close(it->second, f.second, 3e-6L); ++it; } }
  if (!same) c.fail("dse" + suffix + ".front", "reported " + a + "| exact " + b + ": " + what);
}
MONITOR(K12, kiter, 3) { dse(c, "_kiter"); }
MONITOR(K12, symbexec, 2) { dse(c, "_symbexec_corrected"); }
MONITOR(K12, original, 1) { dse(c, "_symbexec_original"); }
// ---- K13: execution under given capacities -------------------------------------------------------------------
MONITOR(K13, bounded, 1) {
  std::string prof; G g = thrGraph(c, &prof);
  if (prof == "longdur") for (auto &t : g.t) for (auto &d : t.dur) d = d % 900 + 1;
  std::vector<ll> cap; int k = (int)c.r.in(0, 3);
  for (auto &e : g.e) {
    ll st = stepOf(e), mx = 0; for (auto x : e.in) mx += x; for (auto x : e.out) mx += x;
    ll v = k == 0 ? mx : k == 1 ? c.r.in(1, std::max<ll>(1, 2 * mx)) : k == 2 ? mx * c.r.in(1, 4) : std::max<ll>(1, mx / 2) + st * c.r.in(0, 3);
    if (c.r.p(90)) v = std::max(v, e.m0); else if (e.m0) v = c.r.in(0, e.m0);
    cap.push_back(std::max(v, e.m0));
  }
  G b = withCapacities(g, cap);
  Period p = exactPeriod(b);
  c.state(vecs(cap) + sig(g)); c.sample(prof + " capacities " + vecs(cap) + ": period " + (p.k == Period::FINITE ? num(p.val()) : std::string("none")) + " of " + dump(g));
  c.inc(p.k == Period::FINITE ? "graphs.live" : "graphs.deadlocked");
  Period u = exactPeriod(g); if (p.k == Period::FINITE && u.k == Period::FINITE && p.val() > u.val() * (1 + 1e-9L)) c.inc("buffers.limiting");
  if (p.k == Period::DEADLOCK && u.k == Period::FINITE) c.inc("buffers.deadlocking");
  parameters_list_t prm; prm["SD"] = vecs(cap); if (c.r.p(50)) prm["SYMB_EXEC_CORRECTED"] = "1";
  models::Dataflow *d = toKiter(g);
  c.step("SymbExecDebug SD=" + vecs(cap) + " " + dump(g));
  std::map<ll, ll> chan; for (size_t i = 0; i < g.e.size(); i++) chan[d->getEdgeId(d->getEdgeByName(g.e[i].name))] = i + 1;
  std::string out = runAlgo(d, "SymbExecDebug", prm); delete d;
  long double v = -1; if (!findNumber(out, "hroughput is", v)) { c.fail("SymbExecDebug.no-line", dump(g)); return; }
  long double ref = p.k == Period::FINITE ? 1 / p.val() : 0;
  c.inc("compared.SymbExecDebug");
  if (!close(v, ref, 1e-7L)) c.fail(v < ref ? "SymbExecDebug.lower" : "SymbExecDebug.higher", "capacities " + vecs(cap) + " reports " + num(v) + " expected " + num(ref) + ": " + dump(g));
  // storage dependencies: growing every channel that is not listed changes nothing
  if (p.k == Period::INCONSISTENT) return;
  std::set<ll> dep; { std::istringstream is(out); std::string ln; while (std::getline(is, ln)) { size_t q = ln.find("Channel "); if (q != std::string::npos) dep.insert(chan.count(atoll(ln.c_str() + q + 8)) ? chan[atoll(ln.c_str() + q + 8)] : 0); } }
  for (auto x : dep) if (x < 1) { c.fail("dependency.unknown-channel", dump(g)); return; }
  c.inc("dependencies.listed", dep.size());
  if (prm.count("SYMB_EXEC_CORRECTED") && p.k != Period::UNBOUNDED) {
    std::vector<ll> grown = cap; for (size_t i = 0; i < cap.size(); i++) if (!dep.count(i + 1)) grown[i] = -1;
    Period q = exactPeriod(withCapacities(g, grown)); long double t = q.k == Period::FINITE ? 1 / q.val() : 0;
    c.inc("dependencies.checked");
    if (!close(t, ref, 1e-7L)) c.fail("dependency.missed", "capacities " + vecs(cap) + ": channels outside the listed ones limit the throughput, " + num(ref) + " becomes " + num(t) + ": " + out + dump(g));
  }
}
// ---- K11: buffer sizes for a required period -----------------------------------------------------------------
#include <algorithms/buffersizing.h>
#include <algorithms/buffersizing/periodic.h>
#include <algorithms/buffersizing/periodic_fixed.h>
#include <algorithms/buffersizing/backpressure.h>
namespace {
struct CaptureErr { std::streambuf *old; std::stringstream ss; CaptureErr() : old(std::cerr.rdbuf(ss.rdbuf())) {} ~CaptureErr() { std::cerr.rdbuf(old); } };
bool atMost(const Period &p, ll num, ll den) { return p.k == Period::UNBOUNDED || (p.k == Period::FINITE && (lll)p.num * den <= (lll)num * p.den); }
std::vector<ARRAY_INDEX> channelIds(const models::Dataflow *d, const G &g) { std::vector<ARRAY_INDEX> l; for (auto &e : g.e) l.push_back(d->getEdgeId(d->getEdgeByName(e.name))); return l; }
struct Sizer {            // class of schedules: 1-periodic or strictly periodic
  const G &g; bool strict; ll num, den;   // required period
  std::map<std::vector<ll>, bool> memo; ll tried = 0;
  Period period(const G &x) const { return strict ? strictPeriod(x) : kPeriodicPeriod(x, std::vector<ll>(x.t.size(), 1)); }
  bool ok(const std::vector<ll> &cap) {
    for (size_t i = 0; i < cap.size(); i++) if (cap[i] < g.e[i].m0) return false;
    auto it = memo.find(cap); if (it != memo.end()) return it->second;
    tried++;
    return memo[cap] = atMost(period(withCapacities(g, cap)), num, den);
  }
  ll total(const std::vector<ll> &cap) const { ll s = 0; for (size_t i = 0; i < cap.size(); i++) s += cap[i] * g.e[i].tsize; return s; }
  // smallest weighted total of feasible capacities, not above `limit`; -1 when there is none
  ll best(ll limit) {
    std::vector<ll> cur, lo; ll base = 0;
    for (auto &e : g.e) { ll a = 0, b = 0; for (auto x : e.in) a = std::max(a, x); for (auto x : e.out) b = std::max(b, x); lo.push_back(std::max(e.m0, std::max(a, b))); base += lo.back() * e.tsize; }
    cur = lo; ll res = -1, left0 = limit;
    std::function<void(size_t, ll)> rec = [&](size_t i, ll used) {   // used: weight of channels < i plus lower bounds of the rest
      ll room = (res >= 0 ? res - 1 : left0) - used; if (room < 0) return;
      ll w = g.e[i].tsize;
      if (i + 1 == g.e.size()) {                       // monotone in the last channel
        ll hi = room / w; cur[i] = lo[i] + hi; if (!ok(cur)) { cur[i] = lo[i]; return; }
        ll a = 0, b = hi; while (a < b) { ll m = (a + b) / 2; cur[i] = lo[i] + m; if (ok(cur)) b = m; else a = m + 1; }
        res = used + a * w; cur[i] = lo[i]; return;
      }
      for (ll k = 0; k * w <= room; k++) { cur[i] = lo[i] + k; rec(i + 1, used + k * w); room = (res >= 0 ? res - 1 : left0) - used; }
      cur[i] = lo[i];
    };
    rec(0, base);
    return res;
  }
  double space(ll limit) { ll b = limit; double s = 1; for (auto &e : g.e) b -= e.m0 * e.tsize; for (size_t i = 0; i + 1 < g.e.size(); i++) s *= (double)(std::max<ll>(b, 0) + 1) / (i + 1); return s; }
};
G sizingGraph(Ctx &c, std::string &pn) {
  GenOpt o; o.tmin = 2; o.tmax = 4; o.selfpct = 8; o.multipct = 10; o.maxq = 3; o.maxphase = 3; o.extra = 1; o.evmax = 16; o.livepct = 100; o.maxdur = 6; o.tokslack = 2; o.zeropct = 20;
  int prof = (int)c.r.in(0, 3); pn = "csdf";
  if (prof == 1) { o.maxphase = 1; pn = "sdf"; } if (prof == 2) { o.maxphase = 1; o.maxq = 1; o.extra = 2; o.tmax = 5; pn = "hsdf"; } if (prof == 3) { o.tmax = 3; o.maxphase = 1; o.maxq = 6; o.evmax = 24; pn = "multirate"; }
  for (int k = 0; k < 40; k++) { G g = genGraph(c.r, o); if (!g.e.empty() && g.e.size() <= 4 && exactPeriod(g).k == Period::FINITE) { if (c.r.p(30)) for (auto &e : g.e) e.tsize = c.r.in(1, 4); return g; } }
  return G();
}
// exact pairs: the program has a row for every pair of phases whose moved tokens reach the channel's gcd
bool exactRows(const G &g) { for (auto &e : g.e) { ll gz = std::__gcd(e.sumIn(), e.sumOut()); for (auto x : e.in) for (auto y : e.out) if (std::min(x, y) > 0 && std::min(x, y) < gz) return false; } return true; }
bool parsedSizes(const G &g, const std::string &log, std::vector<ll> &cap) {
  cap.assign(g.e.size(), -1);
  for (size_t i = 0; i < g.e.size(); i++) { std::istringstream is(log); std::string ln; while (std::getline(is, ln)) { size_t q = ln.find(" " + g.e[i].name + " :"); if (q == std::string::npos) continue; size_t z = ln.rfind("= "); if (z != std::string::npos && z > q) cap[i] = atoll(ln.c_str() + z + 2); } if (cap[i] < 0) return false; }
  return true;
}
}
static void sizing(Ctx &c, bool strict) {
  std::string pn; G g = sizingGraph(c, pn); if (g.t.empty()) { c.inc("no-graph"); return; }
  Sizer z{g, strict, 0, 1};
  Period p = z.period(g);
  ll P; bool feasible = true;
  if (p.k == Period::FINITE) { ll up = (p.num + p.den - 1) / p.den; P = up + (c.r.p(50) ? 0 : c.r.in(0, 2 * up)); if (c.r.p(12) && up > 1) { P = std::max<ll>(1, up - 1 - c.r.in(0, up / 2)); feasible = false; } }
  else if (p.k == Period::UNBOUNDED) P = c.r.in(1, 30);
  else { P = c.r.in(1, 60); feasible = false; }
  z.num = P;
  bool ilp = c.r.p(50), cli = c.r.p(35);
  std::string nm = std::string(strict ? "SPeriodicSizing" : "PeriodicSizing") + (ilp ? " ILP" : "");
  std::string what = nm + " PERIOD=" + std::to_string(P) + " " + dump(g), key = std::string(strict ? "speriodic" : "periodic") + (ilp ? ".ilp" : ".lp");
  c.step(what); c.state(what); 
  models::Dataflow *d = toKiter(g); std::string before = canon(fromKiter(d));
  bool got = false; ll tot = 0; std::vector<ll> cap; bool haveCap = false;
  if (cli && feasible) {
    parameters_list_t prm; if (ilp) prm["ILP"] = "1";
    if (p.k == Period::FINITE && P == p.num / p.den && p.num % p.den == 0 && !strict) c.inc("period.default");     // smallest period: left to the tool
    else prm["PERIOD"] = std::to_string(P == (p.k == Period::FINITE ? (p.num + p.den - 1) / p.den : 0) ? ++P : P), z.num = P;
    std::string out = runAlgo(d, strict ? "SPeriodicSizing" : "PeriodicSizing", prm);
    long double v, v2; got = findNumber(out, strict ? "SPeriodicSizing size is" : "1Periodic size is", v); tot = got ? (ll)v : 0;
    if (!got) { c.fail(key + ".no-line", out + what); return; }
    if (!findNumber(out, "Total buffer size :", v2) || v2 != v) c.fail(key + ".two-totals", out + what);
    c.inc("printed");
  } else {
    BufferSizingResult r = strict ? algorithms::speriodic_memory_sizing_csdf(d, P, ilp, false) : algorithms::periodic_memory_sizing_csdf(d, P, ilp, false);
    got = r.is_valid(); tot = r.total_size();
    if (strict && got) { haveCap = true; for (auto id : channelIds(d, g)) cap.push_back((ll)r.get_edge_size(id)); }
  }
  if (canon(fromKiter(d)) != before) c.fail(key + ".input-changed", what);
  if (!feasible) { c.inc("infeasible"); if (got) c.fail(key + ".infeasible-sized", "reports total " + std::to_string(tot) + " below the smallest period: " + what); return; }
  if (!got) { c.fail(key + ".no-solution", what); return; }
  c.sample(pn + " total " + std::to_string(tot) + ": " + what); c.inc("sized");
  if (haveCap) {
    if (z.total(cap) != tot) c.fail(key + ".total", "sizes " + vecs(cap) + " total " + std::to_string(tot) + ": " + what);
    if (!z.ok(cap)) { c.fail(key + ".too-small", "sizes " + vecs(cap) + " do not allow the period: " + what); return; }
    c.inc("channels.checked");
  }
  if (z.space(tot) > 2500) { c.inc("bruteforce.too-large"); return; }
  ll b = z.best(tot); c.inc("bruteforce.distributions", z.tried);
  if (b < 0) { c.fail(key + ".too-small", "no distribution of total " + std::to_string(tot) + " allows the period: " + what); return; }
  c.inc("bruteforce.compared");
  if (ilp && exactRows(g)) { c.inc("optimal.compared"); if (b != tot) c.fail(key + ".not-minimal", "total " + std::to_string(tot) + ", minimum " + std::to_string(b) + ": " + what); }
}
MONITOR(K11, periodic, 2) { sizing(c, false); }
MONITOR(K11, speriodic, 2) { sizing(c, true); }
MONITOR(K11, fixed, 2) {
  std::string pn; G g = sizingGraph(c, pn); if (g.t.empty()) { c.inc("no-graph"); return; }
  Sizer z{g, false, 0, 1}; Period p = z.period(g); if (p.k != Period::FINITE) { c.inc("infeasible.skipped"); return; }
  ll up = (p.num + p.den - 1) / p.den, P = up + (c.r.p(50) ? 0 : c.r.in(0, 3 * up)); z.num = P; if (P <= 0) P = 1;
  static const char *kinds[] = {"BURST", "AVERAGE", "MINMAX", "WIGGERS"}; int k = (int)c.r.in(0, 3);
  if (getenv("K11_KIND")) k = atoi(getenv("K11_KIND"));
  std::string what = std::string("FixedOffsetBufferSizing OFFSET=") + kinds[k] + " PERIOD=" + std::to_string(P) + " " + dump(g);
  c.step(what); c.state(what);
  models::Dataflow *d = toKiter(g); std::map<Vertex, std::vector<TIME_UNIT>> off;
  if (!computeRepetitionVector(d)) { c.fail("fixed.inconsistent", what); return; }
  bool ok; 
  { CaptureErr q; ok = k == 0 ? algorithms::generateBurstOffsets(d, off) : k == 1 ? algorithms::generateAverageOffsets(d, P, off) : k == 2 ? algorithms::generateMinMaxOffsets(d, P, off) : algorithms::generateWiggersOffsets(d, P, off); }
  if (!ok) { c.inc(std::string("no-offsets.") + kinds[k]); return; }
  bool valid = true;
  { Reps r = repetition(g); ForEachVertex(d, v) { size_t i = 0; while (g.t[i].name != d->getVertexName(v)) i++; auto &o = off[v]; long double mu = (long double)P * o.size() / r.n[i]; 
      for (size_t j = 0; j < o.size(); j++) { long double nx = j + 1 < o.size() ? o[j + 1] : o[0] + mu; if (o[j] < 0 || nx < o[j] + g.t[i].dur[j] / (long double)g.dden - 1e-9L) valid = false; } } }
  if (!valid) { c.inc(std::string("invalid-offsets.") + kinds[k]); return; }
  BufferSizingResult r = algorithms::compute_periodic_fixed_memory(d, off, P, c.r.p(50), false);
  std::string key = std::string("fixed.") + kinds[k];
  if (!r.is_valid()) { c.inc(std::string("no-solution.") + kinds[k]); return; }
  std::vector<ll> cap; for (auto id : channelIds(d, g)) cap.push_back((ll)r.get_edge_size(id));
  c.sample(pn + " sizes " + vecs(cap) + ": " + what); c.inc(std::string("fixed.checked.") + kinds[k]);
  if (z.total(cap) != (ll)r.total_size()) c.fail(key + ".total", what);
  if (!z.ok(cap)) c.fail(key + ".too-small", "sizes " + vecs(cap) + " do not allow the period: " + what);
}

MONITOR(K11, vbuffers, 1) {
  std::string pn; G g = sizingGraph(c, pn); if (g.t.empty()) { c.inc("no-graph"); return; }
  Sizer z{g, true, 0, 1}; Period p = z.period(g); if (p.k != Period::FINITE) { c.inc("infeasible.skipped"); return; }
  ll up = (p.num + p.den - 1) / p.den, P = up + (c.r.p(50) ? 0 : c.r.in(0, 3 * up)), mul = c.r.p(60) ? 1 : c.r.in(2, 3); 
  bool ilp = c.r.p(50);
  std::string what = "AddVBuffers PERIOD=" + std::to_string(P) + " MUL=" + std::to_string(mul) + (ilp ? " ILP" : "") + " " + dump(g);
  c.step(what); c.state(what);
  models::Dataflow *d = toKiter(g); std::string before = canon(fromKiter(d));
  parameters_list_t prm; prm["PERIOD"] = std::to_string(P); if (mul != 1) prm["MUL"] = std::to_string(mul); if (ilp) prm["ILP"] = "1";
  runAlgo(d, "AddVBuffers", prm);
  G h = fromKiter(d); size_t n = g.e.size();
  if (h.e.size() != 2 * n || h.t.size() != g.t.size()) { c.fail("vbuffers.channels", what); return; }
  G o = h; o.e.resize(n); if (canon(o) != before) { c.fail("vbuffers.original-changed", what); return; }
  std::vector<ll> cap;
  for (size_t i = 0; i < n; i++) { const GEdge &e = h.e[i], *r = nullptr; for (size_t k = n; k < 2 * n; k++) if (h.e[k].name == "vir_" + e.name) r = &h.e[k];
    if (!r || r->s != e.d || r->d != e.s || r->in != e.out || r->out != e.in || r->tsize != e.tsize || r->m0 < 0) { c.fail("vbuffers.reverse-channel", e.name + ": " + what); return; }
    if ((r->m0 + e.m0) % mul) { c.fail("vbuffers.multiplier", what); return; }
    cap.push_back((r->m0 + e.m0) / mul); }
  c.sample(pn + " sizes " + vecs(cap) + ": " + what); c.inc("vbuffers.checked");
  if (!atMost(z.period(h), P, 1)) { c.fail("vbuffers.period", what); return; }
  z.num = P; if (!z.ok(cap)) c.fail("vbuffers.too-small", "sizes " + vecs(cap) + ": " + what);
}
MONITOR(K11, explore, 1) {
  std::string pn; G g = sizingGraph(c, pn); if (g.t.empty()) { c.inc("no-graph"); return; }
  bool strict = c.r.p(50), ilp = c.r.p(40); Sizer z{g, strict, 0, 1}; Period p = z.period(g), q = kPeriodicPeriod(g, std::vector<ll>(g.t.size(), 1)); if (p.k != Period::FINITE || q.k != Period::FINITE) { c.inc("infeasible.skipped"); return; }
  std::string nm = strict ? "SPeriodicDSE" : "PeriodicDSE", what = nm + (ilp ? " ILP " : " ") + dump(g);
  c.step(what); c.state(what);
  models::Dataflow *d = toKiter(g); std::string before = canon(fromKiter(d));
  parameters_list_t prm; if (ilp) prm["ILP"] = "1";
  std::string out = runAlgo(d, nm, prm);
  if (canon(fromKiter(d)) != before) c.fail(nm + ".input-changed", what);
  std::istringstream is(out); std::string ln; ll npt = 0; long double best = 0; std::set<ll> sizes;
  while (std::getline(is, ln)) { if (ln.find(';') != std::string::npos) continue; size_t t = ln.find('\t'); if (t == std::string::npos) continue;
    long double P = strtold(ln.c_str(), 0); ll S = atoll(ln.c_str() + t + 1); npt++; if (!best || P < best) best = P;
    if (!sizes.insert(S).second) { c.fail(nm + ".size-twice", ln + ": " + what); return; }
    if (P > 200 * p.val()) { c.inc("point.very-slow"); continue; }
    Sizer y{g, strict, (ll)ceill(P * 1e6L * (1 + (ilp ? 1e-4L : 2e-5L))), 1000000};
    if (y.space(S) > 300) { c.inc("point.too-large"); continue; }
    c.inc("points.checked"); if (y.best(S) < 0) { c.fail(nm + ".too-small", "period " + ln + ": " + what); return; } }
  if (!npt) { c.fail(nm + ".no-point", what); return; }
  long double want = p.val(), tol = strict ? 2e-3L : 1e-4L; c.inc("explore.runs");
  if (best < want * (1 - 1e-4L)) c.fail(nm + ".period-too-small", num(best) + " below " + num(want) + ": " + what);
  if (best > want * (1 + tol)) c.inc(nm + ".best-above-min");
  c.sample(pn + " " + std::to_string(npt) + " points: " + what);
}
// Regression inputs of recorded, unrepaired defects of BackPressureSizing (no random workload for it).
static void knownBackpressure(Ctx &c, G g, ll P, ll wrong, const char *key) {
  for (size_t i = 0; i < g.t.size(); i++) g.t[i].name = "t" + std::to_string(i);
  for (size_t i = 0; i < g.e.size(); i++) g.e[i].name = "c" + std::to_string(i);
  Sizer z{g, false, P, 1}; std::string what = "BackPressureSizing PERIOD=" + std::to_string(P) + " " + dump(g);
  c.step(what); models::Dataflow *d = toKiter(g); parameters_list_t prm; prm["PERIOD"] = std::to_string(P);
  std::string out = runAlgo(d, "BackPressureSizing", prm); long double v; delete d; c.inc("known.inputs");
  if (!findNumber(out, "Total buffer size :", v)) { c.fail(std::string(key) + ".no-line", out + what); return; }
  if (z.best((ll)v) >= 0) return;
  c.fail((ll)v == wrong ? key : std::string(key) + ".other-value", "total " + num(v) + ": " + what);
}
MONITOR(K11, known, 1) {
  if (c.idx > 400) return;
  G g; g.t.resize(2); g.t[0].dur = {1}; g.t[1].dur = {1}; g.e.resize(1); g.e[0].s = 1; g.e[0].d = 0; g.e[0].in = {1}; g.e[0].out = {1}; g.e[0].m0 = 2;
  knownBackpressure(c, g, 3, 1, "known.backpressure.initial-tokens");
  g.t[1].dur = {4, 2}; g.e[0].s = 0; g.e[0].d = 1; g.e[0].in = {2}; g.e[0].out = {1, 1}; g.e[0].m0 = 0;
  knownBackpressure(c, g, 6, 2, "known.backpressure.phases");
}
