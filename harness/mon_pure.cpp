// K21: analyses only read the graph, in any order and any number of times.
#include "domain.hpp"
#include <iomanip>

namespace {
std::string everything(const models::Dataflow *d) {   // all that a user can see of a graph, in order
  std::ostringstream o; o << std::setprecision(17) << d->getGraphName() << "|" << d->getAppName() << "|" << d->getGraphType() << "|" << d->getFilename() << "\n";
  { ForEachVertex(d, v) { o << "T" << d->getVertexId(v) << " " << d->getVertexName(v) << " " << d->getVertexType(v) << " re" << d->getReentrancyFactor(v) << " map" << d->getMapping(v) << " [";
    for (auto x : d->getVertexInitPhaseDuration(v)) o << x << ","; o << ";"; for (auto x : d->getVertexPhaseDuration(v)) o << x << ","; o << "]\n"; } }
  { ForEachEdge(d, e) { o << "C" << d->getEdgeId(e) << " " << d->getEdgeName(e) << " " << d->getVertexId(d->getEdgeSource(e)) << "." << d->getEdgeInputPortName(e) << "->" << d->getVertexId(d->getEdgeTarget(e)) << "." << d->getEdgeOutputPortName(e) << " m" << d->getPreload(e) << " s" << d->getTokenSize(e) << " y" << (int)d->getEdgeType(e) << " [";
    for (auto x : d->getEdgeInitInVector(e)) o << x << ","; o << ";"; for (auto x : d->getEdgeInVector(e)) o << x << ","; o << "|"; for (auto x : d->getEdgeInitOutVector(e)) o << x << ","; o << ";"; for (auto x : d->getEdgeOutVector(e)) o << x << ","; o << "]\n"; } }
  return o.str();
}
std::string lineDiff(const std::string &a, const std::string &b) {
  std::istringstream x(a), y(b); std::string l, m;
  while (true) { bool p = (bool)std::getline(x, l), q = (bool)std::getline(y, m); if (!p && !q) return ""; if (!p) return "added " + m; if (!q) return "lost " + l; if (l != m) return l + " became " + m; }
}
// the lines of a report in a fixed order, without measured run times
std::string sortedText(const std::string &a) {
  std::vector<std::string> v; std::istringstream x(a); std::string l, o; while (std::getline(x, l)) if (l.find("Time") == std::string::npos) v.push_back(l);
  std::sort(v.begin(), v.end()); for (auto &k : v) o += k + "\n"; return o;
}
struct A { const char *name; const char *number; bool sdf, strong; };
const std::vector<A> &analyses() {
  static const std::vector<A> a = {
    {"KPeriodicThroughput", "hroughput is", 0, 0}, {"NKPeriodicThroughput", "hroughput is", 0, 0}, {"1PeriodicThroughput", "hroughput is", 0, 0}, {"2PeriodicThroughput", "hroughput is", 0, 0},
    {"SPeriodicThroughput", "hroughput is", 0, 0}, {"ASPeriodicThroughput", "hroughput is", 0, 0}, {"SymbExec", "hroughput is", 0, 0}, {"EG1", "hroughput is", 0, 0}, {"EGN", "hroughput is", 0, 0},
    {"deGrooteThroughput", "hroughput is", 1, 0}, {"deGrooteCleanThroughput", "hroughput is", 1, 0},
    {"PrintKPeriodicScheduling", nullptr, 0, 0}, {"ASAPScheduling", nullptr, 0, 1},
    {"CycleDetection", nullptr, 0, 0}, {"PrintXML", nullptr, 0, 0}, {"PrintKiter", nullptr, 0, 0}, {"PrintInfos", nullptr, 0, 0}, {"PrintGraph", nullptr, 0, 0}, {"PartialExpansion", nullptr, 1, 0},
    {"SymbolicExecutionWP", nullptr, 1, 0}, {"PeriodicSizing", nullptr, 0, 0}, {"SPeriodicSizing", nullptr, 0, 0}, {"LPN", nullptr, 0, 0}, {"BackPressureSizing", nullptr, 0, 0}, {"CycleCount", nullptr, 0, 0}};
  return a;
}
}

MONITOR(K21, sequence, 2) {
  Rng &r = c.r; GenOpt o; o.tmin = 2; o.tmax = 6; o.maxphase = r.p(40) ? 1 : 3; o.maxq = 3; o.livepct = 100; o.strong = r.p(40); o.evmax = 24; o.selfpct = 10; o.multipct = 15;
  G g = genGraph(r, o); if (r.p(30)) g.dden = 1ll << r.in(1, 3); models::Dataflow *d = toKiter(g); std::string before = everything(d), log;
  int n = (int)r.in(2, 6); std::map<std::string, long double> first;
  for (int i = 0; i < n; i++) {
    const A &a = r.pick(analyses()); if ((a.sdf && !g.sdf()) || (a.strong && !o.strong)) continue;
    parameters_list_t p; std::string nm = a.name;
    if (nm.find("Sizing") != std::string::npos) { if (strictPeriod(g).k != Period::FINITE) continue; p["PERIOD"] = "1000000"; }
    log += nm + " "; c.step(log + dump(g)); std::string out = runAlgo(d, nm, p);
    std::string after = everything(d);
    if (after != before) return c.fail("changed-by-" + nm, log + "on " + dump(g) + ": " + lineDiff(before, after));
    c.inc("analysis " + nm);
    std::ios plain(nullptr), kept(nullptr); kept.copyfmt(std::cout); std::cout.copyfmt(plain);   // as in a fresh process
    models::Dataflow *f = toKiter(g); std::string again = runAlgo(f, nm, p); std::cout.copyfmt(kept);
    if (everything(f) != before) return c.fail("changed-by-" + nm, dump(g)); delete f; c.inc("answers compared");
    if (a.number) {
      long double v; if (!findNumber(out, a.number, v)) return c.fail("no-answer-" + nm, log + dump(g) + out.substr(0, 300));
      long double w; if (!findNumber(again, a.number, w)) return c.fail("no-answer-" + nm, log + dump(g) + again.substr(0, 300));
      if (!close(v, w, 1e-7L)) return c.fail("depends-on-history-" + nm, log + "on " + dump(g) + ": " + num(v) + " instead of " + num(w));
    }
    // reports that leave the choice between equally good answers open (critical circuits, optimal solutions) are not compared as texts
    static const std::set<std::string> exact = {"ASAPScheduling", "CycleDetection", "CycleCount", "PrintXML", "PrintKiter", "PrintInfos", "PrintGraph", "SymbolicExecutionWP", "BackPressureSizing"};
    if (!exact.count(nm)) continue;
    c.inc("texts compared"); out = sortedText(out); again = sortedText(again);
    if (out != again) return c.fail("text-depends-on-history-" + nm, log + "on " + dump(g) + ": " + lineDiff(out, again));
  }
  c.state(log + sig(g)); c.inc("sequences");
}

namespace {
// the same graph with other names, another order of tasks and channels, and identifiers with gaps
models::Dataflow *disguised(Rng &r, const G &g, std::string &how) {
  G h = g; std::vector<int> p(g.t.size()); std::iota(p.begin(), p.end(), 0);
  if (r.p(70)) { for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[r.in(0, (ll)i - 1)]); how += "tasks "; }
  for (size_t i = 0; i < p.size(); i++) h.t[p[i]] = g.t[i];
  for (auto &e : h.e) { e.s = p[e.s]; e.d = p[e.d]; }
  if (r.p(70)) { for (size_t i = h.e.size(); i > 1; i--) std::swap(h.e[i - 1], h.e[r.in(0, (ll)i - 1)]); how += "channels "; }
  if (r.p(50)) { int k = (int)r.in(0, 3); for (auto &t : h.t) t.name = std::string(1, (char)('z' - k)) + std::to_string(97 - (&t - &h.t[0])); for (auto &e : h.e) e.name = "x_" + std::to_string(1000 - (&e - &h.e[0])); how += "names "; }
  if (r.p(30)) { ll k = r.in(2, 5); h.dden *= k; for (auto &t : h.t) { for (auto &x : t.dur) x *= k; for (auto &x : t.idur) x *= k; } how += "fractions "; }
  if (r.p(40)) { for (auto &e : h.e) if (r.p(50)) { ll k = r.in(2, 3); for (auto *v : {&e.in, &e.out, &e.iin, &e.iout}) for (auto &x : *v) x *= k; e.m0 = e.m0 * k + r.in(0, k - 1) * 0; } how += "units "; }
  models::Dataflow *d = toKiter(h);
  if (r.p(50)) { // identifiers with gaps: extra tasks and channels that are removed again
    G big = h; int extra = (int)r.in(1, 3); std::vector<std::string> names;
    G b2; b2.name = h.name; b2.app = h.app; b2.dden = h.dden; std::vector<int> at(h.t.size());
    std::vector<std::string> gone; size_t i = 0; int left = extra;
    while (i < h.t.size() || left > 0) {
      if (left > 0 && (i == h.t.size() || r.p(40))) { GTask t; t.name = "gone" + std::to_string(left--); t.dur = {1}; gone.push_back(t.name); b2.t.push_back(t); }
      else { at[i] = (int)b2.t.size(); b2.t.push_back(h.t[i++]); }
    }
    for (auto e : h.e) {
      if (r.p(30)) { GEdge x; x.s = at[e.s]; for (size_t k = 0; k < b2.t.size(); k++) if (b2.t[k].name == r.pick(gone)) { x.d = (int)k; break; } x.in.assign(b2.t[x.s].dur.size(), 1); x.out.assign(b2.t[x.d].dur.size(), 1); x.iin.assign(b2.t[x.s].idur.size(), 1); x.iout.assign(b2.t[x.d].idur.size(), 1); x.name = "gonec" + std::to_string(b2.e.size()); b2.e.push_back(x); }
      e.s = at[e.s]; e.d = at[e.d]; b2.e.push_back(e);
    }
    delete d; d = toKiter(b2);
    // channels that ended on a surviving task by chance are named gonec* as well
    std::vector<Edge> del; { ForEachEdge(d, e) if (d->getEdgeName(e).compare(0, 5, "gonec") == 0) del.push_back(e); }
    for (size_t k = 0; k < del.size(); k++) { Edge e; bool ok = false; { ForEachEdge(d, x) if (d->getEdgeName(x).compare(0, 5, "gonec") == 0) { e = x; ok = true; break; } } if (ok) d->removeEdge(e); }
    for (auto &n : gone) d->removeVertex(d->getVertexByName(n));
    how += "gaps ";
  }
  return d;
}
}

MONITOR(K21, representation, 1) {
  Rng &r = c.r; std::string prof; G g; if (r.p(50)) g = thrGraph(c, &prof); else { GenOpt o; o.tmin = 2; o.tmax = 6; o.maxphase = r.p(40) ? 1 : 3; o.maxq = 3; o.livepct = 80; o.evmax = 24; g = genGraph(r, o); }
  bool longdur = false; for (auto &t : g.t) { for (auto x : t.dur) longdur = longdur || x > 1000; for (auto x : t.idur) longdur = longdur || x > 1000; }
  std::string how; models::Dataflow *d = disguised(r, g, how);
  for (auto &a : analyses()) {
    if (!a.number || (a.sdf && !g.sdf())) continue;
    if (longdur && std::string(a.name) == "SymbExec") continue;   // explicit states: their number grows with the durations
    models::Dataflow *f = toKiter(g); c.step(std::string(a.name) + " " + how + dump(g));
    long double v = -7, w = -8; bool x = findNumber(runAlgo(f, a.name), a.number, v), y = findNumber(runAlgo(d, a.name), a.number, w); delete f;
    bool zero = v <= 1e-15L && w <= 1e-15L;
    if (x != y || (!zero && !close(v, w, a.sdf ? 4e-5L : 1e-6L))) return c.fail(std::string("representation-") + a.name, how + "changed " + num(v) + " into " + num(w) + " for " + dump(g) + " -> " + dump(fromKiter(d)));
    c.inc("pairs compared"); c.inc(zero ? "infeasible" : "feasible");
  }
  c.inc("disguises"); c.state(how + sig(g));
}
