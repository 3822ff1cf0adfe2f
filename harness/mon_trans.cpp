// Graph transformations: task merging, removal, reentrancy removal, output duplication.
#include "domain.hpp"
#include <functional>
#include <iomanip>

namespace {
std::string taskText(const models::Dataflow *d, Vertex v) {
  std::ostringstream o; o << std::setprecision(15) << d->getVertexId(v) << " " << d->getVertexName(v) << " re" << d->getReentrancyFactor(v) << " " << d->getVertexType(v) << " ";
  for (auto x : d->getVertexInitPhaseDuration(v)) o << x << ","; o << ";"; for (auto x : d->getVertexPhaseDuration(v)) o << x << ",";
  return o.str();
}
std::string sideText(const models::Dataflow *d, Edge e, bool src) {
  std::ostringstream o;
  if (src) { for (auto x : d->getEdgeInitInVector(e)) o << x << ","; o << ";"; for (auto x : d->getEdgeInVector(e)) o << x << ","; }
  else { for (auto x : d->getEdgeInitOutVector(e)) o << x << ","; o << ";"; for (auto x : d->getEdgeOutVector(e)) o << x << ","; }
  return o.str();
}
std::string chanText(const models::Dataflow *d, Edge e) {
  std::ostringstream o; o << d->getEdgeId(e) << " " << d->getEdgeName(e) << " " << d->getVertexName(d->getEdgeSource(e)) << "[" << sideText(d, e, true) << "]->" << d->getVertexName(d->getEdgeTarget(e)) << "[" << sideText(d, e, false) << "] m" << d->getPreload(e) << " s" << d->getTokenSize(e);
  return o.str();
}
std::string diff(const std::set<std::string> &a, const std::set<std::string> &b) {
  for (auto &x : a) if (!b.count(x)) return "lost: " + x;
  for (auto &x : b) if (!a.count(x)) return "new: " + x;
  return "";
}
}

MONITOR(K14, remove, 2) {
  Rng &r = c.r; GenOpt o; o.tmin = 2; o.tmax = 7; o.maxphase = 3; o.selfpct = 20; o.multipct = 30; o.re0pct = 40; o.livepct = 30;
  G g = genGraph(r, o); models::Dataflow *d = toKiter(g);
  std::set<int> gone; int k = (int)r.in(1, (ll)g.t.size() - 1); while ((int)gone.size() < k) gone.insert((int)r.in(0, (ll)g.t.size() - 1));
  bool ree = r.p(50), all = ree && r.p(30), byId = r.p(50);
  std::set<std::string> wantT, wantE; std::vector<int> list(gone.begin(), gone.end());
  for (size_t i = list.size(); i > 1; i--) std::swap(list[i - 1], list[r.in(0, (ll)i - 1)]);
  std::string arg;
  for (int i : list) { if (!arg.empty()) arg += ","; arg += byId ? std::to_string(d->getVertexId(d->getVertexByName(g.t[i].name))) : g.t[i].name; }
  { ForEachVertex(d, v) {
    int i = 0; while (g.t[i].name != d->getVertexName(v)) i++;
    if (ree) { std::string t = taskText(d, v); if (all || gone.count(i)) { auto p = t.find(" re"); auto q = t.find(" ", p + 1); t = t.substr(0, p) + " re0" + t.substr(q); } wantT.insert(t); }
    else if (!gone.count(i)) wantT.insert(taskText(d, v)); } }
  { ForEachEdge(d, e) {
    bool drop = false; for (int i : gone) if (d->getVertexName(d->getEdgeSource(e)) == g.t[i].name || d->getVertexName(d->getEdgeTarget(e)) == g.t[i].name) drop = true;
    if (ree || !drop) wantE.insert(chanText(d, e)); } }
  parameters_list_t prm; if (!all) prm[byId ? "taskid" : "taskname"] = arg;
  const char *algo = ree ? "RemoveReentrancy" : "remove";
  std::string head = std::string(algo) + " " + arg + (all ? " all" : "") + " " + dump(g) + ": ";
  c.step(head); runAlgo(d, algo, prm);
  std::set<std::string> gotT, gotE;
  { ForEachVertex(d, v) gotT.insert(taskText(d, v)); } { ForEachEdge(d, e) gotE.insert(chanText(d, e)); }
  if (gotT != wantT) return c.fail(std::string(algo) + "-tasks", head + diff(wantT, gotT));
  if (gotE != wantE) return c.fail(std::string(algo) + "-channels", head + diff(wantE, gotE));
  c.inc(algo); c.state(head);
}

MONITOR(K14, merge, 4) {
  Rng &r = c.r; GenOpt o; o.tmin = 2; o.tmax = 6; o.maxphase = (int)r.in(1, 3); o.maxq = 3; o.selfpct = 10; o.multipct = 15; o.livepct = 100; o.evmax = 24; o.backpct = 60;
  G g = genGraph(r, o); Reps R = repetition(g); models::Dataflow *d = toKiter(g);
  int n = (int)g.t.size(); std::set<int> m; int k = (int)r.in(1, std::min(n, 4)); while ((int)m.size() < k) m.insert((int)r.in(0, n - 1));
  std::map<std::string, int> idx; for (int i = 0; i < n; i++) idx[g.t[i].name] = i;
  std::string arg; std::set<std::string> wantT; std::map<std::string, std::string> wantE;
  for (int i : m) { if (!arg.empty()) arg += ","; arg += std::to_string(d->getVertexId(d->getVertexByName(g.t[i].name))); }
  { ForEachVertex(d, v) if (!m.count(idx[d->getVertexName(v)])) wantT.insert(taskText(d, v)); }
  auto frame = [&](Edge e) { // everything about a channel except the sides attached to merged tasks
    std::ostringstream s; std::string a = d->getVertexName(d->getEdgeSource(e)), b = d->getVertexName(d->getEdgeTarget(e));
    bool ma = a == "M" || (idx.count(a) && m.count(idx[a])), mb = b == "M" || (idx.count(b) && m.count(idx[b]));
    if (ma && mb) return std::string();
    s << d->getEdgeId(e) << " " << (ma ? std::string("M") : a + "[" + sideText(d, e, true) + "]") << "->" << (mb ? std::string("M") : b + "[" + sideText(d, e, false) + "]") << " m" << d->getPreload(e) << " type" << (int)d->getEdgeType(e);
    return s.str();
  };
  std::map<std::string, int> eidx; for (size_t i = 0; i < g.e.size(); i++) eidx[g.e[i].name] = (int)i;
  { ForEachEdge(d, e) { auto f = frame(e); if (!f.empty()) wantE[d->getEdgeName(e)] = f; } }
  parameters_list_t prm; prm["tasks"] = arg; prm["name"] = "M";
  std::string head = "Merge " + arg + " of " + dump(g) + ": ";
  c.step(head); runAlgo(d, "Merge", prm); c.inc("merges");
  std::set<std::string> gotT; std::map<std::string, std::string> gotE; bool found = false; Vertex M;
  { ForEachVertex(d, v) { if (d->getVertexName(v) == "M") { if (found) return c.fail("merge-twice", head); found = true; M = v; } else gotT.insert(taskText(d, v)); } }
  if (!found) return c.fail("merge-missing", head);
  if (gotT != wantT) return c.fail("merge-tasks", head + diff(wantT, gotT));
  { ForEachEdge(d, e) gotE[d->getEdgeName(e)] = frame(e); }
  if (gotE != wantE) { std::set<std::string> a, b; for (auto &x : wantE) a.insert(x.first + " " + x.second); for (auto &x : gotE) b.insert(x.first + " " + x.second); return c.fail("merge-channels", head + diff(a, b)); }
  if (d->getReentrancyFactor(M) != 1) return c.fail("merge-reentrancy", head);
  size_t I = d->getInitPhasesQuantity(M), P = d->getPhasesQuantity(M);
  auto idv = d->getVertexInitPhaseDuration(M), dv = d->getVertexPhaseDuration(M);
  if (idv.size() != I || dv.size() != P || !P) return c.fail("merge-phases", head);
  // every firing of the pattern is one firing of one merged task, tasks in the proportions of the repetition vector
  ll gq = 0; for (int i : m) gq = std::gcd(gq, R.n[i]);
  ll total = 0; for (int i : m) total += R.n[i] / gq;
  if (P % total) return c.fail("merge-pattern", head + std::to_string(P) + " periodic phases, " + std::to_string(total) + " firings per step");
  ll f = P / total;
  long double sum = 0, want = 0; for (auto x : dv) sum += x;
  bool whole = true; for (int i : m) if ((R.n[i] / gq * f) % (ll)g.t[i].dur.size()) whole = false;
  if (whole) { for (int i : m) { ll s = 0; for (auto x : g.t[i].dur) s += x; want += (long double)s / g.dden * (R.n[i] / gq * f) / (ll)g.t[i].dur.size(); } if (!close(sum, want, 1e-9L)) return c.fail("merge-durations", head + num(sum) + " expected " + num(want)); }
  else return c.fail("merge-partial", head + "the periodic pattern does not hold whole cycles of phases, I=" + std::to_string(I) + " P=" + std::to_string(P));
  // rates on kept channels: in order, the merged tasks' own sequences
  bool bad = false;
  { ForEachEdge(d, e) {
    auto &ge = g.e[eidx[d->getEdgeName(e)]];
    for (int side = 0; side < 2 && !bad; side++) {
      if (d->getVertexName(side ? d->getEdgeTarget(e) : d->getEdgeSource(e)) != "M") continue;
      auto iv = side ? d->getEdgeInitOutVector(e) : d->getEdgeInitInVector(e), pv = side ? d->getEdgeOutVector(e) : d->getEdgeInVector(e);
      auto &ov = side ? ge.out : ge.in;
      if (iv.size() != I || pv.size() != P) { c.fail("merge-rate-length", head + d->getEdgeName(e)); bad = true; break; }
      ll s = 0, w = 0; for (auto x : pv) s += x; for (auto x : ov) w += x;
      ll firings = R.n[side ? ge.d : ge.s] / gq * f;
      if (s * (ll)ov.size() != w * firings) { c.fail("merge-rate-sum", head + d->getEdgeName(e)); bad = true; break; }
      std::vector<ll> seq, ori; for (size_t i = 0; i < I + 3 * P; i++) { ll x = i < I ? iv[i] : pv[(i - I) % P]; if (x) seq.push_back(x); }
      for (size_t i = 0; ori.size() < seq.size(); i++) { ll x = ov[i % ov.size()]; if (x) ori.push_back(x); }
      if (seq != ori) { c.fail("merge-rate-order", head + d->getEdgeName(e)); bad = true; break; }
      c.inc("channel-sides");
    } } }
  if (bad) return;
  // the merged graph still executes forever
  std::map<Edge, ll> tok; std::map<Vertex, ll> fired; { ForEachEdge(d, e) tok[e] = d->getPreload(e); }
  auto rate = [&](Edge e, bool src, ll k) { const auto &iv = src ? d->getEdgeInitInVector(e) : d->getEdgeInitOutVector(e); const auto &pv = src ? d->getEdgeInVector(e) : d->getEdgeOutVector(e); return (ll)(k < (ll)iv.size() ? iv[k] : pv[(k - iv.size()) % pv.size()]); };
  ll goal = (ll)(I + 4 * P); bool progress = true; std::map<Vertex, ll> cap;
  { ForEachVertex(d, v) { cap[v] = v == M ? goal : 0; } }
  // other tasks may run as far as the merged one needs: bound generously
  { ForEachVertex(d, v) if (!(v == M)) cap[v] = (ll)((goal / total + 3) * 2 * std::max<ll>(1, R.n[idx[d->getVertexName(v)]]) + 50); }
  while (progress && fired[M] < goal) {
    progress = false;
    { ForEachVertex(d, v) {
      while (fired[v] < cap[v]) {
        bool ok = true; { ForInputEdges(d, v, e) if (tok[e] < rate(e, false, fired[v])) ok = false; } if (!ok) break;
        { ForInputEdges(d, v, e) tok[e] -= rate(e, false, fired[v]); } { ForOutputEdges(d, v, e) tok[e] += rate(e, true, fired[v]); }
        fired[v]++; progress = true;
      } } }
  }
  if (fired[M] < goal) return c.fail("merge-deadlock", head + "the merged task stops after " + std::to_string(fired[M]) + " of " + std::to_string(goal) + " phases, I=" + std::to_string(I) + " P=" + std::to_string(P));
  c.state(head);
}

MONITOR(K14, singleOutput, 1) {
  Rng &r = c.r; GenOpt o; o.tmin = 2; o.tmax = 7; o.maxphase = 1; o.maxq = 1; o.maxmult = 1; o.extra = 8; o.selfpct = 30; o.multipct = 40; o.livepct = 60;
  G g = genGraph(r, o); for (auto &e : g.e) { e.in = {1}; e.out = {1}; }
  models::Dataflow *d = toKiter(g);
  int ti = (int)r.in(0, (ll)g.t.size() - 1); std::string T = g.t[ti].name;
  std::multiset<std::string> want, got; std::set<std::string> orig; for (auto &t : g.t) orig.insert(t.name);
  std::set<std::string> wantT, gotT, wantE, gotE;
  { ForEachVertex(d, v) wantT.insert(taskText(d, v)); }
  { ForEachEdge(d, e) { if (d->getVertexName(d->getEdgeSource(e)) == T) want.insert(d->getVertexName(d->getEdgeTarget(e)) + " m" + std::to_string(d->getPreload(e))); else wantE.insert(chanText(d, e)); } }
  parameters_list_t prm; prm["name"] = T; std::string head = "SingleOutput " + T + " of " + dump(g) + ": ";
  c.step(head); runAlgo(d, "SingleOutput", prm);
  std::set<Vertex> reach; bool bad = false;
  if (d->getVertexOutDegree(d->getVertexByName(T)) > 1) return c.fail("so-degree", head);
  std::function<void(Vertex, ll)> follow = [&](Vertex v, ll tok) {
    { ForOutputEdges(d, v, e) {
      if (d->getEdgeIn(e) != 1 || d->getEdgeOut(e) != 1) { c.fail("so-rate", head + d->getEdgeName(e)); bad = true; return; }
      std::string n = d->getVertexName(d->getEdgeTarget(e)); ll k = tok + d->getPreload(e);
      if (orig.count(n)) got.insert(n + " m" + std::to_string(k)); else { if (!reach.insert(d->getEdgeTarget(e)).second) { c.fail("so-dup", head); bad = true; return; } follow(d->getEdgeTarget(e), k); } } }
  };
  follow(d->getVertexByName(T), 0); if (bad) return;
  if (got != want) { std::string s; for (auto &x : got) s += x + ","; return c.fail("so-targets", head + "got " + s); }
  { ForEachVertex(d, v) if (orig.count(d->getVertexName(v))) gotT.insert(taskText(d, v)); else if (!reach.count(v)) return c.fail("so-orphan", head + d->getVertexName(v)); }
  if (gotT != wantT) return c.fail("so-tasks", head + diff(wantT, gotT));
  { ForEachEdge(d, e) { std::string s = d->getVertexName(d->getEdgeSource(e)); if (s != T && orig.count(s)) gotE.insert(chanText(d, e)); } }
  if (gotE != wantE) return c.fail("so-channels", head + diff(wantE, gotE));
  for (auto v : reach) if (d->getVertexOutDegree(v) != 2 || d->getVertexInDegree(v) != 1) return c.fail("so-dup-degree", head);
  c.inc("single-outputs"); c.state(head);
}
