// Network-on-chip monitors: mesh structure, mappings, routes, communication modelling.
#include "domain.hpp"
#include <algorithms/mappings.h>
#include <models/NoC.h>
#include <models/NoCGraph.h>
#include <climits>
#include <functional>

namespace {
std::string routeText(const route_t &r) { std::ostringstream o; o << "["; for (auto x : r) o << x << " "; o << "]"; return o.str(); }
// Geometry used as the oracle: routers 0..N-1 in row-major order, core of router r is N+r.
struct Mesh {
  int X, Y;
  int n() const { return X * Y; }
  int x(int r) const { return r % X; }
  int y(int r) const { return r / X; }
  bool linked(long a, long b) const {
    if (a < 0 || b < 0 || a >= 2 * n() || b >= 2 * n()) return false;
    if (a >= n()) return a - n() == b;
    if (b >= n()) return b - n() == a;
    return std::abs(x((int)a) - x((int)b)) + std::abs(y((int)a) - y((int)b)) == 1;
  }
  int dist(int a, int b) const { return std::abs(x(a) - x(b)) + std::abs(y(a) - y(b)); }
};
// The path of nodes followed by a route; empty when the route is not a path of existing links.
std::vector<node_id_t> walk(const NoC &noc, const route_t &r, std::string &why) {
  std::vector<node_id_t> p;
  for (auto id : r) {
    if (!noc.hasEdge(id)) { why = "unknown link " + std::to_string(id); return {}; }
    const NetworkEdge &e = noc.getEdge(id);
    if (p.empty()) p.push_back(e.src); else if (p.back() != e.src) { why = "link " + std::to_string(id) + " does not start where the previous one ends"; return {}; }
    p.push_back(e.dst);
  }
  return p;
}
bool checkRoute(Ctx &c, const models::Dataflow *d, const Mesh &m, Edge e, const std::string &algo, bool xy) {
  const NoC &noc = d->getNoC();
  const route_t &r = d->getRoute(e);
  long s = d->getMapping(d->getEdgeSource(e)), t = d->getMapping(d->getEdgeTarget(e));
  std::string why, head = algo + " " + std::to_string(m.X) + "x" + std::to_string(m.Y) + " " + std::to_string(s) + "->" + std::to_string(t) + " route " + routeText(r) + ": ";
  auto p = walk(noc, r, why);
  if (p.empty()) { c.fail(algo + "-route-broken", head + (why.empty() ? "empty route" : why)); return false; }
  if (p.front() != s || p.back() != t) { c.fail(algo + "-route-ends", head + "goes from " + std::to_string(p.front()) + " to " + std::to_string(p.back())); return false; }
  int rs = (int)s - m.n(), rt = (int)t - m.n();
  if ((int)r.size() != m.dist(rs, rt) + 2) { c.fail(algo + "-route-length", head + std::to_string(r.size()) + " links, shortest is " + std::to_string(m.dist(rs, rt) + 2)); return false; }
  if (xy) {
    bool vertical = false;
    for (size_t i = 1; i + 2 < p.size(); i++) {
      bool v = m.x((int)p[i]) == m.x((int)p[i + 1]);
      if (vertical && !v) { c.fail(algo + "-not-xy", head + "moves along x after y"); return false; }
      vertical = v;
    }
  }
  c.state(algo + std::to_string(m.X) + "," + std::to_string(m.Y) + routeText(r));
  return true;
}
G nocGraph(Rng &r, int tmax, bool odd = true) {
  GenOpt o; o.tmin = 1; o.tmax = tmax; o.maxphase = 1; o.maxq = 4; o.extra = 4; o.selfpct = odd ? 15 : 0; o.multipct = odd ? 20 : 0; o.livepct = 100; o.evmax = 100;
  return genGraph(r, o);
}
}

MONITOR(K16, mesh, 1) {
  Rng &r = c.r; Mesh m{(int)r.in(1, 9), (int)r.in(1, 9)};
  c.step("NoC " + std::to_string(m.X) + "x" + std::to_string(m.Y));
  NoC noc(m.X, m.Y);
  std::string head = std::to_string(m.X) + "x" + std::to_string(m.Y) + ": ";
  if (noc.size() != m.n() || noc.getXSize() != m.X || noc.getYSize() != m.Y) return c.fail("size", head);
  if ((int)noc.getNodes().size() != 2 * m.n()) return c.fail("node-count", head + std::to_string(noc.getNodes().size()));
  std::set<long> ids;
  for (auto &n : noc.getNodes()) {
    if (!ids.insert(n.id).second) return c.fail("node-id-dup", head + std::to_string(n.id));
    if (n.id < 0 || n.id >= 2 * m.n()) return c.fail("node-id", head + std::to_string(n.id));
    if (n.type != (n.id < m.n() ? NetworkNodeType::Router : NetworkNodeType::Core)) return c.fail("node-type", head + std::to_string(n.id));
    int k = (int)(n.id % m.n());
    double off = n.id < m.n() ? 0.5 : 0.0;
    if (n.x != m.x(k) + off || n.y != m.y(k) + off) return c.fail("node-position", head + std::to_string(n.id) + " at " + num(n.x) + "," + num(n.y));
  }
  std::set<std::pair<long, long>> links;
  for (auto &e : noc.getEdges()) {
    if (!ids.insert(e.id).second) return c.fail("link-id-dup", head + std::to_string(e.id));
    if (!m.linked(e.src, e.dst)) return c.fail("link-extra", head + std::to_string(e.src) + "->" + std::to_string(e.dst));
    if (!links.insert({e.src, e.dst}).second) return c.fail("link-dup", head + std::to_string(e.src) + "->" + std::to_string(e.dst));
    if (!noc.hasEdge(e.id) || noc.getEdge(e.id).src != e.src || noc.getEdge(e.id).dst != e.dst) return c.fail("link-by-id", head + std::to_string(e.id));
    if (noc.getEdge(e.src, e.dst).id != e.id) return c.fail("link-by-ends", head + std::to_string(e.id));
  }
  for (int a = 0; a < 2 * m.n(); a++) {
    if (!noc.hasNode(a) || noc.getNode(a).id != a) return c.fail("node-by-id", head + std::to_string(a));
    for (int b = 0; b < 2 * m.n(); b++) if (m.linked(a, b) && !links.count({a, b})) return c.fail("link-missing", head + std::to_string(a) + "->" + std::to_string(b));
    c.inc("nodes");
    if (a < m.n()) {  // the neighbours that exist
      struct { bool is; const char *n; const NetworkEdge &(NoC::*f)(node_id_t) const; int to; } q[] = {
        {m.x(a) > 0, "left", &NoC::getLeftNeighbour, a - 1}, {m.x(a) < m.X - 1, "right", &NoC::getRightNeighbour, a + 1},
        {m.y(a) < m.Y - 1, "top", &NoC::getTopNeighbour, a + m.X}, {m.y(a) > 0, "bottom", &NoC::getBottomNeighbour, a - m.X}};
      for (auto &k : q) if (k.is) { auto &e = (noc.*k.f)(a); c.inc("neighbours"); if (e.src != a || e.dst != k.to) return c.fail(std::string("neighbour-") + k.n, head + "of router " + std::to_string(a) + " is " + std::to_string(e.dst)); }
    } else {
      auto &s = noc.getSrcNeighbour(a), &t = noc.getDstNeighbour(a);
      if (s.src != a || s.dst != a - m.n()) return c.fail("core-out", head + std::to_string(a));
      if (t.dst != a || t.src != a - m.n()) return c.fail("core-in", head + std::to_string(a));
    }
  }
  if (noc.hasNode(2 * m.n()) || noc.hasNode(-1)) return c.fail("node-phantom", head);
  c.state("mesh" + head);
}

MONITOR(K16, mapping, 3) {
  Rng &r = c.r; G g = nocGraph(r, 10);
  models::Dataflow *d = toKiter(g);
  int kind = (int)r.in(0, 2);
  Mesh m;
  if (kind == 0) {
    c.step("createNoC"); runAlgo(d, "createNoC");
    int k = 2; while (k * k < (int)g.t.size()) k++;
    m = {k, k};
    if (d->getNoC().getXSize() != k || d->getNoC().getYSize() != k) return c.fail("createNoC-size", std::to_string(g.t.size()) + " tasks got " + std::to_string(d->getNoC().getXSize()) + "x" + std::to_string(d->getNoC().getYSize()));
  } else { m = {(int)r.in(1, 6), (int)r.in(1, 6)}; NoC noc(m.X, m.Y); d->setNoC(noc); }
  parameters_list_t prm; std::map<std::string, long> want;
  for (auto &t : g.t) if (r.p(30)) { long k = m.n() + r.in(0, m.n() - 1); prm[t.name] = std::to_string(k); want[t.name] = k; }
  bool modulo = r.p(40);
  const char *algo = modulo ? "moduloMapping" : "randomMapping";
  std::srand((unsigned)r.in(0, 1 << 30));
  std::string before = canon(fromKiter(d));
  c.step(algo); runAlgo(d, algo, prm);
  { ForEachVertex(d, v) {
    long k = d->getMapping(v); std::string nm = d->getVertexName(v);
    c.inc("mapped");
    if (want.count(nm)) { if (k != want[nm]) return c.fail(std::string(algo) + "-explicit", nm + " asked " + std::to_string(want[nm]) + " got " + std::to_string(k)); continue; }
    if (k < m.n() || k >= 2 * m.n()) return c.fail(std::string(algo) + "-core", nm + " mapped to " + std::to_string(k) + " in a " + std::to_string(m.X) + "x" + std::to_string(m.Y) + " mesh");
    if (modulo && (k - m.n()) != (d->getVertexId(v) - 1) % m.n()) return c.fail("modulo", nm + " mapped to " + std::to_string(k));
  } }
  bool random = r.p(50);
  const char *ra = random ? "randomRouting" : "xyRouting";
  c.step(ra); runAlgo(d, ra);
  { ForEachEdge(d, e) { c.inc("routes"); if (!checkRoute(c, d, m, e, ra, !random)) return; } }
  if (canon(fromKiter(d)) != before) return c.fail("graph-changed", std::string(algo) + "/" + ra + " changed the dataflow graph itself");
  // ---- modelling of the communications
  if (r.p(60)) {
    struct Ch { ARRAY_INDEX id; std::string s, t; ll in, out, m0; route_t r; bool self; };
    std::vector<Ch> chs;
    { ForEachEdge(d, e) { Ch x; x.id = d->getEdgeId(e); x.s = d->getVertexName(d->getEdgeSource(e)); x.t = d->getVertexName(d->getEdgeTarget(e)); x.in = d->getEdgeIn(e); x.out = d->getEdgeOut(e); x.m0 = d->getPreload(e); x.r = d->getRoute(e); x.self = x.s == x.t; chs.push_back(x); } }
    std::vector<ll> q = repetition(g).q;
    std::map<std::string, ll> qn; for (size_t i = 0; i < g.t.size(); i++) qn[g.t[i].name] = q[i];
    c.step("ModelNoCConflictFreeCommunication"); runAlgo(d, "ModelNoCConflictFreeCommunication");
    size_t wantT = g.t.size(), wantE = 0;
    for (auto &x : chs) { if (x.self) { wantE++; continue; } wantT += 2 * x.r.size() - 1; wantE += 2 * x.r.size(); }
    if ((size_t)d->getVerticesCount() != wantT || (size_t)d->getEdgesCount() != wantE) return c.fail("model-size", "tasks " + std::to_string(d->getVerticesCount()) + " expected " + std::to_string(wantT) + ", channels " + std::to_string(d->getEdgesCount()) + " expected " + std::to_string(wantE));
    c.step("repetition vector of the modelled graph");
    if (!computeRepetitionVector(d)) return c.fail("model-inconsistent", dump(g));
    // ratios between original tasks are unchanged, every link task transfers every token
    ll f = 0;
    { ForEachVertex(d, v) { auto it = qn.find(d->getVertexName(v)); if (it != qn.end()) { ll a = d->getNi(v); if (a % it->second) return c.fail("model-ratio", dump(g)); if (!f) f = a / it->second; else if (f != a / it->second) return c.fail("model-ratio", dump(g)); } } }
    if (f != 1) return c.fail("model-ratio", "repetition factor " + std::to_string(f) + " " + dump(g));
    // follow every chain
    std::multiset<std::string> got, exp;
    for (auto &x : chs) if (!x.self) { std::ostringstream o; o << x.s << ">" << x.in << "|"; for (size_t i = 0; i < x.r.size(); i++) { if (i) o << "n" << d->getNoC().getEdge(x.r[i - 1]).dst << ","; o << "l" << x.r[i] << ","; } o << "|" << x.out << ">" << x.t << " m" << x.m0; exp.insert(o.str()); }
    for (auto &t : g.t) {
      Vertex v = d->getVertexByName(t.name);
      { ForOutputEdges(d, v, e0) {
        Edge e = e0; if (d->getEdgeTarget(e) == v) continue;
        std::ostringstream o; o << t.name << ">" << d->getEdgeIn(e) << "|"; ll m0 = d->getPreload(e); bool first = true;
        while (!qn.count(d->getVertexName(d->getEdgeTarget(e)))) {
          Vertex w = d->getEdgeTarget(e); long mp = d->getMapping(w);
          if (d->getVertexInDegree(w) != 1 || d->getVertexOutDegree(w) != 1) return c.fail("model-chain", "degree of " + d->getVertexName(w));
          if (d->getEdgeOut(e) != 1) return c.fail("model-rate", d->getEdgeName(e));
          if (d->getReentrancyFactor(w) != 1) return c.fail("model-reentrancy", d->getVertexName(w));
          bool link = d->getNoC().hasEdge(mp);
          ll dur = (ll)d->getVertexDuration(w); if (dur != (link ? 1 : 0)) return c.fail("model-duration", d->getVertexName(w) + " lasts " + std::to_string(dur));
          if (!first) { } first = false;
          o << (link ? "l" : "n") << mp << ",";
          e = *d->getOutputEdges(w).first;
          if (d->getEdgeIn(e) != 1) return c.fail("model-rate", d->getEdgeName(e));
          m0 += d->getPreload(e);
        }
        o << "|" << d->getEdgeOut(e) << ">" << d->getVertexName(d->getEdgeTarget(e)) << " m" << d->getPreload(e);
        if (m0 != d->getPreload(e)) return c.fail("model-tokens", "tokens inside the network");
        got.insert(o.str()); c.inc("chains");
      } }
    }
    if (got != exp) { std::string a, b; for (auto &x : exp) if (got.count(x) != exp.count(x)) { a = x; break; } for (auto &x : got) if (got.count(x) != exp.count(x)) { b = x; break; } return c.fail("model-path", "expected " + a + " got " + b); }
    if (!got.empty()) c.state("model" + *got.begin());
  }
}

MONITOR(K16, mapAndRoute, 2) {
  Rng &r = c.r; G g = nocGraph(r, 8);
  if (g.t.size() < 2) return;
  models::Dataflow *d = toKiter(g);
  parameters_list_t prm; int k = 2; while (k * k < (int)g.t.size()) k++;
  if (r.p(40)) { k = (int)r.in(k, 5); prm["MESHSIZE"] = std::to_string(k); }
  Mesh m{k, k};
  std::string before = canon(fromKiter(d));
  c.step("BufferlessNoCMapAndRoute " + dump(g)); c.inc("graphs");
  runAlgo(d, "BufferlessNoCMapAndRoute", prm);
  if (d->getNoC().getXSize() != k) return c.fail("mar-mesh", std::to_string(d->getNoC().getXSize()));
  std::map<long, std::string> used;
  { ForEachVertex(d, v) {
    long p = d->getMapping(v); c.inc("mapped");
    if (p < m.n() || p >= 2 * m.n()) return c.fail("mar-core", d->getVertexName(v) + " mapped to " + std::to_string(p));
    if (!used.insert({p, d->getVertexName(v)}).second) return c.fail("mar-shared-core", d->getVertexName(v) + " and " + used[p] + " on " + std::to_string(p) + " " + dump(g));
  } }
  { ForEachEdge(d, e) { if (d->getEdgeSource(e) == d->getEdgeTarget(e)) continue; c.inc("routes"); if (!checkRoute(c, d, m, e, "mar", false)) return; } }
  if (canon(fromKiter(d)) != before) return c.fail("mar-graph-changed", dump(g));
}

MONITOR(K16, paths, 1) {
  Rng &r = c.r; int k = (int)r.in(1, 5); Mesh m{k, k}; NoC noc(k, k);
  NoCGraph g(2 * m.n());
  for (auto &e : noc.getEdges()) g.addEdge((int)e.src, (int)e.dst);
  g.clear();
  std::vector<int> util(4 * m.n() * m.n() * 2 + 2 * m.n() + 8, 0);
  for (auto &e : noc.getEdges()) util[g.getMapIndex((int)e.src, (int)e.dst)] = (int)r.in(0, 4);
  g.setLinkUtil(util);
  auto ok = [&](const std::vector<int> &p, int s, int t, const char *what) {
    std::ostringstream o; o << what << " " << k << "x" << k << " core " << s << "->" << t << ":"; for (auto x : p) o << " " << x;
    if (p.empty() || p.front() != s + m.n() || p.back() != t + m.n()) { c.fail(std::string(what) + "-ends", o.str()); return false; }
    for (size_t i = 0; i + 1 < p.size(); i++) if (!m.linked(p[i], p[i + 1])) { c.fail(std::string(what) + "-link", o.str()); return false; }
    if ((int)p.size() != m.dist(s, t) + 3) { c.fail(std::string(what) + "-length", o.str()); return false; }
    c.inc("paths"); c.state(o.str()); return true;
  };
  for (int it = 0; it < 12; it++) {
    int s = (int)r.in(0, m.n() - 1), t = (int)r.in(0, m.n() - 1);
    c.step("paths " + std::to_string(k) + " " + std::to_string(s) + "->" + std::to_string(t));
    auto p = g.findPathDijkstra(s, t);
    if (s == t) { if (!p.empty() || g.getPathLength(s, t) != 0) return c.fail("self-path", ""); continue; }
    if (!ok(p, s, t, "dijkstra")) return;
    if (!ok(g.findLowContentionPath(s, t), s, t, "low-contention")) return;
    if (g.getPathLength(s, t) != m.dist(s, t) + 2) return c.fail("path-length", std::to_string(s) + "->" + std::to_string(t));
    // the cost of a path is its most used link
    int mx = 0; for (size_t i = 0; i + 1 < p.size(); i++) mx = std::max(mx, util[g.getMapIndex(p[i], p[i + 1])]);
    if (g.findPathCost(p) != mx) return c.fail("path-cost", "");
    if (k <= 3) {
      // least used shortest path, by enumeration of the monotone paths
      auto best = g.getPath(s, t);
      if (!ok(best, s, t, "least-cost")) return;
      std::map<int, int> dp; // router -> minimal max utilisation
      int opt = INT_MAX;
      std::function<void(int, int)> rec = [&](int a, int cur) {
        if (a == t) { opt = std::min(opt, std::max(cur, util[g.getMapIndex(t, t + m.n())])); return; }
        for (int b = 0; b < m.n(); b++) if (m.linked(a, b) && m.dist(b, t) < m.dist(a, t)) rec(b, std::max(cur, util[g.getMapIndex(a, b)]));
      };
      rec(s, util[g.getMapIndex(s + m.n(), s)]);
      int cost = 0; for (size_t i = 0; i + 1 < best.size(); i++) cost = std::max(cost, util[g.getMapIndex(best[i], best[i + 1])]);
      if (cost != opt) return c.fail("least-cost", std::to_string(s) + "->" + std::to_string(t) + " cost " + std::to_string(cost) + " best " + std::to_string(opt));
      c.inc("optimal-paths");
    }
  }
  for (int i = 0; i < 6; i++) { int a = (int)r.in(0, 2 * m.n() - 1), b = (int)r.in(0, 2 * m.n() - 1); auto p = g.getMapIndexPair(g.getMapIndex(a, b)); if (p.first != a || p.second != b) return c.fail("map-index", ""); }
}
