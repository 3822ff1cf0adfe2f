// Packet traces produced by the untimed execution and their TDMA execution on the network.
#include "domain.hpp"
#include <fstream>

namespace {
struct Pkt { long src, dst, dur, id, bank; std::vector<long> deps; };
std::vector<long> longs(const std::string &s) { std::vector<long> v; std::stringstream ss(s); std::string x; while (std::getline(ss, x, ',')) v.push_back(std::atol(x.c_str())); return v; }
bool parsePackets(const std::string &out, std::vector<Pkt> &p, std::vector<long> &head) {
  std::istringstream is(out); std::string l;
  while (std::getline(is, l)) {
    if (l.empty() || l[0] == '#') continue;
    if (l.find_first_not_of("0123456789,.-") != std::string::npos) continue;
    auto v = longs(l);
    if (head.empty()) { head = v; continue; }
    if (v.size() < 5) return false;
    p.push_back({v[0], v[1], v[2], v[3], v[4], std::vector<long>(v.begin() + 5, v.end())});
  }
  return true;
}
}

MONITOR(K17, packets, 2) {
  Rng &r = c.r;
  GenOpt o; o.tmin = 1; o.tmax = 7; o.maxphase = 1; o.maxq = 4; o.extra = 3; o.selfpct = 15; o.multipct = 20; o.livepct = 100; o.evmax = 60; o.backpct = 60;
  G g = genGraph(r, o);
  std::vector<ll> q = repetition(g).q;
  models::Dataflow *d = toKiter(g);
  parameters_list_t prm; ll iters = 1, psize = 0;
  if (r.p(70)) { psize = r.in(1, 6); prm["psize"] = std::to_string(psize); }
  if (r.p(60)) { iters = r.in(1, 4); prm["iteration"] = std::to_string(iters); }
  if (r.p(30)) prm["ack"] = "0";
  c.step("SymbolicExecutionWP psize=" + std::to_string(psize) + " iteration=" + std::to_string(iters) + " " + dump(g));
  std::string out = runAlgo(d, "SymbolicExecutionWP", prm);
  std::string head = "psize=" + std::to_string(psize) + " iter=" + std::to_string(iters) + " " + dump(g) + ": ";
  std::vector<Pkt> p; std::vector<long> h;
  if (!parsePackets(out, p, h)) return c.fail("format", head + out.substr(0, 300));
  if (h != std::vector<long>{4, 4, 1}) return c.fail("header", head);
  std::map<long, long> task; for (size_t t = 0; t < g.t.size(); t++) task[(long)((d->getVertexId(d->getVertexByName(g.t[t].name)) - 1) % 16)] = (long)t;   // a packet names the core of the 4x4 mesh its task runs on
  for (auto &k : p) { if (!task.count(k.src) || !task.count(k.dst)) return c.fail("task", head + std::to_string(k.src) + "->" + std::to_string(k.dst)); k.src = task[k.src]; k.dst = task[k.dst]; }
  // replay
  std::vector<ll> tok; for (auto &e : g.e) tok.push_back(e.m0);
  std::vector<ll> fired(g.t.size(), 0); std::vector<long> lastC(g.t.size(), -1), lastP(g.e.size(), -1);
  size_t i = 0;
  while (i < p.size()) {
    const Pkt &k = p[i]; std::string at = head + "packet " + std::to_string(i) + ": ";
    if (k.id != (long)i) return c.fail("ids", at + "numbered " + std::to_string(k.id));
    if (k.src != k.dst) return c.fail("orphan-transfer", at);
    int t = (int)k.src; if (t < 0 || t >= (int)g.t.size()) return c.fail("task", at + std::to_string(t));
    if (k.dur != g.t[t].dur[0]) return c.fail("duration", at + std::to_string(k.dur));
    std::set<long> dep(k.deps.begin(), k.deps.end()), want;
    for (size_t e = 0; e < g.e.size(); e++) if (g.e[e].d == t) {
      tok[e] -= g.e[e].out[0]; if (tok[e] < 0) return c.fail("order", at + "t" + std::to_string(t) + " executed without its inputs");
      if (lastP[e] >= 0) want.insert(lastP[e]);
    }
    std::set<long> inDeps = want;
    if (lastC[t] >= 0) want.insert(lastC[t]);
    if (dep != want) return c.fail("compute-deps", at + "computation does not depend on exactly its inputs and the previous computation of the task");
    long comp = k.id; lastC[t] = comp; fired[t]++; c.inc("computations"); i++;
    // transfers of this firing: one chain per output channel
    std::map<int, std::multiset<ll>> need; std::map<int, int> chans;
    std::vector<int> outs; for (size_t e = 0; e < g.e.size(); e++) if (g.e[e].s == t) outs.push_back((int)e);
    std::vector<bool> done(g.e.size(), false);
    for (size_t n = 0; n < outs.size(); n++) {
      if (i >= p.size()) return c.fail("missing-transfer", at);
      // several channels may share the destination: they are emitted one after another, match by remaining count
      long dst = p[i].dst; if (p[i].dur != 0 && p[i].src == p[i].dst) return c.fail("missing-transfer", at);
      if (p[i].src != t) return c.fail("transfer-source", at);
      // length of the chain starting at i
      size_t len = 1; while (i + len < p.size() && p[i + len].dur == 0 && p[i + len].src == t && p[i + len].dst == dst && std::count(p[i + len].deps.begin(), p[i + len].deps.end(), (long)(i + len - 1))) len++;
      int ch = -1;
      for (int e : outs) if (!done[e] && g.e[e].d == dst) { ll w = psize ? (g.e[e].in[0] + psize - 1) / psize : 1; if ((ll)len == w) { ch = e; break; } }
      if (ch < 0) return c.fail("transfer-count", at + std::to_string(len) + " packets to t" + std::to_string(dst));
      for (size_t j = 0; j < len; j++) {
        std::set<long> dd(p[i + j].deps.begin(), p[i + j].deps.end()), ww = inDeps; ww.insert(j ? (long)(i + j - 1) : comp);
        if (p[i + j].id != (long)(i + j)) return c.fail("ids", at);
        if (dd != ww) return c.fail("transfer-deps", head + "packet " + std::to_string(i + j));
      }
      done[ch] = true; i += len; lastP[ch] = (long)i - 1; tok[ch] += g.e[ch].in[0]; c.inc("transfers", (long)len);
    }
  }
  for (size_t t = 0; t < g.t.size(); t++) if (fired[t] != q[t] * iters) return c.fail("firings", head + "t" + std::to_string(t) + " computed " + std::to_string(fired[t]) + " times, expected " + std::to_string(q[t] * iters));
  c.state(std::to_string(p.size()) + sig(g));
}

MONITOR(K17, tdma, 3) {
  Rng &r = c.r;
  long rows = r.in(1, 5), cols = r.in(1, 5), n = rows * cols, slots = r.in(1, 12);
  long tasks = r.in(1, 10);
  std::vector<long> map; for (long i = 0; i < tasks; i++) map.push_back(r.in(0, n - 1));
  std::vector<long> slot(n * n, -1);
  std::string sf = c.scratch + "/slots", pf = c.scratch + "/pkts", mf = c.scratch + "/map";
  { std::ofstream f(sf); f << slots << "\n"; for (long a = 0; a < n; a++) for (long b = 0; b < n; b++) if (a != b) { slot[a * n + b] = r.in(0, slots - 1); f << "src," << a << ",dest," << b << ",slot," << slot[a * n + b] << "\n"; } }
  long hyper = r.in(1, 5), iters = r.in(1, 6), np = hyper * iters;
  std::vector<Pkt> p;
  { std::ofstream f(pf); f << "#NUM_ROWS,NUM_COLS,NUM_BANKS\n" << rows << "," << cols << ",1\n#SRC,DEST,DURATION,PACKET_ID,BANK_ID,DEP1,DEP2,...\n";
    for (long i = 0; i < np; i++) {
      Pkt k{r.in(0, tasks - 1), r.in(0, tasks - 1), r.p(40) ? 0 : r.in(1, 15), i, 0, {}};
      if (r.p(20)) k.dst = k.src;
      if (r.p(40) && i) { k.src = p[i - 1].src; k.dst = p[i - 1].dst; }
      int nd = (int)r.in(0, 3); std::set<long> ds; for (int j = 0; j < nd && i; j++) ds.insert(r.p(50) ? i - 1 : r.in(0, i - 1));
      k.deps.assign(ds.begin(), ds.end());
      f << k.src << "," << k.dst << "," << k.dur << "," << i << ",0"; for (auto x : k.deps) f << "," << x; f << "\n"; p.push_back(k);
    } }
  { std::ofstream f(mf); f << hyper; for (auto x : map) f << "," << x; f << "\n"; }
  // oracle: cycle by cycle
  std::vector<long> dep(np, -1), comp(np, -1), sl(np, -1), data(np, -1);
  long left = np;
  for (long t = 0; left > 0 && t < 100000; t++) {
    std::set<long> taken;
    for (long i = 0; i < np; i++) if (sl[i] < 0) {
      if (dep[i] < 0) { bool ok = true; for (auto x : p[i].deps) if (data[x] < 0 || data[x] > t) ok = false; if (!ok) continue; dep[i] = t; comp[i] = t + p[i].dur; }
      if (comp[i] > t) continue;
      long a = map[p[i].src], b = map[p[i].dst];
      if (a == b) { sl[i] = t; data[i] = t; left--; continue; }
      long key = a * n + b;
      if (t % slots != slot[key] || taken.count(key)) continue;
      taken.insert(key); sl[i] = t; left--;
      data[i] = t + std::labs(a / cols - b / cols) + std::labs(a % cols - b % cols) + 1;
    }
  }
  if (left) return;
  std::ostringstream hd; hd << rows << "x" << cols << " slots=" << slots << " packets=" << np << ": ";
  G g; g.t.push_back(GTask()); g.t[0].name = "a"; g.t[0].dur = {1}; GEdge se; se.s = se.d = 0; se.in = se.out = {1}; se.m0 = 1; se.name = "e"; g.e.push_back(se);
  models::Dataflow *d = toKiter(g);
  parameters_list_t prm; prm["slotfile"] = sf; prm["pktfile"] = pf; prm["mapfile"] = mf;
  c.step("TDMASchedule " + hd.str());
  std::string out = runAlgo(d, "TDMASchedule", prm);
  std::map<long, std::vector<long>> got; long double thr = -1, ex = -1; int lines = 0;
  { std::istringstream is(out); std::string l; while (std::getline(is, l)) {
    if (l.rfind("pkt_id=", 0) == 0 && l.find("src=") == std::string::npos) { auto v = longs(l.substr(7)); got[v[0]] = std::vector<long>(v.begin() + 1, v.end()); lines++; }
    if (l.rfind("thro=", 0) == 0) { auto k = l.find(",exec_time="); if (k != std::string::npos) { thr = std::strtold(l.c_str() + 5, nullptr); ex = std::strtold(l.c_str() + k + 11, nullptr); } } } }
  if (lines != np || (long)got.size() != np) return c.fail("lines", hd.str() + std::to_string(lines));
  for (long i = 0; i < np; i++) {
    std::vector<long> want = {dep[i], comp[i], sl[i], data[i], map[p[i].src], map[p[i].dst], p[i].dur};
    auto &v = got[i]; v.resize(7, -99); c.inc("packets");
    static const char *nm[] = {"ready", "computed", "slot", "delivered", "source", "destination", "duration"};
    for (int k = 0; k < 7; k++) if (v[k] != want[k]) { std::ostringstream o; o << hd.str() << "packet " << i << " (" << map[p[i].src] << "->" << map[p[i].dst] << ") " << nm[k] << " " << v[k] << " expected " << want[k]; return c.fail(std::string("tdma-") + nm[k], o.str()); }
  }
  long double sumE = 0; for (long k = 0; k < iters; k++) sumE += data[(k + 1) * hyper - 1] - data[k * hyper];
  if (!close(thr, (long double)data[np - 1] / iters, 1e-4L)) return c.fail("tdma-throughput", hd.str() + num(thr) + " expected " + num((long double)data[np - 1] / iters));
  if (std::fabs(ex - sumE / iters) > 1e-4L * (1 + std::fabs(ex))) return c.fail("tdma-exec-time", hd.str() + num(ex) + " expected " + num(sumE / iters));
  std::string s = hd.str(); for (auto x : data) s += std::to_string(x) + ","; c.state(s);
}
